//! C28: the stand-alone parts against models of what they were given.
use crate::opc::{self, Pkg};
use crate::pml;
use crate::report::{Ctx, Out, Res};
use crate::rng::Rng;
use crate::schema;
use crate::spec::{chart, deck, table};
use crate::text;
use crate::xml::{self, Elem};
use ppt_rs::opc::Package;
use ppt_rs::parts::*;
use std::collections::BTreeMap;

fn e2s<T, E: std::fmt::Debug>(r: Result<T, E>, what: &str) -> Result<T, String> {
    r.map_err(|e| format!("{}: {:?}", what, e))
}

/// Well-formed, known children in order.
fn part_xml(x: &str, what: &str) -> Result<Elem, String> {
    let e = xml::parse(x.as_bytes()).map_err(|m| format!("{} is not well-formed: {}", what, m))?;
    let bad = schema::check(&e);
    if let Some(b) = bad.first() {
        return Err(format!("{}: {}", what, b));
    }
    Ok(e)
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{}: {:?} instead of {:?}", what, got, want)) }
}

/// Text for attributes and single-line values.
fn name(r: &mut Rng) -> String {
    match r.below(8) {
        0 => text::hostile(r).replace(['\r', '\n', '\t'], " "),
        _ => text::any(r),
    }
}

/// XML handed to a reader is given back by the writer.
fn echo<P: Part>(x: &str, what: &str) -> Result<P, String> {
    let p = e2s(P::from_xml(x), &format!("reading {}", what))?;
    let y = e2s(p.to_xml(), &format!("writing {} again", what))?;
    let (a, b) = (part_xml(x, what)?, part_xml(&y, what)?);
    if a.canon() != b.canon() {
        return Err(format!("{} changes when it is read and written again", what));
    }
    Ok(p)
}

// ---------------------------------------------------------------- relationships

const TYPES: &[&str] = &["officeDocument", "slide", "slideLayout", "slideMaster", "theme", "image", "chart", "extended-properties"];
const BASE: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/";
const CORE: &str = "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties";

fn rel_type(r: &mut Rng) -> (RelationshipType, String) {
    match r.below(12) {
        0 => (RelationshipType::CoreProperties, CORE.into()),
        1 | 2 => {
            let u = match r.below(6) {
                0 => format!("{}notesSlide", BASE),
                1 => format!("{}hyperlink", BASE),
                2 => format!("{}slideUpdateInfo", BASE),
                3 => format!("http://example.com/{}/theme?a=1&b=<2>", text::tag(r)),
                4 => "http://schemas.microsoft.com/office/2007/relationships/media".to_string(),
                _ => format!("{}notesMaster", BASE),
            };
            (RelationshipType::Custom(u.clone()), u)
        }
        _ => {
            let i = r.below(TYPES.len());
            let t = [RelationshipType::OfficeDocument, RelationshipType::Slide, RelationshipType::SlideLayout, RelationshipType::SlideMaster, RelationshipType::Theme, RelationshipType::Image, RelationshipType::Chart, RelationshipType::ExtendedProperties][i].clone();
            (t, format!("{}{}", BASE, TYPES[i]))
        }
    }
}

fn rels_of(x: &str) -> Result<Vec<(String, String, String, Option<String>)>, String> {
    let e = part_xml(x, "relationships part")?;
    if e.local != "Relationships" || e.ns.as_deref() != Some("http://schemas.openxmlformats.org/package/2006/relationships") {
        return Err(format!("relationships part has root {}", e.qname));
    }
    e.elems()
        .map(|c| {
            if c.local != "Relationship" {
                return Err(format!("<{}> among relationships", c.qname));
            }
            let g = |k: &str| c.attr(k).map(|s| s.to_string());
            Ok((g("Id").ok_or("no Id")?, g("Type").ok_or("no Type")?, g("Target").ok_or("no Target")?, g("TargetMode")))
        })
        .collect()
}

fn rels(ctx: &Ctx, r: &mut Rng) -> Res {
    let mut k = match r.below(3) {
        0 => Relationships::default(),
        _ => Relationships::new(),
    };
    let mut m: Vec<(String, String, String, Option<String>)> = vec![];
    let n = 1 + r.below(14);
    let mut sig = String::new();
    for _ in 0..n {
        match r.below(10) {
            0..=4 => {
                let (t, u) = rel_type(r);
                let target = name(r);
                let id = k.add(t, &target);
                if m.iter().any(|x| x.0 == id) {
                    return Err(format!("the relationship id {} was given twice", id));
                }
                if id.is_empty() || !id.starts_with(|c: char| c.is_alphabetic()) {
                    return Err(format!("relationship id {:?}", id));
                }
                m.push((id, u, target, None));
                sig.push('a');
            }
            5..=6 => {
                let (t, u) = rel_type(r);
                let target = name(r);
                let id = match r.below(6) {
                    0 => format!("rId{}", r.below(40)),
                    1 => format!("rId{}", u32::MAX - r.below(2) as u32),
                    2 => format!("rId0{}", 1 + r.below(9)),
                    3 => format!("R{}", text::tag(r)),
                    _ => format!("rId{}", m.len() + 1 + r.below(4)),
                };
                if m.iter().any(|x| x.0 == id) {
                    continue;
                }
                k.add_with_id(&id, t, &target);
                m.push((id, u, target, None));
                sig.push('i');
            }
            7 => {
                let (_, u) = rel_type(r);
                let want: Vec<&str> = m.iter().filter(|x| x.1 == u).map(|x| x.0.as_str()).collect();
                let got: Vec<&str> = k.get_by_type(&RelationshipType::from_uri(&u)).iter().map(|x| x.id.as_str()).collect();
                eq("relationships of one type", got, want)?;
                sig.push('t');
            }
            8 => {
                for x in &m {
                    let g = k.get(&x.0).ok_or_else(|| format!("relationship {} is not found", x.0))?;
                    eq("relationship", (g.rel_type.uri(), g.target.as_str()), (x.1.as_str(), x.2.as_str()))?;
                }
                if k.get(&format!("none{}", text::tag(r))).is_some() {
                    return Err("a relationship that does not exist is found".into());
                }
                sig.push('g');
            }
            _ => {
                // targets outside the package come from files
                let mut x = k.to_xml();
                if r.chance(1, 2) {
                    let (_, u) = rel_type(r);
                    let id = format!("x{}", text::tag(r));
                    let t = format!("https://example.com/{}?a=1&b={}", text::tag(r), r.below(99));
                    x = x.replace("</Relationships>", &format!("<Relationship TargetMode=\"External\" Id=\"{}\" Type=\"{}\" Target=\"{}\"/></Relationships>", id, xml::esc(&u), xml::esc(&t)));
                    m.push((id, u, t, Some("External".into())));
                }
                k = e2s(Relationships::from_xml(&x), "reading relationships")?;
                for x in &mut m {
                    x.2 = deck::clean(&x.2);
                }
                sig.push('r');
            }
        }
        if (k.len(), k.is_empty()) != (m.len(), m.is_empty()) {
            return Err(format!("{} relationships counted as {}", m.len(), k.len()));
        }
    }
    let c = |v: &[(String, String, String, Option<String>)]| v.iter().map(|x| (x.0.clone(), x.1.clone(), deck::clean(&x.2), x.3.clone())).collect::<Vec<_>>();
    eq("relationships written", c(&rels_of(&k.to_xml())?), c(&m))?;
    ctx.count("relationships", m.len() as u64);
    Ok(Out::sig(&sig))
}

// ---------------------------------------------------------------- content types

fn ctypes_of(x: &str) -> Result<(BTreeMap<String, String>, BTreeMap<String, String>), String> {
    let e = part_xml(x, "content types part")?;
    let (mut d, mut o) = (BTreeMap::new(), BTreeMap::new());
    for c in e.elems() {
        let t = c.attr("ContentType").unwrap_or("").to_string();
        let dup = match c.local.as_str() {
            "Default" => d.insert(c.attr("Extension").unwrap_or("").to_lowercase(), t),
            "Override" => o.insert(c.attr("PartName").unwrap_or("").to_string(), t),
            l => return Err(format!("<{}> among content types", l)),
        };
        if let Some(dup) = dup {
            return Err(format!("content type declared twice ({})", dup));
        }
    }
    Ok((d, o))
}

fn ctypes(r: &mut Rng) -> Res {
    let mut k = ContentTypesPart::new();
    let (mut d, mut o) = ctypes_of(&e2s(k.to_xml(), "content types")?)?;
    for x in ["rels", "xml", "png", "jpeg"] {
        if !d.contains_key(x) {
            return Err(format!("no default content type for {}", x));
        }
    }
    const P: &str = "application/vnd.openxmlformats-officedocument.presentationml.";
    let mut sig = String::new();
    for _ in 0..1 + r.below(12) {
        let n = 1 + r.below(4);
        let op = r.below(12);
        sig.push((b'a' + op as u8) as char);
        match op {
            0 => {
                k.add_presentation();
                o.insert("/ppt/presentation.xml".into(), format!("{}presentation.main+xml", P));
            }
            1 | 2 => {
                k.add_slide(n);
                o.insert(format!("/ppt/slides/slide{}.xml", n), format!("{}slide+xml", P));
            }
            3 => {
                k.add_slide_layout(n);
                o.insert(format!("/ppt/slideLayouts/slideLayout{}.xml", n), format!("{}slideLayout+xml", P));
            }
            4 => {
                k.add_slide_master(n);
                o.insert(format!("/ppt/slideMasters/slideMaster{}.xml", n), format!("{}slideMaster+xml", P));
            }
            5 => {
                k.add_theme(n);
                o.insert(format!("/ppt/theme/theme{}.xml", n), "application/vnd.openxmlformats-officedocument.theme+xml".into());
            }
            6 => {
                k.add_notes_slide(n);
                o.insert(format!("/ppt/notesSlides/notesSlide{}.xml", n), format!("{}notesSlide+xml", P));
            }
            7 => {
                k.add_chart(n);
                o.insert(format!("/ppt/charts/chart{}.xml", n), "application/vnd.openxmlformats-officedocument.drawingml.chart+xml".into());
            }
            8 => {
                k.add_core_properties();
                k.add_app_properties();
                o.insert("/docProps/core.xml".into(), "application/vnd.openxmlformats-package.core-properties+xml".into());
                o.insert("/docProps/app.xml".into(), "application/vnd.openxmlformats-officedocument.extended-properties+xml".into());
            }
            9 => {
                let (x, t) = (r.pick(&["png", "PNG", "emf", "bin", "a&b"]).to_string(), format!("x/{}&{}", text::tag(r), n));
                k.add_default(&x, &t);
                d.insert(x.to_lowercase(), t);
            }
            10 => {
                let (x, t) = (format!("/custom/{}.xml", r.pick(&["a", "b", "r&d", "é"])), format!("x/{}", text::tag(r)));
                k.add_override(&x, &t);
                o.insert(x, t);
            }
            _ => k = e2s(ContentTypesPart::from_xml(&e2s(k.to_xml(), "content types")?), "reading content types")?,
        }
    }
    eq("content types", ctypes_of(&e2s(k.to_xml(), "content types")?)?, (d, o))?;
    Ok(Out::sig(&sig))
}

// ---------------------------------------------------------------- presentation part

fn pres(r: &mut Rng) -> Res {
    let mut k = PresentationPart::new();
    let mut m: Vec<(u32, String)> = vec![];
    let (mut w, mut h) = (9144000u32, 6858000u32);
    let mut master: Option<String> = None;
    let mut theme: Option<String> = None;
    let mut sig = String::new();
    let mut used: Vec<String> = vec![];
    let fresh = |r: &mut Rng, used: &mut Vec<String>| loop {
        let id = match r.below(4) {
            0 => format!("R{}&<", text::tag(r)),
            1 => format!("rId{}", 1 + r.below(60)),
            _ => format!("rId{}", used.len() + 1 + r.below(3)),
        };
        if !used.contains(&id) {
            used.push(id.clone());
            return id;
        }
    };
    for _ in 0..1 + r.below(12) {
        match r.below(9) {
            0..=4 => {
                let id = fresh(r, &mut used);
                let n = k.add_slide(&id);
                m.push((n, id));
                sig.push('s');
            }
            5 => {
                w = 914400 + r.below(50000000) as u32;
                h = 914400 + r.below(50000000) as u32;
                k.set_dimensions(w, h);
                sig.push('d');
            }
            6 => {
                let id = fresh(r, &mut used);
                k.set_slide_master(&id);
                master = Some(id);
                sig.push('m');
            }
            7 => {
                let id = fresh(r, &mut used);
                k.set_theme(&id);
                theme = Some(id);
                sig.push('t');
            }
            _ => {
                let mut x = e2s(k.to_xml(), "presentation part")?;
                if r.chance(1, 2) && !m.is_empty() {
                    // slides removed by another program
                    let i = r.below(m.len());
                    let (id, _) = m.remove(i);
                    let at = x.find(&format!("<p:sldId id=\"{}\"", id)).ok_or("slide missing in the list")?;
                    let end = at + x[at..].find("/>").ok_or("unfinished slide entry")? + 2;
                    x.replace_range(at..end, "");
                }
                k = e2s(PresentationPart::from_xml(&x), "reading the presentation part")?;
                theme = None; // kept in the relationships part only
                // the master's relationship is now written down
                let e = xml::parse(x.as_bytes())?;
                master = e.at("sldMasterIdLst/sldMasterId").and_then(|e| e.attr_ns(opc::NS_R, "id")).map(|s| s.to_string());
                used = m.iter().map(|x| x.1.clone()).chain(master.clone()).collect();
                sig.push('r');
            }
        }
    }
    eq("slide count", k.slide_count(), m.len())?;
    eq("slides", k.slides().iter().map(|s| (s.id, s.r_id.clone())).collect::<Vec<_>>(), m.clone())?;
    let e = part_xml(&e2s(k.to_xml(), "presentation part")?, "presentation part")?;
    let ids: Vec<(u32, String)> = e.child("sldIdLst").map(|l| l.elems().map(|s| (s.attr("id").and_then(|v| v.parse().ok()).unwrap_or(0), s.attr_ns(opc::NS_R, "id").unwrap_or("").to_string())).collect()).unwrap_or_default();
    eq("slides written", ids, m.clone())?;
    let mut seen = std::collections::HashSet::new();
    for (id, rid) in &m {
        if !seen.insert(*id) || !(256..2147483648).contains(id) {
            return Err(format!("slide identifier {} (relationship {}) is repeated or out of range", id, rid));
        }
    }
    let sz = e.child("sldSz").ok_or("no slide size")?;
    eq("slide size", (sz.attr("cx"), sz.attr("cy")), (Some(w.to_string().as_str()), Some(h.to_string().as_str())))?;
    // the relationships name every part the part refers to, once
    let rels = rels_of(&k.create_relationships().to_xml())?;
    let mut by: BTreeMap<&str, &(String, String, String, Option<String>)> = BTreeMap::new();
    for x in &rels {
        if by.insert(&x.0, x).is_some() {
            return Err(format!("relationship id {} used twice", x.0));
        }
    }
    let kind = |id: &str| by.get(id).map(|x| (x.1.trim_start_matches(BASE).to_string(), opc::resolve("ppt/presentation.xml", &x.2)));
    for (i, (_, rid)) in m.iter().enumerate() {
        eq(&format!("relationship of slide {}", i + 1), kind(rid), Some(("slide".into(), format!("ppt/slides/slide{}.xml", i + 1))))?;
    }
    let mid = e.at("sldMasterIdLst/sldMasterId").and_then(|e| e.attr_ns(opc::NS_R, "id")).unwrap_or("").to_string();
    if let Some(x) = &master {
        eq("slide master", &mid, x)?;
    }
    eq("relationship of the slide master", kind(&mid), Some(("slideMaster".into(), "ppt/slideMasters/slideMaster1.xml".into())))?;
    if let Some(x) = &theme {
        eq("relationship of the theme", kind(x), Some(("theme".into(), "ppt/theme/theme1.xml".into())))?;
    }
    eq("relationships", rels.len(), m.len() + 2)?;
    Ok(Out::sig(&sig))
}

// ---------------------------------------------------------------- named parts

const LAYOUTS: &[LayoutType] = &[LayoutType::Title, LayoutType::TitleAndContent, LayoutType::SectionHeader, LayoutType::TwoContent, LayoutType::Comparison, LayoutType::TitleOnly, LayoutType::Blank, LayoutType::ContentWithCaption, LayoutType::PictureWithCaption, LayoutType::TitleAndVerticalText, LayoutType::VerticalTitleAndText, LayoutType::Custom];
const ST: &[&str] = &["title", "obj", "secHead", "twoObj", "twoTxTwoObj", "titleOnly", "blank", "objTx", "picTx", "vertTx", "vertTitleAndTx", "cust"];

fn same_name(what: &str, got: Option<&str>, want: &str) -> Result<(), String> {
    eq(what, got.map(deck::clean), Some(deck::clean(want)))
}

fn identity(p: &dyn Part, path: &str, rel: &str, mime: &str, from: &str, target: Option<&str>) -> Result<(), String> {
    eq("part path", p.path(), path)?;
    eq(&format!("content type of {}", path), p.content_type().mime_type(), mime)?;
    eq(&format!("relationship type of {}", path), p.part_type().relationship_type().trim_start_matches(BASE), rel)?;
    if let Some(t) = target {
        eq("target of relationships", opc::resolve(from, t).as_str(), path)?;
    }
    Ok(())
}

const PM: &str = "application/vnd.openxmlformats-officedocument.presentationml.";

fn layout(r: &mut Rng) -> Res {
    let (n, i) = (1 + r.below(30), r.below(LAYOUTS.len()));
    let mut p = SlideLayoutPart::new(n, LAYOUTS[i]);
    let nm = if r.chance(2, 3) {
        let s = name(r);
        p.set_name(&s);
        s
    } else {
        LAYOUTS[i].name().to_string()
    };
    identity(&p, &format!("ppt/slideLayouts/slideLayout{}.xml", n), "slideLayout", &format!("{}slideLayout+xml", PM), "ppt/presentation.xml", Some(&p.rel_target()))?;
    let x = e2s(p.to_xml(), "layout")?;
    let e = part_xml(&x, "layout")?;
    eq("layout type", e.attr("type"), Some(ST[i]))?;
    same_name("layout name", e.child("cSld").and_then(|c| c.attr("name")), &nm)?;
    let q: SlideLayoutPart = echo(&x, "layout")?;
    eq("layout type read back", q.layout_type(), LAYOUTS[i])?;
    same_name("layout name read back", Some(q.name()), &nm)?;
    Ok(Out::sig(format!("layout {} {}", i, nm.len() % 7)))
}

fn master(r: &mut Rng) -> Res {
    let n = 1 + r.below(9);
    let mut p = SlideMasterPart::new(n);
    let ids: Vec<String> = (0..r.below(14)).map(|i| if r.chance(1, 4) { format!("a&{}", i) } else { format!("rId{}", i + 1) }).collect();
    for i in &ids {
        p.add_layout_rel_id(i);
    }
    identity(&p, &format!("ppt/slideMasters/slideMaster{}.xml", n), "slideMaster", &format!("{}slideMaster+xml", PM), "ppt/presentation.xml", Some(&p.rel_target()))?;
    let x = e2s(p.to_xml(), "master")?;
    let e = part_xml(&x, "master")?;
    let l = e.child("sldLayoutIdLst").ok_or("no list of layouts")?;
    eq("layouts of the master", l.elems().map(|c| c.attr_ns(opc::NS_R, "id").unwrap_or("").to_string()).collect::<Vec<_>>(), ids.clone())?;
    let mut seen = std::collections::HashSet::from([2147483648u64]);
    for c in l.elems() {
        let id: u64 = c.attr("id").and_then(|v| v.parse().ok()).unwrap_or(0);
        if id < 2147483648 || !seen.insert(id) {
            return Err(format!("layout identifier {} is repeated or out of range", id));
        }
    }
    let q: SlideMasterPart = echo(&x, "master")?;
    eq("layouts read back", q.layout_rel_ids().to_vec(), ids.clone())?;
    Ok(Out::sig(format!("master {}", ids.len())))
}

fn theme(r: &mut Rng) -> Res {
    const C: &[&str] = &["dk1", "lt1", "dk2", "lt2", "accent1", "accent2", "accent3", "accent4", "accent5", "accent6", "hlink", "folHlink"];
    let n = 1 + r.below(9);
    let mut p = ThemePart::new(n);
    let mut colors: BTreeMap<&str, String> = BTreeMap::new();
    let (mut nm, mut major, mut minor) = (None, None, None);
    let mut sig = String::new();
    for _ in 0..r.below(8) {
        match r.below(6) {
            0 => {
                let s = name(r);
                p.set_name(&s);
                nm = Some(s);
                sig.push('n');
            }
            1 => {
                let s = name(r);
                p.set_major_font(&s);
                major = Some(s);
                sig.push('M');
            }
            2 => {
                let s = name(r);
                p.set_minor_font(&s);
                minor = Some(s);
                sig.push('m');
            }
            _ => {
                let c = *r.pick(C);
                let (s, canon) = text::color(r);
                p.set_color(c, &s);
                colors.insert(c, canon);
                sig.push_str(c);
            }
        }
    }
    identity(&p, &format!("ppt/theme/theme{}.xml", n), "theme", "application/vnd.openxmlformats-officedocument.theme+xml", "ppt/slideMasters/slideMaster1.xml", Some(&p.rel_target()))?;
    let x = e2s(p.to_xml(), "theme")?;
    let e = part_xml(&x, "theme")?;
    if let Some(s) = &nm {
        same_name("theme name", e.attr("name"), s)?;
    }
    let sc = e.at("themeElements/clrScheme").ok_or("no colour scheme")?;
    eq("theme colours", sc.elems().map(|c| c.local.as_str()).collect::<Vec<_>>(), C.to_vec())?;
    let fresh = xml::parse(e2s(ThemePart::new(1).to_xml(), "theme")?.as_bytes())?;
    for c in sc.elems() {
        if !c.attrs.is_empty() {
            return Err(format!("theme colour {} has attributes", c.local));
        }
        let got = pml::color_of(c).unwrap_or_default();
        let want = match colors.get(c.local.as_str()) {
            Some(w) => w.clone(),
            None => fresh.at("themeElements/clrScheme").and_then(|s| s.child(&c.local)).and_then(pml::color_of).unwrap_or_default(),
        };
        if got.to_uppercase() != want.to_uppercase() {
            return Err(format!("theme colour {}: {} instead of {}", c.local, got, want));
        }
    }
    for (k, v) in [("majorFont", &major), ("minorFont", &minor)] {
        let got = e.at(&format!("themeElements/fontScheme/{}/latin", k)).and_then(|l| l.attr("typeface"));
        match v {
            Some(v) => same_name(k, got, v)?,
            None if got.unwrap_or("").is_empty() => return Err(format!("{} has no typeface", k)),
            None => {}
        }
    }
    let q: ThemePart = echo(&x, "theme")?;
    if let Some(s) = &nm {
        same_name("theme name read back", Some(q.name()), s)?;
    }
    Ok(Out::sig(&sig))
}

fn app(r: &mut Rng) -> Res {
    let mut p = AppPropertiesPart::new();
    let mut text_of: BTreeMap<&str, String> = BTreeMap::new();
    let mut num: BTreeMap<&str, u32> = BTreeMap::new();
    let mut flag: BTreeMap<&str, bool> = BTreeMap::new();
    for _ in 0..1 + r.below(10) {
        match r.below(6) {
            0 => {
                let s = name(r);
                p.set_application(&s);
                text_of.insert("Application", s);
            }
            1 => {
                let s = name(r);
                p.set_company(&s);
                text_of.insert("Company", s);
            }
            2 => {
                let s = name(r);
                p.set_presentation_format(&s);
                text_of.insert("PresentationFormat", s);
            }
            3 | 4 => {
                let v = if r.chance(1, 6) { u32::MAX } else { r.below(5000) as u32 };
                let k = *r.pick(&["Slides", "Paragraphs", "Words", "Notes", "HiddenSlides", "MMClips"]);
                match k {
                    "Slides" => p.set_slides(v),
                    "Paragraphs" => p.paragraphs = v,
                    "Words" => p.words = v,
                    "Notes" => p.notes = v,
                    "HiddenSlides" => p.hidden_slides = v,
                    _ => p.mm_clips = v,
                }
                num.insert(k, v);
            }
            _ => {
                let v = r.bool();
                let k = *r.pick(&["ScaleCrop", "LinksUpToDate", "SharedDoc", "HyperlinksChanged"]);
                match k {
                    "ScaleCrop" => p.scale_crop = v,
                    "LinksUpToDate" => p.links_up_to_date = v,
                    "SharedDoc" => p.shared_doc = v,
                    _ => p.hyperlinks_changed = v,
                }
                flag.insert(k, v);
            }
        }
    }
    identity(&p, "docProps/app.xml", "extended-properties", "application/vnd.openxmlformats-officedocument.extended-properties+xml", "", None)?;
    let x = e2s(p.to_xml(), "application properties")?;
    let e = part_xml(&x, "application properties")?;
    for k in e.elems().map(|c| c.local.clone()).collect::<std::collections::HashSet<_>>() {
        if e.kids(&k).len() != 1 {
            return Err(format!("application property {} written {} times", k, e.kids(&k).len()));
        }
    }
    let g = |k: &str| e.child(k).map(|c| c.text());
    for (k, v) in &text_of {
        same_name(k, g(k).as_deref(), v)?;
    }
    if !text_of.contains_key("Company") && g("Company").is_some() {
        return Err("a company that was not given".into());
    }
    for k in ["Slides", "Paragraphs", "Words", "Notes", "HiddenSlides", "MMClips"] {
        eq(k, g(k), Some(num.get(k).copied().unwrap_or(0).to_string()))?;
    }
    for k in ["ScaleCrop", "LinksUpToDate", "SharedDoc", "HyperlinksChanged"] {
        eq(k, g(k), Some(flag.get(k).copied().unwrap_or(false).to_string()))?;
    }
    let q: AppPropertiesPart = echo(&x, "application properties")?;
    same_name("application read back", Some(&q.application), &p.application)?;
    eq("company read back", q.company.as_deref().map(deck::clean), p.company.as_deref().map(deck::clean))?;
    same_name("format read back", Some(&q.presentation_format), &p.presentation_format)?;
    eq("counts read back", (q.slides, q.paragraphs, q.words, q.notes, q.hidden_slides, q.mm_clips), (p.slides, p.paragraphs, p.words, p.notes, p.hidden_slides, p.mm_clips))?;
    eq("flags read back", (q.scale_crop, q.links_up_to_date, q.shared_doc, q.hyperlinks_changed), (p.scale_crop, p.links_up_to_date, p.shared_doc, p.hyperlinks_changed))?;
    Ok(Out::sig(format!("app {:?}{:?}{:?}", text_of.keys(), num.keys(), flag.keys())))
}

fn is_time(s: &str) -> bool {
    let b = s.as_bytes();
    let pat = b"0000-00-00T00:00:00Z";
    b.len() == pat.len() && b.iter().zip(pat).all(|(c, p)| if *p == b'0' { c.is_ascii_digit() } else { c == p })
}

fn core(r: &mut Rng) -> Res {
    let mut p = CorePropertiesPart::new();
    for t in [&p.created, &p.modified] {
        if !t.as_deref().is_some_and(is_time) {
            return Err(format!("time stamp {:?}", t));
        }
    }
    let mut sig = String::new();
    let keys = ["title", "subject", "creator", "keywords", "description", "lastModifiedBy"];
    let mut m: BTreeMap<&str, Option<String>> = keys.iter().map(|k| (*k, None)).collect();
    m.insert("creator", p.creator.clone());
    m.insert("lastModifiedBy", p.last_modified_by.clone());
    let mut rev = p.revision;
    for _ in 0..1 + r.below(9) {
        let k = *r.pick(&keys);
        match r.below(10) {
            0 => {
                p.touch();
                rev = rev.map(|v| v.saturating_add(1));
                sig.push('t');
            }
            1 => {
                let any = r.below(100000) as u32;
                rev = *r.pick(&[None, Some(0), Some(9), Some(u32::MAX), Some(any)]);
                p.revision = rev;
                sig.push('v');
            }
            2 => {
                let f = match k {
                    "title" => &mut p.title,
                    "subject" => &mut p.subject,
                    "creator" => &mut p.creator,
                    "keywords" => &mut p.keywords,
                    "description" => &mut p.description,
                    _ => &mut p.last_modified_by,
                };
                *f = None;
                m.insert(k, None);
                sig.push('-');
            }
            3 => {
                let q = e2s(CorePropertiesPart::from_xml(&e2s(p.to_xml(), "core properties")?), "reading core properties")?;
                eq("times read back", (&q.created, &q.modified), (&p.created, &p.modified))?;
                p = q;
                for v in m.values_mut() {
                    *v = v.take().map(|s| deck::clean(&s)).filter(|s| !s.is_empty());
                }
                sig.push('r');
            }
            _ => {
                let s = if r.chance(1, 6) { text::multi(r) } else { name(r) };
                match k {
                    "title" => drop(p.set_title(&s)),
                    "subject" => drop(p.set_subject(&s)),
                    "creator" => drop(p.set_creator(&s)),
                    "keywords" => drop(p.set_keywords(&s)),
                    "description" => drop(p.set_description(&s)),
                    _ => p.last_modified_by = Some(s.clone()),
                }
                m.insert(k, Some(s));
                sig.push(k.as_bytes()[0] as char);
            }
        }
    }
    identity(&p, "docProps/core.xml", CORE, "application/vnd.openxmlformats-package.core-properties+xml", "", None)?;
    let e = part_xml(&e2s(p.to_xml(), "core properties")?, "core properties")?;
    for k in keys {
        let g = e.kids(k);
        if g.len() > 1 {
            return Err(format!("{} written {} times", k, g.len()));
        }
        eq(k, g.first().map(|c| deck::clean(&c.text())), m[k].as_deref().map(deck::clean))?;
    }
    eq("revision", e.child("revision").map(|c| c.text()), rev.map(|v| v.to_string()))?;
    for k in ["created", "modified"] {
        let t = e.child(k).map(|c| c.text()).unwrap_or_default();
        if !is_time(&t) {
            return Err(format!("{} {:?}", k, t));
        }
    }
    Ok(Out::sig(&sig))
}

fn notes(r: &mut Rng) -> Res {
    let n = 1 + r.below(40);
    let mut t = match r.below(8) {
        0 => String::new(),
        1 => text::hostile(r),
        _ => text::multi(r),
    };
    let mut p = NotesSlidePart::with_text(n, &t);
    let mut sig = String::from("w");
    for _ in 0..r.below(3) {
        if r.bool() {
            t = text::multi(r);
            p.set_notes_text(&t);
            sig.push('s');
        } else {
            p = echo(&e2s(p.to_xml(), "notes")?, "notes")?;
            sig.push('r');
        }
    }
    let lines = |s: &str| deck::clean(s).lines().map(|l| l.to_string()).collect::<Vec<_>>();
    if !sig.contains('r') {
        identity(&p, &format!("ppt/notesSlides/notesSlide{}.xml", n), "notesSlide", &format!("{}notesSlide+xml", PM), "ppt/slides/slide1.xml", Some(&p.rel_target()))?;
    }
    let got = p.notes_text().to_string();
    if deck::clean(&got).trim_end_matches('\n') != deck::clean(&t).trim_end_matches('\n') {
        return Err(format!("notes text {} instead of {}", text::short(&got), text::short(&t)));
    }
    let e = part_xml(&e2s(p.to_xml(), "notes")?, "notes")?;
    let body = deck::notes_text(&e).ok_or("no notes text")?;
    let (a, b) = (lines(&body), lines(&t));
    if a != b && !(b.is_empty() && a.iter().all(|l| l.is_empty())) && body.trim_end_matches('\n') != deck::clean(&t).trim_end_matches('\n') {
        return Err(format!("notes written as {} instead of {}", text::short(&body), text::short(&t)));
    }
    Ok(Out::sig(format!("{} {}", sig, b.len())))
}

fn chart_part(r: &mut Rng) -> Res {
    let n = 1 + r.below(40);
    let c = chart::random(r);
    let mut p = ChartPart::new(n);
    if p.to_xml().is_ok() {
        return Err("a chart part without a chart is written".into());
    }
    let mut c = c;
    if r.bool() {
        p = ChartPart::from_chart(n, c.build());
        if r.chance(1, 3) {
            c = chart::random(r);
            p.set_chart(c.build());
        }
    } else {
        p.set_chart(c.build());
    }
    identity(&p, &format!("ppt/charts/chart{}.xml", n), "chart", "application/vnd.openxmlformats-officedocument.drawingml.chart+xml", "ppt/slides/slide1.xml", Some(&p.rel_target()))?;
    let x = e2s(p.to_xml(), "chart")?;
    c.check_part(&part_xml(&x, "chart")?)?;
    let mut q: ChartPart = echo(&x, "chart")?;
    let d = chart::random(r);
    q.set_chart(d.build());
    d.check_part(&part_xml(&e2s(q.to_xml(), "chart")?, "chart")?)?;
    Ok(Out::sig(format!("{:?}", c)))
}

fn slide(r: &mut Rng) -> Res {
    let prof = deck::Profile { images: 0, charts: 0, ink: false, links: false, ..deck::ALL };
    let n = 1 + r.below(40);
    let mut pool = vec![];
    let mut s = deck::random_slide(r, &prof, &mut pool, None);
    let mut p = SlidePart::from_content(n, s.build());
    let mut sig = String::new();
    for _ in 0..r.below(3) {
        if r.bool() {
            s = deck::random_slide(r, &prof, &mut pool, None);
            p.set_content(s.build());
            sig.push('s');
        } else {
            let x = e2s(p.to_xml(), "slide")?;
            let q = if r.bool() { e2s(ppt_rs::parts::slide::parse_slide(&x, n), "slide")? } else { echo(&x, "slide")? };
            eq("slide read and written again", e2s(q.to_xml(), "slide")?, x)?;
            // what the reader reports is about this slide
            let e = part_xml(&e2s(q.to_xml(), "slide")?, "slide")?;
            let all: Vec<String> = pml::all_text(&e);
            let parsed = q.parsed().ok_or("nothing read from the slide")?;
            if s.has_title() {
                let t = q.title().unwrap_or_default();
                if deck::clean(t) != deck::clean(&s.title) {
                    return Err(format!("title read as {} instead of {}", text::short(t), text::short(&s.title)));
                }
            }
            if parsed.body_text.len() != q.body_text().len() {
                return Err("body text differs from what was read".into());
            }
            for b in q.body_text() {
                let flat = |x: &str| x.split_whitespace().collect::<Vec<_>>().join(" ");
                if !all.iter().any(|a| flat(a) == flat(b)) && !all.iter().map(|a| flat(a)).collect::<Vec<_>>().join(" ").contains(&flat(b)) {
                    return Err(format!("text {} was read from a slide that lacks it", text::short(b)));
                }
            }
            if r.bool() {
                p = q;
                s = deck::random_slide(r, &prof, &mut pool, None);
                p.set_content(s.build());
                if p.title().is_some_and(|t| s.has_title() && deck::clean(t) != deck::clean(&s.title)) {
                    return Err("the title of content that was replaced is kept".into());
                }
            }
            sig.push('r');
        }
    }
    if !sig.contains('r') {
        identity(&p, &format!("ppt/slides/slide{}.xml", n), "slide", &format!("{}slide+xml", PM), "", None)?;
        eq("relationships part", p.rels_path(), opc::rels_name(p.path()))?;
    }
    let e = part_xml(&e2s(p.to_xml(), "slide")?, "slide")?;
    let o = s.roles(&e)?;
    s.check_text(&o)?;
    s.check_format(&o)?;
    s.check_objects(&o)?;
    s.check_table(&o)?;
    let rl = rels_of(&p.rels_xml())?;
    if !rl.iter().any(|x| x.1.ends_with("/slideLayout")) {
        return Err("no layout among the relationships".into());
    }
    Ok(Out::sig(format!("{} {}", sig, deck::DeckS { title: String::new(), slides: vec![s] }.sig())))
}

// ---------------------------------------------------------------- tables

fn border(r: &mut Rng) -> (CellBorder, (i64, String, u8)) {
    let (s, c) = text::color(r);
    let pt = [0.25f32, 0.5, 1.0, 1.5, 2.25, 6.0][r.below(6)];
    let st = r.below(5) as u8;
    let style = [BorderStyle::Solid, BorderStyle::Dashed, BorderStyle::Dotted, BorderStyle::Double, BorderStyle::None][st as usize];
    (CellBorder::new(pt, s).style(style), ((pt * 12700.0) as i64, c, st))
}

fn check_border(e: &Elem, side: &str, b: &Option<(i64, String, u8)>) -> Result<(), String> {
    let l = e.child("tcPr").and_then(|p| p.child(side));
    match (l, b) {
        (None, None) => Ok(()),
        (Some(_), None) => Err(format!("border {} that was not asked for", side)),
        (None, Some(_)) => Err(format!("border {} is missing", side)),
        (Some(l), Some((_, _, 4))) => {
            if l.child("solidFill").is_some() || l.child("gradFill").is_some() {
                return Err(format!("border {} is drawn though switched off", side));
            }
            Ok(())
        }
        (Some(l), Some((w, c, st))) => {
            eq(&format!("width of border {}", side), l.attr("w"), Some(w.to_string().as_str()))?;
            eq(&format!("colour of border {}", side), l.child("solidFill").and_then(pml::color_of).map(|s| s.to_uppercase()), Some(c.clone()))?;
            let dash = l.child("prstDash").and_then(|d| d.attr("val")).unwrap_or("solid");
            let got = (l.attr("cmpd").unwrap_or("sng"), dash);
            let ok = match st {
                0 => got == ("sng", "solid"),
                1 => got.0 == "sng" && ["dash", "sysDash", "lgDash"].contains(&got.1),
                2 => got.0 == "sng" && ["dot", "sysDot"].contains(&got.1),
                _ => got == ("dbl", "solid"),
            };
            if !ok {
                return Err(format!("border {} of style {} drawn as {:?}", side, st, got));
            }
            Ok(())
        }
    }
}

fn tables(r: &mut Rng) -> Res {
    let s = loop {
        let s = table::random(r);
        if s.via >= 2 {
            break s;
        }
    };
    let mut cells: Vec<Vec<TableCellPart>> = vec![];
    type B = [Option<(i64, String, u8)>; 4];
    let mut borders: Vec<Vec<B>> = vec![];
    let mut strikes: Vec<Vec<bool>> = vec![];
    let mut margins: Vec<Vec<Option<[i32; 4]>>> = vec![];
    for (row, _) in &s.rows {
        let (mut v, mut bv, mut sv, mut mv) = (vec![], vec![], vec![], vec![]);
        for c in row {
            let mut b: B = [None, None, None, None];
            let mut strike = false;
            let mut mg = None;
            let cell = if c.h || c.v {
                TableCellPart::merged()
            } else {
                let mut t = TableCellPart::new(&c.text);
                if c.bold {
                    t = t.bold();
                }
                if c.italic {
                    t = t.italic();
                }
                if c.underline {
                    t = t.underline();
                }
                if r.chance(1, 4) {
                    t = t.strikethrough();
                    strike = true;
                }
                if let Some(x) = &c.color {
                    t = t.color(&x.0);
                }
                if let Some(x) = &c.bg {
                    t = t.background(&x.0);
                }
                if let Some(x) = c.size {
                    t = t.font_size(x);
                }
                if let Some(x) = &c.font {
                    t = t.font(x);
                }
                t = match c.align {
                    None | Some(0) => t.align(HorizontalAlign::Left),
                    Some(1) => t.align(HorizontalAlign::Center),
                    Some(2) => t.align(HorizontalAlign::Right),
                    _ => t.align(HorizontalAlign::Justify),
                };
                t = match c.valign {
                    Some(0) => t.valign(VerticalAlign::Top),
                    Some(1) => t.valign(VerticalAlign::Middle),
                    Some(_) => t.valign(VerticalAlign::Bottom),
                    None => t,
                };
                t = t.col_span(c.gs).row_span(c.rs);
                match r.below(4) {
                    0 => {
                        let mut bs = CellBorders::default();
                        for (i, f) in [&mut bs.left, &mut bs.right, &mut bs.top, &mut bs.bottom].into_iter().enumerate() {
                            if r.bool() {
                                let (x, m) = border(r);
                                *f = Some(x);
                                b[i] = Some(m);
                            }
                        }
                        t = t.borders(bs);
                    }
                    1 => {
                        let (x, m) = border(r);
                        t = t.borders(CellBorders::all(x));
                        b = [Some(m.clone()), Some(m.clone()), Some(m.clone()), Some(m)];
                    }
                    2 if r.chance(1, 3) => {
                        t = t.borders(CellBorders::none());
                        let m = (0, String::new(), 4);
                        b = [Some(m.clone()), Some(m.clone()), Some(m.clone()), Some(m)];
                    }
                    2 => {
                        let (st, c) = text::color(r);
                        t = t.border(2.0, st);
                        let m = (25400, c, 0);
                        b = [Some(m.clone()), Some(m.clone()), Some(m.clone()), Some(m)];
                    }
                    _ => {}
                }
                if r.chance(1, 4) {
                    let m: [i32; 4] = if r.bool() {
                        let m = r.below(300000) as i32;
                        t = t.margins(CellMargins::uniform(m));
                        [m; 4]
                    } else {
                        let m = [r.below(300000) as i32, r.below(300000) as i32, r.below(300000) as i32, r.below(300000) as i32];
                        t = t.margins(CellMargins { left: m[0], right: m[1], top: m[2], bottom: m[3] });
                        m
                    };
                    mg = Some(m);
                }
                t
            };
            v.push(cell);
            bv.push(b);
            sv.push(strike);
            mv.push(mg);
        }
        cells.push(v);
        borders.push(bv);
        strikes.push(sv);
        margins.push(mv);
    }
    let auto = r.bool();
    let (w, h) = (1 + r.below(9000000) as i64, 1 + r.below(6000000) as i64);
    let mut p = TablePart::new().position(s.x as i64, s.y as i64).size(w, h);
    if !auto {
        p = p.col_widths(s.cols.iter().map(|c| *c as i64).collect());
    }
    for (v, (_, hh)) in cells.into_iter().zip(&s.rows) {
        let mut row = TableRowPart::new(v);
        if let Some(hh) = hh {
            row = row.height(*hh as i64);
        }
        p = p.add_row(row);
    }
    let id = 2 + r.below(1000);
    let x = if r.bool() { p.to_slide_xml(id) } else { e2s(p.to_xml(), "table")? };
    let doc = format!("<p:sld xmlns:a=\"{}\" xmlns:p=\"{}\" xmlns:r=\"{}\"><p:cSld><p:spTree>{}</p:spTree></p:cSld></p:sld>", opc::NS_A, opc::NS_P, opc::NS_R, x);
    let e = part_xml(&doc, "table")?;
    let sh = pml::shapes(&e);
    let g = sh.first().ok_or("no table drawn")?;
    let t = g.table.as_ref().ok_or("no table drawn")?;
    eq("frame", (g.x, g.y, g.cx, g.cy), (s.x as i64, s.y as i64, w, h))?;
    if auto {
        eq("number of columns", t.cols.len(), s.cols.len())?;
        if t.cols.iter().any(|c| (c - w / s.cols.len() as i64).abs() > 1) {
            return Err(format!("columns {:?} of a table {} wide", t.cols, w));
        }
    } else {
        eq("column widths", t.cols.clone(), s.cols.iter().map(|c| *c as i64).collect::<Vec<_>>())?;
    }
    eq("number of rows", t.rows.len(), s.rows.len())?;
    let mut cover = vec![vec![(false, false); s.cols.len()]; s.rows.len()];
    for (i, (row, _)) in s.rows.iter().enumerate() {
        for (j, c) in row.iter().enumerate().filter(|(_, c)| !c.h && !c.v) {
            for di in 0..c.rs as usize {
                for dj in 0..c.gs as usize {
                    cover[i + di][j + dj] = (dj > 0, di > 0);
                }
            }
        }
    }
    for (i, (row, hh)) in s.rows.iter().enumerate() {
        if let Some(hh) = hh {
            eq(&format!("height of row {}", i), t.heights[i], *hh as i64)?;
        } else if t.heights[i] <= 0 {
            return Err(format!("row {} has no height", i));
        }
        eq(&format!("cells of row {}", i), t.rows[i].len(), row.len())?;
        for (j, c) in row.iter().enumerate() {
            let got = &t.rows[i][j];
            let at = |m: String| format!("cell ({}, {}): {}", i, j, m);
            let mut c = c.clone();
            // this part's cells show at the left unless told otherwise
            let left = matches!(c.align, None | Some(0));
            if left {
                c.align = None;
            }
            if c.valign.is_none() {
                c.valign = Some(1);
            }
            if left && got.paras.iter().any(|p| p.algn.as_deref().is_some_and(|a| a != "l")) {
                return Err(at("not aligned to the left".into()));
            }
            if c.h || c.v {
                eq("merge flags", (got.h_merge, got.v_merge), cover[i][j]).map_err(at)?;
                continue;
            }
            if !left || got.paras.iter().all(|p| p.algn.is_none()) {
                c.check(got).map_err(at)?;
            }
            let e = got.elem.as_ref().unwrap();
            for (side, b) in ["lnL", "lnR", "lnT", "lnB"].iter().zip(&borders[i][j]) {
                check_border(e, side, b).map_err(at)?;
            }
            let m = ["marL", "marR", "marT", "marB"].map(|k| e.child("tcPr").and_then(|p| p.attr(k)).map(|v| v.to_string()));
            match &margins[i][j] {
                Some(w) => eq("margins", m.to_vec(), w.iter().map(|v| Some(v.to_string())).collect()).map_err(at)?,
                None if m.iter().any(|v| v.is_some()) => return Err(at("margins that were not asked for".into())),
                None => {}
            }
            for run in got.paras.iter().flat_map(|p| &p.runs) {
                let st = run.p.get("strike").is_some_and(|v| v != "noStrike");
                eq("strikethrough", st, strikes[i][j]).map_err(at)?;
            }
        }
    }
    table::check_spans(t)?;
    Ok(Out::sig(format!("{}x{} {:?} {:?}", s.rows.len(), s.cols.len(), s.rows.iter().map(|r| r.0.iter().map(|c| (c.gs, c.rs)).collect::<Vec<_>>()).collect::<Vec<_>>(), borders.iter().flatten().flatten().flatten().map(|b| b.2).collect::<Vec<_>>())))
}

// ---------------------------------------------------------------- binary parts

fn binary(ctx: &Ctx, r: &mut Rng, case: u64) -> Res {
    const IMG: &[(&str, &str)] = &[("png", "image/png"), ("PNG", "image/png"), ("jpg", "image/jpeg"), ("jpeg", "image/jpeg"), ("JPEG", "image/jpeg"), ("gif", "image/gif"), ("bmp", "image/bmp"), ("tiff", "image/tiff"), ("tif", "image/tiff"), ("svg", "image/svg+xml")];
    const MED: &[(&str, &str, MediaFormat, bool)] = &[
        ("mp4", "video/mp4", MediaFormat::Mp4, true),
        ("webm", "video/webm", MediaFormat::Webm, true),
        ("avi", "video/x-msvideo", MediaFormat::Avi, true),
        ("wmv", "video/x-ms-wmv", MediaFormat::Wmv, true),
        ("mov", "video/quicktime", MediaFormat::Mov, true),
        ("mp3", "audio/mpeg", MediaFormat::Mp3, false),
        ("wav", "audio/wav", MediaFormat::Wav, false),
        ("wma", "audio/x-ms-wma", MediaFormat::Wma, false),
        ("m4a", "audio/mp4", MediaFormat::M4a, false),
        ("ogg", "audio/ogg", MediaFormat::Ogg, false),
    ];
    let data: Vec<u8> = (0..r.below(300)).map(|_| r.u64() as u8).collect();
    let n = 1 + r.below(50);
    if r.bool() {
        let (f, mime) = *r.pick(IMG);
        let file = r.bool();
        let mut p = if file {
            let path = ctx.scratch.join(format!("img{}.{}", case, f));
            std::fs::write(&path, &data).map_err(|e| e.to_string())?;
            let p = e2s(ImagePart::from_file(n, path.to_str().unwrap()), "image file")?;
            let _ = std::fs::remove_file(&path);
            p
        } else {
            ImagePart::new(n, f, data.clone())
        };
        let ext = if f.eq_ignore_ascii_case("jpeg") { "jpg".into() } else { f.to_lowercase() };
        identity(&p, &format!("ppt/media/image{}.{}", n, ext), "image", mime, "ppt/slides/slide1.xml", Some(&p.rel_target()))?;
        eq("type of the picture", p.mime_type(), mime)?;
        eq("file extension", p.extension(), ext.as_str())?;
        eq("picture data", p.data(), data.as_slice())?;
        p.set_dimensions(n as u32, 7);
        eq("dimensions", (p.width(), p.height(), p.image_number()), (n as u32, 7, n))?;
        if p.to_xml().is_ok() {
            return Err("a picture is written as XML".into());
        }
        return Ok(Out::sig(format!("img {} {}", f, file)));
    }
    let (f, mime, fmt, video) = *r.pick(MED);
    let file = r.bool();
    let p = if file {
        let up = if r.bool() { f.to_uppercase() } else { f.to_string() };
        let path = ctx.scratch.join(format!("med{}.{}", case, up));
        std::fs::write(&path, &data).map_err(|e| e.to_string())?;
        let p = e2s(MediaPart::from_file(n, path.to_str().unwrap()), "media file")?;
        let _ = std::fs::remove_file(&path);
        p
    } else {
        MediaPart::new(n, fmt, data.clone())
    };
    identity(&p, &format!("ppt/media/media{}.{}", n, f), "media", mime, "ppt/slides/slide1.xml", Some(&p.rel_target()))?;
    eq("media format", (p.format(), p.format().extension(), p.format().mime_type()), (fmt, f, mime))?;
    eq("media kind", (p.is_video(), p.is_audio(), fmt.is_video(), fmt.is_audio()), (video, !video, video, !video))?;
    eq("media data", p.data(), data.as_slice())?;
    let odd = ctx.scratch.join(format!("odd{}.xyz", case));
    std::fs::write(&odd, b"x").map_err(|e| e.to_string())?;
    let bad = MediaPart::from_file(1, odd.to_str().unwrap()).is_ok();
    let _ = std::fs::remove_file(&odd);
    if bad || MediaFormat::from_extension("xyz").is_some() || MediaPart::from_file(1, "/nonexistent/x.mp4").is_ok() {
        return Err("media of an unknown format or from no file is accepted".into());
    }
    Ok(Out::sig(format!("media {} {}", f, file)))
}

// ---------------------------------------------------------------- a package made of parts

fn assemble(ctx: &Ctx, r: &mut Rng) -> Res {
    let prof = deck::Profile { images: 0, charts: 0, ink: false, links: false, ..deck::ALL };
    let mut pool = vec![];
    let n = 1 + r.below(5);
    let slides: Vec<deck::SlideS> = (0..n).map(|_| deck::random_slide(r, &prof, &mut pool, None)).collect();
    let mut pkg = Package::new();
    let mut ct = ContentTypesPart::new();
    ct.add_presentation();
    let mut pres = PresentationPart::new();
    let put = |pkg: &mut Package, p: &dyn Part| -> Result<(), String> {
        pkg.add_part(p.path().to_string(), e2s(p.to_xml(), p.path())?.into_bytes());
        Ok(())
    };
    let r0 = 1 + r.below(4);
    for (i, s) in slides.iter().enumerate() {
        let p = SlidePart::from_content(i + 1, s.build());
        put(&mut pkg, &p)?;
        let mut rl = p.create_relationships();
        if let Some(t) = &s.notes {
            let np = NotesSlidePart::with_text(i + 1, t);
            put(&mut pkg, &np)?;
            rl.add(RelationshipType::from_uri(np.part_type().relationship_type()), &np.rel_target());
            ct.add_notes_slide(i + 1);
            let mut back = Relationships::new();
            back.add(RelationshipType::Slide, &format!("../slides/slide{}.xml", i + 1));
            back.add(RelationshipType::from_uri(&format!("{}notesMaster", BASE)), "../notesMasters/notesMaster1.xml");
            pkg.add_part(opc::rels_name(np.path()), back.to_xml().into_bytes());
        }
        pkg.add_part(p.rels_path(), rl.to_xml().into_bytes());
        ct.add_slide(i + 1);
        pres.add_slide(&format!("rId{}", r0 + i));
    }
    let layout = SlideLayoutPart::new(1, *r.pick(LAYOUTS));
    let mut master = SlideMasterPart::new(1);
    let theme = ThemePart::new(1);
    let mut mr = Relationships::new();
    let lid = mr.add(RelationshipType::SlideLayout, &format!("../{}", layout.rel_target()));
    mr.add(RelationshipType::Theme, &theme.rel_target());
    master.add_layout_rel_id(&lid);
    let mut lr = Relationships::new();
    lr.add(RelationshipType::SlideMaster, "../slideMasters/slideMaster1.xml");
    let mut app = AppPropertiesPart::new();
    app.set_slides(n as u32);
    let mut core = CorePropertiesPart::new();
    let title = text::any(r);
    core.set_title(&title);
    for p in [&pres as &dyn Part, &layout, &master, &theme, &app, &core] {
        put(&mut pkg, p)?;
    }
    pkg.add_part("ppt/_rels/presentation.xml.rels".into(), pres.create_relationships().to_xml().into_bytes());
    pkg.add_part("ppt/slideMasters/_rels/slideMaster1.xml.rels".into(), mr.to_xml().into_bytes());
    pkg.add_part("ppt/slideLayouts/_rels/slideLayout1.xml.rels".into(), lr.to_xml().into_bytes());
    let mut root = Relationships::new();
    root.add(RelationshipType::OfficeDocument, pres.path());
    root.add(RelationshipType::CoreProperties, core.path());
    root.add(RelationshipType::ExtendedProperties, app.path());
    pkg.add_part("_rels/.rels".into(), root.to_xml().into_bytes());
    ct.add_slide_layout(1);
    ct.add_slide_master(1);
    ct.add_theme(1);
    ct.add_core_properties();
    ct.add_app_properties();
    pkg.add_part("[Content_Types].xml".into(), e2s(ct.to_xml(), "content types")?.into_bytes());
    let mut buf = std::io::Cursor::new(vec![]);
    e2s(pkg.save_writer(&mut buf), "saving")?;
    let bytes = buf.into_inner();
    let k = Pkg::check(&bytes)?;
    // the library has no notes master, picture or layout beside the first among its stand-alone parts
    let real: Vec<_> = k.problems.iter().filter(|p| !p.detail.contains("notesMaster")).collect();
    if let Some(p) = real.first() {
        return Err(format!("package made of parts: {} ({})", p.detail, p.code));
    }
    eq("slides of the package", k.slides().len(), n)?;
    for (i, (s, part)) in slides.iter().zip(k.slides()).enumerate() {
        let e = k.xml.get(&part).ok_or("slide missing")?;
        let o = s.roles(e)?;
        s.check_text(&o).map_err(|m| format!("slide {}: {}", i + 1, m))?;
        s.check_format(&o).map_err(|m| format!("slide {}: {}", i + 1, m))?;
    }
    ctx.count("packages assembled", 1);
    Ok(Out::sig(format!("{} {}", n, deck::DeckS { title, slides }.sig())))
}

fn probes(ctx: &Ctx) {
    ctx.probe("edit-after-reading", || {
        let x = e2s(SlideLayoutPart::new(1, LayoutType::Blank).to_xml(), "layout")?;
        let mut l: SlideLayoutPart = e2s(SlideLayoutPart::from_xml(&x), "layout")?;
        l.set_name("Renamed");
        let mut t: ThemePart = e2s(ThemePart::from_xml(&e2s(ThemePart::new(1).to_xml(), "theme")?), "theme")?;
        t.set_name("Renamed");
        let mut a: AppPropertiesPart = e2s(AppPropertiesPart::from_xml(&e2s(AppPropertiesPart::new().to_xml(), "app")?), "app")?;
        a.set_company("Renamed");
        for p in [&l as &dyn Part, &t, &a] {
            if !e2s(p.to_xml(), "part")?.contains("Renamed") {
                return Err(format!("{}: a value set after reading the part is not written", p.path()));
            }
        }
        Ok(())
    });
    ctx.probe("table-from-xml", || {
        let p = TablePart::new().add_row(TableRowPart::new(vec![TableCellPart::new("kept")]));
        let q = e2s(TablePart::from_xml(&e2s(p.to_xml(), "table")?), "table")?;
        if q.rows.len() != 1 {
            return Err("a table read from XML has no rows".into());
        }
        Ok(())
    });
}

pub fn c28(ctx: &Ctx) {
    probes(ctx);
    ctx.rule("parts: well-formed, children known and in order, every value given shown once, values and XML read back unchanged");
    ctx.cases("rels", ctx.n(6000, 60000), |r, _| rels(ctx, r));
    ctx.cases("ctypes", ctx.n(2500, 25000), |r, _| ctypes(r));
    ctx.cases("pres", ctx.n(4000, 40000), |r, _| pres(r));
    ctx.cases("layout", ctx.n(1500, 15000), |r, _| layout(r));
    ctx.cases("master", ctx.n(800, 8000), |r, _| master(r));
    ctx.cases("theme", ctx.n(2000, 20000), |r, _| theme(r));
    ctx.cases("app", ctx.n(2500, 25000), |r, _| app(r));
    ctx.cases("core", ctx.n(3000, 30000), |r, _| core(r));
    ctx.cases("notes", ctx.n(3000, 30000), |r, _| notes(r));
    ctx.cases("chart", ctx.n(1500, 15000), |r, _| chart_part(r));
    ctx.cases("slide", ctx.n(2500, 25000), |r, _| slide(r));
    ctx.cases("table", ctx.n(4000, 40000), |r, _| tables(r));
    ctx.cases("binary", ctx.n(1500, 15000), |r, c| binary(ctx, r, c));
    ctx.cases("package", ctx.n(1200, 12000), |r, _| assemble(ctx, r));
}
