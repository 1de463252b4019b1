//! C25: decks made from a template, and the ready-made business decks.
use super::gen1::{brief, sound, write};
use super::pkg::any_deck;
use crate::opc::{Pkg, rels_name};
use crate::report::{Ctx, Out, Res};
use crate::rng::Rng;
use crate::spec::deck::{self, ALL, Profile};
use crate::spec::{foreign, settings};
use crate::text;
use crate::xml::esc;
use crate::{pml, zipx};
use ppt_rs::generator::{self, PresentationSettings, SlideContent, create_pptx_lazy_to_writer, create_pptx_with_settings, create_pptx_with_template};
use ppt_rs::templates as tp;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Cursor;

const T: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
const CT: &str = "application/vnd.openxmlformats-officedocument.presentationml";

fn relative(from: &str, to: &str, r: &mut Rng) -> String {
    if r.chance(1, 3) {
        return format!("/{}", to);
    }
    let a: Vec<&str> = from.split('/').collect();
    let b: Vec<&str> = to.split('/').collect();
    let common = a.iter().zip(&b).take_while(|(x, y)| x == y).count().min(a.len() - 1).min(b.len() - 1);
    let up = "../".repeat(a.len() - 1 - common);
    format!("{}{}{}", if r.chance(1, 6) { "./" } else { "" }, up, b[common..].join("/"))
}

struct Tpl {
    bytes: Vec<u8>,
    sig: String,
}

/// A template another producer could have written: several masters, any number of layouts under
/// any names, pictures and links in masters, layouts and themes.
fn template(r: &mut Rng) -> Tpl {
    let base = foreign::base();
    let own = |n: &str| String::from_utf8(base[n].clone()).unwrap();
    let masters = 1 + if r.chance(1, 3) { 1 + r.below(2) } else { 0 };
    let mut parts: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut over: Vec<(String, String)> = vec![];
    let rels = |v: &[(String, String, String, bool)]| {
        let s: String = v.iter().map(|(id, t, to, ext)| format!("<Relationship Id=\"{}\" Type=\"{}/{}\" Target=\"{}\"{}/>", id, T, t, esc(to), if *ext { " TargetMode=\"External\"" } else { "" })).collect();
        format!("<?xml version=\"1.0\"?><Relationships xmlns=\"{}\">{}</Relationships>", crate::opc::NS_REL, s).into_bytes()
    };
    let scheme = r.below(4);
    let mut nums: Vec<usize> = (1..=40).collect();
    if r.bool() {
        r.shuffle(&mut nums[..14]);
    }
    let mut mnums: Vec<usize> = (1..=3).collect();
    r.shuffle(&mut mnums);
    let mut tnums: Vec<usize> = (1..=5).collect();
    r.shuffle(&mut tnums);
    let mut sig = format!("M{}s{}", masters, scheme);
    let mut pool: Vec<String> = vec![];
    let mut picture = |r: &mut Rng, parts: &mut BTreeMap<String, Vec<u8>>| -> String {
        if !pool.is_empty() && r.bool() {
            return pool[r.below(pool.len())].clone();
        }
        let n = format!("ppt/media/{}{}.png", r.pick(&["image", "image", "Bild", "bg ", "R&D"]).trim(), pool.len() + 1);
        parts.insert(n.clone(), foreign::png(r));
        pool.push(n.clone());
        n
    };
    let pic = |id: usize, rid: &str| format!("<p:pic><p:nvPicPr><p:cNvPr id=\"{}\" name=\"Logo\"/><p:cNvPicPr/><p:nvPr/></p:nvPicPr><p:blipFill><a:blip r:embed=\"{}\"/><a:stretch><a:fillRect/></a:stretch></p:blipFill><p:spPr><a:xfrm><a:off x=\"5\" y=\"5\"/><a:ext cx=\"50\" cy=\"50\"/></a:xfrm><a:prstGeom prst=\"rect\"><a:avLst/></a:prstGeom></p:spPr></p:pic>", id, rid);
    let mut used = 0;
    let mut mids: Vec<String> = vec![];
    let mut first_layout = String::new();
    let mut next_id: u64 = 2147483648 + r.below(20) as u64;
    let mut master_ids: Vec<u64> = vec![];
    for m in 0..masters {
        let mname = match r.below(4) {
            0 => format!("ppt/slideMasters/master{}.xml", m),
            1 if scheme != 0 => format!("ppt/masters/m{}.xml", m),
            _ => format!("ppt/slideMasters/slideMaster{}.xml", mnums[m]),
        };
        let tname = if r.chance(1, 4) { format!("ppt/theme/design{}.xml", m) } else { format!("ppt/theme/theme{}.xml", tnums[m]) };
        master_ids.push(next_id);
        next_id += 1;
        let mut mrel: Vec<(String, String, String, bool)> = vec![];
        let nl = match r.below(6) {
            0 => 1,
            1 => 2 + r.below(3),
            2 => 7 + r.below(5),
            _ => 7,
        };
        let mut used_ids = vec![];
        let mut list = String::new();
        for i in 0..nl {
            let lname = match scheme {
                0 => format!("ppt/slideLayouts/slideLayout{}.xml", if m == 0 { nums[i] } else { used + i + 1 + 40 }),
                1 => format!("ppt/slideLayouts/layout_{}_{}.xml", m, text::tag(r)),
                2 => format!("ppt/slideMasters/layouts/l{}.xml", used + i),
                _ => format!("ppt/slideLayouts/slideLayout{}.xml", used + i + 1),
            };
            if m == 0 && i == 0 {
                first_layout = lname.clone();
            }
            let id = format!("{}{}", r.pick(&["rId", "R", "x-"]), { let mut n; loop { n = if r.bool() { r.below(30) } else { r.below(200) }; if !used_ids.contains(&n) { break; } } used_ids.push(n); n });
            list.push_str(&format!("<p:sldLayoutId id=\"{}\" r:id=\"{}\"/>", next_id, id));
            next_id += 1 + r.below(2) as u64;
            mrel.push((id, "slideLayout".into(), relative(&mname, &lname, r), false));
            // the layout itself
            let mut x = own(&format!("ppt/slideLayouts/slideLayout{}.xml", 1 + (i + r.below(2)) % 7));
            let at = x.find("<p:cSld name=\"").unwrap() + 14;
            x.insert_str(at, &format!("L{}-{} ", m, text::tag(r)));
            let mut lrel = vec![("rId1".to_string(), "slideMaster".to_string(), relative(&lname, &mname, r), false)];
            if r.chance(1, 3) {
                let p = picture(r, &mut parts);
                lrel.push(("pic".into(), "image".into(), relative(&lname, &p, r), false));
                x = x.replacen("</p:spTree>", &format!("{}</p:spTree>", pic(90, "pic")), 1);
                sig.push('i');
            }
            if r.chance(1, 6) {
                lrel.push(("web".into(), "hyperlink".into(), "https://example.com/?a=1&b=2".into(), true));
                x = x.replacen("<p:cNvPr id=\"2\" name=\"Title\"/>", "<p:cNvPr id=\"2\" name=\"Title\"><a:hlinkClick r:id=\"web\"/></p:cNvPr>", 1);
                if !x.contains("r:id=\"web\"") {
                    lrel.pop();
                }
            }
            parts.insert(rels_name(&lname), rels(&lrel));
            over.push((lname.clone(), format!("{}.slideLayout+xml", CT)));
            parts.insert(lname, x.into_bytes());
        }
        // relationships in another order than the list
        if r.bool() {
            r.shuffle(&mut mrel);
        }
        mrel.push(("theme".into(), "theme".into(), relative(&mname, &tname, r), false));
        let mut x = own("ppt/slideMasters/slideMaster1.xml");
        let (a, b) = (x.find("<p:sldLayoutIdLst>").unwrap() + 18, x.find("</p:sldLayoutIdLst>").unwrap());
        x.replace_range(a..b, &list);
        if r.bool() {
            let p = picture(r, &mut parts);
            mrel.push(("logo".into(), "image".into(), relative(&mname, &p, r), false));
            x = x.replacen("</p:spTree>", &format!("{}</p:spTree>", pic(77, "logo")), 1);
            sig.push('I');
        }
        let mut th = own("ppt/theme/theme1.xml");
        let at = th.find(" name=\"").unwrap() + 7;
        th.insert_str(at, &format!("Design {} ", text::tag(r)));
        if r.chance(1, 4) {
            let p = picture(r, &mut parts);
            parts.insert(rels_name(&tname), rels(&[("rId1".into(), "image".into(), relative(&tname, &p, r), false)]));
            sig.push('T');
        }
        sig.push_str(&format!("n{}", nl));
        used += nl;
        parts.insert(rels_name(&mname), rels(&mrel));
        over.push((mname.clone(), format!("{}.slideMaster+xml", CT)));
        over.push((tname.clone(), "application/vnd.openxmlformats-officedocument.theme+xml".into()));
        parts.insert(mname.clone(), x.into_bytes());
        parts.insert(tname, th.into_bytes());
        mids.push(mname);
    }
    // the presentation: one slide
    let mut prel: Vec<(String, String, String, bool)> = vec![];
    let mut mlist = String::new();
    for (k, m) in mids.iter().enumerate() {
        // one begins with the other
        let id = if k == 0 { "m1".to_string() } else { format!("m1{}", k) };
        mlist.push_str(&format!("<p:sldMasterId id=\"{}\" r:id=\"{}\"/>", master_ids[k], id));
        prel.push((id, "slideMaster".into(), relative("ppt/presentation.xml", m, r), false));
    }
    if r.bool() {
        prel.reverse();
    }
    prel.push(("s1".into(), "slide".into(), "slides/slide1.xml".into(), false));
    if r.chance(2, 3) {
        let mut t = own("ppt/tableStyles.xml");
        let at = t.find("</a:tblStyleLst>");
        let own_style = format!("<a:tblStyle styleId=\"{{5C22544A-7EE6-4342-B048-{:012X}}}\" styleName=\"{}\"/>", r.u64() & 0xffff_ffff_ffff, text::tag(r));
        match at {
            Some(at) => t.insert_str(at, &own_style),
            None => {
                let e = t.rfind("/>").unwrap();
                t.replace_range(e..e + 2, &format!(">{}</a:tblStyleLst>", own_style));
            }
        }
        parts.insert("ppt/tableStyles.xml".into(), t.into_bytes());
        over.push(("ppt/tableStyles.xml".into(), format!("{}.tableStyles+xml", CT)));
        prel.push(("ts".into(), "tableStyles".into(), "tableStyles.xml".into(), false));
        sig.push('S');
    }
    let pres = format!(
        "<p:presentation xmlns:p=\"{}\" xmlns:a=\"{}\" xmlns:r=\"{}\"><p:sldMasterIdLst>{}</p:sldMasterIdLst><p:sldIdLst><p:sldId id=\"300\" r:id=\"s1\"/></p:sldIdLst><p:sldSz cx=\"9144000\" cy=\"6858000\"/><p:notesSz cx=\"6858000\" cy=\"9144000\"/></p:presentation>",
        crate::opc::NS_P,
        crate::opc::NS_A,
        crate::opc::NS_R,
        mlist
    );
    parts.insert("ppt/presentation.xml".into(), pres.into_bytes());
    over.push(("ppt/presentation.xml".into(), format!("{}.presentation.main+xml", CT)));
    parts.insert(rels_name("ppt/presentation.xml"), rels(&prel));
    let mut sl = base.get("ppt/slides/slide1.xml").unwrap().clone();
    if r.bool() {
        sl = String::from_utf8(sl).unwrap().replacen("<a:t>a</a:t>", "<a:t>Old slide</a:t>", 1).into_bytes();
    }
    parts.insert("ppt/slides/slide1.xml".into(), sl);
    over.push(("ppt/slides/slide1.xml".into(), format!("{}.slide+xml", CT)));
    parts.insert(rels_name("ppt/slides/slide1.xml"), rels(&[("rId1".into(), "slideLayout".into(), relative("ppt/slides/slide1.xml", &first_layout, r), false)]));
    parts.insert("_rels/.rels".into(), rels(&[("rId1".into(), "officeDocument".into(), "ppt/presentation.xml".into(), false)]));
    let caps = r.chance(1, 4);
    let types = format!(
        "<?xml version=\"1.0\"?><Types xmlns=\"http://schemas.openxmlformats.org/package/2006/content-types\"><Default Extension=\"rels\" ContentType=\"application/vnd.openxmlformats-package.relationships+xml\"/><Default Extension=\"xml\" ContentType=\"application/xml\"/><Default Extension=\"{}\" ContentType=\"image/png\"/>{}</Types>",
        if caps { "PNG" } else { "png" },
        over.iter().map(|(n, t)| format!("<Override PartName=\"/{}\" ContentType=\"{}\"/>", esc(n), t)).collect::<String>()
    );
    let mut list: Vec<(String, Vec<u8>)> = vec![("[Content_Types].xml".into(), types.into_bytes())];
    list.extend(parts);
    Tpl { bytes: zipx::write(&list), sig }
}

/// The part and everything it leads to is the same in both packages (`a` → `b`).
fn same_tree(a: &Pkg, pa: &str, b: &Pkg, pb: &str, theme: bool, seen: &mut BTreeMap<String, String>) -> Result<(), String> {
    if let Some(old) = seen.get(pa) {
        return if old == pb { Ok(()) } else { Err(format!("{} of the template became both {} and {}", pa, old, pb)) };
    }
    if let Some((k, _)) = seen.iter().find(|(_, v)| *v == pb) {
        return Err(format!("{} and {} of the template became one part {}", k, pa, pb));
    }
    seen.insert(pa.into(), pb.into());
    let own_theme = theme && a.content_type(pa).is_some_and(|t| t.ends_with("theme+xml"));
    if !own_theme && a.parts.get(pa) != b.parts.get(pb) {
        return Err(format!("{} of the template and {} differ ({:?} and {:?} bytes)", pa, pb, a.parts.get(pa).map(|v| v.len()), b.parts.get(pb).map(|v| v.len())));
    }
    if a.content_type(pa) != b.content_type(pb) {
        return Err(format!("{} is {:?} in the template, {} is {:?}", pa, a.content_type(pa), pb, b.content_type(pb)));
    }
    for x in a.rels_of(pa) {
        if own_theme {
            break;
        }
        let Some(y) = b.rel(pb, &x.id) else { return Err(format!("{} lost relationship {} of {}", pb, x.id, pa)) };
        if x.typ != y.typ || x.external != y.external {
            return Err(format!("relationship {} of {} changed: {:?} → {:?}", x.id, pa, x, y));
        }
        if x.external {
            if x.target != y.target {
                return Err(format!("relationship {} of {} points to {} instead of {}", x.id, pa, y.target, x.target));
            }
        } else {
            same_tree(a, &x.part, b, &y.part, theme, seen)?;
        }
    }
    if !own_theme && a.rels_of(pa).len() != b.rels_of(pb).len() {
        return Err(format!("{} has {} relationships, {} has {}", pa, a.rels_of(pa).len(), pb, b.rels_of(pb).len()));
    }
    Ok(())
}

fn first_master(k: &Pkg) -> Result<String, String> {
    let main = k.main_part().ok_or("no main part")?;
    let x = k.xml.get(&main).ok_or("the presentation is not XML")?;
    let id = x.at("sldMasterIdLst/sldMasterId").and_then(|e| e.attr_ns(crate::opc::NS_R, "id")).ok_or("no master is listed")?;
    k.rel(&main, id).map(|r| r.part.clone()).ok_or_else(|| format!("master relationship {} is undefined", id))
}

/// Layouts of a master in the order of its list.
fn layouts(k: &Pkg, master: &str) -> Result<Vec<String>, String> {
    let x = k.xml.get(master).ok_or("the master is not XML")?;
    let mut v = vec![];
    for e in x.at("sldLayoutIdLst").map(|l| l.kids("sldLayoutId")).unwrap_or_default() {
        let id = e.attr_ns(crate::opc::NS_R, "id").unwrap_or("");
        v.push(k.rel(master, id).map(|r| r.part.clone()).ok_or_else(|| format!("layout relationship {} is undefined", id))?);
    }
    Ok(v)
}

fn number(part: &str) -> Option<usize> {
    part.strip_prefix("ppt/slideLayouts/slideLayout")?.strip_suffix(".xml")?.parse().ok()
}

struct Src(Vec<SlideContent>);
impl generator::LazySlideSource for Src {
    fn slide_count(&self) -> usize {
        self.0.len()
    }
    fn generate_slide(&self, i: usize) -> Option<SlideContent> {
        self.0.get(i).cloned()
    }
}

fn build_with(r: &mut Rng, d: &deck::DeckS, path: &str, st: Option<PresentationSettings>) -> Result<Vec<u8>, String> {
    let c = d.contents();
    let with = |s: Option<PresentationSettings>| s.unwrap_or_default().template(path);
    match r.below(4) {
        _ if c.is_empty() => create_pptx_with_template(&d.title, &c, path, st).map_err(|e| e.to_string()),
        0 => create_pptx_with_settings(&d.title, &c, Some(with(st))).map_err(|e| e.to_string()),
        1 => create_pptx_lazy_to_writer(Cursor::new(vec![]), &d.title, Box::new(Src(c)), Some(with(st))).map(|c| c.into_inner()).map_err(|e| e.to_string()),
        2 => {
            let mut p = ppt_rs::Presentation::with_title(&d.title).with_settings(with(st));
            for x in c {
                p = p.add_slide(x);
            }
            p.build().map_err(|e| e.to_string())
        }
        _ => create_pptx_with_template(&d.title, &c, path, st).map_err(|e| e.to_string()),
    }
}

fn templates(ctx: &Ctx) {
    let p = Profile { shapes: 1, conns: 0, images: 2, charts: 1, max_slides: 5, ..ALL };
    ctx.cases("templates", ctx.n(3500, 15_000), |r: &mut Rng, case| -> Res {
        let (tb, tsig) = match r.below(6) {
            0 => {
                let a = any_deck(r, true)?;
                (a.bytes, format!("own{}", a.sig))
            }
            1 => {
                let a = any_deck(r, false)?;
                (a.bytes, format!("foreign{}", a.sig))
            }
            2 => {
                // a generated deck with settings of its own: handout master, fonts, a theme, notes
                let d = deck::random(r, &p, None);
                let st = settings::random(r);
                let b = create_pptx_with_settings(&d.title, &d.contents(), st.build(r)).map_err(|e| e.to_string())?;
                (b, format!("set{}", st.sig_str()))
            }
            _ => {
                let t = template(r);
                (t.bytes, t.sig)
            }
        };
        let k0 = sound(&tb).map_err(|e| format!("HARNESS:the template is not sound: {} — {}", e, tsig))?;
        let path = ctx.scratch.join(format!("t{}.pptx", case));
        std::fs::write(&path, &tb).map_err(|e| format!("HARNESS:{}", e))?;
        let path = path.to_string_lossy().to_string();
        let d = deck::random(r, &p, None);
        let st = if r.bool() { settings::random(r) } else { settings::SettingsS { theme: None, show: None, print: None, fonts: None, sig: None } };
        let s = st.build(r);
        let b = build_with(r, &d, &path, s);
        let after = std::fs::read(&path);
        std::fs::remove_file(&path).ok();
        if after.ok().as_deref() != Some(&tb[..]) {
            return Err("the template file was changed".into());
        }
        let b = b.map_err(|e| format!("a sound template was refused: {} — {}", e, tsig))?;
        let k = sound(&b).map_err(|e| format!("{} — template {} deck {}", e, tsig, brief(&d)))?;
        let say = |e: String| format!("{} — template {} {:?} deck {}", e, tsig, st, brief(&d));
        // the design is the template's
        let (m0, m) = (first_master(&k0)?, first_master(&k).map_err(say)?);
        let mut seen = BTreeMap::new();
        same_tree(&k0, &m0, &k, &m, st.theme.is_some(), &mut seen).map_err(say)?;
        let main = k.main_part().unwrap();
        if k.rel_by_type(&main, "slideMaster").len() != 1 {
            return Err(say("the deck has several masters".into()));
        }
        if let Some(t) = k0.parts.get("ppt/tableStyles.xml")
            && k.parts.get("ppt/tableStyles.xml") != Some(t)
        {
            return Err(say("the table styles are not the template's".into()));
        }
        // no part of the template outside its design, no design of ours besides it
        let ours: BTreeSet<&String> = seen.values().collect();
        for n in k.parts.keys() {
            if n.contains("/slideLayouts/") && !n.contains("/_rels/") && !ours.contains(n) {
                return Err(say(format!("layout {} is not the template's", n)));
            }
        }
        // slides use the layouts by number
        let list0 = layouts(&k0, &m0)?;
        let numbered = list0.iter().all(|l| number(l).is_some()) && list0.iter().any(|l| number(l) == Some(1));
        let slides = k.slides();
        if slides.len() != d.slides.len() {
            return Err(say(format!("{} slides described, {} listed", d.slides.len(), slides.len())));
        }
        for (i, (s, part)) in d.slides.iter().zip(&slides).enumerate() {
            let n = s.layout.layout_number();
            let want0 = if numbered {
                list0.iter().find(|l| number(l) == Some(n)).or_else(|| list0.iter().find(|l| number(l) == Some(1))).unwrap()
            } else {
                list0.get(n - 1).unwrap_or(&list0[0])
            };
            s.check_link(&k, part, &seen[want0]).map_err(|e| say(format!("slide {}: {}", i + 1, e)))?;
            s.check_but_link(&k, part).map_err(|e| say(format!("slide {}: {}", i + 1, e)))?;
        }
        st.check_with_template(&k).map_err(say)?;
        ctx.count("template parts compared", seen.len() as u64);
        ctx.count("slides tied to a layout of the template", slides.len() as u64);
        Ok(Out::sig(format!("{}|{}", tsig, d.sig())).with_sample(format!("{} ⇐ {}", tsig, brief(&d))))
    });
    ctx.cases("unusable", ctx.n(60, 600), |r: &mut Rng, case| -> Res {
        let t = template(r);
        let what = r.below(5);
        let mut k: Vec<(String, Vec<u8>)> = zipx::read(&t.bytes)?.into_iter().map(|e| (e.name, e.data)).collect();
        let path = ctx.scratch.join(format!("u{}.pptx", case));
        match what {
            0 => k.retain(|e| !e.0.to_lowercase().contains("master")),
            1 => k.retain(|e| !e.0.to_lowercase().contains("layout")),
            2 => k.retain(|e| !e.0.starts_with("ppt/")),
            _ => {}
        }
        let mut b = zipx::write(&k);
        if what == 3 {
            b.truncate(r.below(b.len()));
        }
        if what != 4 {
            std::fs::write(&path, &b).map_err(|e| format!("HARNESS:{}", e))?;
        }
        let d = deck::random(r, &p, None);
        let out = build_with(r, &d, &path.to_string_lossy(), None);
        std::fs::remove_file(&path).ok();
        match out {
            Err(_) => {
                ctx.count("unusable templates refused", 1);
                Ok(Out::sig(format!("{}{}", what, t.sig)))
            }
            Ok(_) => Err(format!("a template {} gave a deck", ["without masters", "without layouts", "without a presentation", "cut short", "that does not exist"][what])),
        }
    });
}

// ---------------------------------------------------------------- business decks

fn words(r: &mut Rng) -> Vec<String> {
    (0..match r.below(5) { 0 => 0, 1 => 8, n => n }).map(|_| text::any(r)).collect()
}
fn pairs(r: &mut Rng) -> Vec<(String, String)> {
    (0..r.below(5)).map(|_| (text::any(r), text::any(r))).collect()
}
fn groups(r: &mut Rng) -> Vec<(String, Vec<String>)> {
    (0..r.below(4)).map(|_| (text::any(r), words(r))).collect()
}
fn rf(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| s.as_str()).collect()
}
fn rp(v: &[(String, String)]) -> Vec<(&str, &str)> {
    v.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect()
}
fn rg(v: &[(String, Vec<String>)]) -> Vec<(&str, Vec<&str>)> {
    v.iter().map(|(a, b)| (a.as_str(), rf(b))).collect()
}

/// What a slide says: title, then the lines below it.
type Want = (String, Vec<String>);

fn business(ctx: &Ctx) {
    ctx.cases("business", ctx.n(900, 12_000), |r: &mut Rng, _| -> Res {
        let (title, by) = (text::any(r), if r.chance(1, 8) { String::new() } else { text::any(r) });
        let line = |s: &str| if s.is_empty() { vec![] } else { vec![s.to_string()] };
        let join = |v: &[(String, String)], sep: &str| v.iter().map(|(a, b)| format!("{}{}{}", a, sep, b)).collect::<Vec<_>>();
        let mut want: Vec<Want> = vec![];
        let mut say = |t: &str, v: Vec<String>| want.push((t.to_string(), v));
        let kind = r.below(5);
        let b = match kind {
            0 => {
                let (a, p, s, n) = (words(r), words(r), words(r), words(r));
                let (t, m) = (pairs(r), pairs(r));
                say(&title, line(&by));
                say("Agenda", ["Executive Summary", "Problem Statement", "Proposed Solution", "Timeline & Budget", "Next Steps"].map(String::from).to_vec());
                say("Executive Summary", a.clone());
                say("Problem Statement", p.clone());
                say("Proposed Solution", s.clone());
                say("Timeline", join(&t, ": "));
                say("Budget", join(&m, ": "));
                say("Next Steps", n.clone());
                say("Questions?", line("Discussion and Q&A"));
                tp::business_proposal(&title, &by, tp::ProposalContent { executive_summary: rf(&a), problem: rf(&p), solution: rf(&s), timeline: rp(&t), budget: rp(&m), next_steps: rf(&n) })
            }
            1 => {
                let (o, e, s) = (words(r), words(r), words(r));
                let m = groups(r);
                say(&title, line(&by));
                say("Learning Objectives", o.clone());
                for (n, t) in &m {
                    say(n, t.clone());
                }
                say("Exercises", e.clone());
                say("Summary", s.clone());
                say("Questions?", vec![]);
                tp::training_material(&title, &by, tp::TrainingContent { objectives: rf(&o), modules: rg(&m), exercises: rf(&e), summary: rf(&s) })
            }
            2 => {
                let (s, c, i, k, n) = (words(r), words(r), words(r), words(r), words(r));
                let m = pairs(r);
                say(&title, line(&by));
                say("Executive Summary", s.clone());
                say("Completed ✓", c.clone());
                say("In Progress", i.clone());
                if !k.is_empty() {
                    say("Blocked / Risks", k.clone());
                }
                say("Next Week", n.clone());
                if !m.is_empty() {
                    say("Key Metrics", join(&m, ": "));
                }
                tp::status_report(&title, &by, tp::StatusContent { summary: rf(&s), completed: rf(&c), in_progress: rf(&i), blocked: rf(&k), next_week: rf(&n), metrics: rp(&m) })
            }
            3 => {
                let (o, a, p) = (words(r), words(r), words(r));
                let (c, e) = (groups(r), pairs(r));
                say(&title, vec![format!("Version {}", by)]);
                say("Overview", o.clone());
                say("Architecture", a.clone());
                for (n, t) in &c {
                    say(n, t.clone());
                }
                if !e.is_empty() {
                    say("API Reference", join(&e, " - "));
                }
                say("Best Practices", p.clone());
                tp::technical_doc(&title, &by, tp::TechnicalContent { overview: rf(&o), architecture: rf(&a), components: rg(&c), api_examples: rp(&e), best_practices: rf(&p) })
            }
            _ => {
                let g = groups(r);
                for (n, t) in &g {
                    say(n, t.clone());
                }
                let v: Vec<(&str, Vec<&str>)> = rg(&g);
                let v: Vec<(&str, &[&str])> = v.iter().map(|(a, b)| (*a, b.as_slice())).collect();
                tp::simple(&title, &v)
            }
        };
        let b = b.map_err(|e| format!("refused: {} — {:?}", e, want))?;
        let k = sound(&b).map_err(|e| format!("{} — {:?}", e, want))?;
        let core = k.xml.get("docProps/core.xml").and_then(|c| c.child("title")).map(|t| t.text()).unwrap_or_default();
        if core != deck::clean(&title) {
            return Err(format!("document title {:?} instead of {:?}", core, title));
        }
        let parts = k.slides();
        if parts.len() != want.len() {
            return Err(format!("{} slides instead of {}: {:?}", parts.len(), want.len(), want));
        }
        for (i, (p, (t, v))) in parts.iter().zip(&want).enumerate() {
            let sh = pml::shapes(k.xml.get(p).ok_or("not XML")?);
            let mut said: Vec<String> = sh.iter().flat_map(|s| s.paras.iter().map(|p| p.text())).filter(|s| !s.is_empty()).collect();
            let mut asked: Vec<String> = std::iter::once(t.clone()).chain(v.iter().cloned()).map(|s| deck::clean(&s)).filter(|s| !s.is_empty()).collect();
            if v.iter().any(|s| s.contains('\n')) || t.contains('\n') {
                said = vec![said.concat()];
                asked = vec![asked.concat()].into_iter().map(|s| s.replace('\n', "")).collect();
                said[0] = said[0].replace('\n', "");
            }
            if said != asked {
                return Err(format!("slide {} of {} says {:?}, asked {:?}", i + 1, ["business_proposal", "training_material", "status_report", "technical_doc", "simple"][kind], said, asked));
            }
            for s in &sh {
                if s.has_text && (s.x < 0 || s.y < 0 || s.x + s.cx > 9_144_000 || s.y + s.cy > 6_858_000) {
                    return Err(format!("a text box of slide {} lies off the slide", i + 1));
                }
            }
        }
        ctx.count("business slides compared", want.len() as u64);
        ctx.see("business decks", ["proposal", "training", "status", "technical", "simple"][kind]);
        Ok(Out::sig(format!("{}{:?}", kind, want.iter().map(|w| w.1.len()).collect::<Vec<_>>())).with_sample(format!("{:?}", want)))
    });
}

pub fn c25(ctx: &Ctx) {
    ctx.rule("Distinct by the structure of the template (masters, layouts, naming, pictures) and of the deck put on it.");
    templates(ctx);
    business(ctx);
    let _ = write;
}
