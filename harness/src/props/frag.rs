//! C30: the pieces a caller writes by itself — text, links, gradients, sections, comments,
//! merges, media, ink, signatures, markup — against models of what they were given.
use crate::opc::{NS_A, NS_R};
use crate::pml;
use crate::report::{Ctx, Out, Res};
use crate::rng::Rng;
use crate::schema;
use crate::text;
use crate::xml::{self, Elem};
use ppt_rs::core::{ToXml, XmlWriter};
use ppt_rs::generator::*;
use std::collections::{BTreeMap, BTreeSet};

/// A fragment inside a document that declares the usual prefixes.
fn frag(x: &str, what: &str) -> Result<Elem, String> {
    let d = format!(
        "<w xmlns:a=\"{}\" xmlns:r=\"{}\" xmlns:p=\"http://schemas.openxmlformats.org/presentationml/2006/main\" xmlns:p14=\"http://schemas.microsoft.com/office/powerpoint/2010/main\">{}</w>",
        NS_A, NS_R, x
    );
    let e = xml::parse(d.as_bytes()).map_err(|m| format!("{} is not well-formed: {}", what, m))?;
    if let Some(b) = schema::check(&e).first() {
        return Err(format!("{}: {}", what, b));
    }
    Ok(e)
}

fn one<'a>(w: &'a Elem, local: &str) -> Result<&'a Elem, String> {
    let v: Vec<&Elem> = w.elems().collect();
    match v.as_slice() {
        [e] if e.local == local => Ok(e),
        _ => Err(format!("{} elements {:?} instead of one <{}>", v.len(), v.iter().map(|e| &e.local).collect::<Vec<_>>(), local)),
    }
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{}: {:?} instead of {:?}", what, got, want)) }
}

fn name(r: &mut Rng) -> String {
    text::any(r)
}

// ---------------------------------------------------------------- text

#[derive(Clone, Default, Debug)]
struct Fmt {
    b: bool,
    i: bool,
    u: bool,
    strike: bool,
    color: Option<String>,
    hi: Option<String>,
    size: Option<u32>,
    font: Option<String>,
    base: i32,
}

/// Several setters in any order, some of them twice: the last one counts.
fn fmt(r: &mut Rng) -> (TextFormat, Fmt) {
    let (mut t, mut m) = (TextFormat::new(), Fmt::default());
    for _ in 0..r.below(7) {
        match r.below(9) {
            0 => (t, m.b) = (t.bold(), true),
            1 => (t, m.i) = (t.italic(), true),
            2 => (t, m.u) = (t.underline(), true),
            3 => (t, m.strike) = (t.strikethrough(), true),
            4 => {
                let (c, h) = text::color(r);
                (t, m.color) = (t.color(&c), Some(h));
            }
            5 => {
                let (c, h) = text::color(r);
                (t, m.hi) = (t.highlight(&c), Some(h));
            }
            6 => {
                let s = r.u32(1, 400);
                (t, m.size) = (t.font_size(s), Some(s));
            }
            7 => {
                let f = name(r);
                (t, m.font) = (t.font_family(&f), Some(f));
            }
            _ => {
                if r.bool() {
                    (t, m.base) = (t.subscript(), -1)
                } else {
                    (t, m.base) = (t.superscript(), 1)
                }
            }
        }
    }
    (t, m)
}

fn same_fmt(p: &BTreeMap<String, String>, m: &Fmt, size: Option<u32>) -> Result<(), String> {
    let g = |k: &str| p.get(k).map(|s| s.as_str());
    eq("bold", pml::boolish(g("b")), m.b)?;
    eq("italic", pml::boolish(g("i")), m.i)?;
    eq("underline", !matches!(g("u"), None | Some("none")), m.u)?;
    eq("strikethrough", !matches!(g("strike"), None | Some("noStrike")), m.strike)?;
    eq("colour", g("color"), m.color.as_deref())?;
    eq("highlight", g("highlight"), m.hi.as_deref())?;
    eq("font", g("latin"), m.font.as_deref())?;
    eq("size", g("sz").map(|s| s.to_string()), m.size.or(size).map(|s| (s * 100).to_string()))?;
    let base: i32 = g("baseline").and_then(|v| v.parse().ok()).unwrap_or(0);
    eq("baseline", base.signum(), m.base)
}

fn run(r: &mut Rng) -> (Run, String, Fmt) {
    let t = if r.chance(1, 12) { String::new() } else if r.chance(1, 6) { text::wild(r) } else { text::any(r) };
    let (mut x, mut m) = (Run::new(&t), Fmt::default());
    if r.bool() {
        let (f, fm) = fmt(r);
        x = x.with_format(f);
        m = fm;
    }
    for _ in 0..r.below(5) {
        match r.below(6) {
            0 => (x, m.b) = (x.bold(), true),
            1 => (x, m.i) = (x.italic(), true),
            2 => (x, m.u) = (x.underline(), true),
            3 => {
                let (c, h) = text::color(r);
                (x, m.color) = (x.color(&c), Some(h));
            }
            4 => {
                let s = r.u32(1, 400);
                (x, m.size) = (x.size(s), Some(s));
            }
            _ => {
                let f = name(r);
                (x, m.font) = (x.font(&f), Some(f));
            }
        }
    }
    (x, t, m)
}

struct ParaM {
    runs: Vec<(String, Fmt)>,
    algn: &'static str,
    lvl: u32,
    bullet: bool,
    before: Option<u32>,
    after: Option<u32>,
}

fn para(r: &mut Rng) -> (Paragraph, ParaM) {
    let mut m = ParaM { runs: vec![], algn: "l", lvl: 0, bullet: false, before: None, after: None };
    let mut p = if r.chance(1, 4) {
        let t = text::any(r);
        let p = Paragraph::with_text(&t);
        m.runs.push((t, Fmt::default()));
        p
    } else if r.bool() {
        Paragraph::new()
    } else {
        Paragraph::default()
    };
    for _ in 0..r.below(8) {
        match r.below(8) {
            0 | 1 => {
                let (x, t, f) = run(r);
                p = p.add_run(x);
                m.runs.push((t, f));
            }
            2 => {
                let t = text::any(r);
                p = p.add_text(&t);
                m.runs.push((t, Fmt::default()));
            }
            3 => {
                let (a, s) = *r.pick(&[(TextAlign::Left, "l"), (TextAlign::Center, "ctr"), (TextAlign::Right, "r"), (TextAlign::Justify, "just")]);
                p = p.align(a);
                m.algn = s;
            }
            4 => (p, m.bullet) = (p.bullet(), true),
            5 => {
                let l = r.u32(0, 12);
                (p, m.lvl) = (p.level(l), l.min(8));
            }
            6 => {
                let n = r.u32(0, 1584);
                (p, m.before) = (p.spacing_before(n), Some(n));
            }
            _ => {
                let n = r.u32(0, 1584);
                (p, m.after) = (p.spacing_after(n), Some(n));
            }
        }
    }
    (p, m)
}

fn pts(p: &Elem, k: &str) -> Option<u32> {
    p.at(&format!("pPr/{}/spcPts", k)).and_then(|e| e.attr("val")).and_then(|v| v.parse::<u32>().ok()).map(|v| v / 100)
}

fn same_para(e: &Elem, m: &ParaM) -> Result<(), String> {
    let p = pml::runs_of(e);
    eq("alignment", p.algn.as_deref().unwrap_or("l"), m.algn)?;
    eq("level", p.lvl, m.lvl as i64)?;
    eq("bullet", p.bullet.starts_with("char:"), m.bullet)?;
    eq("space before", pts(e, "spcBef"), m.before)?;
    eq("space after", pts(e, "spcAft"), m.after)?;
    eq("number of runs", p.runs.len(), m.runs.len())?;
    for (g, (t, f)) in p.runs.iter().zip(&m.runs) {
        eq("run text", g.text.clone(), clean(t))?;
        same_fmt(&g.p, f, Some(18)).map_err(|s| format!("run {}: {}", text::short(t), s))?;
    }
    Ok(())
}

fn clean(s: &str) -> String {
    crate::spec::deck::clean(s)
}

fn texts(r: &mut Rng) -> Res {
    match r.below(4) {
        0 => {
            let (x, t, m) = run(r);
            let w = frag(&x.to_xml(), "a run")?;
            let e = one(&w, "r")?;
            let p = pml::runs_of(&w);
            eq("run text", p.runs[0].text.clone(), clean(&t))?;
            same_fmt(&p.runs[0].p, &m, Some(18))?;
            eq("the trait's XML", <Run as ToXml>::to_xml(&x), x.to_xml())?;
            Ok(Out::sig(e.canon()))
        }
        1 => {
            let (p, m) = para(r);
            let w = frag(&p.to_xml(), "a paragraph")?;
            same_para(one(&w, "p")?, &m)?;
            let mut s = String::from("<z/>");
            ToXml::write_xml(&p, &mut s);
            eq("text written into a buffer", s, format!("<z/>{}", p.to_xml()))?;
            Ok(Out::sig(w.canon()))
        }
        2 => {
            let mut f = if r.bool() { TextFrame::new() } else { TextFrame::default() };
            let mut ms = vec![];
            if r.chance(1, 4) {
                let t = text::any(r);
                f = TextFrame::with_text(&t);
                ms.push(ParaM { runs: vec![(t, Fmt::default())], algn: "l", lvl: 0, bullet: false, before: None, after: None });
            }
            let mut anchor = "t";
            let mut ins = (91440, 91440, 45720, 45720);
            for _ in 0..r.below(6) {
                match r.below(5) {
                    0 | 1 => {
                        let (p, m) = para(r);
                        f = f.add_paragraph(p);
                        ms.push(m);
                    }
                    2 => {
                        let t = text::any(r);
                        f = f.add_text(&t);
                        ms.push(ParaM { runs: vec![(t, Fmt::default())], algn: "l", lvl: 0, bullet: false, before: None, after: None });
                    }
                    3 => {
                        let (a, s) = *r.pick(&[(TextAnchor::Top, "t"), (TextAnchor::Middle, "ctr"), (TextAnchor::Bottom, "b")]);
                        (f, anchor) = (f.anchor(a), s);
                    }
                    _ => {
                        ins = (r.u32(0, 900000), r.u32(0, 900000), r.u32(0, 900000), r.u32(0, 900000));
                        f = f.margins(ins.0, ins.1, ins.2, ins.3);
                    }
                }
            }
            if r.chance(1, 3) {
                f.wrap = false;
            }
            let w = frag(&f.to_xml(), "a text frame")?;
            let b = one(&w, "txBody")?;
            let bp = b.child("bodyPr").ok_or("no bodyPr")?;
            eq("anchor", bp.attr("anchor").unwrap_or("t"), anchor)?;
            eq("wrapping", bp.attr("wrap").unwrap_or("square"), if f.wrap { "square" } else { "none" })?;
            for (k, v) in [("lIns", ins.0), ("rIns", ins.1), ("tIns", ins.2), ("bIns", ins.3)] {
                eq(k, bp.attr(k), Some(v.to_string().as_str()))?;
            }
            let ps = b.kids("p");
            eq("paragraphs", ps.len(), ms.len().max(1))?;
            for (e, m) in ps.iter().zip(&ms) {
                same_para(e, m)?;
            }
            Ok(Out::sig(w.canon()))
        }
        _ => {
            let (t, m) = fmt(r);
            let fm = Fmt { color: None, hi: None, font: None, ..m.clone() };
            let w = frag(&format!("<a:r><a:rPr{}/><a:t/></a:r>", t.to_xml_attrs()), "format attributes")?;
            same_fmt(&pml::runs_of(&w).runs[0].p, &fm, None)?;
            let w = frag(&format!("<a:r><a:rPr>{}</a:rPr><a:t/></a:r>", t.to_highlight_xml()), "a highlight")?;
            same_fmt(&pml::runs_of(&w).runs[0].p, &Fmt { hi: m.hi.clone(), ..Fmt::default() }, None)?;
            let (c, h) = text::color(r);
            let w = frag(&ppt_rs::generator::text::color_to_xml(&c), "a colour")?;
            eq("colour", pml::color_of(one(&w, "solidFill")?), Some(h))?;
            // the same setters on formatted text
            let (s, f2) = (text::any(r), FormattedText::new("x"));
            let f2 = f2.bold().subscript().superscript().highlight(&c).font_size(3).with_format(t.clone());
            eq("format replaced as a whole", format!("{:?}", f2.format), format!("{:?}", t))?;
            let f3 = FormattedText::new(&s).italic().strikethrough().underline().superscript().subscript().color(&c);
            let want = TextFormat::new().italic().strikethrough().underline().superscript().subscript().color(&c);
            eq("formatted text", (f3.text.clone(), format!("{:?}", f3.format)), (s, format!("{:?}", want)))?;
            // right-to-left
            let lang = if r.bool() { Some(name(r)) } else { None };
            let cs = if r.bool() { Some(name(r)) } else { None };
            let mut p = RtlTextProps::new();
            let mut rtl = false;
            for _ in 0..r.below(4) {
                rtl = r.bool();
                p = if rtl { p.rtl() } else { p.ltr() };
            }
            let (mut wl, mut wc) = (None, None);
            if r.chance(1, 3) {
                let l = *r.pick(&[RtlLanguage::Arabic, RtlLanguage::Hebrew, RtlLanguage::Urdu, RtlLanguage::Persian, RtlLanguage::Pashto, RtlLanguage::Sindhi, RtlLanguage::Kurdish, RtlLanguage::Yiddish]);
                p = p.from_language(l);
                rtl = true;
                (wl, wc) = (Some(l.lang_tag().to_string()), Some(l.default_font().to_string()));
            }
            if let Some(l) = &lang {
                p = p.language(l);
                wl = Some(l.clone());
            }
            if let Some(c) = &cs {
                p = p.complex_script_font(c);
                wc = Some(c.clone());
            }
            let w = frag(
                &format!("<a:p><a:pPr{}/><a:r><a:rPr{}>{}</a:rPr><a:t/></a:r></a:p>", p.to_ppr_xml_attr(), p.to_rpr_xml_attrs(), p.to_cs_font_xml()),
                "right-to-left text",
            )?;
            let e = one(&w, "p")?;
            eq("direction", pml::boolish(e.child("pPr").and_then(|x| x.attr("rtl"))), rtl)?;
            eq("language", e.at("r/rPr").and_then(|x| x.attr("lang")), wl.as_deref())?;
            eq("complex script font", e.at("r/rPr/cs").and_then(|x| x.attr("typeface")), wc.as_deref())?;
            Ok(Out::sig(w.canon()))
        }
    }
}

// ---------------------------------------------------------------- links and gradients

fn undo_percent(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && let Ok(v) = u8::from_str_radix(s.get(i + 1..i + 3).unwrap_or("zz"), 16) {
            o.push(v);
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&o).into_owned()
}

fn links(r: &mut Rng) -> Res {
    const JUMP: [(HyperlinkAction, &str); 5] = [
        (HyperlinkAction::FirstSlide, "firstslide"),
        (HyperlinkAction::LastSlide, "lastslide"),
        (HyperlinkAction::NextSlide, "nextslide"),
        (HyperlinkAction::PreviousSlide, "previousslide"),
        (HyperlinkAction::EndShow, "endshow"),
    ];
    let (url, addr, subj, path, n) = (format!("https://example.org/{}?a={}&b=\"{}\"", text::tag(r), text::tag(r), name(r)), format!("{}{}@{}.org", r.pick(&["", "Ada.L+", "o'neil_"]), text::tag(r), r.pick(&["example", "Example"])), name(r), format!("C:\\a b\\{}.txt", text::tag(r)), r.u32(1, 300));
    let k = r.below(10);
    let a = match k {
        0 => HyperlinkAction::url(&url),
        1 => HyperlinkAction::slide(n),
        2 => HyperlinkAction::email(&addr),
        3 => HyperlinkAction::email_with_subject(&addr, &subj),
        4 => HyperlinkAction::file(&path),
        j => JUMP[j - 5].0.clone(),
    };
    let mut h = match k {
        0 if r.bool() => Hyperlink::url(&url),
        1 if r.bool() => Hyperlink::slide(n),
        2 if r.bool() => Hyperlink::email(&addr),
        _ => Hyperlink::new(a.clone()),
    };
    eq("action", &h.action, &a)?;
    let tip = if r.bool() { Some(name(r)) } else { None };
    if let Some(t) = &tip {
        h = h.with_tooltip(t);
    }
    let hi = if r.chance(1, 3) { false } else { true };
    if !hi {
        h = h.with_highlight_click(false);
    }
    let id = if r.chance(1, 5) { name(r) } else { format!("rId{}", r.u32(1, 99)) };
    for x in [generate_text_hyperlink_xml(&h, &id), generate_shape_hyperlink_xml(&h, &id)] {
        let w = frag(&x, "a link")?;
        let e = one(&w, "hlinkClick")?;
        eq("relationship id", e.attr_ns(NS_R, "id"), Some(id.as_str()))?;
        eq("tooltip", e.attr("tooltip"), tip.as_deref())?;
        eq("highlight", pml::boolish(e.attr("highlightClick")), hi)?;
        let act = e.attr("action").unwrap_or("");
        match k {
            1 => eq("action of a slide link", act, "ppaction://hlinksldjump")?,
            5.. => eq("jump", act.rsplit("jump=").next().unwrap_or(""), JUMP[k - 5].1)?,
            _ => eq("action of an outside link", act, "")?,
        }
    }
    let w = frag(&generate_hyperlink_relationship_xml(&h, &id), "a link relationship")?;
    let e = one(&w, "Relationship")?;
    eq("relationship id", e.attr("Id"), Some(id.as_str()))?;
    eq("outside", e.attr("TargetMode") == Some("External"), matches!(k, 0 | 2 | 3 | 4))?;
    let t = e.attr("Target").unwrap_or("").to_string();
    match k {
        0 => eq("address", t, url)?,
        1 => eq("slide", t, format!("slide{}.xml", n))?,
        2 => eq("mail", t, format!("mailto:{}", addr))?,
        3 => {
            let (a, s) = t.split_once("?subject=").ok_or_else(|| format!("no subject in {}", t))?;
            eq("mail address", a, &format!("mailto:{}", addr))?;
            if s.contains(['&', '#', ' ', '?', '"', '<', '>']) {
                return Err(format!("the subject {} is not encoded in {}", text::short(&subj), t));
            }
            eq("subject", undo_percent(s), subj)?;
        }
        4 => eq("file", undo_percent(&t), format!("file:///{}", path.replace('\\', "/")))?,
        _ => {}
    }
    Ok(Out::sig(w.canon() + &format!("{:?}{:?}", tip, hi)))
}

fn grads(r: &mut Rng) -> Res {
    let ty = *r.pick(&[GradientType::Linear, GradientType::Radial, GradientType::Rectangular, GradientType::Path]);
    let (d, ang) = match r.below(5) {
        0 => (GradientDirection::Horizontal, 0),
        1 => (GradientDirection::Vertical, 90),
        2 => (GradientDirection::DiagonalDown, 45),
        3 => (GradientDirection::DiagonalUp, 315),
        _ => {
            let v = if r.chance(1, 8) { r.u64() as u32 } else { r.u32(0, 1000) };
            (GradientDirection::Custom(v), v % 360)
        }
    };
    let (mut g, mut want): (GradientFill, Vec<(u32, String, u32)>) = match r.below(4) {
        0 => {
            let (a, b) = (text::color(r), text::color(r));
            (GradientFill::two_color(&a.0, &b.0), vec![(0, a.1, 0), (100000, b.1, 0)])
        }
        1 => {
            let (a, b, c) = (text::color(r), text::color(r), text::color(r));
            (GradientFill::three_color(&a.0, &b.0, &c.0), vec![(0, a.1, 0), (50000, b.1, 0), (100000, c.1, 0)])
        }
        2 => (GradientFill::linear(d), vec![]),
        _ => (GradientFill::new(ty), vec![]),
    };
    while want.len() < 2 || r.chance(1, 2) {
        let (c, h) = text::color(r);
        let pos = if r.chance(1, 8) { r.u32(100000, 200000) } else { r.u32(0, 100000) };
        let (mut s, p) = match r.below(6) {
            0 => (GradientStop::start(&c), 0),
            1 => (GradientStop::middle(&c), 50000),
            2 => (GradientStop::end(&c), 100000),
            _ => (GradientStop::new(pos, &c), pos.min(100000)),
        };
        let mut t = 0;
        if r.bool() {
            let v = r.u32(0, 130);
            s = s.with_transparency(v);
            t = v.min(100);
        }
        g = g.add_stop(s);
        want.push((p, h, t));
    }
    g.gradient_type = ty;
    g = g.with_direction(d);
    let rot = r.bool();
    g = g.with_rotate(rot);
    if r.bool() {
        g = g.sorted();
        want.sort_by_key(|w| w.0);
    }
    let w = frag(&generate_gradient_fill_xml(&g), "a gradient")?;
    let e = one(&w, "gradFill")?;
    eq("rotates with the shape", pml::boolish(e.attr("rotWithShape")), rot)?;
    let got: Vec<(u32, String, u32)> = e
        .at("gsLst")
        .map(|l| l.kids("gs"))
        .unwrap_or_default()
        .iter()
        .map(|s| {
            let c = s.child("srgbClr");
            let al = c.and_then(|c| c.child("alpha")).and_then(|a| a.attr("val")).and_then(|v| v.parse::<u32>().ok()).unwrap_or(100000);
            (s.attr("pos").and_then(|v| v.parse().ok()).unwrap_or(u32::MAX), c.and_then(|c| c.attr("val")).unwrap_or("").to_string(), 100 - al / 1000)
        })
        .collect();
    eq("stops", got, want)?;
    match ty {
        GradientType::Linear => eq("angle", e.child("lin").and_then(|l| l.attr("ang")), Some((ang * 60000).to_string().as_str()))?,
        t => {
            let p = e.child("path").and_then(|p| p.attr("path")).unwrap_or("");
            eq("path", p, match t { GradientType::Radial => "circle", GradientType::Rectangular => "rect", _ => "shape" })?;
        }
    }
    Ok(Out::sig(w.canon()))
}

// ---------------------------------------------------------------- sections

fn sections(ctx: &Ctx, r: &mut Rng) -> Res {
    let mut m = SectionManager::new();
    let mut v: Vec<(String, usize, usize)> = vec![];
    let names: Vec<String> = (0..1 + r.below(4)).map(|_| name(r)).collect();
    let big = r.chance(1, 10);
    let mut log = String::new();
    let at = |r: &mut Rng| if big && r.bool() { usize::MAX - r.below(4) } else { r.below(14) };
    for _ in 0..1 + r.below(14) {
        match r.below(8) {
            0..=3 => {
                let (n, f, c) = (r.pick(&names).clone(), at(r), if r.chance(1, 8) { 0 } else if big && r.chance(1, 4) { usize::MAX - r.below(3) } else { 1 + r.below(5) });
                // slides f..f+c as an exact integer range
                let hit = v.iter().any(|(_, f2, c2)| c > 0 && *c2 > 0 && (f as u128) < *f2 as u128 + *c2 as u128 && (*f2 as u128) < f as u128 + c as u128);
                let got = m.add_section(&n, f, c).is_ok();
                if got == hit {
                    return Err(format!("section {} of {} slides from {}: {} although it {} another of {:?}", n, c, f, if got { "added" } else { "refused" }, if hit { "overlaps" } else { "overlaps no" }, v));
                }
                if got {
                    v.push((n, f, c));
                    v.sort_by_key(|s| s.1);
                }
                log.push(if got { 'a' } else { 'x' });
            }
            4 => {
                let n = r.pick(&names).clone();
                let had = v.iter().any(|s| s.0 == n);
                v.retain(|s| s.0 != n);
                eq("removed", m.remove_section(&n), had)?;
                log.push('r');
            }
            5 => {
                let (o, n) = (r.pick(&names).clone(), r.pick(&names).clone());
                // which of several of the same name is renamed is up to the manager; the first is
                let got = m.rename_section(&o, &n);
                let at = v.iter().position(|s| s.0 == o);
                eq("renamed", got, at.is_some())?;
                if let Some(i) = at {
                    v[i].0 = n;
                }
                log.push('n');
            }
            6 if r.chance(1, 6) => {
                m.clear();
                v.clear();
                log.push('c');
            }
            _ => {}
        }
        let mut a: Vec<(String, usize, usize)> = m.sections().iter().map(|s| (s.name.clone(), s.first_slide, s.slide_count)).collect();
        if a.windows(2).any(|w| w[0].1 > w[1].1) {
            return Err(format!("sections are not in slide order: {:?}", a));
        }
        let mut b = v.clone();
        a.sort();
        b.sort();
        eq("sections", a, b)?;
        eq("count", (m.len(), m.is_empty()), (v.len(), v.is_empty()))?;
        for n in &names {
            eq("lookup", m.get_section(n).is_some(), v.iter().any(|s| &s.0 == n))?;
        }
        for s in [0, 1, 3, 5, 9, 17, usize::MAX, usize::MAX - 2] {
            let want = v.iter().find(|x| x.2 > 0 && s >= x.1 && (s as u128) < x.1 as u128 + x.2 as u128).map(|x| x.1);
            eq(&format!("section of slide {}", s), m.section_for_slide(s).map(|x| x.first_slide), want)?;
        }
    }
    ctx.see("section histories", log.clone());
    let total = r.below(16);
    let x = m.to_xml(total);
    if v.is_empty() {
        eq("XML without sections", x, String::new())?;
        return Ok(Out::sig(log));
    }
    let w = frag(&x, "sections")?;
    let mut ids = BTreeSet::new();
    let mut got = vec![];
    for s in w.desc("section") {
        let id = s.attr("id").unwrap_or("");
        let g: Vec<usize> = id.trim_start_matches('{').trim_end_matches('}').split('-').map(|p| p.len()).collect();
        if g != [8, 4, 4, 4, 12] || !id.starts_with('{') || !id.ends_with('}') || !id.chars().all(|c| c.is_ascii_hexdigit() || "{}-".contains(c)) {
            return Err(format!("section id {:?} is not a GUID", id));
        }
        if !ids.insert(id.to_string()) {
            return Err(format!("two sections share the id {}", id));
        }
        got.push((s.attr("name").unwrap_or("").to_string(), s.desc("sldId").iter().map(|e| e.attr("id").and_then(|v| v.parse::<usize>().ok()).unwrap_or(0)).collect::<Vec<_>>()));
    }
    let mut want: Vec<(String, Vec<usize>)> = m
        .sections()
        .iter()
        .map(|s| (s.name.clone(), (0..total).filter(|i| *i >= s.first_slide && i - s.first_slide < s.slide_count).map(|i| 256 + i).collect()))
        .collect();
    // empty sections at the same place may come in any order
    want.sort();
    got.sort();
    eq("sections written", got, want)?;
    Ok(Out::sig(log + &total.to_string()))
}

/// The slide ids sections name are those of the deck.
fn section_ids(r: &mut Rng) -> Res {
    let n = 1 + r.below(12);
    let d = create_pptx_with_content("x", (0..n).map(|_| SlideContent::new(&text::tag(r))).collect()).map_err(|e| e.to_string())?;
    let p = crate::opc::Pkg::load(&d)?;
    let ids: Vec<String> = p.xml.get("ppt/presentation.xml").and_then(|e| e.child("sldIdLst")).map(|l| l.kids("sldId").iter().map(|e| e.attr("id").unwrap_or("").to_string()).collect()).unwrap_or_default();
    let mut m = SectionManager::new();
    let f = r.below(n);
    m.add_section("s", f, n).map_err(|e| e.to_string())?;
    let w = frag(&m.to_xml(n), "sections")?;
    let got: Vec<String> = w.desc("sldId").iter().map(|e| e.attr("id").unwrap_or("").to_string()).collect();
    eq("slide ids of the section", got.as_slice(), &ids[f..])?;
    Ok(Out::sig(format!("{} {}", n, f)))
}

// ---------------------------------------------------------------- comments

fn comments(r: &mut Rng) -> Res {
    let mut l = CommentAuthorList::new();
    let mut who: Vec<(String, String)> = vec![];
    let names: Vec<String> = (0..1 + r.below(5)).map(|_| name(r)).collect();
    for _ in 0..r.below(9) {
        let (n, i) = (r.pick(&names).clone(), name(r));
        let id = l.get_or_add(&n, &i);
        let k = who.iter().position(|w| w.0 == n).unwrap_or_else(|| {
            who.push((n.clone(), i.clone()));
            who.len() - 1
        });
        eq("author id", id as usize, k)?;
        eq("author by id", l.get_by_id(id).map(|a| a.name.as_str()), Some(n.as_str()))?;
    }
    eq("authors", (l.len(), l.is_empty()), (who.len(), who.is_empty()))?;
    eq("unknown author", l.get_by_id(who.len() as u32).is_none(), true)?;
    let e = xml::parse(l.to_xml().as_bytes()).map_err(|m| format!("authors: {}", m))?;
    let got: Vec<(String, String, String)> = e.kids("cmAuthor").iter().map(|a| (a.attr("id").unwrap_or("").into(), a.attr("name").unwrap_or("").into(), a.attr("initials").unwrap_or("").into())).collect();
    eq("authors written", got, who.iter().enumerate().map(|(i, w)| (i.to_string(), w.0.clone(), w.1.clone())).collect())?;

    let mut s = SlideComments::new();
    let mut v: Vec<(u32, String, u32, u32, Option<String>, Option<u32>)> = vec![];
    let mut auto = true;
    for _ in 0..r.below(9) {
        let (a, t, x, y) = (r.u32(0, 3), if r.chance(1, 5) { text::wild(r) } else { text::any(r) }, r.u32(0, 9144000), r.u32(0, 6858000));
        if r.chance(2, 3) {
            s.add_comment(a, &t, x, y);
            v.push((a, t, x, y, None, None));
        } else {
            let mut c = Comment::new(a, &t).position(x, y);
            let d = if r.bool() { Some("2026-02-03T04:05:06.000".to_string()) } else { None };
            if let Some(d) = &d {
                c = c.date(d);
            }
            // an index the author has not used on this slide
            let used: BTreeSet<u32> = s.comments().iter().filter(|c| c.author_id == a).map(|c| c.index).collect();
            let i = (1..).find(|i| !used.contains(i) && !r.chance(1, 3)).unwrap();
            c = c.index(i);
            auto = false;
            s.add(c);
            v.push((a, t, x, y, d, Some(i)));
        }
    }
    eq("comments", (s.len(), s.is_empty()), (v.len(), v.is_empty()))?;
    let e = xml::parse(s.to_xml().as_bytes()).map_err(|m| format!("comments: {}", m))?;
    let k = e.kids("cm");
    eq("comments written", k.len(), v.len())?;
    let mut seen = BTreeSet::new();
    for (n, (c, (a, t, x, y, d, i))) in k.iter().zip(&v).enumerate() {
        let g = |p: &str, k: &str| c.at(p).and_then(|e| e.attr(k)).unwrap_or("").to_string();
        eq("author", c.attr("authorId"), Some(a.to_string().as_str()))?;
        eq("place", (g("pos", "x"), g("pos", "y")), (x.to_string(), y.to_string()))?;
        eq("text", c.child("text").map(|e| e.text()), Some(clean(t)))?;
        if let Some(d) = d {
            eq("date", c.attr("dt"), Some(d.as_str()))?;
        }
        let idx = c.attr("idx").unwrap_or("").to_string();
        if let Some(i) = i {
            eq("index", idx.clone(), i.to_string())?;
        } else if auto {
            eq("running index", idx.clone(), (n + 1).to_string())?;
        }
        if !seen.insert((*a, idx.clone())) {
            return Err(format!("author {} has two comments with index {}", a, idx));
        }
    }
    Ok(Out::sig(e.canon()))
}

// ---------------------------------------------------------------- merges

fn merges(r: &mut Rng) -> Res {
    let (rows, cols) = (r.below(7), r.below(7));
    let mut m = TableMergeMap::new(rows, cols);
    let mut own = vec![vec![None; cols]; rows];
    let mut n = 0;
    let mut log = String::new();
    for _ in 0..1 + r.below(10) {
        let far = |r: &mut Rng, v: usize| if r.chance(1, 20) { usize::MAX - r.below(3) } else { v };
        let (a, b) = (r.below(rows + 1), r.below(cols + 1));
        let (h, w) = (r.below(5), r.below(5));
        let (a, b, h, w) = (far(r, a), far(r, b), far(r, h), far(r, w));
        let fits = h > 0 && w > 0 && (a as u128 + h as u128) <= rows as u128 && (b as u128 + w as u128) <= cols as u128;
        let free = fits && (a..a + h).all(|i| (b..b + w).all(|j| own[i][j].is_none()));
        let got = if r.bool() {
            m.merge_cells(a, b, h, w)
        } else {
            MergeRegion::new(a, b, h, w).and_then(|x| m.add_merge(x))
        };
        if got.is_ok() != free {
            return Err(format!("merging {}x{} cells at ({}, {}) of a {}x{} table: {:?}", h, w, a, b, rows, cols, got));
        }
        log.push(if free { '+' } else { '-' });
        if free {
            for row in own.iter_mut().skip(a).take(h) {
                for c in row.iter_mut().skip(b).take(w) {
                    *c = Some((n, a, b, h, w));
                }
            }
            n += 1;
        }
        eq("regions", (m.len(), m.is_empty(), m.regions().len()), (n, n == 0, n))?;
    }
    eq("dimensions", m.dimensions(), (rows, cols))?;
    for i in 0..rows + 1 {
        for j in 0..cols + 1 {
            let s = m.cell_state(i, j);
            let e = frag(&format!("<a:tc{}/>", s.to_xml_attrs()), "a cell");
            let w = e?;
            let t = w.child("tc").ok_or("no cell")?;
            let at = |k: &str| t.attr(k).map(|v| v.to_string());
            let got = (at("gridSpan").unwrap_or("1".into()), at("rowSpan").unwrap_or("1".into()), pml::boolish(t.attr("hMerge")), pml::boolish(t.attr("vMerge")));
            let o = own.get(i).and_then(|x| x.get(j)).copied().flatten();
            let gone = matches!(o, Some((_, a, b, _, _)) if (i, j) != (a, b));
            eq("merged away", s.is_merged_away(), gone)?;
            match o {
                None => eq(&format!("cell ({}, {})", i, j), (got.0.as_str(), got.1.as_str(), got.2, got.3), ("1", "1", false, false))?,
                Some((_, a, b, h, w)) if (i, j) == (a, b) => eq("anchor", (got.0, got.1, got.2, got.3), (w.to_string(), h.to_string(), false, false))?,
                Some((_, a, b, ..)) => {
                    if i == a && !got.2 || j == b && !got.3 || i == a && got.3 || j == b && got.2 || !(got.2 || got.3) || got.0 != "1" || got.1 != "1" {
                        return Err(format!("cell ({}, {}) of the merge at ({}, {}) has {:?}", i, j, a, b, got));
                    }
                }
            }
        }
    }
    // two regions overlap exactly when they share a cell
    let reg = |r: &mut Rng| (r.below(5), r.below(5), 1 + r.below(4), 1 + r.below(4));
    let (p, q) = (reg(r), reg(r));
    let x = MergeRegion::new(p.0, p.1, p.2, p.3)?;
    let y = MergeRegion::new(q.0, q.1, q.2, q.3)?;
    let cells = |z: (usize, usize, usize, usize)| (z.0..z.0 + z.2).flat_map(move |i| (z.1..z.1 + z.3).map(move |j| (i, j))).collect::<BTreeSet<_>>();
    let (cx, cy) = (cells(p), cells(q));
    eq("overlap", x.overlaps(&y), cx.intersection(&cy).next().is_some())?;
    for i in 0..9 {
        for j in 0..9 {
            eq("contains", x.contains(i, j), cx.contains(&(i, j)))?;
            eq("anchor", x.is_anchor(i, j), (i, j) == (p.0, p.1))?;
        }
    }
    Ok(Out::sig(format!("{}x{}{}{:?}", rows, cols, log, own)))
}

// ---------------------------------------------------------------- media, pictures, connectors

fn media(r: &mut Rng) -> Res {
    const V: [(VideoFormat, &str, &str); 7] = [
        (VideoFormat::Mp4, "mp4", "video/mp4"),
        (VideoFormat::Wmv, "wmv", "video/x-ms-wmv"),
        (VideoFormat::Avi, "avi", "video/x-msvideo"),
        (VideoFormat::Mov, "mov", "video/quicktime"),
        (VideoFormat::Mkv, "mkv", "video/x-matroska"),
        (VideoFormat::Webm, "webm", "video/webm"),
        (VideoFormat::M4v, "m4v", "video/x-m4v"),
    ];
    const A: [(AudioFormat, &str, &str); 7] = [
        (AudioFormat::Mp3, "mp3", "audio/mpeg"),
        (AudioFormat::Wav, "wav", "audio/wav"),
        (AudioFormat::Wma, "wma", "audio/x-ms-wma"),
        (AudioFormat::M4a, "m4a", "audio/mp4"),
        (AudioFormat::Ogg, "ogg", "audio/ogg"),
        (AudioFormat::Flac, "flac", "audio/flac"),
        (AudioFormat::Aac, "aac", "audio/aac"),
    ];
    let b = (r.u32(0, 9144000), r.u32(0, 9144000), r.u32(0, 9144000), r.u32(0, 9144000));
    let alt = if r.bool() { Some(name(r)) } else { None };
    let (id, link, img) = (2 + r.below(500), format!("rId{}", r.u32(1, 50)), format!("rId{}", r.u32(51, 99)));
    let video = r.bool();
    let i = r.below(7);
    let case = |r: &mut Rng, s: &str| if r.bool() { s.to_uppercase() } else { s.to_string() };
    let (x, ctx, ext, mime) = if video {
        let (f, e, t) = V[i];
        let p = format!("/tmp/{}.{}/{}.{}", text::tag(r), A[i].1, text::tag(r), case(r, e));
        let v = Video::from_file(&p, b.0, b.1, b.2, b.3).ok_or_else(|| format!("{} is not taken for a video", p))?;
        eq("format by extension", v.format, f)?;
        eq("source", &v.source, &p)?;
        if Video::from_file(&format!("x.{}", A[i].1), 0, 0, 1, 1).is_some() || Video::from_file(&text::tag(r), 0, 0, 1, 1).is_some() {
            return Err("a file that is no video is taken for one".into());
        }
        let mut v = if r.bool() { v } else { Video::new(&p, f, b.0, b.1, b.2, b.3) };
        if let Some(a) = &alt {
            v = v.with_alt_text(a);
        }
        if r.bool() {
            let (vol, s, e) = (r.u32(0, 200), r.u32(0, 9999), r.u32(0, 9999));
            v = v.with_options(VideoOptions::auto_play().with_volume(vol).with_loop(true).with_start_time(s).with_end_time(e).with_muted(true)).with_poster("p.png");
            let o = &v.options;
            eq("options", (o.auto_play, o.volume, o.loop_playback, o.start_time, o.end_time, o.muted), (true, vol.min(100), true, Some(s), Some(e), true))?;
        }
        (generate_video_xml(&v, id, &link, &img), media::video_content_type(f), e, t)
    } else {
        let (f, e, t) = A[i];
        let p = format!("{}.{}", text::tag(r), case(r, e));
        let v = Audio::from_file(&p, b.0, b.1, b.2, b.3).ok_or_else(|| format!("{} is not taken for a sound", p))?;
        eq("format by extension", v.format, f)?;
        if Audio::from_file(&format!("x.{}", V[i].1), 0, 0, 1, 1).is_some() {
            return Err("a video is taken for a sound".into());
        }
        let mut v = v;
        if let Some(a) = &alt {
            v = v.with_alt_text(a);
        }
        let vol = r.u32(0, 200);
        v = v.with_options(AudioOptions::auto_play().with_volume(vol).with_loop(true).with_play_across_slides(true));
        eq("options", (v.options.auto_play, v.options.volume, v.options.loop_playback, v.options.play_across_slides), (true, vol.min(100), true, true))?;
        (generate_audio_xml(&v, id, &link), media::audio_content_type(f), e, t)
    };
    let w = frag(&format!("<p:cSld><p:spTree>{}</p:spTree></p:cSld>", x), if video { "a video" } else { "a sound" })?;
    let s = pml::shapes(&w);
    eq("objects", s.len(), 1)?;
    let s = &s[0];
    eq("id", s.id as usize, id)?;
    eq("place", (s.x, s.y, s.cx, s.cy), (b.0 as i64, b.1 as i64, b.2 as i64, b.3 as i64))?;
    eq("description", s.descr.as_deref(), Some(alt.as_deref().unwrap_or(if video { "Video" } else { "Audio" })))?;
    let f = s.e().desc(if video { "videoFile" } else { "audioFile" });
    eq("media link", f.first().and_then(|e| e.attr_ns(NS_R, "link")), Some(link.as_str()))?;
    eq("embedded media", s.e().desc("media").first().and_then(|e| e.attr_ns(NS_R, "embed")), Some(link.as_str()))?;
    if video {
        eq("picture shown", s.embed.as_deref(), Some(img.as_str()))?;
    }
    let w = frag(&ctx, "a media content type")?;
    let e = one(&w, "Default")?;
    eq("content type", (e.attr("Extension"), e.attr("ContentType")), (Some(ext), Some(mime)))?;
    // pictures
    let (rid, path) = (r.below(90) + 1, format!("../media/{}.png", name(r)));
    let w = frag(&generate_image_relationship(rid, &path), "a picture relationship")?;
    let e = one(&w, "Relationship")?;
    eq("picture relationship", (e.attr("Id"), e.attr("Target")), (Some(format!("rId{}", rid).as_str()), Some(path.as_str())))?;
    let (ext, mime) = *r.pick(&[("png", "image/png"), ("jpg", "image/jpeg"), ("jpeg", "image/jpeg"), ("gif", "image/gif"), ("bmp", "image/bmp"), ("tiff", "image/tiff"), ("svg", "image/svg+xml")]);
    let up = r.bool();
    let w = frag(&generate_image_content_type(&if up { ext.to_uppercase() } else { ext.into() }), "a picture content type")?;
    let e = one(&w, "Default")?;
    eq("picture content type", (e.attr("Extension"), e.attr("ContentType")), (Some(ext), Some(mime)))?;
    Ok(Out::sig(format!("{}{}{:?}{}", video, i, b, id)))
}

fn lines(r: &mut Rng) -> Res {
    let p = (r.u32(0, 9144000), r.u32(0, 6858000), r.u32(0, 9144000), r.u32(0, 6858000));
    let (c, h) = text::color(r);
    let (id, w) = (r.u32(2, 900), r.u32(0, 100000));
    let x = generate_connector_xml(p.0, p.1, p.2, p.3, id, &c, w);
    let e = frag(&format!("<p:cSld><p:spTree>{}</p:spTree></p:cSld>", x), "an arrow")?;
    let s = pml::shapes(&e);
    eq("objects", s.len(), 1)?;
    let s = &s[0];
    eq("id", s.id, id)?;
    let (a, b) = ends(s);
    eq("from", a, (p.0 as i64, p.1 as i64))?;
    eq("to", b, (p.2 as i64, p.3 as i64))?;
    let ln = s.e().at("spPr/ln").ok_or("no line")?;
    eq("width", ln.attr("w"), Some(w.to_string().as_str()))?;
    eq("colour", ln.child("solidFill").and_then(pml::color_of), Some(h))?;
    if ln.child("tailEnd").and_then(|t| t.attr("type")).unwrap_or("none") == "none" {
        return Err("the arrow has no head".into());
    }
    // several shapes, one after another
    let n = r.below(6);
    let specs: Vec<_> = (0..n).map(|_| crate::spec::shape::random(r, false)).collect();
    let start = r.u32(2, 50);
    let x = generate_shapes_xml(&specs.iter().map(|s| s.build()).collect::<Vec<_>>(), start);
    let e = frag(&format!("<p:cSld><p:spTree>{}</p:spTree></p:cSld>", x), "shapes")?;
    let got = pml::shapes(&e);
    eq("shapes", got.len(), n)?;
    for (i, (g, m)) in got.iter().zip(&specs).enumerate() {
        eq("shape id", g.id, start + i as u32)?;
        eq("place of a shape", (g.x, g.y, g.cx, g.cy), (m.x as i64, m.y as i64, m.w as i64, m.h as i64))?;
    }
    Ok(Out::sig(e.canon()))
}

fn ends(s: &pml::Shape) -> ((i64, i64), (i64, i64)) {
    let (mut a, mut b) = ((s.x, s.y), (s.x + s.cx, s.y + s.cy));
    if s.flip_h {
        std::mem::swap(&mut a.0, &mut b.0);
    }
    if s.flip_v {
        std::mem::swap(&mut a.1, &mut b.1);
    }
    (a, b)
}

// ---------------------------------------------------------------- ink and signatures

fn ink(r: &mut Rng) -> Res {
    let mut ink = InkAnnotations::new();
    let mut m = vec![];
    for _ in 0..r.below(6) {
        if r.chance(1, 12) {
            ink.clear();
            m.clear();
        }
        let (c, h) = text::color(r);
        let w = r.u32(1, 900);
        let o = if r.bool() { Some(r.range(-20, 120) as f32 / 100.0) } else { None };
        let flat = r.bool();
        let mut pen = InkPen::new(&c, w);
        if let Some(o) = o {
            pen = pen.opacity(o);
        }
        if flat {
            pen = pen.tip(PenTip::Flat);
        }
        let pts: Vec<(f64, f64)> = (0..r.below(8)).map(|_| (r.range(-50, 9000000) as f64, r.range(0, 6000000) as f64)).collect();
        let k = r.below(pts.len() + 1);
        let mut s = InkStroke::new(pen).add_points(&pts[..k]);
        for p in &pts[k..] {
            s = s.add_point(p.0, p.1);
        }
        eq("points", (s.len(), s.is_empty()), (pts.len(), pts.is_empty()))?;
        ink.add_stroke(s);
        m.push((h, w, o.map(|v| v.clamp(0.0, 1.0)).unwrap_or(1.0), flat, pts));
    }
    eq("strokes", (ink.len(), ink.is_empty(), ink.strokes().len()), (m.len(), m.is_empty(), m.len()))?;
    if m.is_empty() {
        eq("ink without strokes", (ink.part_xml(), ink.to_xml()), (String::new(), String::new()))?;
        return Ok(Out::trivial());
    }
    let e = xml::parse(ink.part_xml().as_bytes()).map_err(|x| format!("ink: {}", x))?;
    let (br, tr) = (e.desc("brush"), e.desc("trace"));
    eq("traces", tr.len(), m.len())?;
    let mut used = BTreeSet::new();
    for (t, (h, w, o, flat, pts)) in tr.iter().zip(&m) {
        let want: Vec<i64> = pts.iter().flat_map(|p| [p.0 as i64, p.1 as i64]).collect();
        let got: Vec<i64> = t.text().split([' ', ',']).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap_or(i64::MIN)).collect();
        eq("points of a trace", got, want)?;
        let id = t.attr("brushRef").unwrap_or("").trim_start_matches('#').to_string();
        let b: Vec<_> = br.iter().filter(|b| b.attrs.iter().any(|a| a.local == "id" && a.value == id)).collect();
        eq(&format!("brushes called {}", id), b.len(), 1)?;
        used.insert(id);
        eq("pen colour", b[0].attr("color"), Some(format!("#{}", h).as_str()))?;
        eq("pen width", b[0].attr("width"), Some(w.to_string().as_str()))?;
        eq("pen tip", b[0].attr("tip"), Some(if *flat { "flat" } else { "ball" }))?;
        let tp: f32 = b[0].attr("transparency").and_then(|v| v.parse().ok()).unwrap_or(0.0);
        if ((1.0 - o) * 255.0 - tp).abs() > 2.6 {
            return Err(format!("a pen of opacity {} is written with transparency {}", o, tp));
        }
    }
    eq("brushes of their own", used.len(), m.len())?;
    Ok(Out::sig(e.canon()))
}

fn sign(r: &mut Rng) -> Res {
    let (n, c) = (name(r), if r.bool() { Some(text::any(r)) } else { None });
    let (h, hu) = *r.pick(&[
        (HashAlgorithm::Sha256, "xmlenc#sha256"),
        (HashAlgorithm::Sha384, "xmldsig-more#sha384"),
        (HashAlgorithm::Sha512, "xmlenc#sha512"),
        (HashAlgorithm::Sha1, "xmldsig#sha1"),
    ]);
    let (k, ku) = *r.pick(&[(SignatureCommitment::Created, "ProofOfCreation"), (SignatureCommitment::Approved, "ProofOfApproval"), (SignatureCommitment::Reviewed, "ProofOfReview")]);
    let d = if r.bool() { Some(format!("20{:02}-01-02T03:04:05Z", r.below(100))) } else { None };
    let mut s = DigitalSignature::new(SignerInfo::new(&n).email("a@b").title("t").organization("o"));
    if r.bool() {
        s = s.commitment(k).hash_algorithm(h);
    } else {
        s = s.hash_algorithm(h).commitment(k);
    }
    if let Some(c) = &c {
        s = s.comments(c);
    }
    if let Some(d) = &d {
        s = s.sign_date(d);
    }
    let e = xml::parse(s.to_signature_xml().as_bytes()).map_err(|x| format!("signature: {}", x))?;
    eq("signer", e.desc("KeyName").first().map(|e| e.text()), Some(n.clone()))?;
    eq("signature text", e.desc("SignatureText").first().map(|e| e.text()), Some(n))?;
    eq("comments", e.desc("SignatureComments").first().map(|e| e.text()), c)?;
    let all = s.to_signature_xml();
    for (what, u) in [("hash", hu), ("commitment", ku)] {
        if !all.contains(u) {
            return Err(format!("the signature does not name its {} {}", what, u));
        }
    }
    for (_, o) in [(0, "ProofOfCreation"), (1, "ProofOfApproval"), (2, "ProofOfReview")] {
        if o != ku && all.contains(o) {
            return Err(format!("the signature of {} also names {}", ku, o));
        }
    }
    if let Some(d) = d && !all.contains(&d) {
        return Err(format!("the signature does not carry its date {}", d));
    }
    Ok(Out::sig(e.canon()))
}

// ---------------------------------------------------------------- inline markup

fn inline(r: &mut Rng) -> Res {
    // (text, bold, italic, code) spans with markers between words only
    let mut src = String::new();
    let mut want: Vec<(String, bool, bool, bool)> = vec![];
    let mut push = |t: &str, b: bool, i: bool, c: bool| {
        if t.is_empty() {
            return;
        }
        match want.last_mut() {
            Some(l) if (l.1, l.2, l.3) == (b, i, c) => l.0.push_str(t),
            _ => want.push((t.into(), b, i, c)),
        }
    };
    let word = |r: &mut Rng| text::any(r).replace(['*', '_', '`'], "-");
    for k in 0..1 + r.below(6) {
        if k > 0 {
            src.push(' ');
            push(" ", false, false, false);
        }
        let t = word(r);
        let m = *r.pick(&['*', '_']);
        match r.below(6) {
            0 => {
                src.push_str(&format!("{m}{m}{t}{m}{m}"));
                push(&t, true, false, false);
            }
            1 => {
                src.push_str(&format!("{m}{t}{m}"));
                push(&t, false, true, false);
            }
            2 => {
                let t = if r.bool() { format!("{} *x* __y__", t) } else { t };
                src.push_str(&format!("`{t}`"));
                push(&t, false, false, true);
            }
            3 => {
                let (a, b) = (word(r), word(r));
                src.push_str(&format!("**{a} _{t}_ {b}**"));
                push(&format!("{} ", a), true, false, false);
                push(&t, true, true, false);
                push(&format!(" {}", b), true, false, false);
            }
            _ => {
                src.push_str(&t);
                push(&t, false, false, false);
            }
        }
    }
    let g = slide::parse_inline_formatting(&src);
    let mut got: Vec<(String, bool, bool, bool)> = vec![];
    for s in g {
        match got.last_mut() {
            Some(l) if (l.1, l.2, l.3) == (s.bold, s.italic, s.code) => l.0.push_str(&s.text),
            _ => got.push((s.text, s.bold, s.italic, s.code)),
        }
    }
    eq(&format!("spans of {:?}", src), &got, &want)?;
    let (size, bb, bi) = (r.u32(100, 4000), r.bool(), r.bool());
    let col = if r.bool() { Some(text::color(r)) } else { None };
    let x = slide::generate_rich_text_runs(&src, size, bb, bi, col.as_ref().map(|c| c.0.as_str()));
    let w = frag(&format!("<a:p>{}</a:p>", x), "rich text")?;
    let p = pml::runs_of(one(&w, "p")?);
    let mut runs: Vec<(String, bool, bool, bool)> = vec![];
    for q in &p.runs {
        let code = q.p.get("latin").map(|s| s.as_str()) == Some("Consolas");
        eq("size", q.p.get("sz").cloned(), Some(size.to_string()))?;
        if !code && let Some(c) = &col {
            eq("colour", q.p.get("color"), Some(&c.1))?;
        }
        let k = (pml::boolish(q.p.get("b").map(|s| s.as_str())), pml::boolish(q.p.get("i").map(|s| s.as_str())), code);
        match runs.last_mut() {
            Some(l) if (l.1, l.2, l.3) == k => l.0.push_str(&q.text),
            _ => runs.push((q.text.clone(), k.0, k.1, k.2)),
        }
    }
    let mut exp: Vec<(String, bool, bool, bool)> = vec![];
    for (t, b, i, c) in &want {
        let k = if *c { (false, false, true) } else { (*b || bb, *i || bi, false) };
        match exp.last_mut() {
            Some(l) if (l.1, l.2, l.3) == k => l.0.push_str(t),
            _ => exp.push((t.clone(), k.0, k.1, k.2)),
        }
    }
    eq(&format!("runs of {:?}", src), runs, exp)?;
    let u = r.bool();
    let w = frag(&format!("<a:r>{}<a:t/></a:r>", slide::generate_text_props(size, bb, bi, u, col.as_ref().map(|c| c.0.as_str()))), "text properties")?;
    let q = &pml::runs_of(&w).runs[0];
    let f = Fmt { b: bb, i: bi, u, color: col.map(|c| c.1), ..Fmt::default() };
    eq("size", q.p.get("sz").cloned(), Some(size.to_string()))?;
    let mut q2 = q.p.clone();
    q2.remove("sz");
    same_fmt(&q2, &f, None)?;
    Ok(Out::sig(src))
}

// ---------------------------------------------------------------- the XML writer

fn writer(r: &mut Rng) -> Res {
    fn build(r: &mut Rng, w: &mut XmlWriter, out: &mut String, depth: usize) {
        for _ in 0..r.below(4) {
            let n = format!("e{}", r.below(4));
            let attrs: Vec<(String, String)> = (0..r.below(3)).map(|i| (format!("a{}", i), text::any(r))).collect();
            let av: Vec<(&str, &str)> = attrs.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
            let at: String = attrs.iter().map(|(a, b)| format!(" {}={:?}", a, b)).collect();
            match r.below(4) {
                0 => {
                    w.empty_element(&n, &av);
                    out.push_str(&format!("<{}{}></>", n, at));
                }
                1 => {
                    let t = text::any(r);
                    w.text(&t);
                    out.push_str(&format!("\u{1}{}\u{2}", t));
                }
                _ => {
                    w.start_element(&n, &av);
                    out.push_str(&format!("<{}{}>", n, at));
                    if depth < 4 {
                        build(r, w, out, depth + 1);
                    }
                    w.end_element(&n);
                    out.push_str("</>");
                }
            }
        }
    }
    fn show(e: &Elem, out: &mut String) {
        let at: String = e.attrs.iter().map(|a| format!(" {}={:?}", a.local, a.value)).collect();
        out.push_str(&format!("<{}{}>", e.local, at));
        for k in &e.children {
            match k {
                xml::Node::Elem(c) => show(c, out),
                xml::Node::Text(t) => out.push_str(&format!("\u{1}{}\u{2}", t)),
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        out.push_str("</>");
    }
    let mut w = if r.bool() { XmlWriter::new() } else { XmlWriter::with_capacity(r.below(99)) };
    if r.bool() {
        w.xml_declaration();
    }
    let mut want = String::from("<root>");
    w.start_element("root", &[]);
    build(r, &mut w, &mut want, 0);
    w.end_element("root");
    want.push_str("</>");
    let s = w.as_str().to_string();
    let f = w.finish();
    eq("finished text", &f, &s)?;
    let e = xml::parse(f.as_bytes()).map_err(|m| format!("written XML: {}: {}", m, f))?;
    let mut got = String::new();
    show(&e, &mut got);
    let flat = |s: &str| s.replace("\u{2}\u{1}", "");
    eq("written tree", flat(&got), flat(&want))?;
    ppt_rs::core::validate_well_formed_xml(&f).map_err(|e| format!("well-formed text refused: {:?}", e))?;
    Ok(Out::sig(got))
}

pub fn c30(ctx: &Ctx) {
    ctx.probe("connection-sites", || {
        // sites of a rectangle in the format: top, left, bottom, right
        for (s, i) in [(ConnectionSite::Top, "0"), (ConnectionSite::Left, "1"), (ConnectionSite::Bottom, "2"), (ConnectionSite::Right, "3")] {
            let c = Connector::straight(0, 0, 9, 9).connect_start(2, s);
            let w = frag(&generate_cxn_xml(&c, 5), "a connector")?;
            eq(&format!("site of {:?}", s), w.desc("stCxn").first().and_then(|e| e.attr("idx")), Some(i))?;
        }
        Ok(())
    });
    ctx.probe("lone-markers", || {
        for t in ["2 * 3", "snake_case_name", "a ` b", "5*"] {
            let s: String = slide::parse_inline_formatting(t).iter().map(|s| s.text.clone()).collect();
            eq("text kept", s.as_str(), t)?;
        }
        Ok(())
    });
    ctx.cases("text", ctx.n(72000, 720000), |r, _| texts(r));
    ctx.cases("links", ctx.n(48000, 480000), |r, _| links(r));
    ctx.cases("gradients", ctx.n(36000, 360000), |r, _| grads(r));
    ctx.cases("sections", ctx.n(36000, 360000), |r, _| sections(ctx, r));
    ctx.cases("section-ids", ctx.n(900, 9000), |r, _| section_ids(r));
    ctx.cases("comments", ctx.n(36000, 360000), |r, _| comments(r));
    ctx.cases("merges", ctx.n(36000, 360000), |r, _| merges(r));
    ctx.cases("media", ctx.n(30000, 300000), |r, _| media(r));
    ctx.cases("lines", ctx.n(24000, 240000), |r, _| lines(r));
    ctx.cases("ink", ctx.n(18000, 180000), |r, _| ink(r));
    ctx.cases("signature", ctx.n(18000, 180000), |r, _| sign(r));
    ctx.cases("inline", ctx.n(48000, 480000), |r, _| inline(r));
    ctx.cases("writer", ctx.n(36000, 360000), |r, _| writer(r));
}
