//! Reading decks back: the reader and importer against the model of what a package holds, and
//! histories of edits against a list of slides.
use super::gen1::{brief, sound, write};
use crate::opc::Pkg;
use crate::pml;
use crate::report::{Ctx, Out, Res};
use crate::rng::{Rng, hash_str};
use crate::spec::deck::{self, ALL, Profile, SlideS, TEXT, clean};
use crate::spec::foreign::{self, Foreign};
use crate::text::short;
use crate::xml::{Elem, Node};
use ppt_rs::generator::SlideContent;
use ppt_rs::oxml::editor::PresentationEditor;
use ppt_rs::oxml::presentation::PresentationReader;
use ppt_rs::oxml::slide::ParsedSlide;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

fn file(dir: &Path, case: u64, n: &str) -> PathBuf {
    let _ = std::fs::create_dir_all(dir);
    dir.join(format!("{:x}-{}.pptx", case, n))
}

/// Everything the reader reports about a slide, in one comparable form.
#[derive(Debug, PartialEq, Clone)]
struct Seen {
    title: Option<String>,
    body: Vec<String>,
    shapes: Vec<SeenShape>,
    tables: Vec<Vec<Vec<(String, u32, u32)>>>,
}
#[derive(Debug, PartialEq, Clone)]
struct SeenShape {
    name: String,
    prst: Option<String>,
    at: (i64, i64, i64, i64),
    title: bool,
    body: bool,
    paras: Vec<(u32, Vec<(String, bool, bool, bool, Option<u32>, Option<String>)>)>,
}

fn seen(s: &ParsedSlide) -> Seen {
    Seen {
        title: s.title.clone(),
        body: s.body_text.clone(),
        shapes: s
            .shapes
            .iter()
            .map(|x| SeenShape {
                name: x.name.clone(),
                prst: x.shape_type.clone(),
                at: (x.x, x.y, x.width, x.height),
                title: x.is_title,
                body: x.is_body,
                paras: x.paragraphs.iter().filter(|p| !p.runs.is_empty()).map(|p| (p.level, p.runs.iter().filter(|r| !r.text.is_empty()).map(|r| (r.text.clone(), r.bold, r.italic, r.underline, r.font_size, r.color.clone())).collect())).collect(),
            })
            .collect(),
        tables: s.tables.iter().map(|t| t.rows.iter().map(|r| r.iter().map(|c| (c.text.clone(), c.row_span, c.col_span)).collect()).collect()).collect(),
    }
}

fn cmp(got: &Seen, want: &Seen) -> Result<(), String> {
    if got.title != want.title {
        return Err(format!("title {:?} is read as {:?}", want.title, got.title));
    }
    if got.body != want.body {
        return Err(format!("body text {:?} is read as {:?}", want.body, got.body));
    }
    if got.shapes.len() != want.shapes.len() {
        return Err(format!("{} shapes are read as {}", want.shapes.len(), got.shapes.len()));
    }
    for (i, (g, w)) in got.shapes.iter().zip(&want.shapes).enumerate() {
        if g != w {
            return Err(format!("shape {} {:?} is read as {:?}", i, w, g));
        }
    }
    if got.tables != want.tables {
        return Err(format!("tables {:?} are read as {:?}", want.tables, got.tables));
    }
    Ok(())
}

/// What a slide part says, by the harness's own reader.
fn of_xml(sl: &Elem) -> Seen {
    let mut o = Seen { title: None, body: vec![], shapes: vec![], tables: vec![] };
    for s in pml::shapes(sl) {
        match s.kind.as_str() {
            "sp" => {
                let n = s.name.to_lowercase();
                let title = n.contains("title");
                let body = !title && n.contains("content");
                let paras: Vec<_> = s
                    .paras
                    .iter()
                    .map(|p| {
                        let runs: Vec<_> = p
                            .runs
                            .iter()
                            .filter(|r| !r.text.is_empty())
                            .map(|r| {
                                let f = |k: &str| pml::boolish(r.p.get(k).map(|s| s.as_str()));
                                let u = r.p.get("u").is_some_and(|u| u != "none");
                                let color = r.p.get("color").filter(|c| c.len() == 6 && c.bytes().all(|b| b.is_ascii_hexdigit())).cloned();
                                (r.text.clone(), f("b"), f("i"), u, r.p.get("sz").and_then(|v| v.parse().ok()), color)
                            })
                            .collect();
                        (p.lvl as u32, runs)
                    })
                    .filter(|p: &(u32, Vec<_>)| !p.1.is_empty())
                    .collect();
                let lines: Vec<String> = paras.iter().map(|p| p.1.iter().map(|r| r.0.as_str()).collect::<String>()).collect();
                if title {
                    o.title = Some(lines.join("\n"));
                } else if body {
                    o.body.extend(lines.iter().filter(|l| !l.is_empty()).cloned());
                }
                o.shapes.push(SeenShape { name: s.name.clone(), prst: s.prst.clone(), at: (s.x, s.y, s.cx, s.cy), title, body, paras });
            }
            "table" => o.tables.push(s.table.as_ref().unwrap().rows.iter().map(|r| r.iter().map(|c| (c.text(), c.row_span, c.grid_span)).collect()).collect()),
            _ => {}
        }
    }
    o
}

fn of_model(s: &foreign::FSlide) -> Seen {
    let mut o = Seen { title: None, body: vec![], shapes: vec![], tables: vec![] };
    for x in s.shapes() {
        if x.is_title() {
            o.title = Some(x.text());
        } else if x.is_body() {
            o.body.extend(x.paras.iter().map(|p| p.text()).filter(|t| !t.is_empty()));
        }
        o.shapes.push(SeenShape {
            name: x.name.clone(),
            prst: x.prst.clone(),
            at: (x.x, x.y, x.w, x.h),
            title: x.is_title(),
            body: !x.is_title() && x.is_body(),
            paras: x
                .paras
                .iter()
                .map(|p| (p.lvl, p.runs.iter().filter(|r| !r.0.text.is_empty()).map(|(r, _)| (r.text.clone(), r.b, r.i, r.u, r.sz, r.color.clone())).collect::<Vec<_>>()))
                .filter(|p| !p.1.is_empty())
                .collect(),
        });
    }
    o.tables = s.tables().iter().map(|t| t.iter().map(|r| r.iter().map(|c| (c.text(), c.rs, c.gs)).collect()).collect()).collect();
    o
}

fn has_all(texts: &[String], s: &Seen) -> Result<(), String> {
    let blob = texts.join("\n");
    let mut want: Vec<&str> = s.shapes.iter().flat_map(|x| x.paras.iter()).flat_map(|p| p.1.iter()).map(|r| r.0.as_str()).collect();
    want.extend(s.tables.iter().flatten().flatten().map(|c| c.0.as_str()));
    for w in want {
        if !blob.contains(w) {
            return Err(format!("{} is not among the extracted texts", short(w)));
        }
    }
    Ok(())
}

/// The imported presentation shows what the reader found.
fn imported(got: &SlideContent, s: &Seen) -> Result<(), String> {
    if got.title != s.title.clone().unwrap_or_default() {
        return Err(format!("title {:?} is imported as {:?}", s.title, got.title));
    }
    let want: Vec<(String, u32)> = s.shapes.iter().filter(|x| x.body).flat_map(|x| x.paras.iter()).map(|p| (p.1.iter().map(|r| r.0.as_str()).collect(), p.0)).collect();
    let have: Vec<(String, u32)> = got.bullets.iter().map(|b| (b.text.clone(), b.level)).collect();
    if want != have {
        return Err(format!("bullets {:?} are imported as {:?}", want, have));
    }
    let want: Vec<&SeenShape> = s.shapes.iter().filter(|x| !x.body && !x.title).collect();
    if want.len() != got.shapes.len() {
        return Err(format!("{} further shapes are imported as {}", want.len(), got.shapes.len()));
    }
    for (w, g) in want.iter().zip(&got.shapes) {
        let text = w.paras.iter().map(|p| p.1.iter().map(|r| r.0.as_str()).collect::<String>()).collect::<Vec<_>>().join("\n");
        if g.text.clone().unwrap_or_default() != text {
            return Err(format!("shape text {} is imported as {:?}", short(&text), g.text));
        }
        let at = [w.at.0, w.at.1, w.at.2, w.at.3];
        let have = [g.x as i64, g.y as i64, g.width as i64, g.height as i64];
        if at.iter().all(|v| (0..=u32::MAX as i64).contains(v)) && at != have {
            return Err(format!("shape at {:?} is imported at {:?}", at, have));
        }
        if let Some(p) = &w.prst
            && ppt_rs::generator::ShapeType::from_preset_name(p).is_some()
            && g.shape_type.preset_name() != p {
                return Err(format!("shape {} is imported as {:?}", p, g.shape_type));
            }
    }
    match (s.tables.first(), &got.table) {
        (None, None) => {}
        (Some(t), Some(g)) => {
            let have: Vec<Vec<String>> = g.rows.iter().map(|r| r.cells.iter().map(|c| c.text.clone()).collect()).collect();
            let want: Vec<Vec<String>> = t.iter().map(|r| r.iter().map(|c| c.0.clone()).collect()).collect();
            if have != want {
                return Err(format!("table {:?} is imported as {:?}", want, have));
            }
        }
        (w, g) => return Err(format!("a table is {} and imported as {}", w.is_some(), g.is_some())),
    }
    Ok(())
}

fn reimport(ctx: &Ctx, f: &Path, dir: &Path, case: u64, slides: &[Seen], title: Option<&str>) -> Result<(), String> {
    let p = ppt_rs::import::import_pptx(f.to_str().unwrap()).map_err(|e| format!("import refused a sound package: {}", e))?;
    if p.slide_count() != slides.len() {
        return Err(format!("{} slides are imported as {}", slides.len(), p.slide_count()));
    }
    if let Some(t) = title.filter(|t| !t.is_empty())
        && p.get_title() != t {
            return Err(format!("document title {} is imported as {:?}", short(t), p.get_title()));
        }
    for (i, (g, w)) in p.slides().iter().zip(slides).enumerate() {
        imported(g, w).map_err(|e| format!("slide {}: {}", i + 1, e))?;
    }
    ctx.count("slides imported", slides.len() as u64);
    if slides.is_empty() {
        return Ok(());
    }
    // written again, the import shows the same text in the same places
    let b = p.build().map_err(|e| format!("an imported deck cannot be written: {}", e))?;
    sound(&b).map_err(|e| format!("imported and written again: {}", e))?;
    let f2 = file(dir, case, "again");
    std::fs::write(&f2, &b).unwrap();
    let rd = PresentationReader::open(f2.to_str().unwrap()).map_err(|e| format!("cannot read the re-export: {}", e))?;
    for (i, w) in slides.iter().enumerate() {
        let got = rd.get_slide(i).map_err(|e| e.to_string())?;
        let g = seen(&got);
        let has_table = !w.tables.is_empty();
        if clean(g.title.as_deref().unwrap_or("")) != clean(w.title.as_deref().unwrap_or("")) {
            return Err(format!("slide {}: title {:?} reads {:?} after import and export", i + 1, w.title, g.title));
        }
        if !has_table && g.body.len() != w.body.len() && !w.body.iter().any(|b| b.contains('\n')) {
            return Err(format!("slide {}: body {:?} reads {:?} after import and export", i + 1, w.body, g.body));
        }
        if !has_table && w.body.iter().zip(&g.body).any(|(a, b)| clean(a) != clean(b)) && !w.body.iter().any(|b| b.contains('\n')) {
            return Err(format!("slide {}: body {:?} reads {:?} after import and export", i + 1, w.body, g.body));
        }
        if has_table {
            let (a, b) = (w.tables[0].iter().flatten().map(|c| clean(&c.0)).collect::<Vec<_>>(), g.tables.first().map(|t| t.iter().flatten().map(|c| clean(&c.0)).collect::<Vec<_>>()).unwrap_or_default());
            if a != b {
                return Err(format!("slide {}: table {:?} reads {:?} after import and export", i + 1, a, b));
            }
        }
    }
    let _ = std::fs::remove_file(&f2);
    Ok(())
}

pub fn c10(ctx: &Ctx) {
    ctx.rule("Distinct by slide structure of the generated deck, or by object kinds and naming style of the foreign package.");
    let dir = ctx.scratch.join("rd");
    let own = |group: &str, n: u64, p: Profile| {
        ctx.cases(group, n, |r: &mut Rng, case| -> Res {
            let d = deck::random(r, &p, None);
            let b = write(&d)?;
            let f = file(&dir, case, "own");
            std::fs::write(&f, &b).unwrap();
            let k = Pkg::load(&b)?;
            let rd = PresentationReader::open(f.to_str().unwrap()).map_err(|e| format!("the reader refused a generated deck: {} — {}", e, brief(&d)))?;
            let parts = k.slides();
            if rd.slide_count() != d.slides.len() || rd.info().slide_count != d.slides.len() {
                return Err(format!("{} slides are read as {}", d.slides.len(), rd.slide_count()));
            }
            let t = clean(&d.title);
            if rd.info().title.clone().unwrap_or_default() != t {
                return Err(format!("document title {} is read as {:?}", short(&t), rd.info().title));
            }
            if rd.get_slide(d.slides.len()).is_ok() {
                return Err("a slide past the end is read".into());
            }
            let mut all = vec![];
            let texts = rd.extract_all_text().map_err(|e| e.to_string())?;
            for (i, (s, part)) in d.slides.iter().zip(&parts).enumerate() {
                let got = rd.get_slide(i).map_err(|e| format!("slide {}: {}", i + 1, e))?;
                let want = of_xml(&k.xml[part]);
                cmp(&seen(&got), &want).map_err(|e| format!("slide {}: {} — {}", i + 1, e, brief(&d)))?;
                has_all(&texts, &want).map_err(|e| format!("slide {}: {} — {}", i + 1, e, brief(&d)))?;
                // and against what the user asked for
                if s.has_title() && clean(got.title.as_deref().unwrap_or("")) != clean(&s.title) {
                    return Err(format!("slide {}: title {} is read as {:?}", i + 1, short(&s.title), got.title));
                }
                let bl: Vec<String> = s.shown_bullets().iter().map(|b| clean(&b.text)).filter(|t| !t.is_empty()).collect();
                if got.body_text != bl && !bl.iter().any(|b| b.contains('\n')) {
                    return Err(format!("slide {}: bullets {:?} are read as {:?}", i + 1, bl, got.body_text));
                }
                if let Some(t) = s.shown_table()
                    && got.tables.len() != 1 {
                        return Err(format!("slide {}: table {:?} is read as {} tables", i + 1, t, got.tables.len()));
                    }
                ctx.count("shapes read", got.shapes.len() as u64);
                all.push(want);
            }
            reimport(ctx, &f, &dir, case, &all, Some(&t)).map_err(|e| format!("{} — {}", e, brief(&d)))?;
            let _ = std::fs::remove_file(&f);
            Ok(Out::sig(d.sig()).with_sample(brief(&d)))
        });
    };
    own("own", ctx.n(500, 12_000), ALL);
    own("own-text", ctx.n(300, 8_000), TEXT);
    ctx.cases("foreign", ctx.n(1200, 40_000), |r: &mut Rng, case| -> Res {
        let d = foreign::random(r, false);
        sound(&d.bytes).map_err(|e| format!("HARNESS:the foreign package is not sound: {}", e))?;
        let f = file(&dir, case, "foreign");
        std::fs::write(&f, &d.bytes).unwrap();
        let show = |e: String| format!("{} — {}", e, outline(&d));
        let rd = PresentationReader::open(f.to_str().unwrap()).map_err(|e| show(format!("the reader refused a sound package: {}", e)))?;
        if rd.slide_count() != d.slides.len() {
            return Err(show(format!("{} slides are read as {}", d.slides.len(), rd.slide_count())));
        }
        let (i, o) = (rd.info(), |x: &Option<String>| x.clone().filter(|s| !s.is_empty()));
        if (i.title.clone(), i.creator.clone(), i.revision) != (o(&d.title), o(&d.creator), d.revision) {
            return Err(show(format!("properties {:?} are read as {:?}", (&d.title, &d.creator, d.revision), i)));
        }
        let texts = rd.extract_all_text().map_err(|e| show(e.to_string()))?;
        let mut all = vec![];
        for (i, s) in d.slides.iter().enumerate() {
            let got = rd.get_slide(i).map_err(|e| show(format!("slide {}: {}", i + 1, e)))?;
            let want = of_model(s);
            cmp(&seen(&got), &want).map_err(|e| show(format!("slide {}: {}", i + 1, e)))?;
            has_all(&texts, &want).map_err(|e| show(format!("slide {}: {}", i + 1, e)))?;
            ctx.count("shapes read", got.shapes.len() as u64);
            all.push(want);
        }
        reimport(ctx, &f, &dir, case, &all, d.title.as_deref()).map_err(show)?;
        let _ = std::fs::remove_file(&f);
        Ok(Out::sig(d.sig()).with_sample(outline(&d)))
    });
}

pub fn outline(d: &Foreign) -> String {
    let s: String = d.parts.iter().filter(|p| p.0.starts_with("ppt/slides/") || p.0.contains("presentation.xml")).map(|(n, b)| format!("{}: {}\n", n, String::from_utf8_lossy(b))).collect();
    s.chars().take(6000).collect()
}

// ---------------------------------------------------------------- editing

/// What a part shows, with relationship ids replaced by what they lead to.
pub fn fingerprint(k: &Pkg, part: &str, seen: &mut Vec<String>) -> String {
    if seen.iter().any(|s| s == part) {
        return "(back)".into();
    }
    seen.push(part.to_string());
    let s = match k.xml.get(part) {
        Some(x) => {
            let mut x = x.clone();
            resolve_ids(k, part, &mut x, seen);
            let mut s = x.canon();
            // what the part leads to without naming it
            let mut more: Vec<String> = k.rels_of(part).iter().filter(|r| matches!(crate::opc::short_type(&r.typ), "notesSlide" | "slideLayout" | "comments" | "package")).map(|r| format!("{}={}", crate::opc::short_type(&r.typ), leads(k, r, seen))).collect();
            more.sort();
            s.push_str(&more.join(";"));
            s
        }
        None => k.parts.get(part).map(|b| format!("{:x}", hash_str(&format!("{:?}", b)))).unwrap_or("(missing)".into()),
    };
    seen.pop();
    s
}
fn leads(k: &Pkg, r: &crate::opc::Rel, seen: &mut Vec<String>) -> String {
    match crate::opc::short_type(&r.typ) {
        _ if r.external => format!("->{}", r.target),
        "slideLayout" | "notesMaster" | "slideMaster" | "theme" => r.part.clone(),
        "slide" => "(slide)".into(),
        _ => fingerprint(k, &r.part, seen),
    }
}
fn resolve_ids(k: &Pkg, part: &str, x: &mut Elem, seen: &mut Vec<String>) {
    for a in x.attrs.iter_mut() {
        if a.ns.as_deref() == Some(crate::opc::NS_R) {
            a.value = match k.rel(part, &a.value) {
                Some(r) => {
                    let r = r.clone();
                    format!("{:x}", hash_str(&leads(k, &r, seen)))
                }
                None => "(dangling)".into(),
            };
        }
    }
    for c in x.children.iter_mut() {
        if let Node::Elem(e) = c {
            resolve_ids(k, part, e, seen);
        }
    }
}

#[derive(Clone)]
struct Entry {
    print: String,
    title: Option<String>,
}

const OWN: Profile = Profile { max_slides: 4, ..ALL };

fn one_slide(r: &mut Rng) -> SlideS {
    let mut pool = vec![];
    without_jumps(deck::random_slide(r, &OWN, &mut pool, None))
}
/// Links by slide number change with the slide list: C31 follows them through edits.
fn without_jumps(mut s: SlideS) -> SlideS {
    for x in &mut s.shapes {
        if x.link.as_ref().is_some_and(|l| l.kind == 3) {
            x.link = None;
        }
    }
    s
}

pub fn c11(ctx: &Ctx) {
    ctx.rule("Distinct by starting deck and sequence of operations.");
    let dir = ctx.scratch.join("ed");
    ctx.cases("histories", ctx.n(320, 8_000), |r: &mut Rng, case| -> Res {
        let f = file(&dir, case, "e");
        let path = f.to_str().unwrap().to_string();
        let mut log: Vec<String> = vec![];
        let (mut ed, start) = match r.below(5) {
            0 => {
                log.push("new".into());
                (PresentationEditor::new(), None)
            }
            1 | 2 => {
                let mut d = deck::random(r, &OWN, None);
                d.slides = d.slides.into_iter().map(without_jumps).collect();
                log.push(format!("generated({})", d.slides.len()));
                let b = write(&d)?;
                (reopen(&f, &b)?, Some(b))
            }
            _ => {
                let d = foreign::random(r, true);
                sound(&d.bytes).map_err(|e| format!("HARNESS:the foreign package is not sound: {}", e))?;
                log.push(format!("foreign({}) {}", d.slides.len(), outline(&d)));
                (reopen(&f, &d.bytes)?, Some(d.bytes))
            }
        };
        let mut model: Vec<Entry> = vec![];
        let mut fixed: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        let mut sig = log[0].split(' ').next().unwrap().to_string();
        if let Some(b) = &start {
            let k = Pkg::load(b)?;
            model = entries(&k);
            for (n, d) in &k.parts {
                let outline = (n == "ppt/viewProps.xml" || n == "ppt/_rels/viewProps.xml.rels") && !k.rels_of("ppt/viewProps.xml").is_empty();
                if !outline && !n.starts_with("ppt/slides/") && !n.starts_with("ppt/notesSlides/") && !n.starts_with("ppt/media/") && !n.starts_with("ppt/charts/") && !n.starts_with("ppt/embeddings/") && !n.starts_with("ppt/ink") && !n.contains("presentation.xml") && n != "[Content_Types].xml" && n != "docProps/app.xml" {
                    fixed.insert(n.clone(), d.clone());
                }
            }
        }
        let steps = 1 + r.below(9);
        let mut touched = false;
        let mut told: Option<Vec<(String, Vec<u64>)>> = None;
        for step in 0..=steps {
            let at = |m: usize, r: &mut Rng| if m == 0 || r.chance(1, 8) { m + r.below(3) } else if m > 9 && r.chance(1, 2) { 8 + r.below(m - 8) } else { r.below(m) };
            let n = model.len();
            let mut fresh: Option<(usize, SlideS)> = None;
            if step > 0 {
                let op = r.below(9);
                match op {
                    0 | 1 => {
                        let s = one_slide(r);
                        log.push("add".into());
                        sig.push('a');
                        let i = ed.add_slide(s.build()).map_err(|e| format!("{}: {}", log.join(", "), e))?;
                        if i != n {
                            return Err(format!("{}: the slide added to {} got index {}", log.join(", "), n, i));
                        }
                        model.push(Entry { print: String::new(), title: None });
                        fresh = Some((n, s));
                    }
                    2 => {
                        let i = if r.chance(1, 6) { n + r.below(3) } else { r.below(n + 1) };
                        let s = one_slide(r);
                        log.push(format!("insert {}", i));
                        sig.push_str(if i > n { "I!" } else { "i" });
                        let res = ed.insert_slide(i, s.build());
                        if i <= n {
                            let j = res.map_err(|e| format!("{}: {}", log.join(", "), e))?;
                            if j != i {
                                return Err(format!("{}: index {} reported", log.join(", "), j));
                            }
                            model.insert(i, Entry { print: String::new(), title: None });
                            fresh = Some((i, s));
                        } else if let Ok(j) = res {
                            return Err(format!("{}: accepted at {} though there are {} slides", log.join(", "), j, n));
                        }
                    }
                    3 => {
                        let i = at(n, r);
                        let s = one_slide(r);
                        log.push(format!("update {}", i));
                        sig.push_str(if i >= n { "U!" } else { "u" });
                        let res = ed.update_slide(i, s.build());
                        if i < n {
                            res.map_err(|e| format!("{}: {}", log.join(", "), e))?;
                            fresh = Some((i, s));
                        } else if res.is_ok() {
                            return Err(format!("{}: accepted though there are {} slides", log.join(", "), n));
                        }
                    }
                    4 | 5 => {
                        let i = at(n, r);
                        log.push(format!("remove {}", i));
                        sig.push_str(if i >= n { "R!" } else { "r" });
                        let res = ed.remove_slide(i);
                        if i < n {
                            res.map_err(|e| format!("{}: {}", log.join(", "), e))?;
                            model.remove(i);
                        } else if res.is_ok() {
                            return Err(format!("{}: accepted though there are {} slides", log.join(", "), n));
                        }
                    }
                    6 => {
                        let i = at(n, r);
                        log.push(format!("duplicate {}", i));
                        sig.push_str(if i >= n { "D!" } else { "d" });
                        let res = ed.duplicate_slide(i);
                        if i < n {
                            let j = res.map_err(|e| format!("{}: {}", log.join(", "), e))?;
                            if j != i + 1 {
                                return Err(format!("{}: the copy is reported at {}", log.join(", "), j));
                            }
                            let c = model[i].clone();
                            model.insert(i + 1, c);
                        } else if res.is_ok() {
                            return Err(format!("{}: accepted though there are {} slides", log.join(", "), n));
                        }
                    }
                    7 => {
                        let (i, j) = (at(n, r), at(n, r));
                        log.push(format!("move {} to {}", i, j));
                        sig.push_str(if i >= n || j >= n { "M!" } else { "m" });
                        let res = ed.reorder_slide(i, j);
                        if i < n && j < n {
                            res.map_err(|e| format!("{}: {}", log.join(", "), e))?;
                            let e = model.remove(i);
                            model.insert(j, e);
                        } else if res.is_ok() {
                            return Err(format!("{}: accepted though there are {} slides", log.join(", "), n));
                        }
                    }
                    _ => {
                        log.push("save and reopen".into());
                        sig.push('s');
                        ed.save(&path).map_err(|e| format!("{}: {}", log.join(", "), e))?;
                        ed = PresentationEditor::open(&path).map_err(|e| format!("{}: {}", log.join(", "), e))?;
                    }
                }
                ctx.count("edits", 1);
            }
            // from the first edit on, the recorded slide count is right
            touched |= fresh.is_some() || model.len() != n;
            // observe
            let show = |e: String| format!("after {}: {}", log.join(", "), e);
            let mut c = std::io::Cursor::new(vec![]);
            ed.package().save_writer(&mut c).map_err(|e| show(e.to_string()))?;
            let k = sound(c.get_ref()).map_err(show)?;
            let now = entries(&k);
            if now.len() != model.len() || ed.slide_count() != model.len() {
                return Err(show(format!("{} slides expected, {} listed, {} reported", model.len(), now.len(), ed.slide_count())));
            }
            if let Some((i, s)) = &fresh {
                let parts = k.slides();
                s.check_all(&k, &parts[*i]).map_err(|e| show(format!("the new slide: {}", e)))?;
                model[*i] = now[*i].clone();
            }
            for (i, (g, w)) in now.iter().zip(&model).enumerate() {
                if g.print != w.print {
                    let p = w.print.bytes().zip(g.print.bytes()).take_while(|(a, b)| a == b).count();
                    let cut = |s: &str| s.chars().skip(p.saturating_sub(100)).take(240).collect::<String>();
                    return Err(show(format!("slide {} shows {:?} instead of {:?}", i, cut(&g.print), cut(&w.print))));
                }
                let t = ed.get_slide(i).map_err(|e| show(e.to_string()))?.title;
                if t != w.title {
                    return Err(show(format!("the title of slide {} is reported as {:?} instead of {:?}", i, t, w.title)));
                }
            }
            if ed.get_slide(now.len()).is_ok() {
                return Err(show("a slide past the end is returned".into()));
            }
            // custom shows, sections and the outline still name the slides they named, without those that are gone
            let (ids, mut names) = mentions(&k);
            if let Some(old) = &told {
                let want: Vec<_> = old.iter().map(|(w, l)| (w.clone(), l.iter().copied().filter(|i| ids.contains(i)).collect::<Vec<_>>())).collect();
                for ((_, l), (w, o)) in names.iter_mut().zip(&want) {
                    if w.starts_with("section") {
                        l.retain(|i| o.contains(i));
                    }
                }
                if names != want {
                    return Err(show(format!("slides are named by {:?} instead of {:?}", names, want)));
                }
                ctx.count("mentions of slides followed", want.iter().map(|w| w.1.len() as u64).sum());
            }
            told = Some(mentions(&k).1);
            for (n, d) in &fixed {
                if k.parts.get(n) != Some(d) {
                    return Err(show(format!("part {} is {}", n, if k.parts.contains_key(n) { "changed" } else { "gone" })));
                }
            }
            if let Some(a) = k.xml.get("docProps/app.xml")
                && touched
                && let Some(s) = a.child("Slides")
                && s.text() != model.len().to_string() {
                    return Err(show(format!("{} slides are recorded as {}", model.len(), s.text())));
                }
            if let Some(a) = k.xml.get("docProps/app.xml")
                && touched
                && let Some(s) = a.child("Notes") {
                    let n = k.slides().iter().filter(|p| !k.rel_by_type(p, "notesSlide").is_empty()).count();
                    if s.text() != n.to_string() {
                        return Err(show(format!("{} slides with notes are recorded as {}", n, s.text())));
                    }
                }
            ctx.count("states observed", 1);
            ctx.see("slide counts", model.len().to_string());
        }
        // the file on disk holds what the editor holds
        ed.save(&path).map_err(|e| e.to_string())?;
        let k = sound(&std::fs::read(&f).unwrap())?;
        let got: Vec<String> = entries(&k).into_iter().map(|e| e.print).collect();
        if got != model.iter().map(|e| e.print.clone()).collect::<Vec<_>>() {
            return Err(format!("after {}: the saved file shows other slides", log.join(", ")));
        }
        let _ = std::fs::remove_file(&f);
        log[0] = log[0].chars().take(1000).collect();
        Ok(Out::sig(&sig).with_sample(format!("{}: {}", sig, log.join(", "))))
    });
    ctx.cases("jumps", ctx.n(400, 10_000), |r: &mut Rng, case| -> Res { jumps(ctx, &dir, r, case) });
}

/// A slide known by its key, and the slides its links lead to.
#[derive(Clone, Debug, PartialEq)]
struct Linked {
    key: String,
    links: Vec<Option<String>>,
}

/// The editor keeps links between slides leading to the slides they led to.
fn jumps(ctx: &Ctx, dir: &Path, r: &mut Rng, case: u64) -> Res {
    use ppt_rs::generator::{Hyperlink, HyperlinkAction, Shape, ShapeType, SlideContent, create_pptx_with_content};
    let f = file(dir, case, "j");
    let path = f.to_str().unwrap().to_string();
    let mut next = 0usize;
    // a slide that will be at `at` of `after` slides
    let mut make = |r: &mut Rng, at: usize, after: &dyn Fn(usize) -> String| -> (SlideContent, Linked) {
        let n = next;
        next += 1;
        let key = format!("key{}", n);
        let mut s = SlideContent::new(&key);
        let mut links = vec![];
        for j in 0..r.below(4) {
            let m = after(usize::MAX).parse::<usize>().unwrap();
            let to = if r.chance(1, 5) { at } else { r.below(m) };
            let h = Hyperlink::new(HyperlinkAction::slide(to as u32 + 1));
            s = s.add_shape(Shape::new(ShapeType::Rectangle, 100000 * j as u32, 100000, 90000, 90000).with_text(&format!("link{}", j)).with_hyperlink(h));
            links.push(Some(if to == at { key.clone() } else { after(to) }));
        }
        if r.bool() {
            s = s.add_shape(Shape::new(ShapeType::Ellipse, 500000, 500000, 90000, 90000).with_text("web").with_hyperlink(Hyperlink::new(HyperlinkAction::url("http://slide1.xml/"))));
        }
        if r.chance(1, 4) {
            s = s.notes(&format!("notes {}", key));
        }
        (s, Linked { key, links })
    };
    let n0 = if r.chance(1, 6) { 9 + r.below(4) } else { 1 + r.below(5) };
    let mut model: Vec<Linked> = vec![];
    let mut deck = vec![];
    for i in 0..n0 {
        let (s, l) = make(r, i, &|k| if k == usize::MAX { n0.to_string() } else { format!("key{}", k) });
        deck.push(s);
        model.push(l);
    }
    let b = create_pptx_with_content("deck", deck).map_err(|e| e.to_string())?;
    // some of the links as they look when made for hovering
    let over = r.below(3);
    let mut left = 0;
    let parts: Vec<(String, Vec<u8>)> = crate::zipx::read(&b)?
        .into_iter()
        .map(|e| {
            if !e.name.starts_with("ppt/slides/slide") || over == 0 {
                return (e.name, e.data);
            }
            let x = String::from_utf8(e.data).unwrap();
            let mut o = String::new();
            let mut bits = x.split("<a:hlinkClick ");
            o.push_str(bits.next().unwrap());
            for s in bits {
                let shapes = s.split_once("/>").is_some();
                left += 1;
                o.push_str(if shapes && (over == 2 || left % 2 == 0) { "<a:hlinkHover " } else { "<a:hlinkClick " });
                o.push_str(s);
            }
            (e.name, o.replace("</a:hlinkClick>", if over == 2 { "</a:hlinkHover>" } else { "</a:hlinkClick>" }).into_bytes())
        })
        .collect();
    let b = crate::zipx::write(&parts);
    sound(&b).map_err(|e| format!("HARNESS:the deck with links is not sound: {}", e))?;
    let mut ed = reopen(&f, &b)?;
    let mut log = vec![format!("{} slides, {:?}", n0, model.iter().map(|m| &m.links).collect::<Vec<_>>())];
    let mut sig = format!("{}", over);
    for step in 0..=1 + r.below(8) {
        let n = model.len();
        if step > 0 {
            let keys: Vec<String> = model.iter().map(|m| m.key.clone()).collect();
            let i = r.below(n.max(1));
            let e = |e: ppt_rs::exc::PptxError| e.to_string();
            match r.below(7) {
                0 | 1 => {
                    let i = r.below(n + 1);
                    let (s, l) = make(r, i, &|k| if k == usize::MAX { (n + 1).to_string() } else { keys[if k > i { k - 1 } else { k }].clone() });
                    log.push(format!("insert {} {:?}", i, l));
                    sig.push('i');
                    ed.insert_slide(i, s).map_err(e)?;
                    model.insert(i, l);
                }
                2 if n > 0 => {
                    let (s, mut l) = make(r, i, &|k| if k == usize::MAX { n.to_string() } else { keys[k].clone() });
                    log.push(format!("update {} {:?}", i, l));
                    sig.push('u');
                    ed.update_slide(i, s).map_err(e)?;
                    // links to the slide lead to what took its place
                    let old = std::mem::replace(&mut model[i], l.clone()).key;
                    for m in model.iter_mut() {
                        for t in m.links.iter_mut().filter(|t| t.as_ref() == Some(&old)) {
                            *t = Some(l.key.clone());
                        }
                    }
                    l.links.clear();
                }
                3 | 4 if n > 1 => {
                    log.push(format!("remove {}", i));
                    sig.push('r');
                    ed.remove_slide(i).map_err(e)?;
                    let gone = model.remove(i).key;
                    for m in model.iter_mut() {
                        for t in m.links.iter_mut().filter(|t| t.as_ref() == Some(&gone)) {
                            *t = None;
                        }
                    }
                }
                5 if n > 0 => {
                    let j = r.below(n);
                    log.push(format!("move {} to {}", i, j));
                    sig.push('m');
                    ed.reorder_slide(i, j).map_err(e)?;
                    let m = model.remove(i);
                    model.insert(j, m);
                }
                _ => {
                    log.push("save and reopen".into());
                    sig.push('s');
                    ed.save(&path).map_err(e)?;
                    ed = PresentationEditor::open(&path).map_err(e)?;
                }
            }
            ctx.count("edits among linked slides", 1);
        }
        let show = |e: String| format!("after {}: {}", log.join(", "), e);
        let mut c = std::io::Cursor::new(vec![]);
        ed.package().save_writer(&mut c).map_err(|e| show(e.to_string()))?;
        let k = sound(c.get_ref()).map_err(show)?;
        let order = k.slides();
        let key = |p: &str| -> String {
            let mut t = String::new();
            let _ = k.xml[p].desc("t").iter().any(|e| {
                t = e.text();
                t.starts_with("key")
            });
            t
        };
        let now: Vec<Linked> = order
            .iter()
            .map(|p| {
                let mut links = vec![];
                for sp in k.xml[p.as_str()].desc("sp") {
                    let text: String = sp.desc("t").iter().map(|e| e.text()).collect();
                    if !text.starts_with("link") {
                        continue;
                    }
                    let h: Vec<_> = sp.desc("hlinkClick").into_iter().chain(sp.desc("hlinkHover")).collect();
                    links.push(h.first().map(|h| {
                        let id = h.attr_ns(crate::opc::NS_R, "id").unwrap_or_default();
                        k.rel(p, id).map_or("(dangling)".into(), |rel| key(&rel.part))
                    }));
                }
                Linked { key: key(p), links }
            })
            .collect();
        if now != model {
            let i = now.iter().zip(&model).take_while(|(a, b)| a == b).count();
            return Err(show(format!("slide {} is {:?} instead of {:?}", i, now.get(i), model.get(i))));
        }
        ctx.count("links followed", now.iter().map(|l| l.links.len() as u64).sum());
    }
    let _ = std::fs::remove_file(&f);
    Ok(Out::sig(&format!("{} {}", n0, sig)))
}

fn reopen(f: &Path, b: &[u8]) -> Result<PresentationEditor, String> {
    std::fs::write(f, b).unwrap();
    PresentationEditor::open(f.to_str().unwrap()).map_err(|e| format!("the editor refused a sound package: {}", e))
}

/// The ids of all slides, and those named by each custom show, each section and the outline view.
fn mentions(k: &Pkg) -> (Vec<u64>, Vec<(String, Vec<u64>)>) {
    let Some(p) = k.main_part().and_then(|m| k.xml.get(&m).cloned()) else { return Default::default() };
    let main = k.main_part().unwrap_or_default();
    let id = |e: &&crate::xml::Elem| e.attr("id").and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
    let mut parts: BTreeMap<String, u64> = BTreeMap::new();
    for s in p.child("sldIdLst").map(|l| l.kids("sldId")).unwrap_or_default() {
        if let Some(r) = s.attr_ns(crate::opc::NS_R, "id").and_then(|i| k.rel(&main, i)) {
            parts.insert(r.part.clone(), id(&s));
        }
    }
    let named = |from: &str, e: &crate::xml::Elem| -> Vec<u64> {
        e.desc("sld").iter().map(|s| s.attr_ns(crate::opc::NS_R, "id").and_then(|i| k.rel(from, i)).and_then(|r| parts.get(&r.part).copied()).unwrap_or(0)).collect()
    };
    let mut out = vec![];
    for c in p.desc("custShow") {
        out.push((format!("show {:?}", c.attr("name")), named(&main, c)));
    }
    for c in p.desc("section") {
        out.push((format!("section {:?}", c.attr("name")), c.desc("sldId").iter().map(id).collect()));
    }
    if let Some(v) = k.xml.get("ppt/viewProps.xml") {
        out.push(("outline".into(), named("ppt/viewProps.xml", v)));
    }
    (parts.values().copied().collect(), out)
}

fn entries(k: &Pkg) -> Vec<Entry> {
    k.slides()
        .iter()
        .map(|p| {
            let title = k.parts.get(p).and_then(|b| ppt_rs::oxml::slide::SlideParser::parse(&String::from_utf8_lossy(b)).ok()).and_then(|s| s.title);
            Entry { print: fingerprint(k, p, &mut vec![]), title }
        })
        .collect()
}
