//! Input of any kind ends in an answer: no panic, no crash, no runaway time or memory.
use super::gen1::{sound, write};
use super::pkg::any_deck;
use crate::mem;
use crate::report::{Ctx, Out, Res, guard, thread_cpu_ms};
use crate::rng::{Rng, hash_bytes};
use crate::spec::{foreign, image};
use crate::text;
use crate::zipx;
use ppt_rs::core::validate_package_bytes;
use ppt_rs::export::html::export_to_html;
use ppt_rs::generator::*;
use ppt_rs::import::import_pptx;
use ppt_rs::opc::Package;
use ppt_rs::opc::compress::{CompressionLevel, CompressionOptions, analyze_pptx, compress_pptx_in_memory};
use ppt_rs::oxml::repair::PptxRepair;
use ppt_rs::oxml::{PresentationEditor, PresentationReader, SlideParser, XmlParser};
use ppt_rs::parts::Relationships;
use std::io::Cursor;
use std::path::Path;

const NUMS: &[&str] = &["-1", "0", "1", "-0", "2147483647", "-2147483648", "2147483648", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "18446744073709551616", "99999999999999999999999", "NaN", "inf", "1e309", "0x10", " 7", "", "٣", "1.5", "00000000000000000001", "true", "-", "+5"];
const NAMES: &[&str] = &[
    "ppt/slides/slide99999999999999999999.xml",
    "ppt/slides/slide-1.xml",
    "ppt/slides/slide.xml",
    "ppt/slides/slide0.xml",
    "ppt/slides/slide18446744073709551615.xml",
    "ppt/slides/slide4294967296.xml",
    "ppt/slides/slidé1.xml",
    "ppt/slides/slide1.xml.xml",
    "ppt/slides/_rels/.rels",
    "ppt/slides/_rels/slide99.xml.rels",
    "../../../../vh_escape",
    "/vh_abs.xml",
    "ppt\\slides\\slide1.xml",
    "ppt/slideLayouts/slideLayout99999999999999999999.xml",
    "ppt/slideMasters/slideMaster0.xml",
    "ppt/media/image18446744073709551615.png",
    "ppt/media/.png",
    "ppt/media/image1",
    "ppt/media/é.jpeg",
    "日本/語.xml",
    "",
    "a//b",
    "ppt/notesSlides/notesSlide99999999999999999999.xml",
    "ppt/charts/chart18446744073709551615.xml",
    "[Content_Types].xml/x",
    "docProps/core.xml.rels",
];
const TARGETS: &[&str] = &["", "..", "../../../../../../etc/passwd", "/", "//", "#", "%", "%2e%2e%2f", "slide1.xml", "../slides/slide1.xml", "file:///etc/passwd", "http://127.0.0.1:9/x", "\\\\x\\y", "./././.", "é", "../slideLayouts/", "slides/slide99999999999999999999.xml", "?x", "a b"];

/// Where the values of attributes sit: (name start, value start, value end).
fn attrs_of(s: &str) -> Vec<(usize, usize, usize)> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i + 1 < b.len() {
        if b[i] == b'=' && b[i + 1] == b'"' {
            let mut n = i;
            while n > 0 && !b[n - 1].is_ascii_whitespace() && b[n - 1] != b'<' && b[n - 1] != b'"' {
                n -= 1;
            }
            let Some(l) = s[i + 2..].find('"') else { break };
            v.push((n, i + 2, i + 2 + l));
            i += 2 + l;
        }
        i += 1;
    }
    v
}
/// Spans of tags.
fn tags_of(s: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut at = 0;
    while let Some(i) = s[at..].find('<') {
        let i = at + i;
        let Some(j) = s[i..].find('>') else { break };
        v.push((i, i + j + 1));
        at = i + j + 1;
    }
    v
}
/// The element that starts with the given tag, to its end.
fn span_of(s: &str, t: (usize, usize)) -> Option<(usize, usize)> {
    let tag = &s[t.0..t.1];
    if tag.starts_with("</") || tag.starts_with("<?") || tag.starts_with("<!") {
        return None;
    }
    if tag.ends_with("/>") {
        return Some(t);
    }
    let name: String = tag[1..].chars().take_while(|c| !c.is_whitespace() && *c != '>' && *c != '/').collect();
    let (open, close) = (format!("<{}", name), format!("</{}>", name));
    let mut depth = 1;
    let mut at = t.1;
    loop {
        let c = at + s[at..].find(&close)?;
        let mut o = at;
        while let Some(k) = s[o..c].find(&open) {
            let k = o + k;
            let e = s[k..].find('>').map(|e| k + e)?;
            let next = s.as_bytes().get(k + open.len()).copied().unwrap_or(0);
            if (next == b' ' || next == b'>') && !s[k..e].ends_with('/') {
                depth += 1;
            }
            o = k + open.len();
        }
        depth -= 1;
        if depth == 0 {
            return Some((t.0, c + close.len()));
        }
        at = c + close.len();
    }
}

fn weird_text(r: &mut Rng) -> String {
    match r.below(8) {
        0 => NUMS[r.below(NUMS.len())].to_string(),
        1 => crate::xml::esc(&text::wild(r)),
        2 => text::hostile(r),
        3 => "x".repeat(r.below(40_000)),
        4 => "&#x0;&#xFFFF;&#55296;".into(),
        5 => "&undefined;".into(),
        6 => format!("<![CDATA[{}]]>", text::tag(r)),
        _ => "\u{202e}\u{feff}e\u{301}\u{1f468}\u{200d}\u{1f469}".into(),
    }
}

fn twist_xml(r: &mut Rng, s: &str, how: &mut Vec<String>) -> Vec<u8> {
    let mut s = s.to_string();
    let op = r.below(22);
    let at = attrs_of(&s);
    let tg = tags_of(&s);
    let pick_tag = |r: &mut Rng| -> Option<(usize, usize)> { if tg.is_empty() { None } else { Some(tg[r.below(tg.len())]) } };
    match op {
        0..=5 if !at.is_empty() => {
            let n = 1 + r.below(4);
            let mut v: Vec<_> = (0..n).map(|_| at[r.below(at.len())]).collect();
            v.sort();
            v.dedup();
            for (n, a, b) in v.into_iter().rev() {
                let name = s[n..a].to_string();
                let val = if name.starts_with("Target=") || name.starts_with("PartName") { TARGETS[r.below(TARGETS.len())].to_string() } else { crate::xml::esc(NUMS[r.below(NUMS.len())]) };
                how.push(format!("{}{}", name, val));
                s.replace_range(a..b, &val);
            }
        }
        6 if !at.is_empty() => {
            // every value of one attribute
            let (n, a, _) = at[r.below(at.len())];
            let name = s[n..a].to_string();
            let val = crate::xml::esc(NUMS[r.below(NUMS.len())]);
            how.push(format!("all {}{}", name, val));
            for (n, a, b) in at.into_iter().rev() {
                if s[n..a] == name {
                    s.replace_range(a..b, &val);
                }
            }
        }
        7 if !at.is_empty() => {
            let (n, _, b) = at[r.below(at.len())];
            how.push(format!("drop {}", &s[n..b]));
            s.replace_range(n..b + 1, "");
        }
        8 if !at.is_empty() => {
            let (n, _, b) = at[r.below(at.len())];
            let c = format!(" {}", &s[n..b + 1]);
            how.push(format!("twice{}", c));
            s.insert_str(b + 1, &c);
        }
        9 | 10 => {
            if let Some(t) = pick_tag(r).and_then(|t| span_of(&s, t)) {
                how.push(format!("without {}", text::short(&s[t.0..t.1])));
                s.replace_range(t.0..t.1, "");
            }
        }
        11 => {
            if let Some(t) = pick_tag(r).and_then(|t| span_of(&s, t)) {
                let c = s[t.0..t.1].to_string();
                let n = 1 + r.below(if c.len() < 2000 { 200 } else { 3 });
                how.push(format!("{} more {}", n, text::short(&c)));
                s.insert_str(t.1, &c.repeat(n));
            }
        }
        12 => {
            // move an element elsewhere
            if let Some(t) = pick_tag(r).and_then(|t| span_of(&s, t)) {
                let c = s[t.0..t.1].to_string();
                s.replace_range(t.0..t.1, "");
                let tg = tags_of(&s);
                if !tg.is_empty() {
                    let at = tg[r.below(tg.len())].1;
                    s.insert_str(at, &c);
                }
                how.push(format!("moved {}", text::short(&c)));
            }
        }
        13 => {
            // an element becomes another
            if let (Some(a), Some(b)) = (pick_tag(r), pick_tag(r)) {
                let name = |t: (usize, usize)| -> String { s[t.0..t.1].trim_start_matches(['<', '/']).chars().take_while(|c| !c.is_whitespace() && *c != '>' && *c != '/').collect() };
                let (x, y) = (name(a), name(b));
                if !x.is_empty() && !y.is_empty() {
                    how.push(format!("{} renamed {}", x, y));
                    s = s.replace(&format!("<{}>", x), &format!("<{}>", y)).replace(&format!("<{} ", x), &format!("<{} ", y)).replace(&format!("<{}/", x), &format!("<{}/", y)).replace(&format!("</{}>", x), &format!("</{}>", y));
                }
            }
        }
        14 | 15 => {
            // the text of a leaf
            let leaves: Vec<(usize, usize)> = tg.windows(2).filter(|w| !s[w[0].0..w[0].1].starts_with("</") && s[w[1].0..w[1].1].starts_with("</") && !s[w[0].0..w[0].1].ends_with("/>")).map(|w| (w[0].1, w[1].0)).collect();
            if !leaves.is_empty() {
                let (a, b) = leaves[r.below(leaves.len())];
                let w = weird_text(r);
                how.push(format!("text {}", text::short(&w)));
                s.replace_range(a..b, &w);
            }
        }
        16 => {
            // nest one element in itself
            if let Some(t) = pick_tag(r).and_then(|t| span_of(&s, t).map(|e| (t, e))) {
                let tag = s[t.0.0..t.0.1].trim_end_matches("/>").trim_end_matches('>').to_string();
                let name: String = tag[1..].chars().take_while(|c| !c.is_whitespace()).collect();
                let n = *r.pick(&[2, 20, 500, 990, 1100, 3000]);
                how.push(format!("{} nested {} deep", name, n));
                s.insert_str(t.1.1, &format!("</{}>", name).repeat(n));
                s.insert_str(t.1.0, &format!("{}>", tag).repeat(n));
            }
        }
        17 => {
            // entities
            let at = s.find("?>").map(|i| i + 2).unwrap_or(0);
            let big: String = (0..9).map(|i| format!("<!ENTITY e{} \"{}\">", i + 1, format!("&e{};", i).repeat(10))).collect();
            s.insert_str(at, &format!("<!DOCTYPE x [<!ENTITY e0 \"lol\">{}<!ENTITY f SYSTEM \"file:///etc/passwd\">]>", big));
            let e = *r.pick(&["&e0;", "&e9;", "&f;", "&e3;"]);
            let tg = tags_of(&s);
            if let Some(t) = tg.iter().rev().nth(r.below(tg.len())) {
                let at = t.1;
                s.insert_str(at, e);
            }
            how.push(format!("entity {}", e));
        }
        18 => {
            let i = r.below(s.len() + 1);
            let i = (i..=s.len()).find(|i| s.is_char_boundary(*i)).unwrap();
            let x = *r.pick(&["<!-- -->", "<?pi x?>", "<![CDATA[x]]>", "<", ">", "&", "\"", "\u{0}", "</p>", "<a:p>", "]]>", "<!--", "\u{feff}"]);
            how.push(format!("insert {:?}", x));
            s.insert_str(i, x);
        }
        19 => {
            let enc = r.below(5);
            how.push(format!("encoding {}", enc));
            return match enc {
                0 => {
                    let mut v = vec![0xff, 0xfe];
                    s.encode_utf16().for_each(|u| v.extend(u.to_le_bytes()));
                    v
                }
                1 => {
                    let mut v = vec![0xfe, 0xff];
                    s.encode_utf16().for_each(|u| v.extend(u.to_be_bytes()));
                    v
                }
                2 => [&[0xef, 0xbb, 0xbf], s.as_bytes()].concat(),
                3 => s.replacen("UTF-8", "ISO-8859-1", 1).chars().map(|c| if (c as u32) < 256 { c as u8 } else { b'?' }).collect(),
                _ => {
                    let mut v = s.into_bytes();
                    for _ in 0..3 {
                        let i = r.below(v.len().max(1));
                        if i < v.len() {
                            v[i] = 0x80 + r.below(128) as u8;
                        }
                    }
                    v
                }
            };
        }
        20 => {
            let i = r.below(s.len() + 1);
            let i = (i..=s.len()).find(|i| s.is_char_boundary(*i)).unwrap();
            how.push(format!("cut at {}", i));
            s.truncate(i);
        }
        _ => {
            let mut v = s.into_bytes();
            for _ in 0..1 + r.below(8) {
                let i = r.below(v.len().max(1));
                if i < v.len() {
                    v[i] ^= 1 << r.below(8);
                }
            }
            how.push("bits".into());
            return v;
        }
    }
    s.into_bytes()
}

/// A package with something wrong with it.
fn twist(r: &mut Rng) -> Result<(Vec<u8>, Vec<String>), String> {
    let own = r.bool();
    let base = if own || r.bool() {
        any_deck(r, own)?.bytes
    } else {
        foreign::random(r, false).bytes
    };
    let mut p: Vec<(String, Vec<u8>)> = zipx::read(&base)?.into_iter().map(|e| (e.name, e.data)).collect();
    let mut how = vec![];
    let n = 1 + r.below(3);
    for _ in 0..n {
        if p.is_empty() {
            break;
        }
        // the parts the readers look at, more often than the others
        let main: Vec<usize> = (0..p.len()).filter(|i| { let n = &p[*i].0; n.contains("slides/") || n.ends_with(".rels") || n == "[Content_Types].xml" || n == "ppt/presentation.xml" || n.starts_with("docProps") }).collect();
        let i = if !main.is_empty() && r.chance(3, 4) { main[r.below(main.len())] } else { r.below(p.len()) };
        match r.below(14) {
            0 => {
                how.push(format!("no {}", p[i].0));
                p.remove(i);
            }
            1 => {
                how.push(format!("{} empty", p[i].0));
                p[i].1.clear();
            }
            2 => {
                let n = r.below(3000);
                how.push(format!("{} {} random bytes", p[i].0, n));
                p[i].1 = r.bytes(n);
            }
            3 => {
                let j = r.below(p.len());
                how.push(format!("{} <-> {}", p[i].0, p[j].0));
                let d = p[i].1.clone();
                p[i].1 = std::mem::replace(&mut p[j].1, d);
            }
            4 | 5 => {
                let n = if r.chance(1, 8) { text::hostile(r) } else { NAMES[r.below(NAMES.len())].to_string() };
                how.push(format!("{} also as {:?}", p[i].0, n));
                let d = p[i].1.clone();
                if r.bool() {
                    p.push((n, d));
                } else {
                    p[i].0 = n;
                }
            }
            6 => {
                // the same name twice
                how.push(format!("{} twice", p[i].0));
                let mut d = p[i].clone();
                if r.bool() {
                    d.1.clear();
                }
                p.push(d);
            }
            _ => {
                let s = String::from_utf8_lossy(&p[i].1).to_string();
                if p[i].0.ends_with(".xml") || p[i].0.ends_with(".rels") {
                    how.push(format!("{}:", p[i].0));
                    p[i].1 = twist_xml(r, &s, &mut how);
                } else {
                    let n = r.below(p[i].1.len() + 1);
                    p[i].1.truncate(n);
                    how.push(format!("{} cut to {}", p[i].0, n));
                }
            }
        }
    }
    if r.chance(1, 12) {
        r.shuffle(&mut p);
        how.push("shuffled".into());
    }
    let mut b = zipx::write(&p);
    if r.chance(1, 8) {
        match r.below(4) {
            0 => {
                let n = r.below(b.len());
                b.truncate(n);
                how.push(format!("cut to {}", n));
            }
            1 => {
                for _ in 0..1 + r.below(6) {
                    let i = r.below(b.len());
                    b[i] ^= 1 << r.below(8);
                }
                how.push("flipped".into());
            }
            2 => {
                // the directory and the end record lie
                let at = b.windows(4).rposition(|w| w == b"PK\x01\x02" || w == b"PK\x05\x06").unwrap_or(0);
                for _ in 0..1 + r.below(4) {
                    let i = (at + 4 + r.below(42)).min(b.len() - 1);
                    b[i] = *r.pick(&[0, 0xff, 0x7f, 0x80]);
                }
                how.push("directory".into());
            }
            _ => {
                let n = r.below(2000);
                let mut v = r.bytes(n);
                v.extend(&b);
                let m = r.below(70_000);
                v.extend(r.bytes(m));
                b = v;
                how.push("garbage around".into());
            }
        }
    }
    Ok((b, how))
}

/// One call under watch.  The answer, shortened, or how it failed to give one.
fn watch<T>(ctx: &Ctx, what: &str, size: usize, f: impl FnOnce() -> T, show: impl FnOnce(&T) -> String) -> Result<String, String> {
    let t = thread_cpu_ms();
    let (v, peak) = mem::peak(|| guard(f));
    let dt = thread_cpu_ms().saturating_sub(t);
    ctx.count("calls watched", 1);
    let v = v.map_err(|(m, l)| format!("{}: panic: {} at {}", what, m, l))?;
    if dt > 20_000 {
        return Err(format!("{}: {} ms of CPU time for {} bytes", what, dt, size));
    }
    let cap = (64u64 << 20) + size as u64 * 400;
    if peak > cap {
        return Err(format!("{}: {} MB of memory for {} bytes of input", what, peak >> 20, size));
    }
    let s = show(&v);
    ctx.count(if s.starts_with("ERR") { "answers that were errors" } else { "answers that were results" }, 1);
    Ok(s)
}
fn res<T, E: std::fmt::Display>(r: &Result<T, E>, f: impl FnOnce(&T) -> String) -> String {
    match r {
        Ok(v) => f(v),
        Err(e) => format!("ERR {}", e),
    }
}

/// Everything that reads a package, in turn; what each said.
fn read_all(ctx: &Ctx, b: &[u8], dir: &Path, case: u64) -> Result<Vec<String>, String> {
    let f = dir.join(format!("{:x}.pptx", case));
    let o = dir.join(format!("{:x}.out", case));
    let _ = std::fs::write(&f, b);
    let fp = f.to_str().unwrap();
    // what it holds once unpacked bounds what a reader may need
    let size = zipx::read(b).map(|e| e.iter().map(|e| e.data.len()).sum::<usize>()).unwrap_or(0) + b.len();
    let mut v = vec![];
    let mut ask = |s: Result<String, String>| -> Result<(), String> {
        v.push(s?);
        Ok(())
    };
    let run = || -> Result<(), String> {
        ask(watch(ctx, "open", size, || Package::open_reader(Cursor::new(b)), |p| {
            res(p, |p| {
                let mut n: Vec<_> = p.part_paths().into_iter().map(|n| format!("{}={:x}", n, hash_bytes(p.get_part(n).unwrap()))).collect();
                n.sort();
                n.join(" ")
            })
        }))?;
        ask(watch(ctx, "open and save", size, || Package::open_reader(Cursor::new(b)).and_then(|p| p.save_writer(Cursor::new(vec![]))), |p| res(p, |_| "saved".into())))?;
        ask(watch(ctx, "read", size, || PresentationReader::open(fp), |p| {
            res(p, |p| {
                let n = p.slide_count();
                let i = p.info();
                let mut s = format!("{} {:?} {:?}", n, i.title, i.slide_count);
                for k in (0..n.min(40)).chain([n, usize::MAX]) {
                    s.push_str(&res(&p.get_slide(k), |x| format!("{:?}", x)));
                }
                s.push_str(&res(&p.get_all_slides(), |x| x.len().to_string()));
                s.push_str(&res(&p.extract_all_text(), |x| format!("{:?}", x)));
                s
            })
        }))?;
        let mut imported = None;
        ask(watch(ctx, "import", size, || import_pptx(fp), |p| {
            res(p, |p| {
                imported = Some(p.clone());
                format!("{} {}", p.get_title(), p.slide_count())
            })
        }))?;
        if let Some(p) = imported {
            if p.slide_count() > 0 {
                let mut made = None;
                ask(watch(ctx, "import and build", size, || p.build(), |x| {
                    res(x, |x| {
                        made = Some(x.clone());
                        "built".into()
                    })
                }))?;
                if let Some(x) = made {
                    sound(&x).map_err(|e| format!("what was imported is written as a broken deck: {}", e))?;
                    ctx.count("imported decks written and judged", 1);
                }
            }
            ask(watch(ctx, "import and export as Markdown", size, || ppt_rs::export_to_markdown(&p), |x| res(x, |x| x.clone())))?;
            ask(watch(ctx, "import and export as HTML", size, || export_to_html(&p), |x| res(x, |x| x.clone())))?;
            ask(watch(ctx, "import and export as PDF", size + (1 << 20), || p.to_pdf_bytes(&Default::default()), |x| res(x, |_| "pdf".into())))?;
        }
        ask(watch(ctx, "edit", size, || -> ppt_rs::Result<String> {
            let mut e = PresentationEditor::open(fp)?;
            let mut s = e.slide_count().to_string();
            let sc = || SlideContent::new("New").add_bullet("b");
            s.push_str(&res(&e.get_slide(0), |x| format!("{:?}", x)));
            s.push_str(&res(&e.add_slide(sc()), |x| x.to_string()));
            s.push_str(&res(&e.duplicate_slide(0), |x| x.to_string()));
            s.push_str(&res(&e.insert_slide(1, sc()), |x| x.to_string()));
            s.push_str(&res(&e.reorder_slide(0, 1), |_| "".into()));
            s.push_str(&res(&e.update_slide(0, sc()), |_| "".into()));
            s.push_str(&res(&e.remove_slide(0), |_| "".into()));
            s.push_str(&res(&e.remove_slide(usize::MAX), |_| "".into()));
            s.push_str(&res(&e.save(o.to_str().unwrap()), |_| "saved".into()));
            Ok(s)
        }, |x| res(x, |x| x.clone())))?;
        ask(watch(ctx, "repair", size, || -> ppt_rs::Result<String> {
            let mut p = PptxRepair::from_bytes(b)?;
            let mut a: Vec<String> = p.validate().iter().map(|i| format!("{} {} {}", i.severity(), i.is_repairable(), i.description())).collect();
            a.sort();
            let q = p.repair();
            let out = p.to_bytes()?;
            Ok(format!("{} / {} {} {}", a.join(";"), q.total_issues(), q.critical_issues(), out.len().min(1)))
        }, |x| res(x, |x| x.clone())))?;
        for l in [CompressionLevel::Light, CompressionLevel::Medium, CompressionLevel::Aggressive] {
            ask(watch(ctx, "compress", size, || {
                let o = CompressionOptions::new().with_level(l).with_unused_media_removal(true).with_properties_removal(true).with_notes_removal(true).with_comments_removal(true).with_xml_optimization(true);
                compress_pptx_in_memory(b, &o)
            }, |x| res(x, |x| match zipx::read(&x.0) { Ok(e) => e.iter().map(|e| format!("{}={:x} ", e.name, hash_bytes(&e.data))).collect::<String>(), Err(e) => format!("unreadable: {}", e) })))?;
        }
        ask(watch(ctx, "analyse", size, || analyze_pptx(&f), |x| res(x, |x| x.summary())))?;
        ask(watch(ctx, "validate", size, || validate_package_bytes(b), |x| {
            let mut a: Vec<String> = x.error_messages();
            a.sort();
            a.join(";")
        }))?;
        ask(watch(ctx, "use as a template", size, || {
            let s = [SlideContent::new("A").add_bullet("b"), SlideContent::new("B").layout(SlideLayout::TwoColumn)];
            create_pptx_with_template("T", &s, fp, None)
        }, |x| res(x, |_| "made".into())))?;
        Ok(())
    };
    let r = { run };
    let mut r = r;
    let out = r();
    let _ = std::fs::remove_file(&f);
    let _ = std::fs::remove_file(&o);
    out?;
    Ok(v)
}

fn num(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => 0,
        1 => u32::MAX,
        2 => i32::MAX as u32,
        3 => r.u64() as u32,
        4 => 1 << r.below(32),
        _ => r.u32(0, 20_000_000),
    }
}
fn inum(r: &mut Rng) -> i32 {
    match r.below(5) {
        0 => i32::MIN,
        1 => i32::MAX,
        2 => -1,
        _ => r.u64() as i32,
    }
}
fn real(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => f64::MAX,
        4 => f64::MIN,
        5 => f64::MIN_POSITIVE,
        6 => -0.0,
        7 => 1e300,
        8 => -1e18,
        _ => (r.f64() - 0.5) * 10f64.powi(r.range(-8, 20) as i32),
    }
}

fn wild_slide(r: &mut Rng, log: &mut Vec<String>) -> SlideContent {
    let mut s = SlideContent::new(&text::plain(r));
    let n = 1 + r.below(6);
    for _ in 0..n {
        let k = r.below(12);
        log.push(k.to_string());
        match k {
            0 => s = s.title_size(num(r)),
            1 => s = s.content_size(num(r)),
            2 => {
                s = s.add_bullet(&text::plain(r));
                if let Some(b) = s.bullets.last_mut() {
                    b.level = num(r);
                }
            }
            3 => {
                let mut f = BulletTextFormat::new();
                f.font_size = Some(num(r));
                s = s.add_bullet(&text::plain(r));
                if let Some(b) = s.bullets.last_mut() {
                    b.format = Some(f);
                }
            }
            4 => {
                let mut x = Shape::new(ShapeType::Rectangle, num(r), num(r), num(r), num(r)).with_rotation(inum(r)).with_text(&text::plain(r));
                if r.bool() {
                    x = x.with_line(ShapeLine::new("FF0000", num(r)));
                }
                if r.bool() {
                    let d = match r.below(3) {
                        0 => ShapeGradientDirection::Vertical,
                        1 => ShapeGradientDirection::Horizontal,
                        _ => ShapeGradientDirection::Angle(num(r)),
                    };
                    x = x.with_gradient(ShapeGradientFill::linear("FF0000", "00FF00", d).with_stop(ShapeGradientStop::new("0000FF", num(r)).with_transparency(num(r))));
                }
                s = s.add_shape(x);
            }
            5 => {
                let mut c = Connector::new(*r.pick(&[ConnectorType::Straight, ConnectorType::Elbow, ConnectorType::Curved]), num(r), num(r), num(r), num(r));
                c = c.with_line(ConnectorLine::new("00FF00", num(r)));
                s = s.add_connector(c);
            }
            6 => {
                let (a, b) = (num(r), num(r));
                let d = image::bytes_of(r, "png");
                let mut i = Image::from_bytes(d, a, b, "PNG").position(num(r), num(r)).with_crop(real(r), real(r), real(r), real(r));
                if r.bool() {
                    i = i.scale_to_width(num(r));
                }
                if r.bool() {
                    i = i.scale_to_height(num(r));
                }
                s = s.add_image(i);
            }
            7 => {
                let v: Vec<f64> = (0..1 + r.below(5)).map(|_| { let v = real(r); if v.is_finite() { v } else { 1.0 } }).collect();
                let c = ChartBuilder::new("c", *r.pick(&[ChartType::Bar, ChartType::Line, ChartType::Pie])).categories(v.iter().map(|_| "c").collect()).add_series(ChartSeries::new("s", v)).position(num(r), num(r)).size(num(r), num(r)).build();
                s = s.add_chart(c);
            }
            8 => {
                let w: Vec<u32> = (0..1 + r.below(4)).map(|_| num(r)).collect();
                let mut t = TableBuilder::new(w.clone()).position(num(r), num(r));
                let mut c: Vec<TableCell> = w.iter().map(|_| TableCell::new("x")).collect();
                c[0] = c[0].clone().font_size(num(r)).row_span(num(r)).grid_span(num(r));
                let mut row = TableRow::new(c);
                if r.bool() {
                    row = row.with_height(num(r));
                }
                t = t.add_row(row);
                s = s.table(t.build());
            }
            9 => {
                let p = ppt_rs::core::Dimension::Inches(real(r));
                let x = Shape::new(ShapeType::Ellipse, 0, 0, 5, 5).at(p, ppt_rs::core::Dimension::Cm(real(r))).with_dimensions(ppt_rs::core::Dimension::Ratio(real(r)), ppt_rs::core::Dimension::Pt(real(r)));
                s = s.add_shape(x);
            }
            10 => {
                let mut x = Shape::new(ShapeType::RoundedRectangle, 1, 2, 3, 4).with_id(num(r));
                if r.bool() {
                    x = x.with_fill(ShapeFill::new("FF00FF").with_transparency(num(r)));
                }
                s = s.add_shape(x);
            }
            _ => s = s.notes(&text::hostile(r)),
        }
    }
    s
}

pub fn c16(ctx: &Ctx) {
    ctx.rule("Distinct by what was done to the input.");
    let dir = ctx.scratch.join("hostile");
    let _ = std::fs::create_dir_all(&dir);
    // Nesting far beyond any document, on the stack of an ordinary thread.
    if ctx.only.is_none() {
        let deep = |n: usize| format!("<?xml version=\"1.0\"?><p:sld xmlns:p=\"p\">{}{}</p:sld>", "<p:grpSp>".repeat(n), "</p:grpSp>".repeat(n));
        let s = deep(20_000);
        let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
            let a = XmlParser::parse_str(&s).map(|_| ()).is_ok();
            let b = SlideParser::parse(&s).map(|_| ()).is_ok();
            let c = Relationships::from_xml(&s).is_ok();
            (a, b, c)
        });
        match h.unwrap().join() {
            Ok(_) => ctx.count("nested 20 000 deep on a 2 MB stack", 1),
            Err(_) => ctx.fail("deep", 0, "parsing XML nested 20 000 deep panics", ""),
        }
    }
    ctx.cases("packages", ctx.n(600, 20_000), |r: &mut Rng, case| -> Res {
        let (b, how) = twist(r)?;
        let a = read_all(ctx, &b, &dir, case).map_err(|e| format!("{} — {}", e, how.join(", ")))?;
        if r.chance(1, 4) {
            let c = read_all(ctx, &b, &dir, case).map_err(|e| format!("{} — {}", e, how.join(", ")))?;
            if a != c {
                let i = (0..a.len().min(c.len())).find(|i| a[*i] != c[*i]).unwrap_or(0);
                return Err(format!("asked twice, answered {:?} and {:?} — {}", text::short(&a[i]), text::short(&c[i]), how.join(", ")));
            }
            ctx.count("answers asked for twice", a.len() as u64);
        }
        for x in &a {
            if let Some(e) = x.strip_prefix("ERR ") {
                ctx.see("different errors", e.chars().take(40).collect::<String>());
            }
        }
        Ok(Out::sig(how.join(",")).with_sample(how.join(", ")))
    });
    ctx.cases("parts", ctx.n(5000, 150_000), |r: &mut Rng, _| -> Res {
        let f = foreign::random(r, false);
        let p: Vec<(String, Vec<u8>)> = zipx::read(&f.bytes)?.into_iter().map(|e| (e.name, e.data)).filter(|e| e.0.contains("slides/")).collect();
        let mut how = vec![];
        if p.is_empty() {
            return Ok(Out::trivial());
        }
        let i = r.below(p.len());
        let mut s = p[i].1.clone();
        for _ in 0..1 + r.below(3) {
            s = twist_xml(r, &String::from_utf8_lossy(&s), &mut how);
        }
        let s = String::from_utf8_lossy(&s).to_string();
        let at = |e: String| format!("{} — {}", e, how.join(", "));
        watch(ctx, "parse XML", s.len(), || XmlParser::parse_str(&s), |x| res(x, |x| { let t = x.text_content(); format!("{}{}", x.find_all_descendants("p").len(), t.len()) })).map_err(at)?;
        watch(ctx, "parse a slide", s.len(), || SlideParser::parse(&s), |x| res(x, |x| format!("{:?}", x.all_text()))).map_err(at)?;
        watch(ctx, "parse relationships", s.len(), || Relationships::from_xml(&s), |x| res(x, |x| x.to_xml())).map_err(at)?;
        watch(ctx, "check XML", s.len(), || ppt_rs::core::validate_well_formed_xml(&s), |x| res(x, |_| String::new())).map_err(at)?;
        watch(ctx, "slide part", s.len(), || <ppt_rs::parts::SlidePart as ppt_rs::parts::Part>::from_xml(&s), |x| res(x, |_| String::new())).map_err(at)?;
        watch(ctx, "core properties", s.len(), || <ppt_rs::parts::CorePropertiesPart as ppt_rs::parts::Part>::from_xml(&s), |x| res(x, |_| String::new())).map_err(at)?;
        watch(ctx, "content types", s.len(), || <ppt_rs::parts::ContentTypesPart as ppt_rs::parts::Part>::from_xml(&s), |x| res(x, |_| String::new())).map_err(at)?;
        watch(ctx, "presentation part", s.len(), || <ppt_rs::parts::PresentationPart as ppt_rs::parts::Part>::from_xml(&s), |x| res(x, |_| String::new())).map_err(at)?;
        watch(ctx, "app properties", s.len(), || <ppt_rs::parts::AppPropertiesPart as ppt_rs::parts::Part>::from_xml(&s), |x| res(x, |_| String::new())).map_err(at)?;
        watch(ctx, "theme", s.len(), || <ppt_rs::parts::ThemePart as ppt_rs::parts::Part>::from_xml(&s), |x| res(x, |_| String::new())).map_err(at)?;
        Ok(Out::sig(how.join(",")).with_sample(how.join(", ")))
    });
    ctx.cases("numbers", ctx.n(3000, 120_000), |r: &mut Rng, _| -> Res {
        let mut log = vec![];
        let s: Vec<SlideContent> = (0..1 + r.below(3)).map(|_| wild_slide(r, &mut log)).collect();
        let mut b = None;
        watch(ctx, "build", 1 << 20, || create_pptx_with_content("T", s.clone()), |x| res(x, |x| { b = Some(x.clone()); "built".into() }))?;
        let b = b.ok_or("extreme numbers: nothing was built")?;
        for e in zipx::read(&b)? {
            if e.name.ends_with(".xml") || e.name.ends_with(".rels") {
                crate::xml::parse(&e.data).map_err(|x| format!("{}: {} — {}", e.name, x, log.join(" ")))?;
            }
        }
        let p = s.into_iter().fold(ppt_rs::Presentation::with_title("T"), |p, s| p.add_slide(s));
        watch(ctx, "HTML", 1 << 20, || export_to_html(&p), |x| res(x, |x| x.clone()))?;
        watch(ctx, "Markdown", 1 << 20, || ppt_rs::export_to_markdown(&p), |x| res(x, |x| x.clone()))?;
        watch(ctx, "PDF", 1 << 20, || p.to_pdf_bytes(&Default::default()), |x| res(x, |_| "pdf".into()))?;
        Ok(Out::sig(log.join(" ")).with_sample(format!("{:?}", p.slides().iter().map(|s| (s.shapes.len(), s.images.len())).collect::<Vec<_>>())))
    });
    ctx.cases("images", ctx.n(8000, 300_000), |r: &mut Rng, case| -> Res {
        let ext = *r.pick(&["png", "jpg", "jpeg", "gif", "bmp", "webp", "svg", "tiff", "", "PNG", "p\u{e9}"]);
        let mut b = match r.below(6) {
            0 => {
                let n = r.below(200);
                r.bytes(n)
            }
            1 => {
                let (w, h) = (r.below(65536) as u16, r.below(65536) as u16);
                image::jpeg(r, w, h)
            }
            2 => {
                let mut v = b"RIFF\x24\0\0\0WEBP".to_vec();
                v.extend(r.pick(&[b"VP8 ", b"VP8L", b"VP8X", b"ALPH"]).iter());
                let n = r.below(40);
                v.extend(r.bytes(n));
                v
            }
            3 => {
                let mut v = b"BM".to_vec();
                let n = r.below(60);
                v.extend(r.bytes(n));
                v
            }
            4 => image::gif(r, 65535, 0),
            _ => image::bytes_of(r, "png"),
        };
        let mut how = format!("{} {:?}", ext, &b[..b.len().min(4)]);
        match r.below(4) {
            0 => {
                let n = r.below(b.len() + 1);
                b.truncate(n);
                how.push_str(&format!(" cut {}", n));
            }
            1 if !b.is_empty() => {
                for _ in 0..1 + r.below(6) {
                    let i = r.below(b.len().min(40));
                    b[i] = *r.pick(&[0, 0xff, 0x7f, 0x80, 0xd8, 0xc0]);
                    how.push_str(&format!(" {}", i));
                }
            }
            2 if b.len() > 24 => {
                for x in &mut b[16..24] {
                    *x = *r.pick(&[0, 0xff]);
                }
                how.push_str(" dims");
            }
            _ => {}
        }
        let f = dir.join(format!("{:x}.{}", case, ext));
        std::fs::write(&f, &b).unwrap();
        let fp = f.to_str().unwrap().to_string();
        let go = || -> Result<(), String> {
            let one = watch(ctx, "image file", b.len(), || Image::from_path(&fp), |x| res(x, |x| format!("{} {} {}", x.width, x.height, x.format)))?;
            let two = watch(ctx, "image file", b.len(), || Image::from_path(&fp), |x| res(x, |x| format!("{} {} {}", x.width, x.height, x.format)))?;
            if one != two {
                return Err(format!("read twice as {} and {}", one, two));
            }
            watch(ctx, "image part", b.len(), || ppt_rs::parts::ImagePart::from_file(r.below(3), &fp), |x| res(x, |x| format!("{} {}", x.width(), x.mime_type())))?;
            watch(ctx, "media part", b.len(), || ppt_rs::parts::MediaPart::from_file(r.below(3), &fp), |x| res(x, |x| x.rel_target()))?;
            let s = String::from_utf8_lossy(&b).to_string();
            watch(ctx, "base64", b.len(), || Image::from_base64(&s, 1, 1, ext).get_bytes(), |x| format!("{:?}", x.as_ref().map(|x| x.len())))?;
            let i = watch(ctx, "deck with it", b.len(), || create_pptx_with_content("T", vec![SlideContent::new("T").add_image(ImageBuilder::auto(b.clone()).build()).add_image(Image::new(&fp, num(r), num(r), "PNG"))]), |x| res(x, |_| String::new()))?;
            if i.starts_with("ERR") {
                return Err(format!("a deck with the image is refused: {}", i));
            }
            Ok(())
        };
        let mut go = go;
        let a = go();
        let _ = std::fs::remove_file(&f);
        a.map_err(|e| format!("{} — {}", e, how))?;
        Ok(Out::sig(&how).with_sample(how))
    });
    ctx.cases("texts", ctx.n(2500, 100_000), |r: &mut Rng, _| -> Res {
        // bytes of every kind as the text inputs
        let n = r.below(400);
        let s = match r.below(4) {
            0 => String::from_utf8_lossy(&r.bytes(n)).to_string(),
            1 => (0..n).map(|_| *r.pick(&['#', '-', '*', '`', '|', '>', '<', '&', '\n', '\r', ' ', '\t', '1', '.', '[', ']', '(', ')', '!', '{', '}', ':', '"', '\\', '_', '~', 'a', 'é', '\u{0}', '\u{fe0f}'])).collect(),
            2 => (0..n / 10).map(|_| text::hostile(r)).collect::<Vec<_>>().join(r.pick(&["\n", "\r\n", "", "\n\n", "|"])),
            _ => {
                let x = *r.pick(&["> ", "- ", "* ", "[", "(", "**", "_", "<b>", "<div>", "<ul><li>", "<table><tr><td>", "| ", "# ", "```\n", "&amp;", "{", "subgraph a\n", "1. ", "<!--", "![](", "~~"]);
                how_many(r, x)
            }
        };
        let at = |e: String| format!("{} — {:?}", e, text::short(&s));
        let mut slides = vec![];
        watch(ctx, "Markdown", s.len() + 1000, || ppt_rs::cli::parse_markdown(&s), |x| res(x, |x| { slides.push(x.clone()); x.len().to_string() })).map_err(at)?;
        watch(ctx, "HTML", s.len() + 1000, || ppt_rs::parse_html(&s), |x| res(x, |x| { slides.push(x.clone()); x.len().to_string() })).map_err(at)?;
        let m = format!("```mermaid\n{}\n{}\n```\n", r.pick(&["flowchart TD", "sequenceDiagram", "pie", "gantt", "classDiagram", "stateDiagram-v2", "erDiagram", "mindmap", "timeline", "journey", "quadrantChart", "gitGraph", ""]), s.replace("```", "``"));
        watch(ctx, "diagram", m.len() + 1000, || ppt_rs::cli::parse_markdown(&m), |x| res(x, |x| { slides.push(x.clone()); x.len().to_string() })).map_err(at)?;
        for v in slides {
            if v.is_empty() {
                continue;
            }
            let b = create_pptx_with_content("T", v).map_err(|e| at(format!("cannot write it: {}", e)))?;
            sound(&b).map_err(|e| at(format!("written as a broken deck: {}", e)))?;
            ctx.count("decks of texts written and judged", 1);
        }
        for f in [ppt_rs::escape_xml as fn(&str) -> String] {
            watch(ctx, "escape", s.len(), || f(&s), |x| x.clone()).map_err(at)?;
        }
        watch(ctx, "colours", s.len(), || (ppt_rs::RgbColor::from_hex(&s).map(|c| c.to_hex()), ppt_rs::Color::from_hex(&s).is_some()), |x| format!("{:?}", x)).map_err(at)?;
        Ok(Out::sig(&s).with_sample(text::short(&s)))
    });
    let _ = write;
}

fn how_many(r: &mut Rng, x: &str) -> String {
    let n = *r.pick(&[10, 100, 1000, 5000]);
    let mut s = x.repeat(n);
    if r.bool() {
        s.push_str("end");
    }
    s
}
