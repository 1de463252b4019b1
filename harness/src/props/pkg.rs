//! Packages as a whole: the part store, compression, repair and the validator.
use super::gen1::{brief, sound, write};
use super::read::{fingerprint, outline};
use crate::opc::{self, Pkg};
use crate::report::{self, Ctx, Out, Res, guard};
use crate::rng::Rng;
use crate::spec::deck::{self, ALL, Profile};
use crate::spec::{foreign, settings};
use crate::text;
use crate::xml::{self, Elem, Node};
use crate::zipx;
use ppt_rs::core::{ValidationSeverity, validate_package_bytes};
use ppt_rs::generator::create_pptx_with_settings;
use ppt_rs::opc::Package;
use ppt_rs::opc::compress::{CompressionLevel, CompressionOptions, analyze_pptx, compress_pptx, compress_pptx_in_memory};
use ppt_rs::oxml::repair::{PptxRepair, RepairIssue};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Cursor;

const SMALL: Profile = Profile { max_slides: 4, shapes: 2, conns: 1, images: 2, charts: 1, ..ALL };

fn show_parts(a: &BTreeMap<String, Vec<u8>>) -> String {
    a.iter().map(|(k, v)| format!("{:?}:{}", k, v.len())).collect::<Vec<_>>().join(" ")
}

// ---------------------------------------------------------------- C12 part store

fn part_name(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "[Content_Types].xml".into(),
        1 => "_rels/.rels".into(),
        2 => format!("ppt/slides/slide{}.xml", r.below(4)),
        3 => format!("ppt/Slides/slide{}.xml", r.below(4)),
        4 => format!("ppt/media/image{}.{}", r.below(3), r.pick(&["png", "PNG", "jpeg"])),
        5 if r.chance(1, 3) => r.pick(&["/lead.xml", "a//b.xml", "a/../b.xml", "./dot.xml", "../up.xml", "b.xml", "a\\b.xml", "dot.xml"]).to_string(),
        5 => format!("{}/{}", text::tag(r), text::tag(r)),
        6 => format!("ppt/{} {}.xml", *r.pick(&["a b", "é", "日本", "a&b", "a+b", "a%20b", "'q'"]), r.below(3)),
        _ => format!("x{}", r.below(5)),
    }
}
fn part_data(r: &mut Rng) -> Vec<u8> {
    match r.below(6) {
        0 => vec![],
        1 => r.bytes(1),
        2 => vec![b'a'; r.below(70_000)],
        3 => {
            let n = r.below(40_000);
            r.bytes(n)
        }
        4 => text::any(r).into_bytes(),
        _ => {
            let n = r.below(200);
            r.bytes(n)
        }
    }
}

pub fn c12(ctx: &Ctx) {
    ctx.rule("Distinct by the sequence of operations and the names they touch.");
    let dir = ctx.scratch.join("store");
    let _ = std::fs::create_dir_all(&dir);
    ctx.cases("histories", ctx.n(9000, 120_000), |r: &mut Rng, case| -> Res {
        let mut p = if r.bool() { Package::new() } else { Package::default() };
        let mut m: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        let mut log = vec![];
        let n = 1 + r.below(40);
        for _ in 0..n {
            let name = if !m.is_empty() && r.chance(1, 2) { m.keys().nth(r.below(m.len())).unwrap().clone() } else { part_name(r) };
            let at = || log.join(" ");
            match r.below(10) {
                0..=3 => {
                    let d = match m.get(&name) {
                        // one byte away from what is there
                        Some(o) if !o.is_empty() && r.bool() => {
                            let mut o = o.clone();
                            let i = r.below(o.len());
                            o[i] ^= 1;
                            o
                        }
                        _ => part_data(r),
                    };
                    p.add_part(name.clone(), d.clone());
                    m.insert(name.clone(), d);
                    log.push(format!("add {}", name));
                }
                4 => {
                    let (g, w) = (p.remove_part(&name), m.remove(&name));
                    if g != w {
                        return Err(format!("remove {} gave {:?} bytes, stored {:?} — {}", name, g.map(|v| v.len()), w.map(|v| v.len()), at()));
                    }
                    log.push(format!("remove {}", name));
                }
                5 => {
                    match (p.get_part_mut(&name), m.get_mut(&name)) {
                        (Some(a), Some(b)) => {
                            let x = r.u64() as u8;
                            a.push(x);
                            b.push(x);
                        }
                        (None, None) => {}
                        (a, b) => return Err(format!("mutable {}: {} for {} — {}", name, a.is_some(), b.is_some(), at())),
                    }
                    log.push(format!("push {}", name));
                }
                6 | 7 => {
                    // through a file or a stream and back
                    let bytes = if r.bool() {
                        let mut c = Cursor::new(vec![]);
                        p.save_writer(&mut c).map_err(|e| format!("cannot save: {} — {}", e, at()))?;
                        c.into_inner()
                    } else {
                        let f = dir.join(format!("{:x}.pptx", case));
                        if r.bool() {
                            // what was there before must not shine through
                            std::fs::write(&f, vec![7u8; 300_000]).unwrap();
                        }
                        p.save(&f).map_err(|e| format!("cannot save: {} — {}", e, at()))?;
                        let b = std::fs::read(&f).unwrap();
                        let q = Package::open(&f).map_err(|e| format!("cannot open what was saved: {} — {}", e, at()))?;
                        same_store(&q, &m).map_err(|e| format!("opened from a file: {} — {}", e, at()))?;
                        let _ = std::fs::remove_file(&f);
                        b
                    };
                    let own = zipx::read(&bytes).map_err(|e| format!("the saved archive is not a ZIP file: {} — {}", e, at()))?;
                    let got: BTreeMap<String, Vec<u8>> = own.iter().map(|e| (e.name.clone(), e.data.clone())).collect();
                    if own.len() != m.len() || got != m {
                        return Err(format!("saved {} as {} — {}", show_parts(&m), show_parts(&got), at()));
                    }
                    p = Package::open_reader(Cursor::new(bytes)).map_err(|e| format!("cannot open what was saved: {} — {}", e, at()))?;
                    log.push("save+open".into());
                    ctx.count("save and open round trips", 1);
                }
                8 => {
                    // an archive of another program, with folders as entries
                    let mut e: Vec<(String, Vec<u8>)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                    r.shuffle(&mut e);
                    if r.bool() {
                        e.insert(0, ("ppt/".into(), vec![]));
                    }
                    p = Package::open_reader(Cursor::new(zipx::write(&e))).map_err(|e| format!("cannot open a foreign archive: {} — {}", e, at()))?;
                    log.push("open foreign".into());
                }
                _ => {
                    same_store(&p, &m).map_err(|e| format!("{} — {}", e, at()))?;
                    let s = m.get(&name).map(|v| String::from_utf8_lossy(v).to_string());
                    if p.get_part_string(&name) != s {
                        return Err(format!("{} as text differs — {}", name, at()));
                    }
                }
            }
            ctx.count("operations", 1);
        }
        same_store(&p, &m).map_err(|e| format!("{} — {}", e, log.join(" ")))?;
        Ok(Out::sig(log.join(" ")).with_sample(log.join(", ")))
    });
    // the same parts saved twice are the same archive, and reading is strict about broken archives
    ctx.cases("archives", ctx.n(400, 15_000), |r: &mut Rng, _| -> Res {
        let d = deck::random(r, &SMALL, None);
        let b = write(&d)?;
        let k = Pkg::load(&b)?;
        let p = Package::open_reader(Cursor::new(&b)).map_err(|e| e.to_string())?;
        same_store(&p, &k.parts).map_err(|e| format!("opened deck: {}", e))?;
        let names = |b: &[u8]| -> Result<Vec<String>, String> { Ok(zipx::read(b)?.into_iter().map(|e| e.name).collect()) };
        let save = |p: &Package| -> Result<Vec<u8>, String> {
            let mut c = Cursor::new(vec![]);
            p.save_writer(&mut c).map_err(|e| e.to_string())?;
            Ok(c.into_inner())
        };
        let (x, y) = (save(&p)?, save(&Package::open_reader(Cursor::new(&b)).map_err(|e| e.to_string())?)?);
        if names(&x)? != names(&y)? {
            return Err(format!("two saves of the same package order its parts differently: {:?} / {:?}", names(&x)?, names(&y)?));
        }
        sound(&x).map_err(|e| format!("a saved copy of a sound deck: {}", e))?;
        // cut or flip bytes: either an error or the right bytes, never wrong bytes
        for _ in 0..4 {
            let mut z = b.clone();
            let dir_at = z.windows(4).position(|w| w == b"PK\x01\x02").unwrap_or(0);
            // names in the directory have no checksum: damage there may go unseen
            let mut checked = true;
            let how = if r.bool() {
                let n = r.below(z.len());
                z.truncate(n);
                format!("cut to {}", n)
            } else {
                let (i, bit) = (r.below(z.len()), r.below(8));
                z[i] ^= 1 << bit;
                checked = i < dir_at;
                format!("bit {} of byte {} flipped", bit, i)
            };
            ctx.count("damaged archives opened", 1);
            match guard(|| Package::open_reader(Cursor::new(&z))) {
                Err((m, l)) => return Err(format!("panic on an archive {}: {} at {}", how, m, l)),
                Ok(Err(_)) => ctx.count("damaged archives refused", 1),
                Ok(Ok(q)) if checked => {
                    same_store(&q, &k.parts).map_err(|e| format!("an archive {} opens with {}", how, e))?;
                    ctx.count("damaged archives opened with the right content", 1);
                }
                Ok(Ok(_)) => {}
            }
        }
        Ok(Out::sig(d.sig()))
    });
}

fn same_store(p: &Package, m: &BTreeMap<String, Vec<u8>>) -> Result<(), String> {
    let mut names: Vec<&str> = p.part_paths();
    names.sort();
    if names != m.keys().map(|s| s.as_str()).collect::<Vec<_>>() || p.part_count() != m.len() {
        return Err(format!("parts {:?} ({}) instead of {:?}", names, p.part_count(), m.keys().collect::<Vec<_>>()));
    }
    for (k, v) in m {
        if p.get_part(k) != Some(v.as_slice()) || !p.has_part(k) {
            return Err(format!("part {} holds {:?} bytes instead of {}, or other ones", k, p.get_part(k).map(|v| v.len()), v.len()));
        }
    }
    for n in ["", "nothing/here.xml", "PPT/presentation.xml"] {
        if !m.contains_key(n) && (p.has_part(n) || p.get_part(n).is_some()) {
            return Err(format!("a part {:?} appears from nowhere", n));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- decks of either origin

pub struct Any {
    pub bytes: Vec<u8>,
    pub show: String,
    pub sig: String,
    pub foreign: bool,
}

/// A sound deck, written by the library or by another program.
pub fn any_deck(r: &mut Rng, own: bool) -> Result<Any, String> {
    if own {
        let d = deck::random(r, &SMALL, None);
        Ok(Any { bytes: write(&d)?, show: brief(&d), sig: d.sig(), foreign: false })
    } else {
        let d = foreign::random(r, true);
        sound(&d.bytes).map_err(|e| format!("HARNESS:the foreign package is not sound: {}", e))?;
        Ok(Any { bytes: d.bytes.clone(), show: outline(&d), sig: d.sig(), foreign: true })
    }
}

/// Everything an XML part says: white space between elements is layout, the text of leaves is not.
fn strict(x: &Elem, s: &mut String, keep: bool) {
    s.push_str(&format!("<{}|{}", x.ns.as_deref().unwrap_or(""), x.local));
    let mut at: Vec<String> = x.attrs.iter().map(|a| format!(" {}|{}={:?}", a.ns.as_deref().unwrap_or(""), a.local, a.value)).collect();
    at.sort();
    s.push_str(&at.concat());
    s.push('>');
    let space = |x: &Elem| x.attrs.iter().find(|a| a.qname == "xml:space").map(|a| a.value == "preserve");
    let kept = keep || space(x) == Some(true);
    let leaf = kept || x.elems().next().is_none();
    for c in &x.children {
        match c {
            Node::Text(t) => {
                if leaf || !t.trim_matches([' ', '\n', '\t', '\r']).is_empty() {
                    s.push_str(&format!("{:?}", t));
                }
            }
            Node::Elem(e) => strict(e, s, kept && space(e) != Some(false)),
        }
    }
    s.push_str("</>");
}
fn strict_of(b: &[u8]) -> Result<String, String> {
    let x = xml::parse(b)?;
    let mut s = String::new();
    strict(&x, &mut s, false);
    Ok(s)
}

// ---------------------------------------------------------------- C13 compression

fn rel_set(k: &Pkg, part: &str, gone: &BTreeSet<String>) -> BTreeSet<String> {
    k.rels_of(part).iter().filter(|r| r.external || !gone.contains(&r.part)).map(|r| format!("{} {} {} {}", r.id, r.typ, if r.external { &r.target } else { &r.part }, r.external)).collect()
}

pub fn c13(ctx: &Ctx) {
    ctx.rule("Distinct by deck structure, options and the parts added to be removed.");
    ctx.cases("levels", 101, |_, q| -> Res {
        use CompressionLevel::*;
        let v: Vec<u8> = [Light, Medium, Aggressive].iter().map(|l| l.image_quality()).collect();
        let d: Vec<u32> = [Light, Medium, Aggressive].iter().map(|l| l.max_image_dimension()).collect();
        let q = (q % 101) as u8;
        if Custom(q).image_quality() != q || !(v[0] >= v[1] && v[1] >= v[2] && v[2] > 0 && v[0] <= 100) || !(d[0] >= d[1] && d[1] >= d[2] && d[2] > 0) {
            return Err(format!("levels ask for qualities {:?} and sizes {:?}, a quality of {} for {}", v, d, q, Custom(q).image_quality()));
        }
        Ok(Out::sig(format!("q{}", q)))
    });
    let dir = ctx.scratch.join("zip");
    let _ = std::fs::create_dir_all(&dir);
    ctx.cases("compress", ctx.n(2500, 30_000), |r: &mut Rng, case| -> Res {
        let own = r.bool();
        let a = any_deck(r, own)?;
        let mut parts = Pkg::load(&a.bytes)?.parts;
        // media nothing shows, with names close to those in use
        let mut idle = BTreeSet::new();
        let base = Pkg::load(&a.bytes)?;
        for i in 0..r.below(4) {
            let ext = base.defaults.keys().find(|e| matches!(e.as_str(), "png" | "jpeg" | "jpg")).cloned();
            let Some(ext) = ext else { break };
            let n = match r.below(3) {
                0 => format!("ppt/media/image{}.{}", 90 + i, ext),
                1 => format!("ppt/media/image1{}.{}", i, ext),
                _ => format!("ppt/media/{}.{}", text::tag(r), ext),
            };
            if !parts.contains_key(&n) {
                parts.insert(n.clone(), r.bytes(50));
                idle.insert(n);
            }
        }
        // a picture only the master shows
        let master = "ppt/slideMasters/slideMaster1.xml";
        let mut on_master = None;
        if r.chance(1, 3)
            && let Some(n) = idle.iter().next().cloned()
            && let (Some(x), Some(rl)) = (parts.get(master).cloned(), parts.get(&opc::rels_name(master)).cloned()) {
                let (x, rl) = (String::from_utf8_lossy(&x).to_string(), String::from_utf8_lossy(&rl).to_string());
                if x.contains("</p:spTree>") && rl.contains("</Relationships>") {
                    let pic = "<p:pic><p:nvPicPr><p:cNvPr id=\"7711\" name=\"logo\"/><p:cNvPicPr/><p:nvPr/></p:nvPicPr><p:blipFill><a:blip r:embed=\"rId771\"/><a:stretch><a:fillRect/></a:stretch></p:blipFill><p:spPr><a:xfrm><a:off x=\"0\" y=\"0\"/><a:ext cx=\"9\" cy=\"9\"/></a:xfrm><a:prstGeom prst=\"rect\"><a:avLst/></a:prstGeom></p:spPr></p:pic></p:spTree>";
                    parts.insert(master.into(), x.replacen("</p:spTree>", pic, 1).into_bytes());
                    parts.insert(opc::rels_name(master), rl.replacen("</Relationships>", &format!("<Relationship Id=\"rId771\" Type=\"{}/image\" Target=\"../media/{}\"/></Relationships>", opc::NS_R, n.rsplit('/').next().unwrap()), 1).into_bytes());
                    idle.remove(&n);
                    on_master = Some(n);
                }
            }
        // media that only some other part leads to
        let mut held = vec![];
        for n in idle.clone() {
            if r.chance(2, 3) {
                continue;
            }
            let src: Vec<&String> = base.parts.keys().filter(|p| p.ends_with(".xml") && !p.contains("notesSlides/") && !p.starts_with("docProps/") && *p != "[Content_Types].xml").collect();
            let src = if r.chance(1, 8) { String::new() } else { r.pick(&src).to_string() };
            let rn = opc::rels_name(&src);
            let ups = "../".repeat(src.matches('/').count());
            let target = match r.below(3) {
                0 => format!("/{}", n),
                1 => format!("{}./{}", ups, n),
                _ => format!("{}{}", ups, n),
            };
            let rel = format!("<Relationship Id=\"held{}\" Type=\"{}/image\" Target=\"{}\"/></Relationships>", held.len(), opc::NS_R, target);
            let old = parts.get(&rn).map(|d| String::from_utf8_lossy(d).to_string()).unwrap_or_else(|| "<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"></Relationships>".into());
            if !old.contains("</Relationships>") {
                continue;
            }
            parts.insert(rn, old.replacen("</Relationships>", &rel, 1).into_bytes());
            idle.remove(&n);
            held.push((src, target));
        }
        // files elsewhere with the name of idle media, and text that keeps its white space
        for (i, n) in idle.iter().enumerate() {
            let s = r.pick(&base.slides().iter().map(|s| s.as_str()).chain([master]).collect::<Vec<_>>()).to_string();
            if let Some(x) = parts.get(&opc::rels_name(&s)).map(|x| String::from_utf8_lossy(x).to_string())
                && r.chance(1, 3)
                && x.contains("</Relationships>")
            {
                let rel = format!("<Relationship Id=\"far{}\" Type=\"{}/image\" Target=\"../media/{}\" TargetMode=\"External\"/></Relationships>", i, opc::NS_R, n.rsplit('/').next().unwrap());
                parts.insert(opc::rels_name(&s), x.replacen("</Relationships>", &rel, 1).into_bytes());
            }
        }
        if let Some(s) = base.slides().first()
            && r.chance(1, 4)
            && let Some(x) = parts.get(s).map(|x| String::from_utf8_lossy(x).to_string())
            && x.contains("</p:sld>")
            && !x.contains("</p:extLst></p:sld>")
        {
            let e = "<p:extLst><p:ext uri=\"{00000000-0000-0000-0000-000000000001}\"><v:v xmlns:v=\"urn:v\" xml:space=\"preserve\"> <v:w> </v:w>\n\t<v:w a='1 > 0'/>  </v:v></p:ext></p:extLst></p:sld>";
            parts.insert(s.clone(), x.replacen("</p:sld>", e, 1).into_bytes());
        }
        let entries: Vec<(String, Vec<u8>)> = parts.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        let input = zipx::write(&entries);
        let k = sound_but_idle(&input).map_err(|e| format!("HARNESS:{}", e))?;

        let mut o = match r.below(4) {
            0 => CompressionOptions::maximum(),
            1 => CompressionOptions::web(),
            _ => CompressionOptions::new(),
        };
        if r.chance(3, 4) {
            o = o.with_level(*r.pick(&[CompressionLevel::Light, CompressionLevel::Medium, CompressionLevel::Aggressive, CompressionLevel::Custom(3)])).with_unused_media_removal(r.bool()).with_properties_removal(r.bool()).with_notes_removal(r.bool()).with_comments_removal(r.bool()).with_xml_optimization(r.bool());
        }
        if r.bool() {
            o = o.with_target_size(1 + r.below(2 * input.len()));
        }
        let show = |e: String| format!("{} — {:?}, idle media {:?}, on the master {:?}, held by {:?} — {}", e, o, idle, on_master, held, a.show);
        let (out, res) = if r.bool() {
            let (o, r) = compress_pptx_in_memory(&input, &o).map_err(|e| show(format!("refused: {}", e)))?;
            (o, r)
        } else {
            let (f, g) = (dir.join(format!("{:x}-in.pptx", case)), dir.join(format!("{:x}-out.pptx", case)));
            let g = if r.chance(1, 4) { f.clone() } else { g };
            std::fs::write(&f, &input).unwrap();
            let res = compress_pptx(&f, &g, &o).map_err(|e| show(format!("refused: {}", e)))?;
            if f != g && std::fs::read(&f).unwrap() != input {
                return Err(show("the input file was changed".into()));
            }
            let b = std::fs::read(&g).unwrap();
            analysis(&g, &b).map_err(show)?;
            let _ = std::fs::remove_file(&f);
            let _ = std::fs::remove_file(&g);
            (b, res)
        };
        let c = sound_but_idle(&out).map_err(|e| show(format!("the compressed deck: {}", e)))?;
        // what has to be gone, and nothing else
        let mut gone: BTreeSet<String> = BTreeSet::new();
        if o.remove_unused_media {
            gone.extend(idle.iter().cloned());
            if res.unused_media_removed != idle.len() {
                return Err(show(format!("{} unused media files reported removed, {} were there", res.unused_media_removed, idle.len())));
            }
        } else if res.unused_media_removed != 0 {
            return Err(show("unused media reported removed against the options".into()));
        }
        if o.remove_properties {
            gone.extend(["docProps/core.xml", "docProps/app.xml"].iter().filter(|p| k.parts.contains_key(**p)).map(|s| s.to_string()));
        }
        let notes: Vec<String> = k.slides().iter().flat_map(|s| k.rel_by_type(s, "notesSlide").iter().map(|r| r.part.clone()).collect::<Vec<_>>()).collect();
        if o.remove_notes {
            for n in &notes {
                gone.insert(n.clone());
                gone.insert(opc::rels_name(n));
            }
            ctx.count("notes pages removed", notes.len() as u64);
        }
        for (n, d) in &k.parts {
            if gone.contains(n) {
                if c.parts.contains_key(n) {
                    return Err(show(format!("{} should have been removed", n)));
                }
                continue;
            }
            let Some(g) = c.parts.get(n) else { return Err(show(format!("{} was lost", n))) };
            if n == "[Content_Types].xml" {
                continue;
            }
            if let Some(src) = opc::rels_source(n) {
                if rel_set(&k, &src, &gone) != rel_set(&c, &src, &gone) {
                    return Err(show(format!("relationships of {:?}: {:?} became {:?}", src, rel_set(&k, &src, &gone), rel_set(&c, &src, &gone))));
                }
            } else if n.ends_with(".xml") && o.optimize_xml {
                if strict_of(d)? != strict_of(g).map_err(|e| show(format!("{}: {}", n, e)))? {
                    let (w, g) = (strict_of(d)?, strict_of(g)?);
                    let i = w.bytes().zip(g.bytes()).take_while(|(a, b)| a == b).count();
                    let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[i.saturating_sub(60)..(i + 80).min(s.len())]).to_string();
                    return Err(show(format!("{} says something else: {} became {}", n, cut(&w), cut(&g))));
                }
            } else if d != g {
                return Err(show(format!("the bytes of {} changed", n)));
            }
            ctx.count("parts compared", 1);
        }
        if let Some(n) = c.parts.keys().find(|n| !k.parts.contains_key(*n)) {
            return Err(show(format!("{} appears", n)));
        }
        for n in k.parts.keys().filter(|n| !gone.contains(*n)) {
            if k.content_type(n) != c.content_type(n) {
                return Err(show(format!("{} had type {:?} and has {:?}", n, k.content_type(n), c.content_type(n))));
            }
        }
        if res.original_size != input.len() || res.compressed_size != out.len() {
            return Err(show(format!("sizes {} and {} reported as {} and {}", input.len(), out.len(), res.original_size, res.compressed_size)));
        }
        let pct = (input.len() as f64 - out.len() as f64) / input.len() as f64 * 100.0;
        if (pct - res.reduction_percent).abs() > 1e-6 {
            return Err(show(format!("reduction of {}% reported as {}", pct, res.reduction_percent)));
        }
        if res.target_achieved != (o.target_size == 0 || out.len() <= o.target_size) {
            return Err(show(format!("{} bytes for a target of {}: achieved = {}", out.len(), o.target_size, res.target_achieved)));
        }
        let (out2, res2) = compress_pptx_in_memory(&out, &o).map_err(|e| show(format!("refused its own output: {}", e)))?;
        if Pkg::load(&out2)?.parts != c.parts || res2.unused_media_removed != 0 {
            return Err(show("compressing again changes the deck again".into()));
        }
        Ok(Out::sig(format!("{}{}{:?}", a.sig, idle.len(), o)).with_sample(format!("{:?}, {} idle media, {}", o, idle.len(), a.sig)))
    });
    ctx.cases("api", ctx.n(120, 4000), |r: &mut Rng, case| -> Res {
        let d = deck::random(r, &SMALL, None);
        if d.slides.is_empty() {
            return Ok(Out::trivial());
        }
        let mut p = ppt_rs::Presentation::with_title(&d.title);
        for s in d.contents() {
            p = p.add_slide(s);
        }
        let f = dir.join(format!("{:x}-api.pptx", case));
        let o = CompressionOptions::new().with_notes_removal(r.bool());
        let res = p.compress(f.to_str().unwrap(), &o).map_err(|e| format!("refused: {} — {}", e, brief(&d)))?;
        let b = std::fs::read(&f).unwrap();
        let _ = std::fs::remove_file(&f);
        if res.compressed_size != b.len() {
            return Err(format!("{} bytes reported as {}", b.len(), res.compressed_size));
        }
        let k = sound(&b).map_err(|e| format!("{} — {}", e, brief(&d)))?;
        if !o.remove_notes {
            d.check_all(&k).map_err(|e| format!("after compression: {} — {}", e, brief(&d)))?;
        }
        ctx.count("decks compared with what was asked for after compression", 1);
        Ok(Out::sig(d.sig()))
    });
    let junk = dir.clone();
    ctx.cases("junk", ctx.n(200, 5000), |r: &mut Rng, case| -> Res {
        // what is not a deck is refused, and the output is not touched
        let n = r.below(400);
        let b = r.bytes(n);
        if compress_pptx_in_memory(&b, &CompressionOptions::new()).is_ok() {
            return Err(format!("{} random bytes were compressed as a deck", n));
        }
        let (f, g) = (junk.join(format!("{:x}-j", case)), junk.join(format!("{:x}-k", case)));
        std::fs::write(&f, &b).unwrap();
        std::fs::write(&g, b"precious").unwrap();
        if compress_pptx(&f, &g, &CompressionOptions::new()).is_ok() || std::fs::read(&g).unwrap() != b"precious" {
            return Err("a failing compression touched its output".into());
        }
        let _ = (std::fs::remove_file(&f), std::fs::remove_file(&g));
        Ok(Out::sig(format!("{}", n)))
    });
}

/// Sound, apart from parts nothing leads to.
fn sound_but_idle(b: &[u8]) -> Result<Pkg, String> {
    let mut k = Pkg::load(b)?;
    k.judge();
    k.problems.retain(|p| p.code != "unreachable");
    if k.problems.is_empty() { Ok(k) } else { Err(format!("package is not sound: {}", k.first_problems(3))) }
}

fn analysis(f: &std::path::Path, b: &[u8]) -> Result<(), String> {
    let a = analyze_pptx(f).map_err(|e| e.to_string())?;
    let k = Pkg::load(b)?;
    let size = |f: &dyn Fn(&str) -> bool| k.parts.iter().filter(|(n, _)| f(n)).map(|(_, d)| d.len()).sum::<usize>();
    let img = |n: &str| n.starts_with("ppt/media/") && [".png", ".jpg", ".jpeg"].iter().any(|e| n.ends_with(e));
    let x = |n: &str| n.ends_with(".xml") || n.ends_with(".rels");
    let want = (b.len(), size(&img), size(&x), size(&|n| !img(n) && !x(n)), k.parts.keys().filter(|n| img(n)).count());
    let got = (a.total_size, a.images_size, a.xml_size, a.other_size, a.image_count);
    if want != got {
        return Err(format!("sizes (total, images, xml, other, number of images) {:?} are analysed as {:?}", want, got));
    }
    let slides = k.parts.keys().filter(|n| n.starts_with("ppt/slides/slide") && n.ends_with(".xml")).count();
    if a.slide_count != slides {
        return Err(format!("{} slides are counted as {}", slides, a.slide_count));
    }
    let p = if b.is_empty() { 0.0 } else { a.images_size as f64 / b.len() as f64 * 100.0 };
    if (a.images_percentage() - p).abs() > 1e-6 {
        return Err(format!("images are {}% of the file, told as {}%", p, a.images_percentage()));
    }
    let media = k.parts.keys().filter(|n| n.starts_with("ppt/media/") && !img(n)).count();
    let sum = a.summary();
    let human = |n: usize| match n {
        0..1024 => format!("{} B", n),
        1024..1_048_576 => format!("{:.1} KB", n as f64 / 1024.0),
        1_048_576..1_073_741_824 => format!("{:.1} MB", n as f64 / 1048576.0),
        _ => format!("{:.2} GB", n as f64 / 1073741824.0),
    };
    for (head, want) in [
        ("Total size:", vec![human(want.0)]),
        ("Images:", vec![want.4.to_string(), format!("({})", human(want.1))]),
        ("Slides:", vec![slides.to_string()]),
        ("XML data:", vec![human(want.2)]),
        ("Other media:", vec![media.to_string(), format!("({})", human(want.3))]),
    ] {
        let line = sum.lines().find_map(|l| l.split_once(head)).map(|x| format!(" {} ", x.1.replace(',', " ")));
        if !line.as_ref().is_some_and(|l| want.iter().all(|w| l.contains(&format!(" {} ", w)) || l.contains(&format!(" {})", w)))) {
            return Err(format!("the summary {:?} does not tell {} {:?}", sum, head, want));
        }
    }
    if a.media_count != media {
        return Err(format!("{} media files other than images are counted as {}", media, a.media_count));
    }
    Ok(())
}

// ---------------------------------------------------------------- C14 repair

fn repair_of(b: &[u8]) -> Result<PptxRepair, String> {
    PptxRepair::from_bytes(b).map_err(|e| format!("cannot be opened for repair: {}", e))
}
fn pack(parts: &BTreeMap<String, Vec<u8>>, r: &mut Rng) -> Vec<u8> {
    let mut e: Vec<(String, Vec<u8>)> = parts.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    if r.bool() {
        r.shuffle(&mut e);
    }
    zipx::write(&e)
}
const MAIN: &str = "ppt/presentation.xml";

/// Relationship parts in another layout: everything on one line, or attributes in another order.
fn relayout(k: &Pkg, parts: &mut BTreeMap<String, Vec<u8>>, r: &mut Rng) {
    for (src, rels) in &k.rels {
        let mut s = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\">");
        let mode = r.below(4);
        let frag = r.chance(1, 3);
        for x in rels {
            let place = if frag && !x.external && opc::short_type(&x.typ) == "slide" && src.starts_with("ppt/slides/") { "#here" } else { "" };
            let mut at = vec![format!("Id=\"{}\"", xml::esc(&x.id)), format!("Type=\"{}\"", xml::esc(&x.typ)), format!("Target=\"{}{}\"", xml::esc(&x.target), place)];
            if x.external {
                at.push("TargetMode=\"External\"".into());
            }
            if mode > 0 {
                r.shuffle(&mut at);
            }
            let sep = if mode == 2 { "\n   " } else { " " };
            s.push_str(&format!("{}<Relationship{}{}{}", if mode == 3 { "\n" } else { "" }, sep, at.join(sep), if mode == 2 { "></Relationship>" } else { "/>" }));
        }
        s.push_str("</Relationships>");
        parts.insert(opc::rels_name(src), s.into_bytes());
    }
}

fn slide_prints(k: &Pkg) -> Vec<(String, String)> {
    k.slides().into_iter().map(|s| (s.clone(), fingerprint(k, &s, &mut vec![]))).collect()
}

struct Damage {
    what: String,
    /// the report must contain this
    expect: Box<dyn Fn(&RepairIssue) -> bool>,
    /// the slides whose content or place may change
    hits: BTreeSet<String>,
    /// the order of all slides may be lost
    order: bool,
    /// cannot be undone
    hopeless: bool,
}

fn inflict(k: &Pkg, parts: &mut BTreeMap<String, Vec<u8>>, r: &mut Rng) -> Option<Damage> {
    let slides = k.slides();
    let d = |what: String, expect: Box<dyn Fn(&RepairIssue) -> bool>| Some(Damage { what, expect, hits: BTreeSet::new(), order: false, hopeless: false });
    let users = |t: &str| -> BTreeSet<String> { slides.iter().filter(|s| *s == t || k.rels_of(s).iter().any(|x| x.part == t || k.rels_of(&x.part).iter().any(|y| y.part == t))).cloned().collect() };
    match r.below(12) {
        0..=3 => {
            let p = *r.pick(&["[Content_Types].xml", "_rels/.rels", MAIN, "ppt/_rels/presentation.xml.rels"]);
            let old = parts.remove(p)?;
            let mut x = d(format!("{} removed", p), Box::new(move |i| matches!(i, RepairIssue::MissingPart { path, .. } if path == p)))?;
            if r.chance(1, 3) {
                let n = r.below(old.len());
                if xml::parse(&old[..n]).is_ok() {
                    return None;
                }
                parts.insert(p.into(), old[..n].to_vec());
                x = d(format!("{} cut to {} bytes", p, n), Box::new(move |i| matches!(i, RepairIssue::InvalidXml { path, .. } if path == p)))?;
            }
            x.order = p.starts_with("ppt/");
            Some(x)
        }
        4 | 5 => {
            // a part something leads to, and that leads nowhere essential
            let mut t: Vec<(String, String, String)> = k.rels.iter().flat_map(|(s, v)| v.iter().filter(|x| !x.external && matches!(opc::short_type(&x.typ), "image" | "chart" | "notesSlide" | "slide" | "core-properties" | "extended-properties" | "presProps" | "viewProps" | "tableStyles")).map(move |x| (s.clone(), x.id.clone(), x.part.clone()))).collect();
            t.retain(|x| parts.contains_key(&x.2));
            t.sort();
            if t.is_empty() {
                return None;
            }
            let (src, id, part) = r.pick(&t).clone();
            parts.remove(&part)?;
            parts.remove(&opc::rels_name(&part));
            let (rn, p2) = (opc::rels_name(&src), part.clone());
            let mut x = d(format!("{} removed", part), Box::new(move |i| matches!(i, RepairIssue::BrokenRelationship { source, target, rel_id } if *source == rn && *target == p2 && *rel_id == id)))?;
            x.hits = users(&part);
            // others may share the part
            Some(x)
        }
        6 => {
            // a relationship to nothing
            let src = r.pick(&slides.iter().map(|s| s.as_str()).chain([MAIN, ""]).collect::<Vec<_>>()).to_string();
            let rn = opc::rels_name(&src);
            let s = String::from_utf8_lossy(parts.get(&rn)?).to_string();
            if !s.contains("</Relationships>") {
                return None;
            }
            let t = text::tag(r);
            let target = *r.pick(&["slides/gone.xml", "../gone.xml", "../../../gone.bin", "/ppt/media/gone.png", "./gone.xml"]);
            let n = s.replacen("</Relationships>", &format!("<Relationship Id=\"rId{}\" Type=\"{}/image\" Target=\"{}\"/></Relationships>", t, opc::NS_R, target), 1);
            parts.insert(rn.clone(), n.into_bytes());
            d(format!("{:?} leads to {}", src, target), Box::new(move |i| matches!(i, RepairIssue::BrokenRelationship { source, rel_id, .. } if *source == rn && *rel_id == format!("rId{}", t))))
        }
        7 => {
            // a slide taken out of the list, with or without its relationship
            let s = r.pick(&slides.iter().map(|s| s.as_str()).chain([""]).collect::<Vec<_>>()).to_string();
            let rel = k.rels_of(MAIN).iter().find(|x| x.part == s)?.clone();
            let x = String::from_utf8_lossy(parts.get(MAIN)?).to_string();
            let at = x.find(&format!("r:id=\"{}\"", rel.id))?;
            let (a, b) = (x[..at].rfind('<')?, at + x[at..].find('>')? + 1);
            if !x[a..].starts_with("<p:sldId ") || !x[..b].ends_with("/>") {
                return None;
            }
            let id = x[a..b].find(" id=\"").map(|i| x[a + i + 5..b].split('"').next().unwrap_or("").to_string())?;
            parts.insert(MAIN.into(), format!("{}{}", &x[..a], &x[b..]).replace(&format!("<p14:sldId id=\"{}\"/>", id), "").into_bytes());
            let mut what = format!("{} taken out of the slide list", s);
            if r.bool() {
                let rn = opc::rels_name(MAIN);
                let y = String::from_utf8_lossy(parts.get(&rn)?).to_string();
                let at = y.find(&format!("Id=\"{}\"", rel.id))?;
                let (a, b) = (y[..at].rfind("<Relationship")?, at + y[at..].find('>')? + 1);
                if y[a..b].ends_with("/>") {
                    parts.insert(rn, format!("{}{}", &y[..a], &y[b..]).into_bytes());
                    what.push_str(" and its relationship too");
                }
            }
            let s2 = s.clone();
            let mut x = d(what, Box::new(move |i| matches!(i, RepairIssue::MissingSlideReference { slide_path } if *slide_path == s2)))?;
            x.order = true;
            Some(x)
        }
        8 => {
            // a part without a content type
            let ct = String::from_utf8_lossy(parts.get("[Content_Types].xml")?).to_string();
            let t: Vec<String> = k.overrides.keys().filter_map(|o| k.parts.keys().find(|p| p.to_ascii_lowercase() == *o)).filter(|p| parts.contains_key(*p) && (p.starts_with("ppt/slides/") || p.contains("slideLayouts") || p.contains("slideMasters") || p.contains("theme") || p.contains("notes") || p.contains("charts") || *p == MAIN || p.starts_with("docProps"))).cloned().collect();
            if t.is_empty() {
                return None;
            }
            let mut t = t;
            t.sort();
            let p = r.pick(&t).clone();
            let at = ct.find(&format!("PartName=\"/{}\"", p)).or_else(|| ct.find(&format!("PartName='/{}'", p)))?;
            let (a, b) = (ct[..at].rfind('<')?, at + ct[at..].find('>')? + 1);
            if !ct[a..b].ends_with("/>") {
                return None;
            }
            parts.insert("[Content_Types].xml".into(), format!("{}{}", &ct[..a], &ct[b..]).into_bytes());
            d(format!("{} has no content type", p), Box::new(move |i| matches!(i, RepairIssue::InvalidContentType { path } if *path == p)))
        }
        11 => {
            // a kind of file without a content type
            let ct = String::from_utf8_lossy(parts.get("[Content_Types].xml")?).to_string();
            let mut t: Vec<&String> = k.parts.keys().filter(|p| parts.contains_key(*p) && !p.ends_with(".xml") && !p.ends_with(".rels") && !p.starts_with('[') && !k.overrides.contains_key(&p.to_ascii_lowercase())).collect();
            t.sort();
            if t.is_empty() {
                return None;
            }
            let p = r.pick(&t).to_string();
            let ext = p.rsplit('.').next()?.to_ascii_lowercase();
            let lower = ct.to_ascii_lowercase();
            let at = lower.find(&format!("extension=\"{}\"", ext)).or_else(|| lower.find(&format!("extension='{}'", ext)))?;
            let (a, b) = (ct[..at].rfind('<')?, at + ct[at..].find('>')? + 1);
            if lower.len() != ct.len() || !ct[a..b].ends_with("/>") {
                return None;
            }
            parts.insert("[Content_Types].xml".into(), format!("{}{}", &ct[..a], &ct[b..]).into_bytes());
            d(format!("no content type for .{} files", ext), Box::new(move |i| matches!(i, RepairIssue::InvalidContentType { path } if *path == p)))
        }
        9 => {
            // a bare ampersand in the text of a slide
            if slides.is_empty() {
                return None;
            }
            let s = r.pick(&slides).clone();
            let x = String::from_utf8_lossy(parts.get(&s)?).to_string();
            let at = x.find("<a:t>").map(|i| i + 5)?;
            let amp = *r.pick(&["R&D ", "&nbsp;", "a & b", "&", "&amp", "&;", "&averylongnamethatisnone;"]);
            let y = format!("{}{}{}", &x[..at], amp, &x[at..]).into_bytes();
            if xml::parse(&y).is_ok() {
                return None; // inside a comment
            }
            parts.insert(s.clone(), y);
            let s2 = s.clone();
            let mut o = d(format!("{:?} put into the text of {}", amp, s), Box::new(move |i| matches!(i, RepairIssue::InvalidXml { path, .. } if *path == s2)))?;
            o.hits.insert(s);
            Some(o)
        }
        _ => {
            // a slide cut short
            if slides.is_empty() {
                return None;
            }
            let s = r.pick(&slides).clone();
            let x = parts.get(&s)?.clone();
            let n = x.len() - 1 - r.below((x.len() - 1).min(300));
            if xml::parse(&x[..n]).is_ok() {
                return None;
            }
            parts.insert(s.clone(), x[..n].to_vec());
            let s2 = s.clone();
            let mut o = d(format!("{} cut to {} of {} bytes", s, n, x.len()), Box::new(move |i| matches!(i, RepairIssue::InvalidXml { path, .. } if *path == s2)))?;
            o.hits.insert(s);
            o.hopeless = true;
            Some(o)
        }
    }
}

pub fn c14(ctx: &Ctx) {
    ctx.rule("Distinct by deck structure and the damage done to it.");
    ctx.cases("sound", ctx.n(500, 15_000), |r: &mut Rng, _| -> Res {
        let own = r.bool();
        let a = if own {
            any_deck(r, own)?
        } else {
            let d = foreign::random(r, false);
            Any { show: outline(&d), sig: d.sig(), bytes: d.bytes, foreign: true }
        };
        let k = Pkg::load(&a.bytes)?;
        let mut parts = k.parts.clone();
        if r.bool() {
            relayout(&k, &mut parts, r);
        }
        let input = pack(&parts, r);
        sound(&input).map_err(|e| format!("HARNESS:{}", e))?;
        let mut p = repair_of(&input).map_err(|e| format!("{} — {}", e, a.show))?;
        let v = p.validate();
        if !v.is_empty() {
            return Err(format!("a sound deck is reported damaged: {:?} — {}", v, a.show));
        }
        let res = p.repair();
        if !res.is_valid || res.total_issues() != 0 || !res.issues_repaired.is_empty() || !res.fully_repaired() || res.critical_issues() != 0 {
            return Err(format!("a sound deck is repaired: {:?} — {}", res, a.show));
        }
        let out = p.to_bytes().map_err(|e| e.to_string())?;
        if Pkg::load(&out)?.parts != parts {
            return Err(format!("repairing a sound deck changes it — {}", a.show));
        }
        ctx.count("sound decks judged", 1);
        Ok(Out::sig(format!("{}{}", a.sig, a.foreign)).with_sample(a.sig))
    });
    ctx.cases("damage", ctx.n(1500, 50_000), |r: &mut Rng, _| -> Res {
        let own = r.bool();
        let a = any_deck(r, own)?;
        let k0 = Pkg::load(&a.bytes)?;
        let mut parts = k0.parts.clone();
        if r.bool() {
            relayout(&k0, &mut parts, r);
        }
        let before = parts.clone();
        let k = Pkg::load(&pack(&parts, r))?;
        let n = if r.chance(2, 3) { 1 } else { 2 + r.below(2) };
        let ds: Vec<Damage> = (0..n).filter_map(|_| inflict(&k, &mut parts, r)).collect();
        if ds.is_empty() {
            return Ok(Out::trivial());
        }
        let what: Vec<&str> = ds.iter().map(|d| d.what.as_str()).collect();
        let show = |e: String| format!("{} — {:?} — {}", e, what, a.show);
        let input = pack(&parts, r);
        report::dump("in.pptx", &input);
        let mut p = repair_of(&input).map_err(show)?;
        let found = p.validate();
        // one damage may hide another; alone it has to be seen
        if ds.len() == 1 && !found.iter().any(|i| (ds[0].expect)(i)) {
            return Err(show(format!("the damage is not reported: {:?}", found)));
        }
        if found.is_empty() {
            // a slide that is gone with all that leads to it takes its own damage along
            let mut m = Pkg::load(&input).map_err(show)?;
            m.judge();
            m.problems.retain(|p| !matches!(p.code, "ct-ghost" | "unreachable" | "rels-orphan"));
            return if ds.len() > 1 && m.problems.is_empty() { Ok(Out::trivial()) } else { Err(show(format!("nothing is reported: {}", m.first_problems(3)))) };
        }
        for i in &found {
            if i.description().is_empty() || !(1..=3).contains(&i.severity()) {
                return Err(show(format!("{:?} has no description or severity", i)));
            }
        }
        let res = p.repair();
        for i in &res.issues_found {
            if !res.issues_repaired.contains(i) && !res.issues_unrepaired.contains(i) {
                return Err(show(format!("{:?} is neither repaired nor not", i)));
            }
        }
        if found.iter().any(|i| !res.issues_found.contains(i)) || res.fully_repaired() != res.issues_unrepaired.is_empty() {
            return Err(show(format!("the result contradicts itself: {:?}", res)));
        }
        let out = p.to_bytes().map_err(|e| show(e.to_string()))?;
        let again = repair_of(&out).map_err(show)?.validate();
        if again.is_empty() != res.is_valid {
            return Err(show(format!("said to be valid: {}, but the saved deck has {:?}", res.is_valid, again)));
        }
        let hopeless = ds.iter().any(|d| d.hopeless && d.hits.iter().all(|h| parts.contains_key(h)));
        if res.is_valid == hopeless {
            return Err(show(format!("said to be valid: {} ({:?})", res.is_valid, res.issues_unrepaired)));
        }
        ctx.count(if hopeless { "decks beyond repair, reported so" } else { "decks repaired" }, 1);
        for d in &ds {
            ctx.see("kinds of damage", d.what.split('/').next().unwrap_or("").chars().take(12).collect::<String>());
        }
        // parts no damage touched are as they were
        let mut m = Pkg::load(&out).map_err(show)?;
        for (n, b) in &parts {
            let own_part = n.starts_with("ppt/slides/") && !ds.iter().any(|d| d.hits.iter().any(|h| h == n || opc::rels_name(h) == *n)) && before.get(n) == Some(b) && !n.ends_with(".rels");
            if (own_part || n.starts_with("ppt/media/") || n.starts_with("ppt/slideMasters/") || n.starts_with("ppt/slideLayouts/")) && m.parts.get(n) != Some(b) {
                return Err(show(format!("{} was changed or lost in the repair", n)));
            }
        }
        if !res.is_valid {
            return Ok(Out::sig(format!("{}{:?}", a.sig, what)));
        }
        m.judge();
        m.problems.retain(|p| p.code != "ct-ghost" && p.code != "unreachable");
        if !m.problems.is_empty() {
            return Err(show(format!("said to be valid, but {}", m.first_problems(3))));
        }
        // and are what they were
        for n in m.parts.keys().filter(|n| k.parts.contains_key(*n) && !n.starts_with('[') && !n.ends_with(".rels")) {
            if m.content_type(n) != k.content_type(n) {
                return Err(show(format!("{} was {:?} and is {:?}", n, k.content_type(n), m.content_type(n))));
            }
        }
        // the slides that are left show what they showed
        let hits: BTreeSet<&String> = ds.iter().flat_map(|d| d.hits.iter()).collect();
        let (was, is) = (slide_prints(&k), slide_prints(&m));
        let mut a1: Vec<_> = was.iter().filter(|s| !hits.contains(&s.0)).collect();
        let mut b1: Vec<_> = is.iter().filter(|s| !hits.contains(&s.0)).collect();
        if ds.iter().any(|d| d.order) {
            a1.sort();
            b1.sort();
        }
        if a1 != b1 {
            return Err(show(format!("slides {:?} are {:?} after repair, or show something else", was.iter().map(|s| &s.0).collect::<Vec<_>>(), is.iter().map(|s| &s.0).collect::<Vec<_>>())));
        }
        for s in was.iter().filter(|s| hits.contains(&s.0) && parts.contains_key(&s.0)) {
            if !is.iter().any(|x| x.0 == s.0) {
                return Err(show(format!("{} is no longer shown", s.0)));
            }
        }
        let r2 = repair_of(&out).map_err(show)?.repair();
        if r2.total_issues() != 0 {
            return Err(show(format!("repaired again: {:?}", r2)));
        }
        Ok(Out::sig(format!("{}{:?}", a.sig, what)).with_sample(what.join("; ")))
    });
}

// ---------------------------------------------------------------- C15 validator

fn errors(b: &[u8]) -> Vec<String> {
    validate_package_bytes(b).issues.iter().filter(|i| i.severity == ValidationSeverity::Error).map(|i| i.message.clone()).collect()
}

fn flaw(k: &Pkg, parts: &mut BTreeMap<String, Vec<u8>>, r: &mut Rng) -> Option<String> {
    let slides = k.slides();
    let text_of = |parts: &BTreeMap<String, Vec<u8>>, n: &str| -> Option<String> { Some(String::from_utf8_lossy(parts.get(n)?).to_string()) };
    match r.below(21) {
        0 => {
            let p = *r.pick(ppt_rs::core::REQUIRED_PACKAGE_PARTS);
            parts.remove(p)?;
            Some(format!("{} removed", p))
        }
        1 | 2 => {
            let mut t: Vec<String> = k.rels.values().flatten().filter(|x| !x.external).map(|x| x.part.clone()).collect();
            t.sort();
            t.dedup();
            let p = r.pick(&t).clone();
            parts.remove(&p)?;
            Some(format!("{} removed", p))
        }
        3 => {
            let mut t: Vec<&String> = k.parts.keys().filter(|n| n.ends_with(".xml") || n.ends_with(".rels")).collect();
            t.sort();
            let p = r.pick(&t).to_string();
            let x = parts.get(&p)?.clone();
            let n = r.below(x.len());
            if xml::parse(&x[..n]).is_ok() {
                return None;
            }
            parts.insert(p.clone(), x[..n].to_vec());
            Some(format!("{} cut to {} bytes", p, n))
        }
        4 => {
            let p = r.pick(&slides.iter().collect::<Vec<_>>().into_iter().collect::<Vec<_>>()[..]).to_string();
            let x = text_of(parts, &p)?;
            let (a, b) = *r.pick(&[("</p:spTree>", ""), ("<a:t>", "<a:t>&"), ("<p:cSld>", "<p:cSld><p:x>"), ("<p:spTree>", "<p:spTree a=1>"), ("</p:sld>", "</p:sld><p:y/>"), ("<p:cSld>", "<p:cSld q:z=\"1\">"), ("<a:t>", "<a:t>\u{1}")]);
            if !x.contains(a) {
                return None;
            }
            parts.insert(p.clone(), x.replacen(a, b, 1).into_bytes());
            Some(format!("{}: {:?} became {:?}", p, a, b))
        }
        5 => {
            let ct = text_of(parts, "[Content_Types].xml")?;
            let ext = r.pick(&["png", "jpeg", "jpg", "gif", "bmp", "tiff", "svg", "webp", "xlsx"]).to_string();
            if !k.parts.keys().any(|n| n.ends_with(&format!(".{}", ext)) && !k.overrides.contains_key(&n.to_ascii_lowercase())) {
                return None;
            }
            let at = ct.find(&format!("Extension=\"{}\"", ext))?;
            let (a, b) = (ct[..at].rfind('<')?, at + ct[at..].find('>')? + 1);
            parts.insert("[Content_Types].xml".into(), format!("{}{}", &ct[..a], &ct[b..]).into_bytes());
            Some(format!("no content type for .{}", ext))
        }
        6 => {
            // slide list and slides disagree
            let x = text_of(parts, MAIN)?;
            let at: Vec<usize> = x.match_indices("<p:sldId ").map(|m| m.0).collect();
            if at.is_empty() {
                return None;
            }
            let a = *r.pick(&at);
            let b = a + x[a..].find("/>")? + 2;
            parts.insert(MAIN.into(), format!("{}{}", &x[..a], &x[b..]).into_bytes());
            Some("a slide taken out of the list".into())
        }
        7 => {
            let x = text_of(parts, MAIN)?;
            let at: Vec<usize> = x.match_indices("<p:sldId ").map(|m| m.0).collect();
            if at.is_empty() {
                return None;
            }
            let a = *r.pick(&at);
            let b = a + x[a..].find("/>")?;
            let c = a + x[a..b].find("r:id=\"")? + 6;
            let t = *r.pick(&["rId9999", "rId1"]);
            let e = c + x[c..].find('"')?;
            parts.insert(MAIN.into(), format!("{}{}{}", &x[..c], t, &x[e..]).into_bytes());
            Some(format!("a slide list entry leads to {}", t))
        }
        8 => {
            // two drawing objects of a slide with one number
            let p = r.pick(&slides).clone();
            let x = text_of(parts, &p)?;
            let at: Vec<usize> = x.match_indices("<p:cNvPr id=\"").map(|m| m.0 + 13).collect();
            if at.len() < 2 {
                return None;
            }
            let (i, j) = (0, 1 + r.below(at.len() - 1));
            let v = x[at[i]..].split('"').next()?.to_string();
            let e = at[j] + x[at[j]..].find('"')?;
            parts.insert(p.clone(), format!("{}{}{}", &x[..at[j]], v, &x[e..]).into_bytes());
            Some(format!("{}: object {} also has number {}", p, j, v))
        }
        9 => {
            // a slide shows what no relationship leads to
            let p = r.pick(&slides).clone();
            let x = text_of(parts, &p)?;
            let at = x.find("r:embed=\"rId").map(|i| i + 9).or_else(|| x.find("r:id=\"rId").map(|i| i + 6))?;
            let e = at + x[at..].find('"')?;
            parts.insert(p.clone(), format!("{}rId777{}", &x[..at], &x[e..]).into_bytes());
            Some(format!("{} refers to rId777", p))
        }
        10 => {
            // a dangling relationship anywhere
            let mut t: Vec<&String> = k.rels.keys().collect();
            t.sort();
            let src = r.pick(&t).to_string();
            let rn = opc::rels_name(&src);
            let s = text_of(parts, &rn)?;
            let tg = *r.pick(&["gone.xml", "../gone/gone.xml", "/gone.png"]);
            let n = s.replacen("</Relationships>", &format!("<Relationship Id=\"rId888\" Type=\"{}/image\" Target=\"{}\"/></Relationships>", opc::NS_R, tg), 1);
            if n == s {
                return None;
            }
            parts.insert(rn, n.into_bytes());
            Some(format!("{:?} leads to {}", src, tg))
        }
        11 => {
            let mut t: Vec<&String> = k.parts.keys().filter(|n| n.starts_with("ppt/charts/chart") || n.starts_with("ppt/charts/_rels") || n.starts_with("ppt/embeddings/")).collect();
            t.sort();
            if t.is_empty() {
                return None;
            }
            let p = r.pick(&t).to_string();
            parts.remove(&p)?;
            Some(format!("{} removed", p))
        }
        12 => {
            // no type of its own, with or without one for all XML
            let both = r.bool();
            let mut t: Vec<&String> = k.parts.keys().filter(|n| n.ends_with(".xml") && **n != "[Content_Types].xml" && (both || n.starts_with("ppt/") || n.starts_with("docProps/"))).collect();
            t.sort();
            let p = r.pick(&t).to_string();
            let mut ct = text_of(parts, "[Content_Types].xml")?;
            for what in [format!("PartName=\"/{}\"", p), "Extension=\"xml\"".to_string()].iter().take(1 + usize::from(both)) {
                if let Some(at) = ct.find(what) {
                    let (a, b) = (ct[..at].rfind('<')?, at + ct[at..].find('>')? + 1);
                    ct = format!("{}{}", &ct[..a], &ct[b..]);
                }
            }
            parts.insert("[Content_Types].xml".into(), ct.into_bytes());
            Some(format!("no content type {}for {}", if both { "" } else { "of its own " }, p))
        }
        13 => {
            // a chart that does not lead to its workbook
            let mut t: Vec<&String> = k.parts.keys().filter(|n| n.starts_with("ppt/charts/chart")).collect();
            t.sort();
            if t.is_empty() {
                return None;
            }
            let p = r.pick(&t).to_string();
            if r.bool() {
                let rn = opc::rels_name(&p);
                let x = text_of(parts, &rn)?;
                let at = x.find("Target=\"../embeddings/")? + 8;
                let e = at + x[at..].find('"')?;
                parts.insert(rn, format!("{}../slides/slide1.xml{}", &x[..at], &x[e..]).into_bytes());
                Some(format!("{} leads to a slide for a workbook", p))
            } else {
                let x = text_of(parts, &p)?;
                let a = x.find("<c:externalData")?;
                let b = a + x[a..].find("</c:externalData>")? + 17;
                parts.insert(p.clone(), format!("{}{}", &x[..a], &x[b..]).into_bytes());
                Some(format!("{} has no workbook", p))
            }
        }
        14 => {
            // a layout list entry that leads to something else
            let p = "ppt/slideMasters/slideMaster1.xml";
            let x = text_of(parts, p)?;
            let at: Vec<usize> = x.match_indices("<p:sldLayoutId ").map(|m| m.0).collect();
            if at.is_empty() {
                return None;
            }
            let a = *r.pick(&at);
            let c = a + x[a..].find("r:id=\"")? + 6;
            let e = c + x[c..].find('"')?;
            let theme = k.rel_by_type(p, "theme").first()?.id.clone();
            let t = if r.bool() { theme } else { "rId9999".into() };
            parts.insert(p.into(), format!("{}{}{}", &x[..c], t, &x[e..]).into_bytes());
            Some(format!("a layout list entry leads to {}", t))
        }
        15 => {
            // a notes or handout master without its theme
            let p = *r.pick(&["ppt/notesMasters/notesMaster1.xml", "ppt/handoutMasters/handoutMaster1.xml"]);
            if !parts.contains_key(p) {
                return None;
            }
            let rn = opc::rels_name(p);
            let x = text_of(parts, &rn)?;
            let at = x.find("Target=\"../theme/")? + 8;
            let e = at + x[at..].find('"')?;
            parts.insert(rn, format!("{}../slides/slide1.xml{}", &x[..at], &x[e..]).into_bytes());
            Some(format!("{} leads to a slide for a theme", p))
        }
        17 | 18 => {
            // two entries of a list share their number or their relationship
            let (p, tag) = *r.pick(&[(MAIN, "<p:sldId "), ("ppt/slideMasters/slideMaster1.xml", "<p:sldLayoutId ")]);
            let attr = *r.pick(&[" id=\"", " r:id=\""]);
            let x = text_of(parts, p)?;
            let at: Vec<usize> = x.match_indices(tag).filter_map(|m| Some(m.0 + x[m.0..].find(attr)? + attr.len())).collect();
            if at.len() < 2 {
                return None;
            }
            let i = r.below(at.len());
            let j = (i + 1 + r.below(at.len() - 1)) % at.len();
            let v = x[at[i]..].split('"').next()?.to_string();
            let e = at[j] + x[at[j]..].find('"')?;
            parts.insert(p.into(), format!("{}{}{}", &x[..at[j]], v, &x[e..]).into_bytes());
            Some(format!("{}entries {} and {} both have{}{}", &tag[1..], i, j, attr, v))
        }
        19 => {
            // two relationships of a part with one name
            let mut t: Vec<&String> = k.rels.iter().filter(|(_, v)| v.len() > 1).map(|x| x.0).collect();
            t.sort();
            let src = r.pick(&t).to_string();
            let rn = opc::rels_name(&src);
            let s = text_of(parts, &rn)?;
            let at: Vec<usize> = s.match_indices(" Id=\"").map(|m| m.0 + 5).collect();
            let (i, j) = (0, 1 + r.below(at.len() - 1));
            let v = s[at[i]..].split('"').next()?.to_string();
            let e = at[j] + s[at[j]..].find('"')?;
            parts.insert(rn, format!("{}{}{}", &s[..at[j]], v, &s[e..]).into_bytes());
            Some(format!("{:?} has two relationships named {}", src, v))
        }
        _ => {
            let p = r.pick(&slides).clone();
            let n = format!("ppt/slides/slide{}.xml", slides.len() + 1 + r.below(3));
            let b = parts.get(&p)?.clone();
            if parts.insert(n.clone(), b).is_some() {
                return None;
            }
            Some(format!("{} is there and not listed", n))
        }
    }
}

pub fn c15(ctx: &Ctx) {
    ctx.rule("Distinct by deck structure, settings and the flaw put in.");
    let any = |r: &mut Rng| -> Result<(Vec<u8>, String, String), String> {
        let d = deck::random(r, &ALL, None);
        let st = if r.bool() { Some(settings::random(r)) } else { None };
        let s = st.as_ref().and_then(|s| s.build(r));
        let b = create_pptx_with_settings(&d.title, &d.contents(), s).map_err(|e| format!("refused: {} — {}", e, brief(&d)))?;
        Ok((b, format!("{} {:?}", brief(&d), st), d.sig()))
    };
    ctx.cases("sound", ctx.n(700, 20_000), |r: &mut Rng, _| -> Res {
        let (b, show, sig) = any(r)?;
        let rep = validate_package_bytes(&b);
        let e = errors(&b);
        if !e.is_empty() || !rep.is_valid() || !rep.is_ok() || rep.error_count() != 0 || !rep.error_messages().is_empty() {
            return Err(format!("a deck as the library writes it is rejected: {:?} — {}", e, show));
        }
        ctx.count("sound decks accepted", 1);
        Ok(Out::sig(sig))
    });
    ctx.cases("flaws", ctx.n(1600, 60_000), |r: &mut Rng, _| -> Res {
        let (b, show, sig) = any(r)?;
        let k = Pkg::load(&b)?;
        if k.slides().is_empty() {
            return Ok(Out::trivial());
        }
        let mut parts = k.parts.clone();
        let Some(w) = flaw(&k, &mut parts, r) else { return Ok(Out::trivial()) };
        let z = pack(&parts, r);
        let rep = validate_package_bytes(&z);
        if rep.is_valid() || rep.is_ok() || rep.error_count() == 0 || errors(&z).len() != rep.error_count() || rep.error_messages().len() != rep.error_count() {
            return Err(format!("accepted with a flaw: {} ({:?}) — {}", w, rep.issues, show));
        }
        let legacy = ppt_rs::core::validate_powerpoint_structure(&mut zip::ZipArchive::new(Cursor::new(&z)).map_err(|e| e.to_string())?);
        if legacy.is_ok() || legacy.issues.len() != rep.error_count() {
            return Err(format!("the older call disagrees: {:?} — {}", legacy, w));
        }
        ctx.count("flaws rejected", 1);
        ctx.see("kinds of flaw", w.split(' ').next_back().unwrap_or("").chars().take(10).collect::<String>());
        Ok(Out::sig(format!("{}{}", sig, w)).with_sample(w))
    });
    ctx.cases("archives", ctx.n(400, 10_000), |r: &mut Rng, _| -> Res {
        let (b, _, sig) = any(r)?;
        let mut z = b.clone();
        match r.below(3) {
            0 => z.truncate(r.below(b.len())),
            1 => {
                let n = r.below(100);
                z = r.bytes(n);
            }
            _ => {
                let i = r.below(z.len());
                z[i] ^= 1 << r.below(8);
            }
        }
        // never a panic; what is no archive is never valid
        let rep = guard(|| validate_package_bytes(&z)).map_err(|(m, l)| format!("panic: {} at {}", m, l))?;
        if zipx::read(&z).is_err() && zip::ZipArchive::new(Cursor::new(&z)).is_err() && rep.is_valid() {
            return Err("bytes that are no archive are valid".into());
        }
        Ok(Out::sig(sig))
    });
}

