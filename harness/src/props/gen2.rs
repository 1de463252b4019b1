//! Entry points of the generator against each other, under faults, and with settings.
use super::gen1::{brief, sound, write};
use crate::opc::Pkg;
use crate::report::{Ctx, Out, Res};
use crate::rng::Rng;
use crate::spec::deck::{self, ALL, Profile};
use crate::spec::settings;
use ppt_rs::generator::*;
use std::io::{Cursor, Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicUsize, Ordering};

/// Parts with everything that may legitimately differ between two runs taken out.
pub fn comparable(k: &Pkg) -> std::collections::BTreeMap<String, Vec<u8>> {
    let mut m = k.parts.clone();
    if let Some(x) = k.xml.get("docProps/core.xml") {
        let mut x = x.clone();
        x.children.retain(|n| !matches!(n, crate::xml::Node::Elem(e) if e.local == "created" || e.local == "modified"));
        m.insert("docProps/core.xml".into(), x.canon().into_bytes());
    }
    let mut ct: Vec<String> = k.defaults.iter().map(|(a, b)| format!("d {} {}", a, b)).chain(k.overrides.iter().map(|(a, b)| format!("o {} {}", a, b))).collect();
    ct.sort();
    m.insert("[Content_Types].xml".into(), ct.join("\n").into_bytes());
    m
}

pub fn diff(a: &Pkg, b: &Pkg) -> Result<(), String> {
    let (x, y) = (comparable(a), comparable(b));
    for (n, d) in &x {
        match y.get(n) {
            None => return Err(format!("part {} is missing", n)),
            Some(e) if e != d => {
                let (p, q) = (String::from_utf8_lossy(d), String::from_utf8_lossy(e));
                let i = p.bytes().zip(q.bytes()).take_while(|(a, b)| a == b).count();
                let cut = |s: &str| s.chars().skip(i.saturating_sub(60)).take(160).collect::<String>();
                return Err(format!("part {} differs: {:?} / {:?}", n, cut(&p), cut(&q)));
            }
            _ => {}
        }
    }
    for n in y.keys() {
        if !x.contains_key(n) {
            return Err(format!("extra part {}", n));
        }
    }
    Ok(())
}

struct Lazy {
    slides: Vec<SlideContent>,
}

fn lazy(slides: Vec<SlideContent>, features: bool) -> Box<dyn LazySlideSource> {
    if features { Box::new(Lazy { slides }) } else { Box::new(Plain(Lazy { slides })) }
}
static LAZY_CALLS: AtomicUsize = AtomicUsize::new(0);
impl LazySlideSource for Lazy {
    fn slide_count(&self) -> usize {
        self.slides.len()
    }
    fn generate_slide(&self, i: usize) -> Option<SlideContent> {
        LAZY_CALLS.fetch_add(1, Ordering::Relaxed);
        self.slides.get(i).cloned()
    }
    fn slide_features(&self, i: usize) -> Option<(bool, usize)> {
        self.slides.get(i).map(|s| (s.notes.is_some(), s.charts.len()))
    }
}

/// The same source with nothing of its own but what it has to have.
struct Plain(Lazy);
impl LazySlideSource for Plain {
    fn slide_count(&self) -> usize {
        self.0.slide_count()
    }
    fn generate_slide(&self, i: usize) -> Option<SlideContent> {
        self.0.generate_slide(i)
    }
}

/// A writer that accepts few bytes at a time and fails once `budget` is used up.
pub struct Faulty {
    pub inner: Cursor<Vec<u8>>,
    pub budget: usize,
    pub chunk: usize,
    pub seek_fails: bool,
    pub failed: std::rc::Rc<std::cell::Cell<bool>>,
}
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.budget == 0 || (self.seek_fails && self.failed.get()) {
            self.failed.set(true);
            return Err(std::io::Error::other("disk full"));
        }
        let n = b.len().min(self.chunk).min(self.budget);
        self.budget -= n;
        self.inner.write(&b[..n])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Faulty {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        // a device that failed once stays failed
        if self.seek_fails && (self.failed.get() || (self.inner.get_ref().len() > 100 && !matches!(p, SeekFrom::Current(0)))) {
            self.failed.set(true);
            return Err(std::io::Error::other("seek failed"));
        }
        self.inner.seek(p)
    }
}

pub fn c09(ctx: &Ctx) {
    ctx.rule("Distinct by slide structure and settings; the fault group by failing byte position.");
    let dir = ctx.scratch.join("eq");
    let _ = std::fs::create_dir_all(&dir);
    ctx.cases("entry-points", ctx.n(500, 12_000), |r: &mut Rng, case| -> Res {
        let mut d = deck::random(r, &ALL, Some(&dir));
        if r.chance(1, 4) {
            let i = r.below(d.slides.len());
            d.slides[i].title = r.pick(&["", " ", "\t"]).to_string();
        }
        let st = if r.bool() { Some(settings::random(r)) } else { None };
        let s = st.as_ref().and_then(|s| s.build(r));
        let c = d.contents();
        let reference = create_pptx_with_settings(&d.title, &c, s.clone()).map_err(|e| format!("the generator refused a valid deck: {} — {} {:?}", e, brief(&d), st))?;
        let k = Pkg::load(&reference)?;
        let same = |what: &str, b: Result<Vec<u8>, String>| -> Result<(), String> {
            let b = b.map_err(|e| format!("{} failed where the in-memory call succeeded: {} — {}", what, e, brief(&d)))?;
            let o = Pkg::load(&b).map_err(|e| format!("{}: {}", what, e))?;
            ctx.count("packages compared part by part", 1);
            ctx.count("parts compared", k.parts.len() as u64);
            diff(&k, &o).map_err(|e| format!("{} against the in-memory call: {} — {} {:?}", what, e, brief(&d), st))
        };
        same("a second run", create_pptx_with_settings(&d.title, &c, s.clone()).map_err(|e| e.to_string()))?;
        same("the writer call", create_pptx_with_content_to_writer(Cursor::new(vec![]), &d.title, &c, s.clone()).map(|c| c.into_inner()).map_err(|e| e.to_string()))?;
        let lz = lazy(c.clone(), r.bool());
        same("the lazy call", create_pptx_lazy_to_writer(Cursor::new(vec![]), &d.title, lz, s.clone()).map(|c| c.into_inner()).map_err(|e| e.to_string()))?;
        if s.is_none() {
            same("the content call", create_pptx_with_content(&d.title, c.clone()).map_err(|e| e.to_string()))?;
        }
        if !c.is_empty() {
            let mut p = if r.bool() { ppt_rs::Presentation::with_title(&d.title) } else { ppt_rs::Presentation::new().title(&d.title) };
            let cut = r.below(c.len() + 1);
            for x in &c[..cut] {
                p = p.add_slide(x.clone());
            }
            let mut q = ppt_rs::Presentation::with_title("another title");
            for x in &c[cut..] {
                q = q.add_slide(x.clone());
            }
            p = p.add_presentation(q);
            if p.slide_count() != c.len() || p.get_title() != d.title {
                return Err(format!("the presentation has {} slides and title {:?}", p.slide_count(), p.get_title()));
            }
            if let Some(s) = &s {
                p = p.with_settings(s.clone());
            }
            same("Presentation::build", p.build().map_err(|e| e.to_string()))?;
            let f = dir.join(format!("{:x}.pptx", case));
            if r.bool() {
                std::fs::write(&f, vec![b'x'; r.below(2) * 5_000_000]).unwrap();
            }
            p.save(&f).map_err(|e| format!("save: {}", e))?;
            let saved = std::fs::read(&f).unwrap();
            let _ = std::fs::remove_file(&f);
            same("Presentation::save", Ok(saved))?;
            same("Presentation::into_bytes", p.into_bytes().map_err(|e| e.to_string()))?;
        }
        Ok(Out::sig(format!("{}{}", d.sig(), st.as_ref().map(|s| s.sig_str()).unwrap_or_default())).with_sample(brief(&d)))
    });
    ctx.cases("blank", ctx.n(60, 400), |r, i| {
        let n = if r.chance(1, 6) { r.below(300) } else { r.below(12) };
        let title = crate::text::any(r);
        let a = create_pptx(&title, n).map_err(|e| format!("create_pptx({}) failed: {}", n, e))?;
        let k = sound(&a)?;
        let b = create_pptx_to_writer(Cursor::new(vec![]), &title, n).map_err(|e| e.to_string())?.into_inner();
        diff(&k, &Pkg::load(&b)?).map_err(|e| format!("the writer call differs: {}", e))?;
        if k.slides().len() != n {
            return Err(format!("{} slides asked, {} listed", n, k.slides().len()));
        }
        let _ = i;
        Ok(Out::sig(format!("blank{}", n)))
    });
    let small = Profile { shapes: 1, conns: 1, images: 1, charts: 1, max_slides: 3, ..ALL };
    ctx.cases("faults", ctx.n(700, 20_000), |r: &mut Rng, _| -> Res {
        let d = deck::random(r, &small, None);
        let c = d.contents();
        let s = if r.chance(1, 3) { settings::random(r).build(r) } else { None };
        let whole = create_pptx_with_content_to_writer(Cursor::new(vec![]), &d.title, &c, s.clone()).map_err(|e| e.to_string())?.into_inner();
        let total = whole.len();
        let seek_fails = r.chance(1, 8);
        let fails = seek_fails || r.chance(4, 5);
        // bytes of the final archive are written more than once (headers are patched), so any
        // budget below the archive size must fail
        let budget = if seek_fails || !fails { usize::MAX } else if r.chance(1, 4) { total - 1 - r.below(40.min(total)) } else { r.below(total) };
        let failed = std::rc::Rc::new(std::cell::Cell::new(false));
        let w = Faulty { inner: Cursor::new(vec![]), budget, chunk: if r.bool() { 1 + r.below(7) } else { usize::MAX }, seek_fails, failed: failed.clone() };
        let (from_source, features) = (r.bool(), r.bool());
        let res = crate::report::guard(|| {
            if from_source {
                create_pptx_lazy_to_writer(w, &d.title, lazy(c, features), s).map(|w| w.inner.into_inner())
            } else {
                create_pptx_with_content_to_writer(w, &d.title, &c, s).map(|w| w.inner.into_inner())
            }
        });
        let res = match res {
            Ok(r) => r,
            // the zip crate's own drop overflows in debug builds when a header rewrite fails: loud, not silent
            Err((_, l)) if l.contains("/zip-0.") && failed.get() => {
                ctx.count("write faults the zip crate answered with a debug panic", 1);
                return Ok(Out::sig(format!("fault{}/{}", budget.min(total), from_source)));
            }
            Err((m, l)) => return Err(format!("panic on a failing writer: {} at {}", m, l)),
        };
        match res {
            Err(_) if failed.get() => {
                ctx.count("write faults delivered and reported", 1);
                Ok(Out::sig(format!("fault{}/{}", budget.min(total), from_source)))
            }
            Err(e) => Err(format!("the writer never failed but the call reports: {}", e)),
            Ok(_) if failed.get() => Err(format!("the writer failed after {} bytes and the call reported success — {}", budget, brief(&d))),
            Ok(b) => {
                ctx.count("partial-write runs completed", 1);
                diff(&Pkg::load(&whole)?, &Pkg::load(&b)?).map_err(|e| format!("writing in small pieces changed the package: {}", e))?;
                Ok(Out::sig(format!("short{}", d.sig())))
            }
        }
    });
    ctx.cases_serial("short-source", ctx.n(40, 400), |r, _| {
        struct Short(Vec<SlideContent>, usize);
        impl LazySlideSource for Short {
            fn slide_count(&self) -> usize {
                self.0.len()
            }
            fn generate_slide(&self, i: usize) -> Option<SlideContent> {
                if i == self.1 { None } else { self.0.get(i).cloned() }
            }
        }
        let d = deck::random(r, &small, None);
        let c = d.contents();
        if c.is_empty() {
            return Ok(Out::trivial());
        }
        let hole = r.below(c.len());
        match create_pptx_lazy_to_writer(Cursor::new(vec![]), &d.title, Box::new(Short(c, hole)), None) {
            Err(_) => Ok(Out::sig(format!("hole{}", hole))),
            Ok(b) => {
                sound(&b.into_inner()).map_err(|e| format!("a source without slide {} gave a package that is not sound: {}", hole, e))?;
                Ok(Out::sig(format!("hole{}", hole)))
            }
        }
    });
    ctx.count("slides pulled from lazy sources", LAZY_CALLS.load(Ordering::Relaxed) as u64);
    ctx.cases_serial("unwritable", ctx.n(20, 100), |r, _| {
        let d = deck::random(r, &small, None);
        let mut p = ppt_rs::Presentation::with_title(&d.title);
        for c in d.contents() {
            p = p.add_slide(c);
        }
        if p.save(dir.join("no-such-folder").join("x.pptx")).is_ok() {
            return Err("saving into a folder that does not exist reported success".into());
        }
        if p.save(&dir).is_ok() {
            return Err("saving onto a folder reported success".into());
        }
        if std::path::Path::new("/dev/full").exists() && p.slide_count() > 0 && p.save("/dev/full").is_ok() {
            return Err("saving to a full device reported success".into());
        }
        Ok(Out::sig(d.sig()))
    });
}

pub fn c24(ctx: &Ctx) {
    ctx.rule("Distinct by the settings present and their options, combined with slide structure.");
    let p = Profile { shapes: 1, conns: 0, images: 1, charts: 1, max_slides: 4, ..ALL };
    ctx.cases("settings", ctx.n(3500, 30_000), |r: &mut Rng, _| -> Res {
        let d = deck::random(r, &p, None);
        let st = settings::random(r);
        let c = d.contents();
        let s = st.build(r);
        let b = if r.bool() || c.is_empty() {
            create_pptx_with_settings(&d.title, &c, s).map_err(|e| e.to_string())
        } else if r.bool() {
            create_pptx_lazy_to_writer(Cursor::new(vec![]), &d.title, lazy(c, false), s).map(|c| c.into_inner()).map_err(|e| e.to_string())
        } else {
            let mut q = ppt_rs::Presentation::with_title(&d.title);
            for x in c {
                q = q.add_slide(x);
            }
            // with_theme keeps settings set before
            let q = match (&st.theme, s) {
                (Some(t), Some(mut s)) => {
                    s.theme = None;
                    q.with_settings(s).with_theme(t.clone())
                }
                (_, Some(s)) => q.with_settings(s),
                _ => q,
            };
            q.build().map_err(|e| e.to_string())
        };
        let b = b.map_err(|e| format!("the generator refused valid settings: {} — {:?}", e, st))?;
        let k = sound(&b).map_err(|e| format!("{} — {:?}", e, st))?;
        st.check(&k).map_err(|e| format!("{} — {:?}", e, st))?;
        d.check_all(&k).map_err(|e| format!("settings changed the slides: {} — {:?} {}", e, st, brief(&d)))?;
        ctx.count("settings read back", 1);
        Ok(Out::sig(format!("{}{}", d.sig(), st.sig_str())).with_sample(format!("{:?}", st)))
    });
    ctx.cases_serial("times", ctx.n(30, 200), |r, _| {
        let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
        let d = deck::random(r, &p, None);
        let t0 = now();
        let b = write(&d)?;
        let t1 = now();
        let k = Pkg::load(&b)?;
        let core = k.xml.get("docProps/core.xml").ok_or("no core properties")?;
        for n in ["created", "modified"] {
            let s = core.child(n).map(|e| e.text()).unwrap_or_default();
            let t = parse_time(&s).ok_or_else(|| format!("{} is {:?}: not a date", n, s))?;
            if t < t0 || t > t1 {
                return Err(format!("{} says {:?} ({}), written between {} and {}", n, s, t, t0, t1));
            }
        }
        ctx.count("timestamps compared with the clock", 2);
        Ok(Out::sig(format!("t{}", t0)))
    });
    ctx.probe("custom-show", || {
        let s = PresentationSettings::new().slide_show(SlideShowSettings::new().slide_range(SlideRange::Custom(vec![1, 3])));
        let b = create_pptx_with_settings("t", &[SlideContent::new("a"), SlideContent::new("b"), SlideContent::new("c")], Some(s)).map_err(|e| e.to_string())?;
        let k = sound(&b)?;
        for x in k.xml.values() {
            for c in x.desc("custShow") {
                if c.attr("id").is_none() || c.elems().next().is_some() {
                    return Err("the custom show is written as a list of slides where the schema has an id and nothing inside".into());
                }
            }
        }
        Ok(())
    });
    ctx.probe("font-names-differ-in-spaces", || {
        let mut l = EmbeddedFontList::new();
        l.add(EmbeddedFont::new("Ab Cd", FontStyle::Bold, vec![1, 2], ""));
        l.add(EmbeddedFont::new("AbCd", FontStyle::Bold, vec![3, 4], ""));
        let b = create_pptx_with_settings("t", &[SlideContent::new("a")], Some(PresentationSettings::new().embedded_fonts(l))).map_err(|e| e.to_string())?;
        sound(&b).map(|_| ())
    });
}

/// Seconds since 1970 of an xsd:dateTime in UTC.
pub fn parse_time(s: &str) -> Option<u64> {
    let b = s.as_bytes();
    if b.len() != 20 || b[4] != b'-' || b[7] != b'-' || b[10] != b'T' || b[13] != b':' || b[16] != b':' || b[19] != b'Z' {
        return None;
    }
    let n = |a: usize, z: usize| s[a..z].parse::<i64>().ok();
    let (y, m, d, h, mi, se) = (n(0, 4)?, n(5, 7)?, n(8, 10)?, n(11, 13)?, n(14, 16)?, n(17, 19)?);
    let leap = |y: i64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let len = |y: i64, m: i64| match m {
        2 => 28 + leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    };
    if !(1..=12).contains(&m) || d < 1 || d > len(y, m) || h > 23 || mi > 59 || se > 59 || y < 1970 {
        return None;
    }
    let mut days = 0;
    for yy in 1970..y {
        days += 365 + leap(yy) as i64;
    }
    for mm in 1..m {
        days += len(y, mm);
    }
    Some(((days + d - 1) * 86400 + h * 3600 + mi * 60 + se) as u64)
}
