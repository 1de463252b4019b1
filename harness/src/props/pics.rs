//! C32: pictures of slides come from the deck they are asked of, and land where they are asked to.
//! The outside programs are stand-ins that record what they were given and draw as planned.
use super::gen1::{brief, sound};
use crate::report::{Ctx, Out, Res};
use crate::rng::Rng;
use crate::spec::deck::{self, ALL, DeckS, Profile};
use ppt_rs::Presentation;
use ppt_rs::export::image_export::{ImageExportOptions, ImageFormat};
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};

struct Lab {
    root: PathBuf,
}

impl Lab {
    fn new(root: PathBuf) -> Lab {
        for d in ["bin", "tmp", "plan", "work"] {
            fs::create_dir_all(root.join(d)).unwrap();
        }
        let script = |n: &str, body: &str| {
            use std::os::unix::fs::PermissionsExt;
            let f = root.join("bin").join(n);
            fs::write(&f, format!("#!/bin/sh\nPATH=/usr/bin:/bin\nL='{}'\n{}\n", root.join("plan").display(), body)).unwrap();
            fs::set_permissions(&f, fs::Permissions::from_mode(0o755)).unwrap();
        };
        script(
            "soffice",
            "for a; do case $a in --version) echo 'LibreOffice 7.6'; exit 0;; esac; done
printf '%s\\n' \"$@\" > \"$L/args\"; echo >> \"$L/runs\"
out=.; prev=; for a; do [ \"$prev\" = --outdir ] && out=$a; prev=$a; done
cp \"$prev\" \"$L/got\"; stem=${prev##*/}; stem=${stem%.*}
. \"$L/plan\"",
        );
        script(
            "pdftoppm",
            "printf '%s\\n' \"$@\" > \"$L/args\"; echo >> \"$L/runs\"
src=; out=; for a; do case $a in -*) ;; *) src=$out; out=$a;; esac; done
cp \"$src\" \"$L/got\"
. \"$L/plan\"",
        );
        // nothing else runs in this process yet but the watchdog, which looks at no variable
        unsafe {
            std::env::set_var("PATH", root.join("bin"));
            std::env::set_var("TMPDIR", root.join("tmp"));
        }
        std::env::set_current_dir(root.join("work")).unwrap();
        Lab { root }
    }
    /// What the program will do: `lines` of shell, and the pictures it may hand out.
    fn plan(&self, lines: &str, pics: &[Vec<u8>]) {
        let p = self.root.join("plan");
        let _ = fs::remove_dir_all(&p);
        fs::create_dir_all(&p).unwrap();
        for (i, b) in pics.iter().enumerate() {
            fs::write(p.join(format!("p{}", i)), b).unwrap();
        }
        fs::write(p.join("plan"), lines).unwrap();
    }
    fn runs(&self) -> usize {
        fs::read(self.root.join("plan/runs")).map(|b| b.len()).unwrap_or(0)
    }
    fn got(&self) -> Option<Vec<u8>> {
        fs::read(self.root.join("plan/got")).ok()
    }
    fn args(&self) -> Vec<String> {
        fs::read_to_string(self.root.join("plan/args")).unwrap_or_default().lines().map(String::from).collect()
    }
    /// Files of the programs' folder for temporary ones.
    fn clean(&self) -> Result<(), String> {
        let left = tree(&self.root.join("tmp"));
        if left.is_empty() { Ok(()) } else { Err(format!("left in the folder of temporary files: {:?}", left.keys().collect::<Vec<_>>())) }
    }
    fn work(&self) -> PathBuf {
        let w = self.root.join("work");
        for e in fs::read_dir(&w).unwrap().flatten() {
            let p = e.path();
            let _ = if p.is_dir() { fs::remove_dir_all(p) } else { fs::remove_file(p) };
        }
        let t = self.root.join("tmp");
        for e in fs::read_dir(&t).unwrap().flatten() {
            let p = e.path();
            let _ = if p.is_dir() { fs::remove_dir_all(p) } else { fs::remove_file(p) };
        }
        w
    }
}

fn tree(d: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    let mut todo = vec![d.to_path_buf()];
    while let Some(x) = todo.pop() {
        for e in fs::read_dir(&x).into_iter().flatten().flatten() {
            let p = e.path();
            let n = p.strip_prefix(d).unwrap().to_string_lossy().to_string();
            if p.is_dir() {
                todo.push(p);
            } else {
                m.insert(n, fs::read(&p).unwrap_or_default());
            }
        }
    }
    m
}

/// Pictures that differ in a byte or two only.
fn pictures(r: &mut Rng, n: usize) -> Vec<Vec<u8>> {
    let base: Vec<u8> = (0..20 + r.below(60)).map(|_| r.below(256) as u8).collect();
    let at = r.below(base.len() - 1);
    (0..n)
        .map(|i| {
            let mut b = b"\x89PNG\r\n\x1a\n".to_vec();
            b.extend(&base);
            b[8 + at] = i as u8;
            b
        })
        .collect()
}

fn present(d: &DeckS) -> Presentation {
    d.contents().into_iter().fold(Presentation::with_title(&d.title), |p, s| p.add_slide(s))
}

const PLAIN: Profile = Profile { shapes: 2, conns: 0, images: 1, charts: 1, ..ALL };

pub fn c32(ctx: &Ctx) {
    ctx.rule("A case counts as distinct by what was asked, how the stand-in named its pictures, how many there were, what lay in the folder before, and how it ended.");
    let lab = Lab::new(ctx.scratch.join("pics"));
    ctx.cases_serial("images", ctx.n(350, 6_000), |r, _| images(ctx, &lab, r));
    ctx.cases_serial("one", ctx.n(350, 6_000), |r, _| one(ctx, &lab, r));
    ctx.cases_serial("png", ctx.n(120, 2_000), |r, _| png(ctx, &lab, r));
    ctx.cases_serial("pages", ctx.n(200, 4_000), |r, _| pages(ctx, &lab, r));
    ctx.cases_serial("options", ctx.n(300, 3_000), |r, _| options(r));
    ctx.probe("image-size-options", || {
        let p = Presentation::with_title("t").add_slide(ppt_rs::generator::SlideContent::new("a"));
        let w = lab.work();
        let run = |o: ImageExportOptions| -> Result<Vec<String>, String> {
            lab.plan("cp \"$L/p0\" \"$out/$stem.png\"", &[b"x".to_vec()]);
            p.save_as_images(w.join("o"), &o.with_format(ImageFormat::Png)).map_err(|e| e.to_string())?;
            Ok(lab.args().into_iter().filter(|a| !a.starts_with('/')).collect())
        };
        let a = run(ImageExportOptions::new().with_dpi(96))?;
        for (what, o) in [("300 dpi", ImageExportOptions::new().with_dpi(300)), ("640 by 480", ImageExportOptions::new().with_dpi(96).with_dimensions(640, 480))] {
            if run(o)? == a {
                return Err(format!("pictures asked for at 96 dpi and at {} are drawn by the same command: {}", what, a.join(" ")));
            }
        }
        Ok(())
    });
}

fn small(r: &mut Rng) -> DeckS {
    let max = if r.chance(1, 4) { 13 } else { 4 };
    let mut d = deck::random(r, &Profile { max_slides: max, ..PLAIN }, None);
    if max == 13 {
        while d.slides.len() < 10 + r.below(4) {
            let s = deck::random_slide(r, &PLAIN, &mut vec![], None);
            d.slides.push(s);
        }
    }
    d
}

/// How the stand-in calls its pictures: name of slide n of m.
fn name(scheme: usize, n: usize, ext: &str) -> String {
    match scheme {
        0 => format!("Slide{}.{}", n, ext),
        1 => format!("${{stem}}{}.{}", n, ext),
        2 => format!("${{stem}}-{}.{}", n, ext),
        3 => format!("Slide{:03}.{}", n, ext),
        4 => format!("${{stem}}_{:02}.{}", n, ext),
        _ => format!("Slide {}.{}", n, ext),
    }
}

/// Files that lie in the folder before.
fn before(r: &mut Rng, dir: &Path, ext: &str) -> usize {
    if r.chance(1, 5) {
        return 0;
    }
    fs::create_dir_all(dir).unwrap();
    let all = [
        format!("Slide{}.{}", 1 + r.below(30), ext),
        format!("temp_export{}.{}", 1 + r.below(30), ext),
        format!("temp_export.{}", ext),
        "Slide2.gif".to_string(),
        format!("holiday.{}", ext),
        format!("7.{}", ext),
        "notes.txt".to_string(),
        format!("sub/Slide1.{}", ext),
        "Slide1.pptx".to_string(),
        "temp_export.pptx".to_string(),
    ];
    let mut k = 0;
    for (i, f) in all.iter().enumerate() {
        if r.bool() {
            let p = dir.join(f);
            fs::create_dir_all(p.parent().unwrap()).unwrap();
            fs::write(p, format!("before {}", f)).unwrap();
            k |= 1 << i;
        }
    }
    k
}

fn opts(r: &mut Rng) -> ImageExportOptions {
    let mut o = match r.below(4) {
        0 => ImageExportOptions::new(),
        1 => ImageExportOptions::default(),
        2 => ImageExportOptions::high_quality(),
        _ => ImageExportOptions::web_optimized(),
    };
    if r.bool() {
        o = o.with_format(if r.bool() { ImageFormat::Png } else { ImageFormat::Jpeg });
    }
    if r.chance(1, 3) {
        o = o.with_dpi(1 + r.below(600) as u32).with_jpeg_quality(r.below(256) as u8);
    }
    o
}

fn given(lab: &Lab, d: &DeckS) -> Result<(), String> {
    let b = lab.got().ok_or("the program was given no deck")?;
    let k = sound(&b).map_err(|e| format!("the deck the program was given: {}", e))?;
    d.check_all(&k).map_err(|e| format!("the deck the program was given: {}", e))
}

fn images(ctx: &Ctx, lab: &Lab, r: &mut Rng) -> Res {
    let d = small(r);
    let m = d.slides.len();
    let w = lab.work();
    let rel = r.chance(1, 4);
    let dir = match r.below(4) {
        0 => "out".to_string(),
        1 => "deep/er/out".to_string(),
        2 => "ünï code ".to_string(),
        _ => ".".to_string(),
    };
    let at = w.join(&dir);
    let mut o = opts(r);
    let one = if r.chance(1, 3) { 1 + r.below(m) } else { 0 };
    o = o.with_slide(one);
    let ext = o.format.extension();
    let shown = if r.chance(1, 4) { ext.to_uppercase() } else { ext.to_string() };
    let pre = before(r, &at, ext);
    let old = tree(&w);
    let scheme = r.below(6);
    let fault = if r.chance(1, 5) { 1 + r.below(3) } else { 0 };
    let pics = pictures(r, m + 1);
    let mut order: Vec<usize> = (1..=m).collect();
    r.shuffle(&mut order);
    // a program that draws the first slide only does not number it
    let alone = one <= 1 && r.chance(1, 5);
    let mut plan = String::new();
    for (j, n) in order.iter().enumerate() {
        if alone {
            if *n == 1 {
                plan.push_str(&format!("cp \"$L/p1\" \"$out/$stem.{}\"\n", shown));
            }
        } else {
            plan.push_str(&format!("cp \"$L/p{}\" \"$out/{}\"\n", n, name(scheme, *n, &shown)));
        }
        if fault == 1 && j == m / 2 {
            plan.push_str("echo broken >&2; exit 3\n");
        }
    }
    match fault {
        2 => plan = "exit 1".into(),
        3 => plan.push_str("kill -9 $$\n"),
        _ => {}
    }
    lab.plan(&plan, &pics);
    let p = present(&d);
    let asked = if rel { PathBuf::from(&dir) } else { at.clone() };
    let what = format!("save_as_images into {:?}, slide option {}, {} slides, names like {}", dir, one, m, if alone { format!("(stem).{}", shown) } else { name(scheme, 1, &shown) });
    let say = |e: String| format!("{}: {} — {}", what, e, brief(&d));
    let res = p.save_as_images(&asked, &o);
    lab.clean().map_err(say)?;
    if lab.runs() != 1 {
        return Err(say(format!("the program ran {} times", lab.runs())));
    }
    given(lab, &d).map_err(say)?;
    if !lab.args().iter().any(|a| *a == ext || a.starts_with(&format!("{}:", ext))) {
        return Err(say(format!("{:?} is not what the program was asked for: {:?}", ext, lab.args())));
    }
    let new = tree(&w);
    if fault > 0 {
        if let Ok(v) = res {
            return Err(say(format!("the program failed, yet the export succeeded with {:?}", v)));
        }
        if new != old {
            return Err(say(format!("the program failed, and files changed: {:?} then {:?}", old.keys(), new.keys())));
        }
        return Ok(Out::sig(format!("i{}{}{}f{}", m, scheme, pre, fault)));
    }
    let files = res.map_err(|e| say(e.to_string()))?;
    let want: Vec<usize> = if alone { vec![1] } else if one > 0 { vec![one] } else { (1..=m).collect() };
    if files.len() != want.len() {
        return Err(say(format!("{} pictures were drawn of the slides asked for, {} returned: {:?}", want.len(), files.len(), files)));
    }
    let mut expect = old.clone();
    for (f, n) in files.iter().zip(&want) {
        let full = if f.is_absolute() { f.clone() } else { w.join(f) };
        if full.parent().map(|p| fs::canonicalize(p).ok()) != Some(fs::canonicalize(&at).ok()) {
            return Err(say(format!("{:?} is not in the folder", f)));
        }
        let b = fs::read(&full).map_err(|e| say(format!("{:?}: {}", f, e)))?;
        if b != pics[*n] {
            let is = pics.iter().position(|p| *p == b);
            return Err(say(format!("{:?} stands for slide {}, but holds {}", f, n, is.map(|i| format!("the picture of slide {}", i)).unwrap_or("something else".into()))));
        }
        let key = fs::canonicalize(&full).unwrap().strip_prefix(fs::canonicalize(&w).unwrap()).unwrap().to_string_lossy().to_string();
        expect.insert(key, b);
        ctx.count("pictures followed from the program to the folder", 1);
    }
    // no other file there was touched, and none was added
    for (k, v) in &new {
        match expect.get(k) {
            None => return Err(say(format!("{:?} appeared", k))),
            Some(x) if x != v => return Err(say(format!("{:?} changed", k))),
            _ => {}
        }
    }
    if let Some(k) = expect.keys().find(|k| !new.contains_key(*k)) {
        return Err(say(format!("{:?} is gone", k)));
    }
    ctx.see("names of pictures", if alone { "stem".into() } else { name(scheme, 1, "x") });
    ctx.see("kinds of call", "save_as_images");
    Ok(Out::sig(format!("i{}{}{}{}{}{}", m, scheme, pre, one, rel, alone)).with_sample(what.clone()))
}

fn one(ctx: &Ctx, lab: &Lab, r: &mut Rng) -> Res {
    let d = small(r);
    let m = d.slides.len();
    let w = lab.work();
    let thumb = r.chance(1, 3);
    let o = if thumb { ImageExportOptions::new() } else { opts(r).with_slide(r.below(m + 2)) };
    let ext = o.format.extension();
    let n = if thumb { 1 } else if r.chance(1, 6) { [0, m + 1, m + 7, usize::MAX][r.below(4)] } else { 1 + r.below(m) };
    let file = ["shot.png", "pics/a b/ß.jpg", "Slide1.png", "pics/Slide3.png", "temp_export.png", "plain"][r.below(6)].to_string();
    let rel = r.bool();
    let at = w.join(&file);
    let here = r.chance(3, 4);
    let pre = if here { before(r, at.parent().unwrap(), ext) } else { 0 };
    if r.chance(1, 3) && at.parent().unwrap().exists() {
        fs::write(&at, "the one before").unwrap();
    }
    let old = tree(&w);
    let scheme = r.below(6);
    let pics = pictures(r, m + 1);
    let alone = r.chance(1, 5);
    let fault = if r.chance(1, 8) { 1 + r.below(2) } else { 0 };
    let mut order: Vec<usize> = (1..=m).collect();
    r.shuffle(&mut order);
    let mut plan = String::new();
    for k in &order {
        if !alone {
            plan.push_str(&format!("cp \"$L/p{}\" \"$out/{}\"\n", k, name(scheme, *k, ext)));
        }
    }
    if alone {
        plan.push_str(&format!("cp \"$L/p1\" \"$out/$stem.{}\"\n", ext));
    }
    match fault {
        1 => plan.push_str("exit 1\n"),
        2 => plan = "exit 0".into(),
        _ => {}
    }
    lab.plan(&plan, &pics);
    let p = present(&d);
    let asked = if rel { PathBuf::from(&file) } else { at.clone() };
    let what = format!("{} of slide {} of {} into {:?}, names like {}", if thumb { "save_thumbnail" } else { "save_slide_as_image" }, n, m, file, if alone { "(stem)".into() } else { name(scheme, 1, ext) });
    let say = |e: String| format!("{}: {} — {}", what, e, brief(&d));
    let res = if thumb { p.save_thumbnail(&asked, r.below(2000) as u32) } else { p.save_slide_as_image(n, &asked, &o) };
    lab.clean().map_err(say)?;
    let new = tree(&w);
    let valid = (1..=m).contains(&n);
    let drawn = valid && fault == 0 && (!alone || n == 1);
    if !drawn {
        if let Ok(f) = res {
            return Err(say(format!("succeeded with {:?}, and there is no such picture", f)));
        }
        if new != old {
            return Err(say(format!("failed, and files changed: {:?} then {:?}", old.keys(), new.keys())));
        }
        if !valid && lab.runs() > 0 {
            return Err(say("the program ran for a slide there is not".into()));
        }
        return Ok(Out::sig(format!("o{}{}{}{}{}x", m, valid, fault, alone, pre)));
    }
    let f = res.map_err(|e| say(e.to_string()))?;
    given(lab, &d).map_err(say)?;
    if fs::canonicalize(&f).ok() != fs::canonicalize(&at).ok() || !at.exists() {
        return Err(say(format!("returned {:?}", f)));
    }
    let mut expect = old.clone();
    expect.insert(file.clone(), pics[n].clone());
    if new != expect {
        for (k, v) in &new {
            match expect.get(k) {
                None => return Err(say(format!("{:?} appeared", k))),
                Some(x) if x != v => {
                    let is = pics.iter().position(|p| p == v);
                    return Err(say(format!("{:?} {}", k, is.map(|i| format!("holds the picture of slide {}", i)).unwrap_or("holds something else".into()))));
                }
                _ => {}
            }
        }
        let k = expect.keys().find(|k| !new.contains_key(*k));
        return Err(say(format!("{:?} is gone", k)));
    }
    ctx.count("pictures of single slides", 1);
    ctx.see("kinds of call", if thumb { "save_thumbnail" } else { "save_slide_as_image" });
    Ok(Out::sig(format!("o{}{}{}{}{}{}", m, n, scheme, file, pre, alone)).with_sample(what.clone()))
}

fn png(ctx: &Ctx, lab: &Lab, r: &mut Rng) -> Res {
    let d = small(r);
    let m = d.slides.len();
    let w = lab.work();
    let dir = ["out", "a/b/c", "sp ace", "-dash"][r.below(4)];
    let at = w.join(dir);
    if r.bool() {
        fs::create_dir_all(&at).unwrap();
        fs::write(at.join("slide-99.png"), "before").unwrap();
    }
    let old = tree(&w);
    let pics = pictures(r, m + 1);
    let fault = r.chance(1, 5);
    let mut plan = String::new();
    if fault {
        plan.push_str(["exit 1", "exit 99", "kill -9 $$"][r.below(3)]);
    } else {
        for n in 1..=m {
            plan.push_str(&format!("cp \"$L/p{}\" \"$out-{}.png\"\n", n, n));
        }
    }
    lab.plan(&plan, &pics);
    let say = |e: String| format!("save_as_png of {} slides into {:?}: {} — {}", m, dir, e, brief(&d));
    let res = present(&d).save_as_png(&at);
    lab.clean().map_err(say)?;
    if fault {
        if res.is_ok() {
            return Err(say("the program failed, yet the export succeeded".into()));
        }
        if tree(&w) != old {
            return Err(say("the program failed, and files changed".into()));
        }
        return Ok(Out::sig("pf"));
    }
    res.map_err(|e| say(e.to_string()))?;
    let b = lab.got().ok_or_else(|| say("the program was given no file".into()))?;
    let doc = crate::pdf::parse(&b).map_err(|e| say(format!("what the program was given: {}", e)))?;
    if doc.pages.len() != m {
        return Err(say(format!("the program was given {} pages", doc.pages.len())));
    }
    if lab.runs() != 1 || !lab.args().iter().any(|a| a == "-png") {
        return Err(say(format!("{} runs, the last with {:?}", lab.runs(), lab.args())));
    }
    let mut expect = old;
    for n in 1..=m {
        expect.insert(format!("{}/slide-{}.png", dir, n), pics[n].clone());
    }
    let new = tree(&w);
    if new != expect {
        return Err(say(format!("files are {:?}, and should be {:?}", new.keys().collect::<Vec<_>>(), expect.keys().collect::<Vec<_>>())));
    }
    ctx.see("kinds of call", "save_as_png");
    ctx.count("pages given to the program", m as u64);
    Ok(Out::sig(format!("p{}{}", m, dir)))
}

fn pages(ctx: &Ctx, lab: &Lab, r: &mut Rng) -> Res {
    let w = lab.work();
    let m = if r.chance(1, 40) { 250 + r.below(20) } else if r.chance(1, 3) { 9 + r.below(110) } else { 1 + r.below(6) };
    let stem = ["report", "my.report", "page-7", "ünï code", "a b", "12", "<&>"][r.below(7)];
    let f = w.join(format!("{}.pdf", stem));
    let body: Vec<u8> = (0..40).map(|_| r.below(256) as u8).collect();
    let there = !r.chance(1, 12);
    if there {
        fs::write(&f, &body).unwrap();
    }
    let pics = pictures(r, m + 1);
    let pad = match r.below(3) {
        0 => 1,
        1 => m.to_string().len(),
        _ => 3,
    };
    let mut order: Vec<usize> = (1..=m).collect();
    r.shuffle(&mut order);
    let mut plan = String::new();
    for n in &order {
        plan.push_str(&format!("cp \"$L/p{}\" \"$out-{:0w$}.png\"\n", n, n, w = pad));
    }
    // one process for all of them
    if m > 12 {
        plan = format!("/usr/bin/python3 -c 'import sys,shutil\nL,o=sys.argv[1:]\nfor n in [{}]: shutil.copyfile(\"%s/p%d\"%(L,n),\"%s-%0{}d.png\"%(o,n))' \"$L\" \"$out\"\n", order.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(","), pad);
    }
    let fault = r.chance(1, 8);
    if fault {
        plan.push_str("exit 2\n");
    }
    lab.plan(&plan, &pics);
    let old = tree(&w);
    let say = |e: String| format!("from_pdf of {:?} with {} pages, numbers {} wide: {}", stem, m, pad, e);
    let res = Presentation::from_pdf(&f);
    lab.clean().map_err(say)?;
    if tree(&w) != old {
        return Err(say("files next to the source changed".into()));
    }
    if fault || !there {
        if res.is_ok() {
            return Err(say("succeeded without pages".into()));
        }
        if !there && lab.runs() > 0 {
            return Err(say("the program ran without a file".into()));
        }
        return Ok(Out::sig(format!("g{}{}", fault, there)));
    }
    let p = res.map_err(|e| say(e.to_string()))?;
    if lab.got().as_deref() != Some(&body[..]) {
        return Err(say("the program was given another file".into()));
    }
    if p.get_title() != stem {
        return Err(say(format!("the title is {:?}", p.get_title())));
    }
    if p.slide_count() != m {
        return Err(say(format!("{} slides", p.slide_count())));
    }
    let b = p.build().map_err(|e| say(e.to_string()))?;
    let k = sound(&b).map_err(say)?;
    let parts = k.slides();
    if parts.len() != m {
        return Err(say(format!("{} slides in the deck", parts.len())));
    }
    for (i, s) in parts.iter().enumerate() {
        let x = k.xml.get(s).ok_or_else(|| say("a slide is not XML".into()))?;
        let mut ids = vec![];
        x.walk(&mut |e| {
            if e.local == "blip" {
                ids.push(e.attr("r:embed").unwrap_or_default().to_string());
            }
        });
        if ids.len() != 1 {
            return Err(say(format!("slide {} shows {} pictures", i + 1, ids.len())));
        }
        let t = k.rel(s, &ids[0]).ok_or_else(|| say(format!("slide {}: no relationship {}", i + 1, ids[0])))?;
        let got = k.parts.get(&t.part);
        if got.map(|b| &b[..]) != Some(&pics[i + 1][..]) {
            let is = got.and_then(|b| pics.iter().position(|p| p == b));
            return Err(say(format!("slide {} shows {}", i + 1, is.map(|n| format!("page {}", n)).unwrap_or("something else".into()))));
        }
    }
    ctx.see("kinds of call", "from_pdf");
    ctx.count("pages followed into slides", m as u64);
    Ok(Out::sig(format!("g{}{}{}", m, pad, stem)))
}

fn options(r: &mut Rng) -> Res {
    let mut want = (ImageFormat::Png, 150u32, 90u8, 0u32, 0u32, 0usize);
    let mut o = match r.below(4) {
        0 => ImageExportOptions::new(),
        1 => ImageExportOptions::default(),
        2 => {
            want = (ImageFormat::Png, 300, 95, 0, 0, 0);
            ImageExportOptions::high_quality()
        }
        _ => {
            want = (ImageFormat::Jpeg, 96, 85, 0, 0, 0);
            ImageExportOptions::web_optimized()
        }
    };
    let mut said = vec![];
    for _ in 0..r.below(6) {
        match r.below(5) {
            0 => {
                want.0 = if r.bool() { ImageFormat::Png } else { ImageFormat::Jpeg };
                o = o.with_format(want.0);
            }
            1 => {
                want.1 = r.u64() as u32;
                o = o.with_dpi(want.1);
            }
            2 => {
                let q = r.below(256) as u8;
                want.2 = q.min(100);
                o = o.with_jpeg_quality(q);
                said.push(format!("quality {}", q));
            }
            3 => {
                (want.3, want.4) = (r.u64() as u32, r.u64() as u32);
                o = o.with_dimensions(want.3, want.4);
            }
            _ => {
                want.5 = r.below(50);
                o = o.with_slide(want.5);
            }
        }
    }
    let got = (o.format, o.dpi, o.jpeg_quality, o.width, o.height, o.slide_number);
    if got != want {
        return Err(format!("options {:?}: {:?}, and not {:?}", said, got, want));
    }
    let (e, m) = (o.format.extension(), o.format.mime_type());
    if (e, m) != if want.0 == ImageFormat::Png { ("png", "image/png") } else { ("jpg", "image/jpeg") } {
        return Err(format!("{:?} is {} of type {}", o.format, e, m));
    }
    Ok(Out::sig(format!("{:?}", want.0 as u8)))
}
