//! C26: every command of the command line tool does what it says, and tells how it went.
use super::gen1::{brief, sound, write};
use super::pkg::any_deck;
use crate::opc::Pkg;
use crate::pml;
use crate::report::{Ctx, Out, Res};
use crate::rng::Rng;
use crate::spec::deck::{self, ALL, Profile};
use crate::spec::foreign;
use crate::text;
use ppt_rs::Presentation;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::TcpListener;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// A folder for one run: work (current directory), tmp (temporary files), bin (stand-ins).
pub struct Lab {
    pub root: PathBuf,
}
pub struct Ran {
    pub code: i32,
    pub out: String,
    pub err: String,
    pub took: Duration,
}
impl Lab {
    pub fn new(ctx: &Ctx, name: &str, case: u64) -> Result<Lab, String> {
        let root = ctx.scratch.join(format!("{}{}", name, case));
        for d in ["work", "tmp", "bin", "log"] {
            std::fs::create_dir_all(root.join(d)).map_err(|e| format!("HARNESS:{}", e))?;
        }
        Ok(Lab { root })
    }
    pub fn work(&self, n: &str) -> PathBuf {
        self.root.join("work").join(n)
    }
    pub fn put(&self, n: &str, b: &[u8]) -> Result<(), String> {
        let p = self.work(n);
        std::fs::create_dir_all(p.parent().unwrap()).map_err(|e| format!("HARNESS:{}", e))?;
        std::fs::write(p, b).map_err(|e| format!("HARNESS:{}", e))
    }
    pub fn script(&self, n: &str, body: &str) -> Result<(), String> {
        use std::os::unix::fs::PermissionsExt;
        let p = self.root.join("bin").join(n);
        std::fs::write(&p, format!("#!/bin/sh\nPATH=/usr/bin:/bin\n{}\n", body)).map_err(|e| format!("HARNESS:{}", e))?;
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).map_err(|e| format!("HARNESS:{}", e))
    }
    pub fn files(&self) -> BTreeMap<String, Vec<u8>> {
        fn walk(d: &Path, pre: &str, v: &mut BTreeMap<String, Vec<u8>>) {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                let n = format!("{}{}", pre, e.file_name().to_string_lossy());
                if e.path().is_dir() {
                    walk(&e.path(), &format!("{}/", n), v);
                } else {
                    v.insert(n, std::fs::read(e.path()).unwrap_or_default());
                }
            }
        }
        let mut v = BTreeMap::new();
        walk(&self.root.join("work"), "", &mut v);
        v
    }
    pub fn leftovers(&self) -> Vec<String> {
        std::fs::read_dir(self.root.join("tmp")).into_iter().flatten().flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect()
    }
    pub fn command(&self) -> Result<Command, String> {
        let exe = std::env::current_exe().map_err(|e| format!("HARNESS:{}", e))?.with_file_name("pptcli");
        if !exe.exists() {
            return Err(format!("HARNESS:{} is missing", exe.display()));
        }
        let mut c = Command::new(exe);
        c.env_clear().env("PATH", self.root.join("bin")).env("TMPDIR", self.root.join("tmp")).env("HOME", &self.root).env("NO_PROXY", "*").current_dir(self.root.join("work")).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
        Ok(c)
    }
    pub fn run(&self, args: &[String]) -> Result<Ran, String> {
        let t = Instant::now();
        let mut ch = self.command()?.args(args).spawn().map_err(|e| format!("HARNESS:{}", e))?;
        let (mut o, mut e) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
        let ho = std::thread::spawn(move || {
            let mut v = vec![];
            o.read_to_end(&mut v).ok();
            v
        });
        let he = std::thread::spawn(move || {
            let mut v = vec![];
            e.read_to_end(&mut v).ok();
            v
        });
        let st = loop {
            if let Some(s) = ch.try_wait().map_err(|e| format!("HARNESS:{}", e))? {
                break s;
            }
            if t.elapsed() > Duration::from_secs(120) {
                ch.kill().ok();
                ch.wait().ok();
                return Err(format!("{:?} gave no answer within 120 s", args));
            }
            std::thread::sleep(Duration::from_millis(3));
        };
        let r = Ran {
            code: st.code().unwrap_or(-1),
            out: String::from_utf8_lossy(&ho.join().unwrap_or_default()).to_string(),
            err: String::from_utf8_lossy(&he.join().unwrap_or_default()).to_string(),
            took: t.elapsed(),
        };
        if !(0..=2).contains(&r.code) || r.err.contains("panicked at") {
            return Err(format!("{:?} ended with {:?}: {}", args, st, r.err));
        }
        if r.code == 2 {
            return Err(format!("{:?} was taken for wrong usage: {}", args, r.err));
        }
        Ok(r)
    }
}
impl Drop for Lab {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.root).ok();
    }
}

/// Identifiers drawn at random are not compared.
pub fn mask(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = String::with_capacity(s.len());
    let mut i = 0;
    while i < b.len() {
        let is = |k: usize| {
            b.get(i..i + 36).is_some_and(|w| {
                w.iter().enumerate().all(|(j, c)| if [8, 13, 18, 23].contains(&j) { *c == b'-' } else { c.is_ascii_hexdigit() }) && k == 0
            })
        };
        if is(0) {
            o.push('U');
            i += 36;
        } else {
            let n = s[i..].chars().next().unwrap().len_utf8();
            o.push_str(&s[i..i + n]);
            i += n;
        }
    }
    o
}

/// Two packages say the same but for times and drawn identifiers.
pub fn same_deck(a: &[u8], b: &[u8]) -> Result<(), String> {
    let (x, y) = (Pkg::load(a)?, Pkg::load(b)?);
    let names = |k: &Pkg| k.parts.keys().map(|n| mask(n)).collect::<Vec<_>>();
    let (mut nx, mut ny) = (names(&x), names(&y));
    nx.sort();
    ny.sort();
    if nx != ny {
        return Err(format!("parts {:?} instead of {:?}", nx, ny));
    }
    let get = |k: &Pkg| k.parts.iter().map(|(n, d)| (mask(n), d.clone())).collect::<BTreeMap<_, _>>();
    let (px, py) = (get(&x), get(&y));
    for (n, d) in &px {
        let e = &py[n];
        let same = if n == "docProps/core.xml" {
            let t = |v: &[u8]| crate::xml::parse(v).map(|x| x.elems().filter(|e| e.local != "created" && e.local != "modified").map(|e| e.canon()).collect::<String>());
            t(d)? == t(e)?
        } else if n.ends_with(".xml") || n.ends_with(".rels") {
            mask(&String::from_utf8_lossy(d)) == mask(&String::from_utf8_lossy(e))
        } else if n.ends_with(".xlsx") {
            true
        } else {
            d == e
        };
        if !same {
            let (g, w) = (mask(&String::from_utf8_lossy(d)), mask(&String::from_utf8_lossy(e)));
            let k = g.chars().zip(w.chars()).take_while(|(a, b)| a == b).count();
            let cut = |s: &str| s.chars().skip(k.saturating_sub(60)).take(200).collect::<String>();
            return Err(format!("{} differs at character {}: {:?} — {:?}", n, k, cut(&g), cut(&w)));
        }
    }
    Ok(())
}

fn s(v: &[&str]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}

/// What a run may have written: these files, each judged by the caller, and nothing else.
fn judge(lab: &Lab, before: &BTreeMap<String, Vec<u8>>, ran: &Ran, args: &[String], outs: &[&str]) -> Result<BTreeMap<String, Vec<u8>>, String> {
    let after = lab.files();
    let left = lab.leftovers();
    if !left.is_empty() {
        return Err(format!("{:?} left temporary files {:?}", args, left));
    }
    for (n, d) in &after {
        if outs.contains(&n.as_str()) && ran.code == 0 {
            continue;
        }
        match before.get(n) {
            None => return Err(format!("{:?} (exit {}) wrote {}", args, ran.code, n)),
            Some(o) if o != d => return Err(format!("{:?} (exit {}) changed {}", args, ran.code, n)),
            _ => {}
        }
    }
    for n in before.keys() {
        if !after.contains_key(n) {
            return Err(format!("{:?} removed {}", args, n));
        }
    }
    if ran.code == 0 {
        for o in outs {
            if !after.contains_key(*o) {
                return Err(format!("{:?} reports success and there is no {}: {}", args, o, ran.out));
            }
        }
        if ran.out.contains('✗') || ran.err.contains('✗') {
            return Err(format!("{:?} exits with 0 and reports an error: {} {}", args, ran.out, ran.err));
        }
    } else if ran.err.trim().is_empty() && ran.out.trim().is_empty() {
        return Err(format!("{:?} fails without a word", args));
    }
    Ok(after)
}

fn name(r: &mut Rng, ext: &str) -> String {
    let stem = match r.below(6) {
        0 => "my deck".to_string(),
        1 => "été 日本".into(),
        2 => "a.b.c".into(),
        3 => "x'\"&$(y)".into(),
        _ => text::tag(r),
    };
    let dir = match r.below(5) {
        0 => "in here/",
        1 => "d/e/",
        2 => "./",
        _ => "",
    };
    format!("{}{}{}", dir, stem, ext)
}
fn plain_name(n: &str) -> &str {
    n.strip_prefix("./").unwrap_or(n)
}
fn title_args(r: &mut Rng, args: &mut Vec<String>) -> Option<String> {
    if r.bool() {
        return None;
    }
    let t = text::any(r).replace('\0', "");
    if r.bool() && !t.starts_with('-') {
        args.push("--title".into());
        args.push(t.clone());
    } else {
        args.push(format!("--title={}", t));
    }
    Some(t)
}

fn html(r: &mut Rng) -> String {
    let mut h = String::from("<html><head><title>T</title></head><body>");
    for _ in 0..r.below(8) {
        let t = text::tag(r);
        h.push_str(&match r.below(7) {
            0 | 1 => format!("<h1>{}</h1>", t),
            2 => format!("<h2>{} &amp; x</h2>", t),
            3 => format!("<ul>{}</ul>", (0..1 + r.below(14)).map(|i| format!("<li>{}-{}</li>", t, i)).collect::<String>()),
            4 => format!("<table><tr><th>{}</th><th>b</th></tr><tr><td>1</td><td>2</td></tr></table>", t),
            5 => format!("<pre><code>fn {}() {{}}</code></pre>", t),
            _ => format!("<p>{} some text that is long enough to count</p><img src=\"{}.png\" alt=\"pic {}\">", t, t, t),
        });
    }
    h.push_str("</body></html>");
    h
}
fn markdown(r: &mut Rng) -> String {
    let mut m = String::new();
    for _ in 0..r.below(8) {
        let t = text::tag(r);
        m.push_str(&match r.below(7) {
            0 | 1 => format!("# {}\n\n", t),
            2 => format!("- {}\n  - sub **b** é日本\n- two\n\n", t),
            3 => format!("| {} | b |\n|---|---|\n| 1 | 2 |\n\n", t),
            4 => format!("```rust\nfn {}() {{}}\n```\n\n", t),
            5 => format!("> note {}\n\n", t),
            _ => format!("```mermaid\nflowchart TD\nA[{}] --> B\n```\n\n", t),
        });
    }
    m
}

fn from_text(ctx: &Ctx, r: &mut Rng, case: u64, is_md: bool) -> Res {
    let lab = Lab::new(ctx, if is_md { "m" } else { "h" }, case)?;
    let src = if is_md { markdown(r) } else { html(r) };
    let kind = r.below(10);
    let bytes = match kind {
        0 => b"\xff\xfe not text".to_vec(),
        1 if is_md => b"  \n\n".to_vec(),
        2 if is_md => [b"\xef\xbb\xbf".to_vec(), src.clone().into_bytes()].concat(),
        _ => src.clone().into_bytes(),
    };
    let ext = if r.chance(1, 6) { "" } else if is_md { ".md" } else { ".html" };
    let inp = name(r, ext);
    if kind != 3 {
        lab.put(&inp, &bytes)?;
    }
    let mut args = vec![if is_md { r.pick(&["md2ppt", "from-md", "from-markdown"]).to_string() } else { "html2ppt".into() }, inp.clone()];
    let out = if r.bool() {
        let o = name(r, ".pptx");
        args.push(o.clone());
        o
    } else {
        let p = Path::new(&inp);
        let stem = p.file_stem().unwrap().to_string_lossy().to_string();
        p.with_file_name(format!("{}.pptx", stem)).to_string_lossy().to_string()
    };
    let out = plain_name(&out).to_string();
    if plain_name(&inp) == out {
        return Ok(Out::trivial());
    }
    let old = r.chance(1, 4);
    if old {
        lab.put(&out, b"old contents")?;
    }
    let title = title_args(r, &mut args);
    let (mut ms, mut mb, mut ni, mut nt, mut nc) = (50, 10, false, false, false);
    if !is_md {
        if r.chance(1, 3) {
            ms = 1 + r.below(4);
            args.push(format!("--max-slides={}", ms));
        }
        if r.chance(1, 3) {
            mb = r.below(6);
            args.extend(s(&["--max-bullets", &mb.to_string()]));
        }
        for (f, n) in [(&mut ni, "--no-images"), (&mut nt, "--no-tables"), (&mut nc, "--no-code")] {
            if r.chance(1, 4) {
                *f = true;
                args.push(n.into());
            }
        }
    }
    let before = lab.files();
    let ran = lab.run(&args)?;
    let after = judge(&lab, &before, &ran, &args, &[&out])?;
    // what the library makes of the same text
    let want: Result<Vec<u8>, String> = match (kind, std::str::from_utf8(&bytes)) {
        (3, _) => Err("missing".into()),
        (_, Err(e)) => Err(e.to_string()),
        (_, Ok(t)) => {
            let slides = if is_md {
                ppt_rs::cli::parse_markdown(t)
            } else {
                let o = ppt_rs::import::HtmlParseOptions::new().max_slides(ms).max_bullets(mb).include_images(!ni).include_tables(!nt).include_code(!nc);
                ppt_rs::import::parse_html_with_options(t, o)
            };
            slides.and_then(|v| {
                if v.is_empty() {
                    return Err("nothing".into());
                }
                let t = title.clone().unwrap_or(if is_md { "Presentation from Markdown" } else { "Presentation from HTML" }.into());
                ppt_rs::generator::create_pptx_with_content(&t, v).map_err(|e| e.to_string())
            })
        }
    };
    match want {
        Err(e) => {
            if ran.code != 1 {
                return Err(format!("{:?} exits with {} where the library says {:?}", args, ran.code, e));
            }
            ctx.count("failures reported by exit code", 1);
        }
        Ok(w) => {
            if ran.code != 0 {
                return Err(format!("{:?} exits with {}: {}", args, ran.code, ran.err));
            }
            let k = sound(&after[&out]).map_err(|e| format!("{:?}: {}", args, e))?;
            same_deck(&after[&out], &w).map_err(|e| format!("{:?}: {} — input {}", args, e, text::short(&src)))?;
            if !ran.out.contains(&out) {
                return Err(format!("{:?} does not say where the deck is: {}", args, ran.out));
            }
            ctx.count("decks from text compared with the library", 1);
            ctx.count("slides written by the tool", k.slides().len() as u64);
        }
    }
    ctx.see("commands run", &args[0]);
    Ok(Out::sig(format!("{}{}{}{}", kind, src.len(), ran.code, args.len())).with_sample(format!("{:?}", args)))
}

fn slide_titles(k: &Pkg) -> Vec<String> {
    k.slides().iter().map(|p| k.xml.get(p).map(|x| pml::shapes(x).first().map(|s| s.text()).unwrap_or_default()).unwrap_or_default()).collect()
}

fn create(ctx: &Ctx, r: &mut Rng, case: u64) -> Res {
    let lab = Lab::new(ctx, "c", case)?;
    let out = name(r, ".pptx");
    let mut args = s(&["create", &out]);
    let title = title_args(r, &mut args);
    let n = match r.below(6) {
        0 => 1,
        1 => 10 + r.below(40),
        _ => 1 + r.below(6),
    };
    if n != 1 || r.bool() {
        args.extend(s(&["--slides", &n.to_string()]));
    }
    let tpl = r.below(4);
    if tpl < 2 {
        let own = r.bool();
        let t = any_deck(r, own)?;
        if tpl == 0 {
            lab.put("tpl.pptx", &t.bytes)?;
        } else if r.bool() {
            lab.put("tpl.pptx", &t.bytes[..t.bytes.len() / 2])?;
        }
        args.extend(s(&["--template", "tpl.pptx"]));
    }
    if r.chance(1, 6) {
        lab.put(plain_name(&out), b"old")?;
    }
    let before = lab.files();
    let ran = lab.run(&args)?;
    let after = judge(&lab, &before, &ran, &args, &[plain_name(&out)])?;
    if (ran.code == 0) != (tpl != 1) {
        return Err(format!("{:?} exits with {} (template {}): {}", args, ran.code, ["good", "broken or missing", "none", "none"][tpl], ran.err));
    }
    if ran.code == 0 {
        let k = sound(&after[plain_name(&out)]).map_err(|e| format!("{:?}: {}", args, e))?;
        let t = title.unwrap_or_else(|| "Presentation".into());
        let core = k.xml.get("docProps/core.xml").and_then(|c| c.child("title")).map(|t| t.text()).unwrap_or_default();
        if core != deck::clean(&t) {
            return Err(format!("{:?}: the title recorded is {:?}", args, core));
        }
        if k.slides().len() != n {
            return Err(format!("{:?}: {} slides", args, k.slides().len()));
        }
        if tpl == 0 {
            let want: Vec<String> = (1..=n).map(|i| format!("Slide {}", i)).collect();
            if slide_titles(&k) != want {
                return Err(format!("{:?}: titles {:?}", args, slide_titles(&k)));
            }
        } else {
            same_deck(&after[plain_name(&out)], &ppt_rs::create_pptx(&t, n).map_err(|e| e.to_string())?).map_err(|e| format!("{:?}: {}", args, e))?;
        }
    }
    ctx.see("commands run", "create");
    Ok(Out::sig(format!("{}{}{}", tpl, n, out)).with_sample(format!("{:?}", args)))
}

fn some_deck(r: &mut Rng) -> Result<(Vec<u8>, String), String> {
    const P: Profile = Profile { shapes: 1, conns: 0, images: 1, charts: 0, max_slides: 5, ..ALL };
    if r.chance(2, 3) {
        let mut d = deck::random(r, &P, None);
        if d.slides.is_empty() {
            d.slides.push(deck::random_slide(r, &P, &mut vec![], None));
        }
        Ok((write(&d)?, brief(&d)))
    } else {
        let d = foreign::random(r, true);
        Ok((d.bytes.clone(), "foreign".into()))
    }
}

/// Imported decks compared by what the slides hold.
fn merge(ctx: &Ctx, r: &mut Rng, case: u64) -> Res {
    let lab = Lab::new(ctx, "g", case)?;
    let n = 1 + r.below(4);
    let mut ins = vec![];
    let mut want: Option<Presentation> = None;
    let mut bad = false;
    for i in 0..n {
        let f = name(r, &format!("{}.pptx", i));
        let (mut b, _) = some_deck(r)?;
        let broken = r.chance(1, 12);
        if broken {
            b.truncate(b.len() / 3);
            bad = true;
        }
        lab.put(&f, &b)?;
        if !broken {
            let p = Presentation::from_path(lab.work(&f)).map_err(|e| format!("a sound deck is not read: {}", e))?;
            want = Some(match want {
                None => p,
                Some(w) => w.add_presentation(p),
            });
        }
        ins.push(f);
    }
    if n > 1 && r.chance(1, 5) && !bad {
        ins.push(ins[0].clone());
        let p = Presentation::from_path(lab.work(&ins[0])).map_err(|e| e.to_string())?;
        want = want.map(|w| w.add_presentation(p));
    }
    let out = if r.chance(1, 6) { ins[r.below(ins.len())].clone() } else { "merged.pptx".to_string() };
    let mut args = vec!["merge".to_string()];
    let (a, b) = (vec![if r.bool() { "-o" } else { "--output" }.to_string(), out.clone()], ins.clone());
    if r.bool() {
        args.extend(a);
        args.extend(b);
    } else {
        args.extend(b);
        args.extend(a);
    }
    let before = lab.files();
    let ran = lab.run(&args)?;
    let after = judge(&lab, &before, &ran, &args, &[plain_name(&out)])?;
    let want = want.filter(|w| !bad && w.slide_count() > 0);
    match want {
        None => {
            if ran.code == 0 {
                return Err(format!("{:?} reports success with a broken or empty input: {}", args, ran.out));
            }
        }
        Some(w) => {
            if ran.code != 0 {
                return Err(format!("{:?}: {}", args, ran.err));
            }
            let got = &after[plain_name(&out)];
            let k = sound(got).map_err(|e| format!("{:?}: {}", args, e))?;
            same_deck(got, &w.build().map_err(|e| e.to_string())?).map_err(|e| format!("{:?}: {}", args, e))?;
            let count: usize = ins.iter().map(|f| before.get(plain_name(f)).and_then(|b| Pkg::load(b).ok()).map(|k| k.slides().len()).unwrap_or(0)).sum();
            if k.slides().len() != count {
                return Err(format!("{:?}: {} slides, the inputs have {}", args, k.slides().len(), count));
            }
            ctx.count("decks merged", ins.len() as u64);
        }
    }
    ctx.see("commands run", "merge");
    Ok(Out::sig(format!("{}{:?}{}", n, ins, ran.code)).with_sample(format!("{:?}", args)))
}

fn validate(ctx: &Ctx, r: &mut Rng, case: u64) -> Res {
    let lab = Lab::new(ctx, "v", case)?;
    let (mut b, what) = some_deck(r)?;
    let kind = r.below(5);
    match kind {
        0 => b.truncate(r.below(b.len())),
        1 => {
            let mut e = crate::zipx::read(&b)?;
            let i = r.below(e.len());
            if r.bool() {
                e.remove(i);
            } else {
                let n = e[i].data.len();
                e[i].data.truncate(n / 2);
            }
            b = crate::zipx::write(&e.into_iter().map(|e| (e.name, e.data)).collect::<Vec<_>>());
        }
        _ => {}
    }
    let mut f = name(r, ".pptx");
    if r.chance(1, 4) {
        f = f.replace(".pptx", &format!("{}x.pptx", r.pick(&["\u{1}", "\u{1f}", "\u{7f}", "\"", "\\", "\t", "\n", "\u{85}"])));
    }
    if kind != 2 {
        lab.put(&f, &b)?;
    }
    let json = r.bool();
    let mut args = s(&["validate", &f]);
    if json {
        args.push("--json".into());
    }
    let before = lab.files();
    let ran = lab.run(&args)?;
    judge(&lab, &before, &ran, &args, &[]).or_else(|e| if kind == 2 && json && e.contains("without a word") { Ok(before.clone()) } else { Err(e) })?;
    if kind == 2 {
        return if ran.code == 1 { Ok(Out::sig("none")) } else { Err(format!("{:?}: a file that does not exist is valid", args)) };
    }
    let rep = ppt_rs::core::validate_package_bytes(&b);
    if (ran.code == 0) != rep.is_valid() {
        return Err(format!("{:?} exits with {}, the library finds {} errors — {}", args, ran.code, rep.error_count(), what));
    }
    if json {
        let v: serde_json::Value = serde_json::from_str(&ran.out).map_err(|e| format!("{:?} prints no JSON: {} — {}", args, e, ran.out))?;
        let mut got: Vec<String> = v["issues"].as_array().ok_or("no issues list")?.iter().map(|i| format!("{}|{}|{}|{}", i["severity"].as_str().unwrap_or("?"), i["category"].as_str().unwrap_or("?"), i["path"].as_str().unwrap_or("-"), i["message"].as_str().unwrap_or("?"))).collect();
        let mut want: Vec<String> = rep.issues.iter().map(|i| format!("{}|{:?}|{}|{}", if matches!(i.severity, ppt_rs::core::ValidationSeverity::Error) { "error" } else { "warning" }, i.category, i.path.as_deref().unwrap_or("-"), i.message)).collect();
        got.sort();
        want.sort();
        if got != want || v["valid"] != rep.is_valid() || v["error_count"] != rep.error_count() || v["warning_count"] != rep.warning_count() || v["file"] != f {
            return Err(format!("{:?} prints {}, the library finds {:?}", args, ran.out, want));
        }
    } else {
        for i in &rep.issues {
            if !ran.out.contains(&i.message) {
                return Err(format!("{:?} does not mention {:?}", args, i.message));
            }
        }
        if !ran.out.contains(&format!("{} error(s), {} warning(s)", rep.error_count(), rep.warning_count())) {
            return Err(format!("{:?}: counts are not those of the library ({}, {}): {}", args, rep.error_count(), rep.warning_count(), ran.out));
        }
    }
    ctx.count("validation reports compared", 1);
    ctx.see("commands run", "validate");
    Ok(Out::sig(format!("{}{}{:?}", kind, json, rep.issues.iter().map(|i| format!("{:?}", i.category)).collect::<Vec<_>>())).with_sample(format!("{:?} ⇒ {}", args, ran.code)))
}

fn info(ctx: &Ctx, r: &mut Rng, case: u64) -> Res {
    let lab = Lab::new(ctx, "i", case)?;
    let f = name(r, ".pptx");
    let n = r.below(3000);
    let b = match r.below(3) {
        0 => format!("<?xml version=\"1.0\"?><p count=\"{}\"><title>{}</title></p>", text::tag(r), text::tag(r)).into_bytes(),
        1 => format!("<?xml count=\"é<title>日{}", text::any(r)).into_bytes(),
        _ => r.bytes(n),
    };
    let there = !r.chance(1, 6);
    if there {
        lab.put(&f, &b)?;
    }
    let args = s(&["info", &f]);
    let before = lab.files();
    let ran = lab.run(&args)?;
    judge(&lab, &before, &ran, &args, &[])?;
    if (ran.code == 0) != there {
        return Err(format!("{:?} exits with {} and the file is there: {}", args, ran.code, there));
    }
    if there && (!ran.out.contains(&format!("{} bytes", b.len())) || !ran.out.contains(&f)) {
        return Err(format!("{:?}: {} bytes are reported as {}", args, b.len(), ran.out));
    }
    ctx.see("commands run", "info");
    Ok(Out::sig(format!("{}{}", f, b.len())))
}

/// A page drawer that can be told to fail; it draws `n` pages and keeps a copy of what it was given.
fn drawer(lab: &Lab, r: &mut Rng, pages: &[Vec<u8>], mode: usize) -> Result<(), String> {
    for (i, p) in pages.iter().enumerate() {
        std::fs::write(lab.root.join("log").join(format!("p{}", i + 1)), p).map_err(|e| format!("HARNESS:{}", e))?;
    }
    let log = lab.root.join("log");
    let pad = r.bool();
    let loop_ = format!(
        "i={n}; while [ $i -ge 1 ]; do n=$i; {pad} cp '{log}'/p$i \"$3-$n.png\"; i=$((i-1)); done",
        n = pages.len(),
        log = log.display(),
        pad = if pad { "if [ $i -lt 10 ]; then n=0$i; fi;" } else { "" }
    );
    let keep = format!("printf '%s\\n' \"$@\" > '{log}'/args; cp \"$2\" '{log}'/given", log = log.display());
    match mode {
        0..=5 => lab.script("pdftoppm", &format!("{}; {}; exit 0", keep, loop_)),
        6 => lab.script("pdftoppm", &format!("{}; {}; exit 3", keep, loop_)),
        7 => lab.script("pdftoppm", &format!("{}; kill -9 $$", keep)),
        _ => Ok(()),
    }
}

fn export(ctx: &Ctx, r: &mut Rng, case: u64) -> Res {
    let lab = Lab::new(ctx, "e", case)?;
    let (mut b, what) = some_deck(r)?;
    let broken = r.chance(1, 10);
    if broken {
        b.truncate(b.len() / 2);
    }
    let inp = name(r, ".pptx");
    lab.put(&inp, &b)?;
    let (fmt, explicit) = (r.below(3), r.bool());
    let ext = [".pdf", ".html", ".png", ".HTML", ".bin"];
    // the format is given by name, by the extension, or is PDF
    let e = if explicit { r.below(5) } else { [[0, 4], [1, 3], [2, 2]][fmt][r.below(2)] };
    let out = format!("{}{}", text::tag(r), ext[e]);
    let mut args = s(&["export", &inp, &out]);
    if explicit {
        args.extend(s(&["--format", ["pdf", "html", "png"][fmt]]));
    }
    let mode = r.below(9);
    let pages: Vec<Vec<u8>> = (0..1 + r.below(3)).map(|_| foreign::png(r)).collect();
    drawer(&lab, r, &pages, if fmt == 2 { mode } else { 8 })?;
    let before = lab.files();
    let ran = lab.run(&args)?;
    let pngs: Vec<String> = (1..=pages.len()).flat_map(|i| [format!("{}/slide-{}.png", out, i), format!("{}/slide-0{}.png", out, i)]).collect();
    let outs: Vec<&str> = if fmt == 2 { vec![] } else { vec![&out] };
    let left = lab.leftovers();
    if !left.is_empty() {
        return Err(format!("{:?} (page drawer mode {}) left temporary files {:?}", args, mode, left));
    }
    let want = if broken { None } else { Some(Presentation::from_path(lab.work(&inp)).map_err(|e| format!("a sound deck is not read: {} — {}", e, what))?) };
    // a deck without slides has no pages
    let want = want.filter(|w| fmt == 1 || w.slide_count() > 0);
    if fmt == 2 {
        let after = lab.files();
        for (n, d) in &before {
            if after.get(n) != Some(d) {
                return Err(format!("{:?} changed {}", args, n));
            }
        }
        if let Some(n) = after.keys().find(|n| !before.contains_key(*n) && !pngs.contains(n)) {
            return Err(format!("{:?} wrote {}", args, n));
        }
        let good = want.is_some() && mode < 6;
        if (ran.code == 0) != good {
            return Err(format!("{:?} exits with {}, page drawer mode {}: {}", args, ran.code, mode, ran.err));
        }
        if let (Some(w), true) = (&want, mode < 8) {
            let given = std::fs::read(lab.root.join("log/given")).map_err(|_| format!("{:?}: the page drawer was given no file", args))?;
            let lib = ppt_rs::export::slide_render::render_to_pdf_bytes(w).map_err(|e| e.to_string())?;
            if given != lib {
                return Err(format!("{:?}: the pages drawn are not those of the deck ({} bytes, expected {})", args, given.len(), lib.len()));
            }
        }
        if good {
            let got: Vec<&Vec<u8>> = after.iter().filter(|(n, _)| pngs.contains(n)).map(|(_, d)| d).collect();
            if got.len() != pages.len() {
                return Err(format!("{:?}: {} pictures, {} were drawn", args, got.len(), pages.len()));
            }
        }
        ctx.count("page drawer runs", (mode < 8) as u64);
    } else {
        let after = judge(&lab, &before, &ran, &args, &outs)?;
        match &want {
            None => {
                if ran.code == 0 {
                    return Err(format!("{:?}: half a file is exported", args));
                }
            }
            Some(w) => {
                if ran.code != 0 {
                    return Err(format!("{:?}: {} — {}", args, ran.err, what));
                }
                let q = lab.root.join("log/lib");
                if fmt == 0 { w.save_as_pdf(&q) } else { w.save_as_html(&q) }.map_err(|e| e.to_string())?;
                if std::fs::read(&q).unwrap_or_default() != after[&out] {
                    return Err(format!("{:?}: the file is not what the library makes of the deck — {}", args, what));
                }
                if !(if fmt == 0 { after[&out].starts_with(b"%PDF") } else { after[&out].to_ascii_lowercase().windows(5).any(|w| w == b"<html") }) {
                    return Err(format!("{:?}: the file is not of the format asked for", args));
                }
                ctx.count("exports compared with the library", 1);
            }
        }
    }
    ctx.see("commands run", format!("export {}", ["pdf", "html", "png"][fmt]));
    Ok(Out::sig(format!("{}{}{}{}{}", fmt, e, mode, broken, what)).with_sample(format!("{:?}", args)))
}

fn pdf2ppt(ctx: &Ctx, r: &mut Rng, case: u64) -> Res {
    let lab = Lab::new(ctx, "p", case)?;
    let inp = name(r, r.clone().pick(&[".pdf", ".PDF", ""]));
    let there = !r.chance(1, 10);
    if there {
        lab.put(&inp, b"%PDF-1.4 pages")?;
    }
    let mode = r.below(9);
    let n = match r.below(5) {
        0 => 9 + r.below(5),
        1 => 0,
        n => n,
    };
    let garbage = mode < 6 && n > 0 && r.chance(1, 10);
    let mut pages: Vec<Vec<u8>> = (0..n).map(|_| foreign::png(r)).collect();
    if garbage {
        let k = r.below(n);
        pages[k] = b"not a picture".to_vec();
    }
    drawer(&lab, r, &pages, mode)?;
    let mut args = s(&["pdf2ppt", &inp]);
    let out = if r.bool() {
        let o = format!("{}.pptx", text::tag(r));
        args.push(o.clone());
        o
    } else {
        Path::new(&inp).with_extension("pptx").to_string_lossy().to_string()
    };
    let out = plain_name(&out).to_string();
    let before = lab.files();
    let ran = lab.run(&args)?;
    let after = judge(&lab, &before, &ran, &args, &[&out])?;
    let good = there && mode < 6 && n > 0;
    if garbage && good {
        // a page that is no picture: refused, or kept as it is
        ctx.count("pages that are no pictures", 1);
        return Ok(Out::sig(format!("g{}{}", n, ran.code)));
    }
    if (ran.code == 0) != good {
        return Err(format!("{:?} exits with {} (file {}, drawer mode {}, {} pages): {}", args, ran.code, there, mode, n, ran.err));
    }
    if good {
        let k = sound(&after[&out]).map_err(|e| format!("{:?}: {}", args, e))?;
        let sl = k.slides();
        if sl.len() != n {
            return Err(format!("{:?}: {} pages, {} slides", args, n, sl.len()));
        }
        for (i, p) in sl.iter().enumerate() {
            let sh = pml::shapes(&k.xml[p]);
            let pics: Vec<&pml::Shape> = sh.iter().filter(|s| s.kind == "pic").collect();
            let b = pics.first().and_then(|s| s.embed.as_deref()).and_then(|id| k.rel(p, id)).and_then(|r| k.parts.get(&r.part));
            if pics.len() != 1 || b != Some(&pages[i]) {
                return Err(format!("{:?}: slide {} does not show page {} ({} pictures)", args, i + 1, i + 1, pics.len()));
            }
        }
        if std::fs::read(lab.root.join("log/given")).ok().as_deref() != Some(b"%PDF-1.4 pages") {
            return Err(format!("{:?}: the page drawer was given another file", args));
        }
        ctx.count("pages compared with slides", n as u64);
    }
    ctx.see("commands run", "pdf2ppt");
    Ok(Out::sig(format!("{}{}{}{}", inp, n, mode, there)).with_sample(format!("{:?} {} pages", args, n)))
}

fn web(ctx: &Ctx, r: &mut Rng, case: u64) -> Res {
    let lab = Lab::new(ctx, "w", case)?;
    let page = html(r);
    let l = TcpListener::bind("127.0.0.1:0").map_err(|e| format!("HARNESS:{}", e))?;
    let port = l.local_addr().map_err(|e| format!("HARNESS:{}", e))?.port();
    let mode = r.below(9);
    let body = page.clone();
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let s2 = stop.clone();
    l.set_nonblocking(true).ok();
    let h = std::thread::spawn(move || {
        let mut n = 0;
        while !s2.load(std::sync::atomic::Ordering::Relaxed) {
            let Ok((mut c, _)) = l.accept() else {
                std::thread::sleep(Duration::from_millis(2));
                continue;
            };
            n += 1;
            c.set_nonblocking(false).ok();
            c.set_read_timeout(Some(Duration::from_secs(2))).ok();
            let mut b = vec![];
            let mut t = [0u8; 4096];
            while !b.windows(4).any(|w| w == b"\r\n\r\n") {
                match c.read(&mut t) {
                    Ok(k) if k > 0 => b.extend_from_slice(&t[..k]),
                    _ => break,
                }
            }
            let path = String::from_utf8_lossy(&b).split(' ').nth(1).unwrap_or("").to_string();
            let ok = format!("HTTP/1.1 200 OK\r\nContent-Type: text/html; charset=utf-8\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{}", body.len(), body);
            let a = match mode {
                0 => format!("HTTP/1.1 {} X\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{}", [404, 500, 403, 304][body.len() % 4], if body.len() % 4 == 3 { 0 } else { body.len() }, if body.len() % 4 == 3 { "" } else { &body }),
                1 => {
                    // a redirect or two on the way
                    if path.ends_with("/end") {
                        ok
                    } else {
                        let to = if n == 1 && body.len() % 2 == 0 { "/more" } else { "/end" };
                        format!("HTTP/1.1 302 Found\r\nLocation: {}\r\nContent-Length: 0\r\nConnection: close\r\n\r\n", to)
                    }
                }
                2 => "HTTP/1.1 302 Found\r\nLocation: /again\r\nContent-Length: 0\r\nConnection: close\r\n\r\n".into(),
                3 => {
                    for _ in 0..400 {
                        if s2.load(std::sync::atomic::Ordering::Relaxed) {
                            break;
                        }
                        std::thread::sleep(Duration::from_millis(10));
                    }
                    ok
                }
                4 => ok[..ok.len() - 20].to_string(),
                _ => ok,
            };
            c.write_all(a.as_bytes()).ok();
        }
    });
    let url = match mode {
        5 => format!("ftp://127.0.0.1:{}/x", port),
        6 => "http://127.0.0.1:1/".to_string(),
        _ => format!("http://127.0.0.1:{}/p/{}?a=1", port, text::tag(r)),
    };
    let out = format!("{}.pptx", text::tag(r));
    let mut args = s(&["web2ppt", &url, if r.bool() { "-o" } else { "--output" }, &out]);
    let title = title_args(r, &mut args);
    let (mut ms, mut mb) = (20, 7);
    let (mut ni, mut nt, mut nc, mut ns) = (false, false, false, false);
    if r.chance(1, 3) {
        ms = 1 + r.below(4);
        args.push(format!("--max-slides={}", ms));
    }
    if r.chance(1, 3) {
        mb = 1 + r.below(4);
        args.push(format!("--max-bullets={}", mb));
    }
    for (f, n) in [(&mut ni, "--no-images"), (&mut nt, "--no-tables"), (&mut nc, "--no-code"), (&mut ns, "--no-source-url")] {
        if r.chance(1, 4) {
            *f = true;
            args.push(n.into());
        }
    }
    if r.chance(1, 4) {
        args.push("-v".into());
    }
    if mode == 3 {
        args.push("--timeout=1".into());
    }
    let before = lab.files();
    let ran = lab.run(&args);
    stop.store(true, std::sync::atomic::Ordering::Relaxed);
    h.join().ok();
    let ran = ran?;
    let after = judge(&lab, &before, &ran, &args, &[&out])?;
    if mode == 3 && ran.took > Duration::from_secs(20) {
        return Err(format!("{:?} took {:?} with a limit of one second", args, ran.took));
    }
    let cfg = ppt_rs::Web2PptConfig::new().max_slides(ms).max_bullets(mb).with_images(!ni).with_tables(!nt).with_code(!nc);
    let mut opt = ppt_rs::ConversionOptions::new().with_source_url(!ns);
    if let Some(t) = &title {
        opt = opt.title(t);
    }
    let lib = if (mode == 1 || mode > 6) && mode != 6 {
        ppt_rs::web2ppt::WebParser::with_config(cfg.clone()).parse(&page, &url).and_then(|c| ppt_rs::Web2Ppt::with_config(cfg).convert(&c, &opt)).map_err(|e| e.to_string())
    } else {
        Err("no page".into())
    };
    match lib {
        Ok(w) => {
            if ran.code != 0 {
                return Err(format!("{:?}: {} (mode {})", args, ran.err, mode));
            }
            sound(&after[&out]).map_err(|e| format!("{:?}: {}", args, e))?;
            same_deck(&after[&out], &w).map_err(|e| format!("{:?}: {} — page {}", args, e, page))?;
            ctx.count("pages fetched and compared", 1);
        }
        Err(e) => {
            if ran.code != 1 {
                return Err(format!("{:?} exits with {} (mode {}, {})", args, ran.code, mode, e));
            }
            ctx.count("fetch failures reported", 1);
        }
    }
    ctx.see("commands run", "web2ppt");
    Ok(Out::sig(format!("{}{}{}", mode, page.len(), args.len())).with_sample(format!("{:?} mode {}", args, mode)))
}

pub fn c26(ctx: &Ctx) {
    ctx.rule("Distinct by command, options, file names and input; runs include failing ones.");
    ctx.cases("create", ctx.n(150, 2000), |r, c| create(ctx, r, c));
    ctx.cases("markdown", ctx.n(200, 3000), |r, c| from_text(ctx, r, c, true));
    ctx.cases("html", ctx.n(200, 3000), |r, c| from_text(ctx, r, c, false));
    ctx.cases("merge", ctx.n(200, 3000), |r, c| merge(ctx, r, c));
    ctx.cases("validate", ctx.n(200, 3000), |r, c| validate(ctx, r, c));
    ctx.cases("info", ctx.n(60, 500), |r, c| info(ctx, r, c));
    ctx.cases("export", ctx.n(250, 3000), |r, c| export(ctx, r, c));
    ctx.cases("pdf2ppt", ctx.n(200, 2000), |r, c| pdf2ppt(ctx, r, c));
    ctx.cases("web", ctx.n(120, 1500), |r, c| web(ctx, r, c));
}
