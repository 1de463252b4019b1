//! C27: decks made at the same time, or one after the other, do not know of each other.
use super::gen1::sound;
use super::pkg::any_deck;
use super::{cli, htmlin, md, mermaid};
use crate::report::{Ctx, Out, Res};
use crate::rng::{Rng, hash_bytes, mix};
use crate::spec::deck::{self, ALL, Profile};
use crate::spec::{foreign, settings};
use crate::text;
use ppt_rs::generator::{self, LazySlideSource, SlideContent};
use ppt_rs::opc::compress::{CompressionOptions, analyze_pptx, compress_pptx, compress_pptx_in_memory};
use ppt_rs::{Presentation, templates};
use std::collections::BTreeMap;
use std::io::{Cursor, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

const SMALL: Profile = Profile { max_slides: 4, shapes: 2, conns: 1, images: 2, charts: 2, ..ALL };

/// What a job made: a package, or everything else in words.
enum Product {
    Deck(Vec<u8>),
    Text(String),
}
type Made = Result<Product, String>;
type Job = Box<dyn Fn() -> Made + Send + Sync>;

fn rest(us: u64) {
    if us % 3 == 0 {
        std::thread::yield_now();
    } else {
        std::thread::sleep(Duration::from_micros(us));
    }
}

/// A source that takes its time over every slide.
struct Slow(Vec<SlideContent>, u64);
impl LazySlideSource for Slow {
    fn slide_count(&self) -> usize {
        self.0.len()
    }
    fn generate_slide(&self, i: usize) -> Option<SlideContent> {
        rest(mix(self.1 ^ i as u64) % 900);
        self.0.get(i).cloned()
    }
}
/// A writer that takes its time.
struct SlowOut(Cursor<Vec<u8>>, u64);
impl Write for SlowOut {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 = self.1.wrapping_add(1);
        if mix(self.1) % 16 == 0 {
            rest(mix(self.1) % 200);
        }
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for SlowOut {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.0.seek(p)
    }
}

fn st<T>(r: Result<T, impl std::fmt::Display>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}
fn files(d: &Path) -> BTreeMap<String, Vec<u8>> {
    std::fs::read_dir(d).into_iter().flatten().flatten().map(|e| (e.file_name().to_string_lossy().to_string(), std::fs::read(e.path()).unwrap_or_default())).collect()
}
fn presentation(d: &deck::DeckS) -> Presentation {
    d.contents().into_iter().fold(Presentation::with_title(&d.title), |p, s| p.add_slide(s))
}
fn show_all(p: &Presentation) -> String {
    let mut s = st(ppt_rs::export::html::export_to_html(p)).unwrap_or_else(|e| e);
    s.push_str(&st(ppt_rs::export_to_markdown(p)).unwrap_or_else(|e| e));
    s
}
const KINDS: [&str; 17] = ["deck", "deck with settings", "slow deck", "shared presentation", "deck on a template", "markdown", "page", "diagrams", "read", "compress", "pdf", "png", "from pdf", "images", "edit", "business", "analysis"];

/// Job `i` of the case: its input depends on the seed alone.
fn job(seed: u64, i: u64, dir: &Path, shared: &Arc<Presentation>) -> (usize, Job) {
    let mut r = Rng::new(mix(seed ^ mix(i + 1)));
    let r = &mut r;
    let kind = if r.chance(1, 3) { r.below(5) } else { r.below(KINDS.len()) };
    let dir = dir.to_path_buf();
    std::fs::create_dir_all(&dir).unwrap();
    let pause = r.u64();
    for i in 0..6u8 {
        std::fs::write(dir.join(format!("{:x}.png", i)), [b"\x89PNG\r\n\x1a\n".to_vec(), vec![i; 20 + i as usize]].concat()).unwrap();
    }
    let deck = |r: &mut Rng| {
        let mut p = SMALL;
        if r.bool() {
            p.max_slides = 8;
        }
        let mut d = deck::random(r, &p, Some(&dir));
        if d.slides.is_empty() {
            d = deck::random(&mut Rng::new(5), &p, None);
        }
        d
    };
    let f: Job = match kind {
        0 => {
            let d = deck(r);
            Box::new(move || st(generator::create_pptx_with_content(&d.title, d.contents())).map(Product::Deck))
        }
        1 => {
            let d = deck(r);
            let s = settings::random(r).build(r);
            Box::new(move || st(generator::create_pptx_with_settings(&d.title, &d.contents(), s.clone())).map(Product::Deck))
        }
        2 => {
            let d = deck(r);
            let s = if r.bool() { settings::random(r).build(r) } else { None };
            let slow = r.bool();
            Box::new(move || {
                let src = Box::new(Slow(d.contents(), pause));
                let b = if slow {
                    st(generator::create_pptx_lazy_to_writer(SlowOut(Cursor::new(vec![]), pause), &d.title, src, s.clone()))?.0.into_inner()
                } else {
                    st(generator::create_pptx_lazy_to_writer(Cursor::new(vec![]), &d.title, src, s.clone()))?.into_inner()
                };
                Ok(Product::Deck(b))
            })
        }
        3 => {
            let p = shared.clone();
            let how = r.below(4);
            Box::new(move || match how {
                0 => st(p.build()).map(Product::Deck),
                1 => {
                    st(p.save(dir.join("s.pptx").to_str().unwrap()))?;
                    st(std::fs::read(dir.join("s.pptx"))).map(Product::Deck)
                }
                2 => Ok(Product::Text(show_all(&p))),
                _ => st(p.to_pdf_bytes(&Default::default())).map(|b| Product::Text(String::from_utf8_lossy(&b).to_string())),
            })
        }
        4 => {
            let d = deck(r);
            let t = any_deck(r, false).unwrap().bytes;
            Box::new(move || {
                let f = dir.join("t.pptx");
                st(std::fs::write(&f, &t))?;
                st(generator::create_pptx_with_template(&d.title, &d.contents(), f.to_str().unwrap(), None)).map(Product::Deck)
            })
        }
        5..=7 => {
            let src = match kind {
                5 => md::document(r, &dir),
                6 => htmlin::page(r),
                _ => mermaid::document(r),
            };
            Box::new(move || {
                let c = if kind == 6 { st(ppt_rs::parse_html(&src))? } else { ppt_rs::cli::parse_markdown(&src)? };
                st(generator::create_pptx_with_content("from text", c)).map(Product::Deck)
            })
        }
        8 => {
            let b = any_deck(r, r.clone().bool()).unwrap().bytes;
            Box::new(move || {
                let f = dir.join("in.pptx");
                st(std::fs::write(&f, &b))?;
                let p = st(Presentation::from_path(f.to_str().unwrap()))?;
                Ok(Product::Text(show_all(&p)))
            })
        }
        9 => {
            let b = any_deck(r, r.clone().bool()).unwrap().bytes;
            let o = [CompressionOptions::maximum(), CompressionOptions::web(), CompressionOptions::new()][r.below(3)].clone();
            let mem = r.below(3);
            let d = deck(r);
            Box::new(move || {
                if mem == 2 {
                    let z = st(presentation(&d).compress(dir.join("out.pptx"), &o))?;
                    let a = z.original_size.abs_diff(st(presentation(&d).build())?.len());
                    if a > 200 + z.original_size / 20 {
                        return Err(format!("{} bytes more or less than the deck has", a));
                    }
                    return st(std::fs::read(dir.join("out.pptx"))).map(Product::Deck);
                }
                if mem == 1 {
                    return st(compress_pptx_in_memory(&b, &o)).map(|(b, _)| Product::Deck(b));
                }
                st(std::fs::write(dir.join("in.pptx"), &b))?;
                st(compress_pptx(dir.join("in.pptx"), dir.join("out.pptx"), &o))?;
                st(std::fs::read(dir.join("out.pptx"))).map(Product::Deck)
            })
        }
        10 => {
            let d = deck(r);
            let flow = r.bool();
            Box::new(move || {
                let p = presentation(&d);
                let b = st(if flow { p.to_pdf_bytes(&Default::default()) } else { ppt_rs::export::slide_render::render_to_pdf_bytes(&p) })?;
                Ok(Product::Text(String::from_utf8_lossy(&b).to_string()))
            })
        }
        11 => {
            let d = deck(r);
            Box::new(move || {
                st(presentation(&d).save_as_png(dir.join("png")))?;
                Ok(Product::Text(files(&dir.join("png")).iter().map(|(n, b)| format!("{} {}\n", n, String::from_utf8_lossy(b))).collect()))
            })
        }
        12 => {
            let png = foreign::png(r);
            Box::new(move || {
                st(std::fs::write(dir.join("in.pdf"), &png))?;
                st(st(Presentation::from_pdf(dir.join("in.pdf")))?.build()).map(Product::Deck)
            })
        }
        13 => {
            let d = deck(r);
            Box::new(move || {
                let v = st(presentation(&d).save_as_images(dir.join("img"), &Default::default()))?;
                if v.len() != 1 {
                    return Err(format!("{:?}", v));
                }
                st(std::fs::read(&v[0])).map(Product::Deck)
            })
        }
        14 => {
            let b = any_deck(r, r.clone().bool()).unwrap().bytes;
            let d = deck(r);
            let steps: Vec<(usize, usize, usize)> = (0..1 + r.below(5)).map(|_| (r.below(6), r.below(4), r.below(4))).collect();
            Box::new(move || {
                let f = dir.join("edit.pptx");
                st(std::fs::write(&f, &b))?;
                let mut e = st(ppt_rs::oxml::editor::PresentationEditor::open(f.to_str().unwrap()))?;
                let c = d.contents();
                for (k, x, y) in &steps {
                    let s = c[x % c.len()].clone();
                    let _ = match k {
                        0 => e.add_slide(s).map(|_| ()),
                        1 => e.update_slide(*y, s),
                        2 => e.remove_slide(*y),
                        3 => e.duplicate_slide(*y).map(|_| ()),
                        4 => e.insert_slide(*y, s).map(|_| ()),
                        _ => e.reorder_slide(*x, *y),
                    };
                    rest(mix(pause ^ *x as u64) % 300);
                }
                st(e.save(f.to_str().unwrap()))?;
                st(std::fs::read(&f)).map(Product::Deck)
            })
        }
        15 => {
            let w: Vec<String> = (0..5).map(|_| text::any(r)).collect();
            Box::new(move || {
                let v: Vec<&str> = w.iter().map(|s| s.as_str()).collect();
                let b = templates::simple(v[0], &[(v[1], &v[2..]), (v[4], &v[..3])]);
                st(b).map(Product::Deck)
            })
        }
        _ => {
            let d = deck(r);
            Box::new(move || {
                let f = dir.join("a.pptx");
                st(presentation(&d).save(f.to_str().unwrap()))?;
                let a = st(analyze_pptx(&f))?;
                let b = st(presentation(&d).analyze_size())?;
                Ok(Product::Text(format!("{} {} {} {}", a.image_count, b.image_count, a.slide_count, b.slide_count)))
            })
        }
    };
    (kind, f)
}

fn shared(seed: u64) -> Presentation {
    let mut r = Rng::new(mix(seed ^ 0x5ba4));
    let mut d = deck::random(&mut r, &SMALL, None);
    if d.slides.is_empty() {
        d = deck::random(&mut Rng::new(5), &SMALL, None);
    }
    presentation(&d)
}

fn keep(out: &Path, name: &str, m: &Made) {
    let (c, b) = match m {
        Ok(Product::Deck(b)) => (b'D', b.clone()),
        Ok(Product::Text(s)) => (b'T', s.as_bytes().to_vec()),
        Err(e) => (b'E', e.as_bytes().to_vec()),
    };
    let mut v = vec![c];
    v.extend(b);
    std::fs::write(out.join(name), v).unwrap();
}
fn run(j: &Job) -> Made {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(j)) {
        Ok(m) => m,
        Err(e) => Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}

/// conc together|history|alone SEED OUT FIRST LAST
pub fn worker(a: &[String]) -> i32 {
    let (mode, seed, out) = (a[0].as_str(), a[1].parse::<u64>().unwrap(), PathBuf::from(&a[2]));
    let (from, to) = (a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap());
    let sh = Arc::new(shared(seed));
    let t0 = Instant::now();
    let jobs: Vec<(u64, usize, Job)> = (from..to)
        .map(|i| {
            let dir = PathBuf::from(format!("w{}", i));
            let (k, f) = job(seed, i, &dir, &sh);
            (i, k, f)
        })
        .collect();
    let log = Mutex::new(vec![]);
    match mode {
        "together" => {
            let b = Barrier::new(jobs.len());
            std::thread::scope(|s| {
                for (i, k, f) in &jobs {
                    let (b, log, out) = (&b, &log, &out);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || {
                            for round in 0..2 {
                                if round == 0 {
                                    b.wait();
                                }
                                let x = t0.elapsed().as_micros();
                                let m = run(f);
                                let y = t0.elapsed().as_micros();
                                log.lock().unwrap().push((*i, *k, x, y));
                                keep(out, &format!("{}.{}", i, round), &m);
                            }
                        })
                        .unwrap();
                }
            });
        }
        _ => {
            let mut order: Vec<usize> = (0..jobs.len()).flat_map(|i| if mode == "alone" { vec![i] } else { vec![i, i] }).collect();
            Rng::new(mix(seed ^ 77)).shuffle(&mut order);
            let mut seen = vec![0; jobs.len()];
            for o in order {
                let (i, k, f) = &jobs[o];
                let m = run(f);
                keep(&out, &format!("{}.{}", i, seen[o]), &m);
                seen[o] += 1;
                log.lock().unwrap().push((*i, *k, 0, 0));
            }
        }
    }
    let l: String = log.lock().unwrap().iter().map(|(i, k, x, y)| format!("{} {} {} {}\n", i, k, x, y)).collect();
    std::fs::write(out.join(format!("log{}", from)), l).unwrap();
    0
}

fn equal(got: &[u8], want: &[u8]) -> Result<(), String> {
    let name = |b: u8| match b {
        b'D' => "a deck",
        b'T' => "a text",
        _ => "an error",
    };
    if got[0] != want[0] {
        return Err(format!("{} instead of {}: {} — {}", name(got[0]), name(want[0]), text::short(&String::from_utf8_lossy(&got[1..])), text::short(&String::from_utf8_lossy(&want[1..]))));
    }
    if got[0] == b'D' {
        return cli::same_deck(&got[1..], &want[1..]);
    }
    let (g, w) = (cli::mask(&String::from_utf8_lossy(&got[1..])), cli::mask(&String::from_utf8_lossy(&want[1..])));
    if g != w {
        let n = g.chars().zip(w.chars()).take_while(|(a, b)| a == b).count();
        let cut = |s: &str| s.chars().skip(n.saturating_sub(40)).take(160).collect::<String>();
        return Err(format!("at character {}: {:?} instead of {:?}", n, cut(&g), cut(&w)));
    }
    Ok(())
}

pub fn c27(ctx: &Ctx) {
    ctx.rule("Each case draws a set of jobs (all ways to make, read, edit, convert decks); a fresh process runs them at once on as many threads, two processes share the folder for temporary files, another process runs them one after the other in a shuffled order, twice each; every product equals that of a process that did nothing else.");
    ctx.cases("sets", ctx.n(110, 2500), |r: &mut Rng, case| -> Res {
        let root = ctx.scratch.join(format!("conc{}", case));
        let bin = root.join("bin");
        let err = |e: std::io::Error| format!("HARNESS:{}", e);
        std::fs::create_dir_all(&bin).map_err(err)?;
        let script = |n: &str, body: &str| {
            use std::os::unix::fs::PermissionsExt;
            std::fs::write(bin.join(n), format!("#!/bin/sh\nPATH=/usr/bin:/bin\n{}\n", body)).map_err(err)?;
            std::fs::set_permissions(bin.join(n), std::fs::Permissions::from_mode(0o755)).map_err(err)
        };
        script("pdftoppm", "cp \"$2\" \"$3-1.png\" && sleep 0.01 && cp \"$2\" \"$3-2.png\"")?;
        script("soffice", "if [ \"$1\" = --version ]; then echo LibreOffice; exit 0; fi; cp \"$6\" \"$5/temp_export1.png\"")?;
        let n = 4 + r.below(9) as u64;
        let seed = r.u64() >> 1;
        let exe = std::env::current_exe().map_err(err)?;
        let spawn = |mode: &str, out: &str, tmp: &str, from: u64, to: u64| -> Result<Child, String> {
            for d in [out, tmp] {
                std::fs::create_dir_all(root.join(d)).map_err(err)?;
            }
            Command::new(&exe)
                .args(["conc", mode, &seed.to_string(), root.join(out).to_str().unwrap(), &from.to_string(), &to.to_string()])
                .env("PATH", format!("{}:/usr/bin:/bin", bin.display()))
                .env("TMPDIR", root.join(tmp))
                .current_dir(root.join(out))
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .map_err(err)
        };
        let half = n / 2;
        let many = spawn("together", "many", "tmp", 0, half)?;
        let more = spawn("together", "many", "tmp", half, n)?;
        let hist = spawn("history", "hist", "tmph", 0, n)?;
        for (mut c, what) in [(many, "at once"), (more, "at once"), (hist, "one after the other")] {
            let s = c.wait().map_err(err)?;
            if !s.success() {
                return Err(format!("the process running jobs {} ended with {:?}", what, s));
            }
        }
        let left: Vec<String> = files(&root.join("tmp")).into_keys().collect();
        let dirs = std::fs::read_dir(root.join("tmp")).map_err(err)?.count();
        if dirs > 0 {
            return Err(format!("temporary files are left: {:?}", left));
        }
        let mut kinds = vec![];
        for i in 0..n {
            let mut c = spawn("alone", "alone", "tmpa", i, i + 1)?;
            if !c.wait().map_err(err)?.success() {
                return Err(format!("HARNESS:job {} of {} alone ended badly", i, seed));
            }
            let get = |d: &str, f: String| std::fs::read(root.join(d).join(f)).map_err(err);
            let want = get("alone", format!("{}.0", i))?;
            let l = String::from_utf8(get("alone", format!("log{}", i))?).unwrap();
            let k: usize = l.split(' ').nth(1).unwrap().parse().unwrap();
            kinds.push(k);
            if want[0] == b'E' {
                let e = String::from_utf8_lossy(&want[1..]).to_string();
                ctx.count("jobs refused alone", 1);
                ctx.see("refusals", format!("{}: {}", KINDS[k], text::short(&cli::mask(&e))));
                if e.starts_with("panic") {
                    return Err(format!("{} alone: {}", KINDS[k], e));
                }
            } else if want[0] == b'D' && i % 4 == 0 && k != 9 && k != 14 {
                sound(&want[1..]).map_err(|e| format!("{} alone: {}", KINDS[k], e))?;
            }
            for (d, what) in [("many", "with others at once"), ("hist", "in a row with others")] {
                for round in 0..2 {
                    let got = get(d, format!("{}.{}", i, round))?;
                    equal(&got, &want).map_err(|e| format!("{} ({}, time {}) is not what it is alone: {}", KINDS[k], what, round + 1, e))?;
                    ctx.count("products compared", 1);
                }
            }
            ctx.see("kinds of jobs", KINDS[k]);
        }
        // what really happened at once
        let mut ev: Vec<(u64, usize, u64, u64)> = vec![];
        for f in [0, half] {
            let l = std::fs::read_to_string(root.join("many").join(format!("log{}", f))).map_err(err)?;
            let v: Vec<(u64, usize, u64, u64)> = l.lines().map(|l| { let w: Vec<u64> = l.split(' ').map(|x| x.parse().unwrap()).collect(); (w[0], w[1] as usize, w[2], w[3]) }).collect();
            let mut both = 0;
            for (k, a) in v.iter().enumerate() {
                for b in &v[k + 1..] {
                    if a.0 != b.0 && a.2 < b.3 && b.2 < a.3 {
                        both += 1;
                        let (x, y) = (a.1.min(b.1), a.1.max(b.1));
                        ctx.see("pairs of kinds that overlapped", format!("{} / {}", KINDS[x], KINDS[y]));
                    }
                }
            }
            ctx.count("pairs of runs that overlapped", both);
            let order: String = v.iter().map(|e| format!("{},", e.0)).collect();
            ctx.see("orders of finishing", format!("{:x} {}", hash_bytes(order.as_bytes()), v.len()));
            ev.extend(v);
        }
        if ev.len() as u64 != 2 * n {
            return Err(format!("HARNESS:{} runs recorded of {}", ev.len(), 2 * n));
        }
        let _ = std::fs::remove_dir_all(&root);
        Ok(Out::sig(format!("{:?}{}", kinds, seed)).with_sample(format!("seed {} jobs {:?}", seed, kinds.iter().map(|k| KINDS[*k]).collect::<Vec<_>>())))
    });
}
