//! C31: a shape with a link leads where it was asked to, whatever else is on its slide.
use super::gen1::{brief, sound};
use crate::report::{Ctx, Out, Res};
use crate::rng::Rng;
use crate::spec::deck::{self, ALL, DeckS, Profile};
use crate::spec::settings;
use ppt_rs::oxml::PresentationEditor;
use ppt_rs::generator::{self, LazySlideSource, SlideContent};
use std::io::Cursor;

struct Lazy(Vec<SlideContent>);
impl LazySlideSource for Lazy {
    fn slide_count(&self) -> usize {
        self.0.len()
    }
    fn generate_slide(&self, i: usize) -> Option<SlideContent> {
        self.0.get(i).cloned()
    }
}

fn made(r: &mut Rng, d: &DeckS, f: &std::path::Path) -> Result<(&'static str, Vec<u8>), String> {
    let c = d.contents();
    let s = if r.bool() { settings::random(r).build(r) } else { None };
    let e = |e: &dyn std::fmt::Display| e.to_string();
    Ok(match r.below(6) {
        0 => ("create_pptx_with_content", generator::create_pptx_with_content(&d.title, c).map_err(|x| e(&x))?),
        1 => ("create_pptx_with_settings", generator::create_pptx_with_settings(&d.title, &c, s).map_err(|x| e(&x))?),
        2 => ("create_pptx_with_content_to_writer", generator::create_pptx_with_content_to_writer(Cursor::new(vec![]), &d.title, &c, s).map_err(|x| e(&x))?.into_inner()),
        3 => ("create_pptx_lazy_to_writer", generator::create_pptx_lazy_to_writer(Cursor::new(vec![]), &d.title, Box::new(Lazy(c)), s).map_err(|x| e(&x))?.into_inner()),
        4 => {
            let p = c.into_iter().fold(ppt_rs::Presentation::with_title(&d.title), |p, s| p.add_slide(s));
            p.save(f).map_err(|x| e(&x))?;
            let b = std::fs::read(f).map_err(|x| e(&x))?;
            let _ = std::fs::remove_file(f);
            ("Presentation::save", b)
        }
        _ => {
            let p = c.into_iter().fold(ppt_rs::Presentation::with_title(&d.title), |p, s| p.add_slide(s));
            ("Presentation::build", p.build().map_err(|x| e(&x))?)
        }
    })
}

pub fn c31(ctx: &Ctx) {
    ctx.rule("A case counts as distinct by slide structure and the kinds of link its shapes carry.");
    let dir = ctx.scratch.join("links");
    let _ = std::fs::create_dir_all(&dir);
    let few = Profile { shapes: 6, conns: 1, images: 2, charts: 2, ..ALL };
    ctx.cases("decks", ctx.n(3500, 30_000), |r: &mut Rng, case| -> Res {
        let mut d = deck::random(r, &few, Some(&dir));
        if d.slides.iter().all(|s| s.shapes.iter().all(|s| s.link.is_none())) {
            let i = r.below(d.slides.len());
            let mut s = crate::spec::shape::random(r, true);
            s.link = Some(crate::spec::shape::Link::random(r));
            d.slides[i].shapes.push(s);
        }
        let (how, b) = made(r, &d, &dir.join(format!("{:x}.pptx", case)))?;
        let say = |e: String| format!("{}: {} — {}", how, e, brief(&d));
        let k = sound(&b).map_err(say)?;
        let parts = k.slides();
        if parts.len() != d.slides.len() {
            return Err(say(format!("{} slides described, {} listed", d.slides.len(), parts.len())));
        }
        let mut kinds = String::new();
        for (i, (s, p)) in d.slides.iter().zip(&parts).enumerate() {
            let x = k.xml.get(p).ok_or_else(|| say(format!("slide {} is missing or not XML", i + 1)))?;
            let o = s.roles(x).map_err(|e| say(format!("slide {}: {}", i + 1, e)))?;
            let n = s.check_links(&k, p, x, &o).map_err(|e| say(format!("slide {}: {}", i + 1, e)))?;
            ctx.count("links followed", n as u64);
            for l in s.shapes.iter().filter_map(|s| s.link.as_ref()) {
                ctx.see("link kinds", format!("{:?}", l.action()).split(['(', ' ']).next().unwrap());
                kinds.push_str(&format!("{}{}", l.kind, l.rid.is_some() as u8));
            }
        }
        ctx.see("entry points", how);
        Ok(Out::sig(format!("{}{}{}", how, d.sig(), kinds)).with_sample(brief(&d)))
    });
    ctx.cases("edited", ctx.n(250, 6_000), |r: &mut Rng, case| -> Res { edited(ctx, r, &dir.join(format!("{:x}.pptx", case))) });
}

/// A slide of the edited deck: what it shows, and which slide each of its links by number meant.
#[derive(Clone)]
struct Known {
    id: u64,
    s: deck::SlideS,
    to: Vec<Option<u64>>,
}

fn know(id: u64, s: deck::SlideS, ids: &[u64]) -> Known {
    let to = s.shapes.iter().map(|x| x.link.as_ref().filter(|l| l.kind == 3).and_then(|l| ids.get((l.n as usize).wrapping_sub(1)).copied())).collect();
    Known { id, s, to }
}

fn edited(ctx: &Ctx, r: &mut Rng, f: &std::path::Path) -> Res {
    let p = Profile { shapes: 4, conns: 0, images: 1, charts: 1, ink: false, max_slides: 5, ..ALL };
    let d = deck::random(r, &p, None);
    let b = generator::create_pptx_with_content(&d.title, d.contents()).map_err(|e| e.to_string())?;
    std::fs::write(f, &b).unwrap();
    let mut ed = PresentationEditor::open(f.to_str().unwrap()).map_err(|e| e.to_string())?;
    let ids: Vec<u64> = (0..d.slides.len() as u64).collect();
    let mut model: Vec<Known> = d.slides.iter().enumerate().map(|(i, s)| know(i as u64, s.clone(), &ids)).collect();
    let mut next = ids.len() as u64;
    let (mut log, mut sig) = (vec![format!("{} slides", model.len())], String::new());
    for _ in 0..1 + r.below(5) {
        let n = model.len();
        let fresh = |r: &mut Rng| {
            let mut s = deck::random_slide(r, &p, &mut vec![], None);
            let mut x = crate::spec::shape::random(r, true);
            x.link = Some(crate::spec::shape::Link::random(r));
            if r.bool() {
                x.link.as_mut().unwrap().kind = 3;
            }
            s.shapes.push(x);
            s
        };
        let e = |e: ppt_rs::exc::PptxError| e.to_string();
        match r.below(6) {
            0 | 1 => {
                let i = if r.chance(1, 3) { n } else { r.below(n + 1) };
                let s = fresh(r);
                if i == n && r.bool() { ed.add_slide(s.build()) } else { ed.insert_slide(i, s.build()) }.map_err(e)?;
                let mut ids: Vec<u64> = model.iter().map(|k| k.id).collect();
                ids.insert(i, next);
                model.insert(i, know(next, s, &ids));
                next += 1;
                log.push(format!("insert {}", i));
                sig.push('i');
            }
            2 if n > 0 => {
                let i = r.below(n);
                let s = fresh(r);
                ed.update_slide(i, s.build()).map_err(e)?;
                let ids: Vec<u64> = model.iter().map(|k| k.id).collect();
                model[i] = know(ids[i], s, &ids);
                log.push(format!("update {}", i));
                sig.push('u');
            }
            3 if n > 0 => {
                let (i, j) = (r.below(n), r.below(n));
                ed.reorder_slide(i, j).map_err(e)?;
                let k = model.remove(i);
                model.insert(j, k);
                log.push(format!("move {} to {}", i, j));
                sig.push('m');
            }
            4 if n > 0 => {
                let i = r.below(n);
                ed.duplicate_slide(i).map_err(e)?;
                let mut k = model[i].clone();
                for t in k.to.iter_mut().filter(|t| **t == Some(k.id)) {
                    *t = Some(next);
                }
                k.id = next;
                next += 1;
                model.insert(i + 1, k);
                log.push(format!("duplicate {}", i));
                sig.push('d');
            }
            5 if n > 0 => {
                let i = r.below(n);
                ed.remove_slide(i).map_err(e)?;
                model.remove(i);
                log.push(format!("remove {}", i));
                sig.push('r');
            }
            _ => {
                ed.save(f.to_str().unwrap()).map_err(e)?;
                ed = PresentationEditor::open(f.to_str().unwrap()).map_err(e)?;
                sig.push('s');
            }
        }
    }
    ed.save(f.to_str().unwrap()).map_err(|e| e.to_string())?;
    let b = std::fs::read(f).map_err(|e| e.to_string())?;
    let _ = std::fs::remove_file(f);
    let show = |e: String| format!("after {}: {}", log.join(", "), e);
    let k = sound(&b).map_err(show)?;
    let parts = k.slides();
    if parts.len() != model.len() {
        return Err(show(format!("{} slides expected, {} listed", model.len(), parts.len())));
    }
    let at = |id: u64| model.iter().position(|k| k.id == id);
    for (i, (m, part)) in model.iter().zip(&parts).enumerate() {
        let x = k.xml.get(part).ok_or_else(|| show(format!("slide {} is missing or not XML", i + 1)))?;
        let mut s = m.s.clone();
        for (x, t) in s.shapes.iter_mut().zip(&m.to) {
            if let Some(l) = x.link.as_mut().filter(|l| l.kind == 3) {
                l.n = t.and_then(at).map(|p| p as u32 + 1).unwrap_or(0);
            }
        }
        let o = s.roles(x).map_err(|e| show(format!("slide {}: {}", i + 1, e)))?;
        let n = s.check_links(&k, part, x, &o).map_err(|e| show(format!("slide {}: {}", i + 1, e)))?;
        ctx.count("links followed after editing", n as u64);
    }
    Ok(Out::sig(format!("{}{}", sig, d.sig())).with_sample(log.join(", ")))
}
