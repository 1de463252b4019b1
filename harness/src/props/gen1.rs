//! Properties of decks written by the generator.
use ppt_rs::generator::SlideLayout;
use crate::opc::Pkg;
use crate::report::{Ctx, Out, Res};
use crate::rng::Rng;
use crate::spec::deck::{self, ALL, DeckS, Profile, TEXT};
use ppt_rs::generator::{CellMergeState, MergeRegion, SlideContent, Table, TableMergeMap, create_pptx_with_content};

pub fn write(d: &DeckS) -> Result<Vec<u8>, String> {
    create_pptx_with_content(&d.title, d.contents()).map_err(|e| format!("the generator refused a valid deck: {} — {}", e, brief(d)))
}

pub fn brief(d: &DeckS) -> String {
    let s = format!("{:?}", d);
    // image bytes are noise
    let mut o = String::new();
    let mut rest = s.as_str();
    while let Some(i) = rest.find("data: [") {
        o.push_str(&rest[..i]);
        o.push_str("data: […");
        rest = &rest[i + 7..];
        if let Some(j) = rest.find(']') {
            rest = &rest[j..];
        }
    }
    o.push_str(rest);
    o.chars().take(6000).collect()
}

pub fn sound(b: &[u8]) -> Result<Pkg, String> {
    let k = Pkg::check(b)?;
    if !k.problems.is_empty() {
        return Err(format!("package is not sound: {}", k.first_problems(4)));
    }
    Ok(k)
}

fn each(ctx: &Ctx, group: &str, n: u64, p: Profile, f: impl Fn(&DeckS, &mut Pkg) -> Result<(), String> + Sync) {
    let dir = ctx.scratch.join("img");
    let _ = std::fs::create_dir_all(&dir);
    ctx.cases(group, n, |r: &mut Rng, _| -> Res {
        let d = deck::random(r, &p, Some(&dir));
        let b = write(&d)?;
        let mut k = Pkg::load(&b)?;
        f(&d, &mut k).map_err(|e| format!("{} — {}", e, brief(&d)))?;
        for s in &d.slides {
            for i in &s.images {
                if let Some(f) = &i.file {
                    let _ = std::fs::remove_file(f);
                }
            }
        }
        Ok(Out::sig(d.sig()).with_sample(brief(&d)))
    });
}

fn slides(d: &DeckS, k: &Pkg, f: impl Fn(&deck::SlideS, &str, &deck::Roles) -> Result<(), String>) -> Result<(), String> {
    let parts = k.slides();
    if parts.len() != d.slides.len() {
        return Err(format!("{} slides described, {} listed", d.slides.len(), parts.len()));
    }
    for (i, (s, p)) in d.slides.iter().zip(&parts).enumerate() {
        let sl = k.xml.get(p).ok_or_else(|| format!("slide {} is missing or not XML", i + 1))?;
        let o = s.roles(sl).map_err(|e| format!("slide {}: {}", i + 1, e))?;
        f(s, p, &o).map_err(|e| format!("slide {}: {}", i + 1, e))?;
    }
    Ok(())
}

pub fn c01(ctx: &Ctx) {
    ctx.rule("A case counts as distinct by the multiset of features (layout, shapes, images, charts, tables, notes, code, ink) its slides combine.");
    each(ctx, "decks", ctx.n(5000, 40_000), ALL, |_, k| {
        ctx.count("parts judged", k.parts.len() as u64);
        ctx.count("relationships and references followed", k.refs_checked as u64);
        ctx.count("xml parts parsed", k.xml_parts as u64);
        k.judge();
        if k.problems.is_empty() { Ok(()) } else { Err(k.first_problems(4)) }
    });
}

pub fn c02(ctx: &Ctx) {
    ctx.rule("Distinct by slide structure; every string carries a unique tag.");
    each(ctx, "text", ctx.n(4000, 40_000), TEXT, |d, k| {
        slides(d, k, |s, p, o| {
            s.check_text(o)?;
            s.check_notes(k, p)
        })
    });
    each(ctx, "hostile", ctx.n(2000, 20_000), Profile { text: 3, ..TEXT }, |d, k| {
        slides(d, k, |s, p, o| {
            s.check_text(o)?;
            s.check_notes(k, p)
        })
    });
}

/// The slide is tied to one layout, the one it was asked to have, which offers what its name says.
fn tied(s: &deck::SlideS, k: &Pkg, part: &str) -> Result<(), String> {
    let v = k.rel_by_type(part, "slideLayout");
    let [rel] = v[..] else { return Err(format!("tied to {} layouts", v.len())) };
    let x = k.xml.get(&rel.part).ok_or_else(|| format!("{} is missing or not XML", rel.part))?;
    let (name, kinds) = match s.layout {
        SlideLayout::CenteredTitle => ("Title Slide", vec!["ctrTitle", "subTitle"]),
        SlideLayout::TitleAndContent => ("Title and Content", vec!["title", "body"]),
        SlideLayout::TwoColumn => ("Two Content", vec!["title", "body", "body"]),
        SlideLayout::SectionHeader => ("Section Header", vec!["title", "body"]),
        SlideLayout::Blank => ("Blank", vec![]),
        SlideLayout::TitleOnly => ("Title Only", vec!["title"]),
        SlideLayout::TitleAndBigContent => ("Title and Big Content", vec!["title", "body"]),
    };
    let got = x.desc("cSld").first().and_then(|c| c.attr("name")).unwrap_or("");
    if got != name {
        return Err(format!("layout {:?} asked for, {:?} ({}) given", s.layout, got, rel.part));
    }
    let mut ph: Vec<&str> = vec![];
    let mut at: Vec<[i64; 4]> = vec![];
    x.walk(&mut |e| {
        if e.local == "sp" {
            let t = e.desc("ph").first().and_then(|p| p.attr("type")).unwrap_or("-");
            if !matches!(t, "ftr" | "dt" | "sldNum") {
                ph.push(t);
                let n = |p: &str, a: &str| e.desc(p).first().and_then(|o| o.attr(a)).and_then(|v| v.parse().ok()).unwrap_or(-1);
                at.push([n("off", "x"), n("off", "y"), n("ext", "cx"), n("ext", "cy")]);
            }
        }
    });
    if ph.iter().map(|p| if *p == "obj" { "body" } else { *p }).collect::<Vec<_>>() != kinds {
        return Err(format!("layout {:?} offers {:?}", s.layout, ph));
    }
    for (i, a) in at.iter().enumerate() {
        if a.iter().any(|v| *v < 0) || a[0] + a[2] > 9_144_000 || a[1] + a[3] > 6_858_000 {
            return Err(format!("{} of layout {:?} is not on the slide: {:?}", ph[i], s.layout, a));
        }
        if at[..i].iter().any(|b| a[0] < b[0] + b[2] && b[0] < a[0] + a[2] && a[1] < b[1] + b[3] && b[1] < a[1] + a[3]) {
            return Err(format!("{} of layout {:?} overlaps another", ph[i], s.layout));
        }
    }
    Ok(())
}

pub fn c03(ctx: &Ctx) {
    ctx.rule("Distinct by slide structure.");
    let p = Profile { shapes: 0, conns: 0, images: 0, charts: 0, table: false, code: false, ink: false, ..ALL };
    each(ctx, "format", ctx.n(16_000, 60_000), p, |d, k| slides(d, k, |s, p, o| s.check_format(o).and_then(|_| s.check_layout(o)).and_then(|_| tied(s, k, p))));
}

pub fn c04(ctx: &Ctx) {
    ctx.rule("Distinct by slide structure.");
    let p = Profile { shapes: 8, conns: 5, images: 1, charts: 0, table: false, ink: false, ..ALL };
    each(ctx, "objects", ctx.n(5000, 40_000), p, |d, k| slides(d, k, |s, part, o| s.check_objects(o).and_then(|_| s.check_links(k, part, &k.xml[part], o).map(drop))));
}

pub fn c05(ctx: &Ctx) {
    ctx.rule("Distinct by slide structure.");
    let p = Profile { shapes: 1, conns: 0, images: 6, charts: 2, table: false, ..ALL };
    each(ctx, "images", ctx.n(5000, 40_000), p, |d, k| slides(d, k, |s, p, o| s.check_images(k, p, o)));
    ctx.probe("media-dropped", || {
        use ppt_rs::generator::{Audio, AudioFormat, SlideContent, Video, VideoFormat};
        let dir = ctx.scratch.join("media");
        let _ = std::fs::create_dir_all(&dir);
        let (v, a) = (dir.join("a.mp4"), dir.join("a.mp3"));
        std::fs::write(&v, b"the video").unwrap();
        std::fs::write(&a, b"the sound").unwrap();
        let s = SlideContent::new("Media").add_video(Video::new(v.to_str().unwrap(), VideoFormat::Mp4, 0, 0, 100, 100)).add_audio(Audio::new(a.to_str().unwrap(), AudioFormat::Mp3, 0, 0, 100, 100));
        let b = ppt_rs::generator::create_pptx_with_content("Media", vec![s]).map_err(|e| e.to_string())?;
        let k = sound(&b)?;
        for want in [&b"the video"[..], b"the sound"] {
            if !k.parts.values().any(|p| p == want) {
                return Err(format!("{} of the slide is not in the deck", String::from_utf8_lossy(want)));
            }
        }
        Ok(())
    });
    let dir = ctx.scratch.join("headers");
    let _ = std::fs::create_dir_all(&dir);
    ctx.cases("headers", ctx.n(16_000, 150_000), |r, case| headers(ctx, r, case, &dir));
}

/// The size of a picture file is what its header says, at 96 dots per inch.
fn headers(ctx: &Ctx, r: &mut Rng, case: u64, dir: &std::path::Path) -> Res {
    use crate::spec::image;
    let px = |r: &mut Rng, max: u32| match r.below(4) {
        0 => max,
        1 => 1 + r.below(300) as u32,
        2 => r.u32(1, max.min(65535)),
        _ => r.u32(1, max),
    };
    let (fmt, ext, b, w, h) = match r.below(6) {
        0 => {
            let (w, h) = (px(r, 0x7fff_ffff), px(r, 0x7fff_ffff));
            let mut b = image::png(r, 3, 3);
            b[16..20].copy_from_slice(&w.to_be_bytes());
            b[20..24].copy_from_slice(&h.to_be_bytes());
            ("PNG", "png", b, w, h)
        }
        1 => {
            let (w, h) = (px(r, 65535), px(r, 65535));
            // segments of any length before the frame header, holding what looks like one
            let mut b = vec![0xff, 0xd8];
            for _ in 0..r.below(6) {
                let n = r.below(300);
                let mut d = r.bytes(n);
                if d.len() > 24 && r.bool() {
                    d[3..14].copy_from_slice(&[0xff, 0xc0, 0, 17, 8, 0, 1, 0, 1, 3, 1]);
                }
                for _ in 0..if r.chance(1, 4) { r.below(4) } else { 0 } {
                    b.push(0xff);
                }
                b.extend([0xff, *r.pick(&[0xe0, 0xe1, 0xee, 0xfe, 0xdb, 0xc4, 0xdd, 0xcc])]);
                b.extend(((d.len() + 2) as u16).to_be_bytes());
                b.extend(d);
            }
            b.extend([0xff, *r.pick(&[0xc0, 0xc1, 0xc2, 0xc3, 0xc5, 0xc6, 0xc7, 0xc9, 0xca, 0xcb, 0xcd, 0xce, 0xcf]), 0, 17, 8]);
            b.extend((h as u16).to_be_bytes());
            b.extend((w as u16).to_be_bytes());
            b.extend([3, 1, 0x22, 0, 2, 0x11, 1, 3, 0x11, 1, 0xff, 0xda, 0, 12, 3, 1, 0, 2, 0x11, 3, 0x11, 0, 63, 0, 1, 2, 3, 0xff, 0xd9]);
            ("JPEG", *r.pick(&["jpg", "jpeg", "JPG", "jpe"]), b, w, h)
        }
        2 => {
            let (w, h) = (px(r, 65535), px(r, 65535));
            ("GIF", "gif", image::gif(r, w as u16, h as u16), w, h)
        }
        3 => {
            let (w, h) = (px(r, 0x7fff_ffff), px(r, 0x7fff_ffff));
            let mut b = b"BM".to_vec();
            b.extend(r.bytes(12));
            b.extend([40, 0, 0, 0]);
            b.extend(w.to_le_bytes());
            b.extend(if r.bool() { h as i32 } else { -(h as i32) }.to_le_bytes());
            b.extend([1, 0, 24, 0]);
            b.extend(r.bytes(40));
            ("BMP", "bmp", b, w, h)
        }
        4 => {
            let (w, h) = (px(r, 0x3fff), px(r, 0x3fff));
            let mut b = b"RIFF".to_vec();
            b.extend(r.bytes(4));
            b.extend(b"WEBPVP8 ");
            b.extend(r.bytes(4));
            b.extend([0x10, 0, 0, 0x9d, 1, 0x2a]);
            // the two upper bits are a scaling hint, not part of the size
            b.extend(((w as u16) | (r.below(4) as u16) << 14).to_le_bytes());
            b.extend(((h as u16) | (r.below(4) as u16) << 14).to_le_bytes());
            b.extend(r.bytes(20));
            ("WEBP", "webp", b, w, h)
        }
        _ => {
            let (w, h) = (px(r, 0x4000), px(r, 0x4000));
            let mut b = b"RIFF".to_vec();
            b.extend(r.bytes(4));
            b.extend(b"WEBPVP8L");
            b.extend(r.bytes(4));
            b.push(0x2f);
            b.extend(((w - 1) | (h - 1) << 14 | (r.below(2) as u32) << 28).to_le_bytes());
            b.extend(r.bytes(20));
            ("WEBP", "webp", b, w, h)
        }
    };
    let f = dir.join(format!("{:x}.{}", case, ext));
    std::fs::write(&f, &b).unwrap();
    let i = ppt_rs::generator::Image::from_path(&f);
    let got = i.as_ref().map(|i| i.get_bytes());
    let _ = std::fs::remove_file(&f);
    let i = i.as_ref().map_err(|e| format!("a {} picture of {}x{} is refused: {}", fmt, w, h, e))?;
    let want = |v: u32| (v as u64 * 9525).min(u32::MAX as u64) as u32;
    if (i.width, i.height) != (want(w), want(h)) {
        return Err(format!("a {} picture of {}x{} pixels is {}x{} EMU large, expected {}x{}", fmt, w, h, i.width, i.height, want(w), want(h)));
    }
    if i.format != fmt || got != Ok(Some(b)) {
        return Err(format!("a {} picture is taken for {} or loses bytes", fmt, i.format));
    }
    let mime = match fmt {
        "WEBP" => "application/octet-stream".to_string(),
        f => format!("image/{}", f.to_lowercase()),
    };
    if fmt != "WEBP" && i.mime_type() != mime || i.extension() != i.extension().to_lowercase() || i.extension().is_empty() {
        return Err(format!("a {} picture has the type {:?} and the extension {:?}", fmt, i.mime_type(), i.extension()));
    }
    ctx.count("picture headers read", 1);
    Ok(Out::sig(format!("{}{}x{}", fmt, w, h)).with_sample(format!("{} {}x{}", fmt, w, h)))
}

pub fn c06(ctx: &Ctx) {
    ctx.rule("Distinct by slide structure.");
    let p = Profile { shapes: 1, conns: 0, images: 2, charts: 5, table: false, ..ALL };
    each(ctx, "charts", ctx.n(5000, 40_000), p, |d, k| slides(d, k, |s, p, o| s.check_charts(k, p, o)));
}

pub fn c07(ctx: &Ctx) {
    ctx.rule("Distinct by slide structure; merge histories by their accepted and refused regions.");
    let p = Profile { shapes: 1, conns: 0, images: 0, charts: 0, table: true, ..ALL };
    each(ctx, "tables", ctx.n(5000, 40_000), p, |d, k| {
        slides(d, k, |s, p, o| {
            s.check_table(o)?;
            match k.xml.get(p).and_then(|x| x.desc("tbl").into_iter().find_map(crate::opc::table_ids)) {
                Some(e) => Err(e),
                None => Ok(()),
            }
        })
    });
    ctx.cases("merges", ctx.n(12_000, 100_000), |r, _| merges(ctx, r));
    ctx.cases("ragged", ctx.n(1200, 8_000), ragged);
    ctx.cases("helpers", ctx.n(1200, 8_000), helper_tables);
}

/// A history of merge requests against a grid of owners.
fn merges(ctx: &Ctx, r: &mut Rng) -> Res {
    let (rows, cols) = (r.below(9), r.below(9));
    let mut m = TableMergeMap::new(rows, cols);
    let mut owner: Vec<Vec<Option<usize>>> = vec![vec![None; cols]; rows];
    let mut done: Vec<(usize, usize, usize, usize)> = vec![];
    let mut log = format!("{}x{}", rows, cols);
    for _ in 0..1 + r.below(10) {
        let mut n = |m: usize| match r.below(12) {
            0 => m + r.below(3),
            1 => *r.pick(&[usize::MAX, usize::MAX - 1, 1 << 40]),
            _ => r.below(m.max(1)),
        };
        let (a, b, h, w) = (n(rows), n(cols), n(4), n(4));
        log.push_str(&format!(" ({},{}) {}x{}", a, b, h, w));
        let inside = h > 0 && w > 0 && a < rows && b < cols && h <= rows - a && w <= cols - b;
        let free = inside && (a..a + h).all(|i| (b..b + w).all(|j| owner[i][j].is_none()));
        let res = if r.bool() { m.merge_cells(a, b, h, w) } else { MergeRegion::new(a, b, h, w).and_then(|x| m.add_merge(x)) };
        if res.is_ok() != free {
            return Err(format!("{}: the last request is {}", log, if res.is_ok() { "accepted although it leaves the table, is empty or overlaps" } else { "refused although it fits" }));
        }
        if free {
            ctx.count("merges accepted", 1);
            for row in owner.iter_mut().skip(a).take(h) {
                for c in row.iter_mut().skip(b).take(w) {
                    *c = Some(done.len());
                }
            }
            done.push((a, b, h, w));
            log.push('+');
        } else {
            ctx.count("merges refused", 1);
        }
        if m.len() != done.len() || m.is_empty() != done.is_empty() || m.dimensions() != (rows, cols) || m.regions().iter().map(|x| (x.row, x.col, x.row_span, x.col_span)).collect::<Vec<_>>() != done {
            return Err(format!("{}: the regions are {:?}", log, m.regions()));
        }
        for i in 0..rows + 2 {
            for j in 0..cols + 2 {
                let want = match owner.get(i).and_then(|x| x.get(j)).copied().flatten() {
                    None => CellMergeState::Normal,
                    Some(k) if (done[k].0, done[k].1) == (i, j) => CellMergeState::Anchor { row_span: done[k].2, col_span: done[k].3 },
                    Some(k) if done[k].0 == i => CellMergeState::HMerge,
                    Some(_) => CellMergeState::VMerge,
                };
                let got = m.cell_state(i, j);
                if got != want {
                    return Err(format!("{}: cell ({}, {}) is {:?} instead of {:?}", log, i, j, got, want));
                }
                let mut attrs = String::new();
                if let CellMergeState::Anchor { row_span, col_span } = got {
                    if col_span > 1 {
                        attrs.push_str(&format!(" gridSpan=\"{}\"", col_span));
                    }
                    if row_span > 1 {
                        attrs.push_str(&format!(" rowSpan=\"{}\"", row_span));
                    }
                }
                if got == CellMergeState::HMerge {
                    attrs = " hMerge=\"1\"".into();
                }
                if got == CellMergeState::VMerge {
                    attrs = " vMerge=\"1\"".into();
                }
                if got.to_xml_attrs() != attrs || got.is_merged_away() != (want == CellMergeState::HMerge || want == CellMergeState::VMerge) {
                    return Err(format!("{}: cell ({}, {}) {:?} is written as {:?}", log, i, j, got, got.to_xml_attrs()));
                }
            }
        }
    }
    Ok(Out::sig(&log).with_sample(log))
}

fn first_table(b: &[u8]) -> Result<crate::pml::Table, String> {
    let k = sound(b)?;
    let p = k.slides();
    let s = crate::pml::shapes(&k.xml[&p[0]]);
    s.into_iter().find_map(|s| s.table).ok_or("no table is drawn".into())
}

/// Rows of different lengths still come out as a full grid with every cell in its place.
fn ragged(r: &mut Rng, _: u64) -> Res {
    let nc = r.below(5);
    let data: Vec<Vec<String>> = (0..r.below(5)).map(|_| (0..r.below(6)).map(|_| crate::text::any(r)).collect()).collect();
    let t = Table::from_data(data.iter().map(|d| d.iter().map(|s| s.as_str()).collect()).collect(), (0..nc).map(|_| r.u32(1, 3_000_000)).collect(), 5, 6);
    let b = create_pptx_with_content("t", vec![SlideContent::new("t").table(t)]).map_err(|e| e.to_string())?;
    let g = first_table(&b).map_err(|e| format!("{} — {:?}", e, data))?;
    grid(&g, &data, nc)?;
    Ok(Out::sig(format!("{:?}", data.iter().map(|d| d.len()).collect::<Vec<_>>())))
}

fn grid(g: &crate::pml::Table, data: &[Vec<String>], nc: usize) -> Result<(), String> {
    let w = data.iter().map(|d| d.len()).max().unwrap_or(0).max(nc);
    if g.cols.len() != w || g.rows.len() != data.len() || g.rows.iter().any(|x| x.len() != w) {
        return Err(format!("{} rows by {} columns come out as {} by {} with rows of {:?}", data.len(), w, g.rows.len(), g.cols.len(), g.rows.iter().map(|r| r.len()).collect::<Vec<_>>()));
    }
    for (i, row) in g.rows.iter().enumerate() {
        for (j, c) in row.iter().enumerate() {
            let want = data[i].get(j).map(|s| s.as_str()).unwrap_or("");
            if c.text() != want {
                return Err(format!("cell ({}, {}) {:?} comes out as {:?}", i, j, want, c.text()));
            }
        }
    }
    Ok(())
}

fn helper_tables(r: &mut Rng, _: u64) -> Res {
    use ppt_rs::helpers::tables as h;
    let (nr, nc) = (r.below(5), r.below(6));
    let full = |r: &mut Rng, n: usize| -> Vec<Vec<String>> { (0..n).map(|_| (0..nc).map(|_| crate::text::any(r)).collect()).collect() };
    let via = r.below(5);
    let mut data = full(r, nr);
    let refs = |d: &[Vec<String>]| -> Vec<Vec<String>> { d.to_vec() };
    let strs: Vec<Vec<&str>> = data.iter().map(|d| d.iter().map(|s| s.as_str()).collect()).collect();
    let mut header = false;
    let (want, t): (Vec<Vec<String>>, Table) = match via {
        0 => (vec![vec![String::new(); nc]; nr], h::simple_table(nr, nc).build()),
        1 => (refs(&data), h::table_from_data(&strs, None).build()),
        2 => {
            header = nr > 0;
            let rest = strs.get(1..).unwrap_or(&[]).to_vec();
            let mut q = h::QuickTable::new(nc);
            if nr > 0 {
                q = q.header(&strs[0]);
            }
            (refs(&data), if r.bool() { q.rows(&rest).at(1.0, 2.0).build() } else { rest.iter().fold(q, |q, x| q.row(x)).at(1.0, 2.0).build() })
        }
        3 => {
            header = true;
            let hd: Vec<String> = (0..nc).map(|_| crate::text::any(r)).collect();
            let mut w = vec![hd.clone()];
            w.extend(vec![vec![String::new(); nc]; nr]);
            (w, h::table_with_header(&hd.iter().map(|s| s.as_str()).collect::<Vec<_>>(), nr).build())
        }
        _ => {
            if nr > 1 && nc > 0 {
                let i = r.below(nr);
                data[i].pop();
            }
            header = r.bool() && nr > 0;
            (refs(&data), ppt_rs::generator::table::table_from_string_rows(data.clone(), header))
        }
    };
    let b = create_pptx_with_content("t", vec![SlideContent::new("t").table(t)]).map_err(|e| e.to_string())?;
    let g = first_table(&b).map_err(|e| format!("helper {}: {} — {:?}", via, e, want))?;
    let cols = if via == 1 && nr == 0 { 0 } else if via == 4 { g.cols.len() } else { nc };
    grid(&g, &want, cols).map_err(|e| format!("helper {} with {} rows and {} columns: {}", via, nr, nc, e))?;
    let total: i64 = g.cols.iter().sum();
    if !g.cols.is_empty() && (total > 9_144_000 || total < 7_900_000) {
        return Err(format!("helper {}: the columns are {} EMU wide together", via, total));
    }
    for (i, row) in g.rows.iter().enumerate() {
        for (j, c) in row.iter().enumerate() {
            let bold = c.paras.iter().flat_map(|p| &p.runs).any(|x| crate::pml::boolish(x.p.get("b").map(|s| s.as_str())));
            if !want[i].get(j).map(|s| s.is_empty()).unwrap_or(true) && bold != (header && i == 0) {
                return Err(format!("helper {}: cell ({}, {}) is {}bold", via, i, j, if bold { "" } else { "not " }));
            }
        }
    }
    Ok(Out::sig(format!("{} {} {}", via, nr, nc)))
}

pub fn c08(ctx: &Ctx) {
    ctx.rule("Distinct by slide structure.");
    let p = Profile { shapes: 0, conns: 0, images: 2, charts: 1, table: false, notes: true, ..ALL };
    each(ctx, "notes", ctx.n(5000, 30_000), p, |d, k| slides(d, k, |s, p, _| s.check_notes(k, p)));
}
