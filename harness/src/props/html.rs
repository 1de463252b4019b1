//! HTML: what the deck says must be what the page says, and back.
use super::md::marked;
use crate::report::{Ctx, Out, Res, guard};
use crate::rng::Rng;
use crate::spec::deck;
use crate::text;
use ppt_rs::api::Presentation;
use ppt_rs::export::html::{HtmlExportOptions, export_to_html, export_to_html_with_options};
use scraper::{ElementRef, Html, Selector};

/// Text full of what HTML gives a meaning to.
pub fn tagged(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.below(6) {
        match r.below(6) {
            0 => s.push_str(&text::tag(r)),
            1 => s.push_str(&text::any(r).replace('\0', "")),
            2 => s.push_str(&marked(r)),
            _ => s.push_str(*r.pick(&[
                "<b>", "</b>", "</li>", "</ul>", "</div>", "<div class=\"slide\">", "<script>alert(1)</script>", "</script>", "</style>", "<style>", "</title>", "<!--", "-->", "&amp;", "&lt", "&#60;", "&#x3c;", "&nbsp;", "\"", "'", "\" onload=\"x", "<img src=x>",
                "</code></pre>", "</td></tr></table>", "<br>", "<?php ?>", "<![CDATA[", "]]>", "&", "<", ">", "\n", "  ", "\t", "</h1>", "</h2>", "<p>", "&unknown;", "&copy", "é", "日本", "🙂", "\u{a0}",
            ])),
        }
    }
    s
}

fn sel(s: &str) -> Selector {
    Selector::parse(s).unwrap()
}
fn kids<'a>(e: ElementRef<'a>) -> Vec<ElementRef<'a>> {
    e.children().filter_map(ElementRef::wrap).collect()
}
fn text_of(e: ElementRef) -> String {
    e.text().collect()
}
fn lf(s: &str) -> String {
    s.replace("\r\n", "\n").replace('\r', "\n")
}
/// What an HTML reader sees of a text.
fn seen(s: &str) -> String {
    lf(s)
}
fn unb64(s: &str) -> Option<Vec<u8>> {
    let v: Vec<u8> = s.bytes().collect();
    if v.len() % 4 != 0 {
        return None;
    }
    let mut out = vec![];
    for c in v.chunks(4) {
        let mut n = 0u32;
        let mut pad = 0;
        for b in c {
            n = n << 6
                | match b {
                    b'A'..=b'Z' => b - b'A',
                    b'a'..=b'z' => b - b'a' + 26,
                    b'0'..=b'9' => b - b'0' + 52,
                    b'+' => 62,
                    b'/' => 63,
                    b'=' => {
                        pad += 1;
                        0
                    }
                    _ => return None,
                } as u32;
        }
        out.extend_from_slice(&n.to_be_bytes()[1..4 - pad]);
    }
    Some(out)
}

pub fn c21(ctx: &Ctx) {
    ctx.rule("Distinct by the shape of the deck, the options and the length of the page.");
    let dir = ctx.scratch.clone();
    ctx.probe("image-files-not-written", || {
        let d = dir.join("out");
        let s = ppt_rs::generator::SlideContent::new("T").add_image(ppt_rs::generator::Image::from_bytes(crate::spec::image::png(&mut Rng::new(1), 4, 4), 10, 10, "PNG"));
        let p = Presentation::with_title("T").add_slide(s);
        let h = export_to_html_with_options(&p, &HtmlExportOptions::new().with_image_files(true, d.to_str())).map_err(|e| e.to_string())?;
        let doc = Html::parse_document(&h);
        let src = doc.select(&sel("img")).next().and_then(|i| i.value().attr("src").map(|s| s.to_string())).ok_or("no picture on the page")?;
        if !std::path::Path::new(&src).exists() {
            return Err(format!("the page refers to {}, which is not written", src));
        }
        Ok(())
    });
    ctx.cases("export", ctx.n(40_000, 400_000), |r: &mut Rng, _| -> Res {
        let mut d = deck::random(r, &deck::ALL, None);
        let some = |r: &mut Rng, s: String| if r.chance(2, 3) { tagged(r) } else { s };
        d.title = some(r, d.title);
        for s in d.slides.iter_mut() {
            s.title = some(r, s.title.clone());
            for b in s.bullets.iter_mut() {
                b.text = some(r, b.text.clone());
            }
            if let Some(n) = s.notes.as_mut() {
                *n = some(r, n.clone());
            }
            for c in s.code.iter_mut() {
                if r.bool() {
                    c.code = tagged(r);
                }
            }
        }
        let mut slides = d.contents();
        for s in slides.iter_mut() {
            for c in s.table.iter_mut().flat_map(|t| t.rows.iter_mut()).flat_map(|r| r.cells.iter_mut()) {
                c.text = some(r, c.text.clone());
            }
            for c in s.code_blocks.iter_mut() {
                if r.chance(1, 6) {
                    c.language = tagged(r).replace(char::is_whitespace, "");
                }
            }
            for i in s.images.iter_mut() {
                if r.chance(1, 4) {
                    i.filename = tagged(r);
                }
            }
        }
        let mut p = Presentation::with_title(&d.title);
        for s in &slides {
            p = p.add_slide(s.clone());
        }
        let (notes, nav, hl, files) = (r.bool(), r.bool(), r.bool(), r.chance(1, 4));
        let default = r.chance(1, 4);
        let (notes, nav, hl, files) = if default { (true, true, true, false) } else { (notes, nav, hl, files) };
        let h = if default && r.bool() {
            let f = dir.join(format!("{}.html", r.u64()));
            p.save_as_html(&f).map_err(|e| e.to_string())?;
            let t = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
            let _ = std::fs::remove_file(&f);
            ctx.count("through a file", 1);
            t
        } else if default {
            guard(|| export_to_html(&p)).map_err(|(m, l)| format!("panic: {} at {}", m, l))?.map_err(|e| e.to_string())?
        } else {
            let o = HtmlExportOptions::new().with_notes(notes).with_navigation(nav).with_syntax_highlight(hl).with_image_files(files, None);
            guard(|| export_to_html_with_options(&p, &o)).map_err(|(m, l)| format!("panic: {} at {}", m, l))?.map_err(|e| e.to_string())?
        };
        let doc = Html::parse_document(&h);
        let show = |e: String| {
            let at = h.find("<body>").unwrap_or(0);
            format!("{} — page:\n{}", e, &h[at..])
        };
        let one = |q: &str| -> Result<ElementRef, String> {
            let v: Vec<_> = doc.select(&Selector::parse(q).unwrap()).collect();
            if v.len() == 1 { Ok(v[0]) } else { Err(format!("{} elements {}", v.len(), q)) }
        };
        let want = seen(&d.title);
        let t = text_of(one("head > title").map_err(show)?);
        if t != want {
            return Err(show(format!("page title {:?} instead of {:?}", t, want)));
        }
        let t = text_of(one("h1").map_err(show)?);
        if t != want {
            return Err(show(format!("heading {:?} instead of {:?}", t, want)));
        }
        let n = |q: &str| doc.select(&Selector::parse(q).unwrap()).count();
        for (q, w) in [("script", nav as usize), ("style", 1), (".navigation-controls", nav as usize), (".slide", slides.len() + 1), ("h2", slides.len()), ("body > *", slides.len() + 1 + nav as usize)] {
            if n(q) != w {
                return Err(show(format!("{} elements {} instead of {}", n(q), q, w)));
            }
        }
        for (i, s) in slides.iter().enumerate() {
            let no = |what: &str, a: &dyn std::fmt::Debug, b: &dyn std::fmt::Debug| show(format!("slide {}: {} {:?} instead of {:?}", i + 1, what, a, b));
            let e = one(&format!("body > #slide-{}", i + 1)).map_err(show)?;
            if e.value().attr("data-slide") != Some(&(i + 1).to_string()) {
                return Err(no("number", &e.value().attr("data-slide"), &(i + 1)));
            }
            let k = kids(e);
            let names: Vec<&str> = k.iter().map(|e| e.value().name()).collect();
            if names != ["div", "h2", "div"] {
                return Err(no("parts", &names, &"number, heading and content"));
            }
            let t = text_of(k[1]);
            if t != seen(&s.title) {
                return Err(no("title", &t, &s.title));
            }
            if text_of(k[0]) != (i + 1).to_string() {
                return Err(no("shown number", &text_of(k[0]), &(i + 1)));
            }
            let k = kids(k[2]);
            let mut want: Vec<&str> = vec![];
            if !s.content.is_empty() {
                want.push("ul");
            }
            if s.table.is_some() {
                want.push("table");
            }
            let shown: Vec<_> = s.images.iter().filter_map(|i| i.get_bytes().map(|b| (i, b))).collect();
            want.extend(shown.iter().map(|_| "div"));
            want.extend(s.code_blocks.iter().map(|_| "pre"));
            let noted = notes && s.notes.is_some();
            if noted {
                want.push("div");
            }
            let names: Vec<&str> = k.iter().map(|e| e.value().name()).collect();
            if names != want {
                return Err(no("elements", &names, &want));
            }
            let mut it = k.into_iter();
            if !s.content.is_empty() {
                let li: Vec<String> = kids(it.next().unwrap()).into_iter().map(|e| if kids(e).is_empty() { text_of(e) } else { "(elements)".into() }).collect();
                let w: Vec<String> = s.content.iter().map(|b| seen(b)).collect();
                if li != w {
                    return Err(no("bullets", &li, &w));
                }
                ctx.count("bullets", w.len() as u64);
            }
            if let Some(t) = &s.table {
                let t_el = it.next().unwrap();
                let rows: Vec<Vec<(String, u32, u32)>> = t_el
                    .select(&sel("tr"))
                    .map(|tr| {
                        kids(tr)
                            .into_iter()
                            .map(|c| {
                                let n = |a: &str| c.value().attr(a).and_then(|v| v.parse().ok()).unwrap_or(1u32);
                                (if kids(c).is_empty() { text_of(c) } else { "(elements)".into() }, n("colspan"), n("rowspan"))
                            })
                            .collect()
                    })
                    .collect();
                let w: Vec<Vec<(String, u32, u32)>> = t
                    .rows
                    .iter()
                    .map(|r| r.cells.iter().filter(|c| !c.h_merge && !c.v_merge).map(|c| (seen(&c.text), c.grid_span.unwrap_or(1).max(1), c.row_span.unwrap_or(1).max(1))).collect())
                    .collect();
                if rows != w {
                    return Err(no("table", &rows, &w));
                }
                ctx.count("table cells", w.iter().map(|r| r.len()).sum::<usize>() as u64);
            }
            for (im, b) in &shown {
                let e = it.next().unwrap();
                let c = kids(e);
                if c.len() != 1 || c[0].value().name() != "img" {
                    return Err(no("picture", &c.len(), &"one img"));
                }
                let a = c[0].value();
                if a.attr("alt").map(|x| x.to_string()) != Some(seen(&im.filename)) {
                    return Err(no("alternative text", &a.attr("alt"), &im.filename));
                }
                if a.attrs().count() != 2 {
                    return Err(no("attributes", &a.attrs().collect::<Vec<_>>(), &"src and alt"));
                }
                let src = a.attr("src").unwrap_or_default();
                if files {
                    if src.is_empty() || src.starts_with("data:") {
                        return Err(no("source", &src, &"a file"));
                    }
                } else {
                    let Some((mime, data)) = src.strip_prefix("data:").and_then(|x| x.split_once(";base64,")) else { return Err(no("source", &src, &"a data URL")) };
                    if unb64(data).as_ref() != Some(b) {
                        return Err(no("picture data", &data.len(), &b.len()));
                    }
                    let f = im.format.to_lowercase();
                    if ["png", "gif", "jpeg", "jpg"].contains(&f.as_str()) && mime != format!("image/{}", if f == "jpg" { "jpeg" } else { &f }) {
                        return Err(no("type", &mime, &f));
                    }
                    ctx.count("pictures decoded", 1);
                }
            }
            for c in &s.code_blocks {
                let e = it.next().unwrap();
                let k = kids(e);
                if k.len() != 1 || k[0].value().name() != "code" || !kids(k[0]).is_empty() {
                    return Err(no("code", &k.len(), &"one code element"));
                }
                if text_of(k[0]) != seen(&c.code) {
                    return Err(no("code", &text_of(k[0]), &c.code));
                }
                let w = hl.then(|| format!("language-{}", c.language));
                if k[0].value().attr("class").map(|x| x.to_string()) != w {
                    return Err(no("language", &k[0].value().attr("class"), &w));
                }
                ctx.count("code blocks", 1);
            }
            if noted {
                let e = it.next().unwrap();
                let t = text_of(e);
                let w = format!("Notes: {}", seen(s.notes.as_ref().unwrap()));
                if t != w || kids(e).len() != 1 {
                    return Err(no("notes", &t, &w));
                }
                ctx.count("notes", 1);
            }
        }
        Ok(Out::sig(format!("{}{}{}{}{}{}", d.sig(), notes, nav, hl, files, h.len())).with_sample(h.chars().rev().take(400).collect::<Vec<_>>().into_iter().rev().collect::<String>()))
    });
}
