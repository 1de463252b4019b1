//! Web pages: the outline of the deck is the outline of the page.
use super::gen1::sound;
use crate::pml;
use crate::report::{Ctx, Out, Res, guard};
use crate::rng::Rng;
use crate::text;
use ppt_rs::web2ppt::{ContentType, ConversionOptions, Web2Ppt, Web2PptConfig, WebParser, html_to_pptx_with_options};

#[derive(Clone, Debug, PartialEq)]
enum B {
    Head(u8, String),
    Para(String),
    Item(String),
    Quote(String),
    Code(String),
    Table(Vec<Vec<String>>),
    Image(String, String),
}

struct Gen<'a> {
    r: &'a mut Rng,
    out: String,
    blocks: Vec<B>,
    hidden: Vec<String>,
    /// The first top heading, whatever its length
    top: Option<String>,
}

const WORDS: &[(&str, &str)] = &[
    ("&amp;", "&"), ("&lt;b&gt;", "<b>"), ("&quot;", "\""), ("caf\u{e9}", "caf\u{e9}"), ("&copy;", "©"), ("&#8364;", "€"), ("日本語", "日本語"), ("🙂", "🙂"), ("it's", "it's"), ("100%", "100%"), ("**x**", "**x**"), ("&#x41;", "A"), ("{{y}}", "{{y}}"),
];

impl Gen<'_> {
    fn word(&mut self) -> (String, String) {
        if self.r.chance(1, 3) {
            let (a, b) = *self.r.pick(WORDS);
            (a.into(), b.into())
        } else {
            let t = text::tag(self.r);
            (t.clone(), t)
        }
    }
    fn gap(&mut self) -> &'static str {
        self.r.pick(&[" ", "\n", "  \t", " \n  "])
    }
    /// Running text: what the page says and what it shows
    fn inline(&mut self, n: usize) -> (String, String) {
        let (mut h, mut t) = (String::new(), vec![]);
        for i in 0..n {
            let (a, mut b) = self.word();
            let (a2, glue) = match self.r.below(14) {
                0 => (format!("<b>{}</b>", a), true),
                1 => (format!("<a href=\"http://x.example/?a=1&amp;b=2\">{}</a>", a), true),
                2 => (format!("<span class=content>{}</span>", a), true),
                3 => (format!("<em><strong>{}</strong></em>", a), true),
                4 => (format!("<code>{}</code>", a), true),
                5 => (format!("<!-- {} -->{}", text::tag(self.r), a), true),
                6 => {
                    let s = text::tag(self.r);
                    self.hidden.push(s.clone());
                    (format!("<script>var {}=1;</script>{}", s, a), true)
                }
                7 if i > 0 => (format!("<br>{}", a), false),
                8 if self.r.chance(1, 8) => {
                    // no place to cut for long
                    b = text::tag(self.r).repeat(10 + self.r.below(15));
                    (b.clone(), true)
                }
                _ => (a, true),
            };
            if i > 0 && glue {
                h.push_str(self.gap());
            }
            h.push_str(&a2);
            t.push(b);
        }
        (h, t.join(" "))
    }
    fn size(&mut self) -> usize {
        match self.r.below(8) {
            0 => 1,
            1 => 20 + self.r.below(20),
            2 => 60 + self.r.below(60),
            _ => 2 + self.r.below(8),
        }
    }
    fn list(&mut self, depth: usize) -> (String, Vec<String>) {
        // items with the text of the lists in them
        let tag = *self.r.pick(&["ul", "ol"]);
        let mut h = format!("<{}>", tag);
        let mut v = vec![];
        for _ in 0..1 + self.r.below(4) {
            let n = self.size();
            let (a, mut t) = self.inline(n);
            h.push_str(&format!("<li>{}", a));
            if depth > 0 && self.r.chance(1, 5) {
                let (a, inner) = self.list(depth - 1);
                h.push_str(&a);
                for i in inner {
                    t = format!("{} {}", t, i);
                }
            }
            if self.r.bool() {
                h.push_str("</li>");
            }
            v.push(t);
        }
        h.push_str(&format!("</{}>", tag));
        (h, v)
    }
    fn block(&mut self) {
        let n = self.size();
        match self.r.below(15) {
            0..=2 => {
                let l = 1 + self.r.below(6) as u8;
                let (h, t) = self.inline(n.min(60));
                self.out.push_str(&format!("<h{}>{}</h{}>", l, h, l));
                if l == 1 {
                    self.top.get_or_insert(t.clone());
                }
                if t.len() < 300 {
                    self.blocks.push(B::Head(l, t));
                }
            }
            3..=5 => {
                let (h, t) = self.inline(n);
                self.out.push_str(&format!("<p>{}</p>", h));
                if t.len() >= 10 {
                    self.blocks.push(B::Para(t));
                }
            }
            6 | 7 => {
                let (h, v) = self.list(2);
                self.out.push_str(&h);
                self.blocks.extend(v.into_iter().filter(|t| t.len() < 500).map(B::Item));
            }
            8 => {
                let (h, t) = self.inline(n);
                let h = if self.r.bool() { format!("<p>{}</p>", h) } else { h };
                self.out.push_str(&format!("<blockquote>{}</blockquote>", h));
                self.blocks.push(B::Quote(t));
            }
            9 => {
                let lines: Vec<String> = (0..1 + self.r.below(8)).map(|_| format!("{}{}", " ".repeat(self.r.below(4)), text::tag(self.r))).collect();
                let c = format!("{} <T>", lines.join("\n"));
                let e = c.replace('<', "&lt;");
                self.out.push_str(&match self.r.below(3) {
                    0 => format!("<pre>{}</pre>", e),
                    1 => format!("<pre><code class=\"language-rust\">{}</code></pre>", e),
                    _ => format!("<pre>\n{}\n</pre>", e),
                });
                self.blocks.push(B::Code(c.trim().into()));
            }
            10 => {
                let (rows, cols) = (if self.r.chance(1, 12) { 25 + self.r.below(10) } else { 1 + self.r.below(5) }, 1 + self.r.below(4));
                let mut v = vec![];
                let mut h = String::from("<table>");
                let parts = self.r.bool();
                for i in 0..rows {
                    if parts && i < 2 {
                        h.push_str(["<thead>", "</thead><tbody>"][i]);
                    }
                    h.push_str("<tr>");
                    let mut row = vec![];
                    let short = if i > 0 && self.r.chance(1, 4) { self.r.below(cols) } else { 0 };
                    for _ in 0..cols - short {
                        let (a, t) = self.inline(self.r.clone().below(3));
                        let c = if i == 0 { "th" } else { "td" };
                        h.push_str(&format!("<{}>{}</{}>", c, a, c));
                        row.push(t);
                    }
                    h.push_str("</tr>");
                    v.push(row);
                }
                h.push_str("</table>");
                self.out.push_str(&h);
                if rows <= 30 {
                    self.blocks.push(B::Table(v));
                }
            }
            11 => {
                let (h, t) = self.word();
                let src = format!("/i/{}.png", text::tag(self.r));
                let data = self.r.chance(1, 6);
                let img = match self.r.below(4) {
                    0 => format!("<img src=\"{}\">", src),
                    _ if data => format!("<img src=\"data:image/png;base64,AAAA\" alt=\"{}\">", h),
                    _ => {
                        self.blocks.push(B::Image(src.clone(), t));
                        format!("<img alt=\"{}\" src='{}'>", h, src)
                    }
                };
                let fig = self.r.bool();
                self.out.push_str(&if fig { format!("<figure>{}</figure>", img) } else { img });
            }
            12 => {
                let t = text::tag(self.r);
                self.hidden.push(t.clone());
                let long = format!("<p>{} and some more words that nobody is to see</p>", t);
                let h = match self.r.below(8) {
                    0 => format!("<script>document.write('<p>{} is written by a script</p>')</script>", t),
                    1 => format!("<style>.{} {{ color: red }}</style>", t),
                    2 => format!("<form><p>{}</p><button>{}</button></form>", t, t),
                    3 => format!("<div class=\"x Advertisement\">{}</div>", long),
                    4 => format!("<section class='social-share'><ul><li>{}</li></ul></section>", t),
                    5 => format!("<noscript>{}</noscript>", long),
                    6 => format!("<svg><title>{}</title><text>{} text</text></svg>", t, t),
                    _ => format!("<div class=comment-section>{}</div>", long),
                };
                self.out.push_str(&h);
            }
            _ => {
                let t = *self.r.pick(&["div", "section", "header", "footer", "aside", "center", "x-card", "nav"]);
                let deep = if self.r.chance(1, 40) { 250 + self.r.below(300) } else { 1 };
                self.out.push_str(&format!("<{}>", t).repeat(deep));
                for _ in 0..self.r.below(4) {
                    self.block();
                }
                self.out.push_str(&format!("</{}>", t).repeat(deep));
            }
        }
        let g = self.gap();
        if self.r.bool() {
            self.out.push_str(g);
        }
    }
}

/// A text shown in at most `max` bytes: itself, or its beginning and three dots
fn cut(got: &str, want: &str, max: usize) -> bool {
    if want.len() <= max {
        return got == want;
    }
    let Some(stem) = got.strip_suffix("...") else { return false };
    want.starts_with(stem) && stem.len() <= max && stem.len() + 8 > max / 2 && {
        let next = want[stem.len()..].chars().next().unwrap();
        let room = &want[..(max.min(want.len()))
            .min((0..=max).rev().find(|i| want.is_char_boundary(*i)).unwrap_or(0))];
        // cut between words where one ends in the second half, and anywhere else as late as can be
        if room.rfind(' ').is_some_and(|s| s > max / 2) { next == ' ' } else { stem.len() + 4 > max }
    }
}

enum Want {
    Is(String),
    Cut(String, String, String, usize),
}
impl Want {
    fn fits(&self, got: &str) -> bool {
        match self {
            Want::Is(s) => s == got,
            Want::Cut(pre, t, post, max) => got.strip_prefix(pre.as_str()).and_then(|g| g.strip_suffix(post.as_str())).is_some_and(|g| cut(g, t, *max)),
        }
    }
    fn text(&self) -> &str {
        match self {
            Want::Is(s) => s,
            Want::Cut(_, t, _, _) => t,
        }
    }
}

pub fn c29(ctx: &Ctx) {
    ctx.rule("Distinct by the blocks of the page and the options.");
    ctx.cases("pages", ctx.n(4000, 120_000), |r: &mut Rng, _| -> Res {
        let mut g = Gen { r, out: String::new(), blocks: vec![], hidden: vec![], top: None };
        // head
        let (title_h, title) = { let n = 1 + g.r.below(4); (0..n).map(|_| g.word()).fold((String::new(), String::new()), |a, w| (format!("{} {}", a.0, w.0), format!("{} {}", a.1, w.1))) };
        let title = title.trim().to_string();
        let with_title = g.r.chance(3, 4);
        let desc = g.r.chance(1, 2).then(|| g.word());
        let og = g.r.chance(1, 3);
        let mut html = String::from("<!DOCTYPE html><html><head><meta charset=utf-8>");
        if with_title {
            html.push_str(&format!("<title>{} </title>", title_h));
        } else if og {
            html.push_str(&format!("<meta property='og:title' content=\"{}\">", title_h));
        }
        if let Some((h, _)) = &desc {
            let k = *g.r.pick(&["name='description'", "property=\"og:description\""]);
            html.push_str(&format!("<meta {} content=\" {}\">", k, h));
        }
        html.push_str("<style>p { color: red }</style></head><body>");
        // what stands around the content
        let (open, close) = *g.r.pick(&[
            ("<main><article>", "</article></main>"), ("<article>", "</article>"), ("<main>", "</main>"), ("<div role='main'>", "</div>"), ("<div class='x content'>", "</div>"), ("<div class=post-content>", "</div>"), ("<div class=markdown-body>", "</div>"), ("<div id=content>", "</div>"), ("<div id=main>", "</div>"),
            ("<section class=prose>", "</section>"), ("", ""), ("<div class=wrap>", "</div>"),
        ]);
        let body = open.is_empty() || open.contains("wrap");
        if !body {
            let t = text::tag(g.r);
            html.push_str(&format!("<header><p>{} is not part of the content</p><ul><li>{}</li></ul></header>", t, t));
            g.hidden.push(t);
        }
        html.push_str(open);
        for _ in 0..g.r.below(5) {
            g.block();
        }
        // enough text for the content to be found
        let (h, t) = g.inline(45);
        g.out.push_str(&format!("<p>{}</p>", h));
        g.blocks.push(B::Para(t));
        for _ in 0..g.r.below(16) {
            g.block();
        }
        let Gen { out, blocks, hidden, top, .. } = g;
        html.push_str(&out);
        html.push_str(close);
        if !body {
            html.push_str("<footer><p>All rights reserved by somebody else</p></footer>");
        }
        html.push_str("</body></html>");
        // options
        let plain = r.chance(1, 3);
        let (max_slides, max_bullets) = if plain { (20, 6) } else { (if r.bool() { r.below(30) } else { r.below(4) }, r.below(9)) };
        let (im, ta, co, grouped) = if plain { (true, true, true, true) } else { (r.bool(), r.bool(), r.bool(), r.bool()) };
        let (ts, cs) = if plain { (44, 24) } else { (20 + r.below(40) as u32, 10 + r.below(20) as u32) };
        let config = Web2PptConfig::new().max_slides(max_slides).max_bullets(max_bullets).with_images(im).with_tables(ta).with_code(co).group_by_headings(grouped).title_size(ts).content_size(cs).with_links(r.bool());
        // the parser may be set up on its own, to find everything
        let split = r.chance(1, 3);
        let reading = if split { config.clone().with_images(true).with_tables(true).with_code(true) } else { config.clone() };
        let url = format!("https://example.com/{}?a=1&b=2", text::tag(r));
        let own = (!plain && r.bool()).then(|| text::any(r));
        let source = plain || r.bool();
        let mut options = ConversionOptions::new().with_source_url(source);
        if let Some(o) = &own {
            options = options.title(o);
        }
        let show = |e: String| format!("{} — {:?} {:?}:\n{}", e, config, options, html);
        // what is read
        let blocks: Vec<B> = blocks
            .into_iter()
            .filter(|b| match b {
                B::Code(_) => co || split,
                B::Table(_) => ta || split,
                B::Image(..) => im || split,
                _ => true,
            })
            .collect();
        let content = guard(|| WebParser::with_config(reading.clone()).parse(&html, &url)).map_err(|(m, l)| show(format!("panic: {} at {}", m, l)))?.map_err(|e| show(e.to_string()))?;
        let got: Vec<B> = content
            .blocks
            .iter()
            .map(|b| match &b.content_type {
                ContentType::Title => B::Head(1, b.text.clone()),
                ContentType::Heading(l) => B::Head(*l, b.text.clone()),
                ContentType::Paragraph => B::Para(b.text.clone()),
                ContentType::ListItem => B::Item(b.text.clone()),
                ContentType::Quote => B::Quote(b.text.clone()),
                ContentType::Code => B::Code(b.text.clone()),
                ContentType::Table(t) => B::Table(t.clone()),
                ContentType::Image { src, alt } => B::Image(src.clone(), alt.clone()),
                ContentType::Link { text, .. } => B::Para(text.clone()),
            })
            .collect();
        if got != blocks {
            let i = got.iter().zip(&blocks).take_while(|(a, b)| a == b).count();
            return Err(show(format!("block {} of {} is {:?} instead of {:?}", i, blocks.len(), got.get(i), blocks.get(i))));
        }
        ctx.count("blocks", blocks.len() as u64);
        let want_title = if with_title {
            Some(title.clone())
        } else if top.is_some() {
            top
        } else if og {
            Some(title.clone())
        } else {
            Some("Untitled".into())
        };
        if want_title.as_ref().is_some_and(|w| *w != content.title) {
            return Err(show(format!("title {:?} instead of {:?}", content.title, want_title)));
        }
        if content.description != desc.as_ref().map(|d| d.1.clone()) || content.url != url {
            return Err(show(format!("description {:?} of {:?}", content.description, content.url)));
        }
        // the slides these blocks make
        let mut slides: Vec<(Want, Vec<Want>)> = vec![];
        let mut first = vec![];
        if let Some((_, d)) = &desc {
            first.push(Want::Is(d.clone()));
        }
        if source {
            first.push(Want::Is(format!("Source: {}", url)));
        }
        slides.push((Want::Is(own.clone().unwrap_or(content.title.clone())), first));
        let heads = blocks.iter().any(|b| matches!(b, B::Head(..)));
        let mut head: Option<String> = None;
        let mut open = false;
        if grouped && heads {
            head = blocks.iter().find_map(|b| if let B::Head(_, t) = b { Some(t.clone()) } else { None });
        }
        let mut begun = false;
        for b in &blocks {
            let w = match b {
                B::Code(_) if !co => continue,
                B::Table(_) if !ta => continue,
                B::Image(..) if !im => continue,
                B::Head(_, t) => {
                    // what stands before the first heading belongs to it
                    if begun || !grouped {
                        open = false;
                    }
                    begun = true;
                    head = Some(t.clone());
                    continue;
                }
                B::Para(t) => Want::Cut("".into(), t.clone(), "".into(), 200),
                B::Item(t) => Want::Cut("• ".into(), t.clone(), "".into(), 180),
                B::Quote(t) => Want::Cut("\"".into(), t.clone(), "\"".into(), 180),
                B::Code(t) => Want::Cut("[Code] ".into(), t.clone(), "".into(), 150),
                B::Table(t) => Want::Is(format!("[Table: {} rows × {} cols]", t.len(), t[0].len())),
                B::Image(_, alt) => Want::Is(format!("[Image: {}]", alt)),
            };
            let h = head.get_or_insert(if matches!(b, B::Item(_)) { "Key Points".into() } else { "Overview".into() });
            if !open {
                slides.push((Want::Is(h.clone()), vec![w]));
                open = true;
            } else if slides.last().unwrap().1.len() >= max_bullets.max(1) {
                slides.push((Want::Is(format!("{} (cont.)", h)), vec![w]));
            } else {
                slides.last_mut().unwrap().1.push(w);
            }
        }
        slides.truncate(max_slides);
        let bytes = if split || r.bool() {
            guard(|| Web2Ppt::with_config(config.clone()).convert(&content, &options)).map_err(|(m, l)| show(format!("panic: {} at {}", m, l)))?
        } else {
            guard(|| html_to_pptx_with_options(&html, &url, config.clone(), options.clone())).map_err(|(m, l)| show(format!("panic: {} at {}", m, l)))?
        }
        .map_err(|e| show(e.to_string()))?;
        if slides.is_empty() {
            return Ok(Out::trivial());
        }
        let k = sound(&bytes).map_err(show)?;
        let names = k.slides();
        if names.len() != slides.len() {
            return Err(show(format!("{} slides instead of {}", names.len(), slides.len())));
        }
        for (i, (p, (t, w))) in names.iter().zip(&slides).enumerate() {
            let root = k.xml.get(p).ok_or("slide is not XML")?;
            let sp: Vec<pml::Shape> = pml::shapes(root).into_iter().filter(|s| s.kind == "sp").collect();
            let tit = sp.first().map(|s| s.text()).unwrap_or_default();
            let clean = crate::spec::deck::clean(t.text());
            if tit != clean {
                return Err(show(format!("slide {}: title {:?} instead of {:?}", i + 1, tit, clean)));
            }
            let paras: Vec<String> = sp[1..].iter().flat_map(|s| s.paras.iter().map(|p| p.text())).collect();
            if paras.len() != w.len() || paras.iter().zip(w).any(|(g, w)| !w.fits(g)) {
                return Err(show(format!("slide {}: {:?} instead of {:?}", i + 1, paras, w.iter().map(|w| w.text()).collect::<Vec<_>>())));
            }
            if i > 0 {
                let size = |s: &pml::Shape| s.paras.iter().flat_map(|p| &p.runs).find_map(|r| r.p.get("sz").and_then(|s| s.parse::<u32>().ok()));
                let (a, b) = (size(&sp[0]), sp.get(1).and_then(size));
                if a.is_some_and(|a| a != ts * 100) || b.is_some_and(|b| b != cs * 100) {
                    return Err(show(format!("slide {}: sizes {:?} and {:?} instead of {} and {}", i + 1, a, b, ts, cs)));
                }
            }
            ctx.count("bullets", w.len() as u64);
        }
        let recorded = k.xml.get("docProps/core.xml").and_then(|c| c.child("title")).map(|t| t.text()).unwrap_or_default();
        let due = crate::spec::deck::clean(own.as_ref().unwrap_or(&content.title));
        if recorded.trim() != due.trim() {
            return Err(show(format!("the deck is recorded as {:?} instead of {:?}", recorded, due)));
        }
        let all: Vec<String> = names.iter().filter_map(|p| k.xml.get(p)).flat_map(pml::all_text).collect();
        let all = all.join("\n");
        let shown = format!("{:?}{:?}{}{:?}{}", blocks, desc, content.title, own, url);
        if let Some(h) = hidden.iter().find(|h| all.contains(h.as_str()) && !shown.contains(h.as_str())) {
            return Err(show(format!("{:?} is no content and is in the deck", h)));
        }
        ctx.count("slides", names.len() as u64);
        Ok(Out::sig(format!("{}{}{}{}{}{}", html.len(), max_slides, max_bullets, grouped, co, ta)).with_sample(html.chars().take(300).collect::<String>()))
    });
    ctx.cases("soup", ctx.n(3000, 100_000), |r: &mut Rng, _| -> Res {
        let mut html = String::new();
        for _ in 0..r.below(80) {
            match r.below(4) {
                0 => html.push_str(&text::tag(r)),
                1 => html.push_str(&super::html::tagged(r)),
                2 => html.push_str(*r.pick(&["<p>", "<li>", "<table>", "<tr>", "<td>", "<h1>", "<h2>", "<pre>", "<article>", "<main>", "<img src=x alt=y>", "<template>", "<svg>", "<math>", "<frameset>", "<select>", "<title>", "<meta name=description content='&#0;'>", "</body>", "<blockquote>", "&#xD800;", "<a href=http://x>"])),
                _ => html.push_str(&text::any(r)),
            }
        }
        if r.chance(1, 150) {
            let t = *r.pick(&["<div>", "<b>", "<ul><li>", "<section>", "<span>", "<blockquote>"]);
            html = format!("{}{}{}", html, t.repeat(20_000), "some words at the bottom of the page ".repeat(6));
        }
        let (c, g) = (Web2PptConfig::new().max_slides(r.below(8)).max_bullets(r.below(4)).group_by_headings(r.bool()), r.u64());
        let show = |e: String| format!("{} — {:?} {:?}", e, c, html.chars().take(3000).collect::<String>());
        let url = if g % 3 == 0 { text::any(r) } else { "http://x".into() };
        let out = guard(|| html_to_pptx_with_options(&html, &url, c.clone(), ConversionOptions::new())).map_err(|(m, l)| show(format!("panic: {} at {}", m, l)))?;
        match out {
            Ok(b) if c.max_slides > 0 => {
                sound(&b).map_err(show)?;
                ctx.count("decks of broken pages", 1);
            }
            Ok(_) => {}
            Err(_) => ctx.count("pages refused", 1),
        }
        Ok(Out::sig(html.clone()))
    });
}
