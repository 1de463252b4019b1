//! Markdown: what a document says must be what the deck says, and back.
use super::gen1::sound;
use crate::opc::Pkg;
use crate::pml;
use crate::report::{Ctx, Out, Res, guard};
use crate::rng::Rng;
use crate::text;
use crate::xml;
use ppt_rs::cli::parse_markdown;
use ppt_rs::generator::{BulletStyle, SlideContent, create_pptx_with_content};
use pulldown_cmark::{Event, Options, Parser, Tag, TagEnd};

/// Text without the marks the importer keeps for formatting, and with single spaces.
pub(super) fn flat(s: &str) -> String {
    let t: String = s.chars().filter(|c| !"*~`=^☑☐".contains(*c)).collect();
    t.split_whitespace().collect::<Vec<_>>().join(" ")
}

#[derive(Default, Clone, Debug)]
struct WantSlide {
    /// None: made up by the importer
    title: Option<String>,
    bullets: Vec<(String, u32, bool, Option<bool>)>,
    table: Option<Vec<Vec<String>>>,
    codes: Vec<(String, String)>,
    notes: Vec<String>,
    images: Vec<Result<Vec<u8>, String>>,
}
impl WantSlide {
    fn empty(&self) -> bool {
        self.bullets.is_empty() && self.table.is_none() && self.codes.is_empty() && self.notes.is_empty() && self.images.is_empty()
    }
}

struct Doc<'a> {
    r: &'a mut Rng,
    dir: &'a std::path::Path,
    out: String,
    slides: Vec<WantSlide>,
    cur: Option<WantSlide>,
    kinds: Vec<&'static str>,
    pics: usize,
}

fn escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c.is_ascii_punctuation() {
            o.push('\\');
        }
        o.push(c);
    }
    o
}
/// One line of text without control characters.
pub(super) fn line(r: &mut Rng) -> String {
    let s: String = text::any(r).chars().filter(|c| !c.is_control() && *c != '\u{feff}').collect();
    s.trim().to_string()
}

impl Doc<'_> {
    fn slide(&mut self) -> &mut WantSlide {
        self.cur.get_or_insert_with(WantSlide::default)
    }
    fn push_slide(&mut self) {
        if let Some(s) = self.cur.take() {
            self.slides.push(s);
        }
    }

    /// Inline content as (source, text). `cell`: inside a table, `one`: on one line.
    fn inline(&mut self, cell: bool, one: bool) -> (String, String) {
        let n = 1 + self.r.below(4);
        let (mut src, mut txt) = (String::new(), String::new());
        for i in 0..n {
            if i > 0 {
                let brk = if one || cell { 0 } else { self.r.below(6) };
                src.push_str(match brk {
                    4 => "\n",
                    5 => {
                        if self.r.bool() {
                            "  \n"
                        } else {
                            "\\\n"
                        }
                    }
                    _ => " ",
                });
                txt.push(' ');
            }
            let t = text::tag(self.r);
            let (a, b) = match self.r.below(12) {
                0 => (format!("**{}**", t), t),
                1 => (format!("*{}*", t), t),
                2 => (format!("_{}_", t), t),
                3 => (format!("~~{}~~", t), t),
                4 => {
                    let inner = *self.r.pick(&["<b>", "a & b", "x == y", "*p", "&amp;", "#1", "->", "_x_", "[z]"]);
                    (format!("`{} {}`", t, inner), format!("{} {}", t, inner))
                }
                5 => (format!("***{}***", t), t),
                6 => (format!("[{}](http://example.com/{})", t, text::tag(self.r)), t),
                7 => {
                    let e = *self.r.pick(&[("&amp;", "&"), ("&lt;", "<"), ("&#65;", "A"), ("&copy;", "©"), ("&quot;", "\"")]);
                    (format!("{}{}", t, e.0), format!("{}{}", t, e.1))
                }
                8 => {
                    let h = *self.r.pick(&["b", "mark", "sub", "sup", "ins", "span", "u"]);
                    (format!("<{}>{}</{}>", h, t, h), t)
                }
                9 => {
                    let u = text::tag(self.r);
                    (format!("**{} *{}***", t, u), format!("{} {}", t, u))
                }
                _ => {
                    let s = line(self.r);
                    (escape(&s), s)
                }
            };
            src.push_str(&a);
            txt.push_str(&b);
        }
        // a line must not begin with what would start another block: every special is escaped
        (src, flat(&txt))
    }

    fn list(&mut self, depth: u32, indent: &str, src: &mut String, bullets: &mut Vec<(String, u32, bool, Option<bool>)>) {
        let numbered = self.r.chance(1, 3);
        let loose = self.r.chance(1, 4);
        let mark = *self.r.pick(&["-", "*", "+"]);
        // a nested list that begins with another number would continue the paragraph
        let first = if depth == 0 { 1 + self.r.below(3) } else { 1 };
        for i in 0..1 + self.r.below(4) {
            let m = if numbered { format!("{}. ", first + i) } else { format!("{} ", mark) };
            let inner = format!("{}{}", indent, " ".repeat(m.len()));
            let task = if self.r.chance(1, 5) { Some(self.r.bool()) } else { None };
            let (s, mut t) = self.inline(false, true);
            // a heading in a list is one of its texts
            let head = if task.is_none() && self.r.chance(1, 10) { *self.r.pick(&["# ", "## ", "### "]) } else { "" };
            src.push_str(&format!("{}{}{}{}{}\n", indent, m, head, task.map_or("", |x| if x { "[x] " } else { "[ ] " }), s));
            if loose && self.r.chance(1, 3) {
                let (s2, t2) = self.inline(false, true);
                src.push_str(&format!("\n{}{}\n", inner, s2));
                t = format!("{} {}", t, t2);
            }
            bullets.push((t, depth, numbered, task));
            if depth < 9 && self.r.chance(1, if depth == 0 { 4 } else { 2 }) {
                if loose {
                    src.push('\n');
                }
                self.kinds.push("nested list");
                self.list(depth + 1, &inner, src, bullets);
            }
            if loose {
                src.push('\n');
            }
        }
    }

    fn block(&mut self) {
        match self.r.below(15) {
            0..=2 => {
                self.kinds.push("h1");
                let (s, t) = self.inline(false, true);
                self.push_slide();
                self.cur = Some(WantSlide { title: Some(t), ..Default::default() });
                if self.r.chance(1, 5) {
                    self.out.push_str(&format!("{}\n=====\n\n", s));
                } else {
                    let nl = if self.r.bool() { "\n" } else { "\n\n" };
                    self.out.push_str(&format!("# {}{}", s, nl));
                }
            }
            3 => {
                self.kinds.push("subheading");
                let (s, t) = self.inline(false, true);
                self.out.push_str(&format!("{} {}\n\n", "#".repeat(2 + self.r.below(5)), s));
                self.slide().bullets.push((t, 0, false, None));
            }
            4 | 5 => {
                self.kinds.push("paragraph");
                let (s, t) = self.inline(false, false);
                self.out.push_str(&format!("{}\n\n", s));
                self.slide().bullets.push((t, 0, false, None));
            }
            6..=8 => {
                self.kinds.push("list");
                let mut src = String::new();
                let mut b = vec![];
                self.list(0, "", &mut src, &mut b);
                // the comment keeps two lists in a row apart
                self.out.push_str(&format!("{}\n<!-- -->\n\n", src));
                self.slide().bullets.extend(b);
            }
            9 => {
                self.kinds.push("table");
                let (rows, cols) = (1 + self.r.below(4), 1 + self.r.below(4));
                let mut t: Vec<Vec<String>> = vec![];
                for i in 0..=rows {
                    let mut row = vec![];
                    let mut src = String::from("|");
                    for _ in 0..cols {
                        let (s, x) = if i > 0 && self.r.chance(1, 6) { (String::new(), String::new()) } else { self.inline(true, true) };
                        src.push_str(&format!(" {} |", s));
                        row.push(x);
                    }
                    self.out.push_str(&src);
                    self.out.push('\n');
                    if i == 0 {
                        let a: Vec<&str> = (0..cols).map(|_| *self.r.pick(&["---", ":--", "--:", ":-:"])).collect();
                        self.out.push_str(&format!("| {} |\n", a.join(" | ")));
                    }
                    t.push(row);
                }
                self.out.push('\n');
                if self.slide().table.is_some() {
                    let title = self.slide().title.as_ref().map(|t| format!("{} (continued)", t));
                    self.push_slide();
                    self.cur = Some(WantSlide { title, ..Default::default() });
                }
                self.slide().table = Some(t);
            }
            10 | 11 => {
                self.kinds.push("code");
                let lang = *self.r.pick(&["rust", "python", "", "text", "json", "weird", "c++", "html"]);
                let mut code = vec![];
                for _ in 0..1 + self.r.below(5) {
                    let ind = " ".repeat(self.r.below(3) * 2);
                    code.push(match self.r.below(8) {
                        0 => String::new(),
                        1 => format!("{}# {}", ind, text::tag(self.r)),
                        2 => format!("{}- {}", ind, text::tag(self.r)),
                        3 => format!("{}if a < b && c > \"{}\" {{ x['y'] }} // & &amp;", ind, text::tag(self.r)),
                        4 => format!("{}| {} | ** |", ind, text::tag(self.r)),
                        5 => format!("{}> {} <b>", ind, text::tag(self.r)),
                        _ => format!("{}{}", ind, line(self.r)),
                    });
                }
                let at = self.r.below(code.len());
                code[at] = format!("{}{}", " ".repeat(self.r.below(5)), text::tag(self.r));
                let code = code.join("\n");
                let f = if code.contains("```") || self.r.bool() { "~~~~" } else { "```" };
                if self.r.chance(1, 5) && !code.starts_with('\n') && lang.is_empty() {
                    // indented code
                    self.out.push_str("<!-- -->\n\n");
                    for l in code.split('\n') {
                        self.out.push_str(&format!("    {}\n", l));
                    }
                    self.out.push('\n');
                } else {
                    self.out.push_str(&format!("{}{}\n{}\n{}\n\n", f, lang, code, f));
                }
                self.slide().codes.push((if lang.is_empty() { "text".into() } else { lang.into() }, code));
            }
            12 => {
                self.kinds.push("quote");
                let n = 1 + self.r.below(3);
                for i in 0..n {
                    if i > 0 {
                        self.out.push_str(">\n");
                    }
                    let lead = if self.r.chance(1, 5) { "> " } else { "" };
                    match self.r.below(4) {
                        0 => {
                            for _ in 0..1 + self.r.below(3) {
                                let (s, t) = self.inline(false, true);
                                self.out.push_str(&format!("> {}- {}\n", lead, s));
                                self.slide().notes.push(t);
                            }
                        }
                        _ => {
                            let (s, t) = self.inline(false, true);
                            self.out.push_str(&format!("> {}{}\n", lead, s));
                            self.slide().notes.push(t);
                        }
                    }
                }
                self.out.push_str("\n<!-- -->\n\n");
            }
            13 => {
                self.kinds.push("rule");
                self.out.push_str(*self.r.pick(&["---\n\n", "***\n\n", "___\n\n"]));
                self.push_slide();
                if let Some(l) = self.slides.last() {
                    let title = l.title.as_ref().map(|t| format!("{} (continued)", t));
                    self.cur = Some(WantSlide { title, ..Default::default() });
                }
            }
            _ => {
                self.kinds.push("image");
                let alt = self.r.chance(3, 4).then(|| text::plain(self.r));
                let there = self.r.bool();
                let name = if there { format!("{:x}.png", self.r.below(6)) } else { format!("missing/{}.png", text::tag(self.r)) };
                let path = if there { self.dir.join(&name).to_str().unwrap().to_string() } else { name.clone() };
                let title = self.r.chance(1, 4).then(|| text::tag(self.r));
                self.out.push_str(&format!("![{}]({}{})\n\n", alt.as_deref().map(escape).unwrap_or_default(), path, title.map_or(String::new(), |t| format!(" \"{}\"", t))));
                let w = if there { Ok(std::fs::read(self.dir.join(&name)).unwrap()) } else { Err(alt.clone().unwrap_or(name)) };
                self.slide().images.push(w);
                self.pics += 1;
            }
        }
    }
}

fn check_slide(w: &WantSlide, s: &SlideContent) -> Result<(), String> {
    if let Some(t) = &w.title
        && flat(&s.title) != *t {
            return Err(format!("title {:?} instead of {:?}", s.title, t));
        }
    let got: Vec<String> = s.content.iter().map(|b| flat(b)).collect();
    let want: Vec<String> = w.bullets.iter().map(|b| b.0.clone()).collect();
    if got != want {
        let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return Err(format!("{} bullets instead of {}; number {} is {:?} instead of {:?}", got.len(), want.len(), i, got.get(i), want.get(i)));
    }
    if s.bullets.len() != want.len() {
        return Err(format!("{} bullets and {} lines of text", s.bullets.len(), want.len()));
    }
    for (b, w) in s.bullets.iter().zip(&w.bullets) {
        if flat(&b.text) != w.0 || b.level != w.1.min(8) || (b.style == BulletStyle::Number) != w.2 {
            return Err(format!("bullet {:?} at level {} ({:?}) instead of {:?}", b.text, b.level, b.style, w));
        }
        if let Some(done) = w.3
            && !b.text.starts_with(if done { '☑' } else { '☐' }) {
                return Err(format!("task {:?} is not shown as done = {}", b.text, done));
            }
    }
    let rows = s.table.as_ref().map(|t| t.rows.iter().map(|r| r.cells.iter().map(|c| flat(&c.text)).collect::<Vec<_>>()).collect::<Vec<_>>());
    if rows != w.table {
        return Err(format!("table {:?} instead of {:?}", rows, w.table));
    }
    let tidy = |c: &str| c.replace('\r', "").trim_matches('\n').trim_end().to_string();
    let codes: Vec<(String, String)> = s.code_blocks.iter().map(|c| (c.language.clone(), tidy(&c.code))).collect();
    let want: Vec<(String, String)> = w.codes.iter().map(|c| (c.0.clone(), tidy(&c.1))).collect();
    if codes != want {
        return Err(format!("code {:?} instead of {:?}", codes, want));
    }
    let notes: Vec<String> = s.notes.iter().flat_map(|n| n.lines()).map(flat).filter(|n| !n.is_empty()).collect();
    if notes != w.notes {
        return Err(format!("notes {:?} instead of {:?}", notes, w.notes));
    }
    let pics: Vec<Option<Vec<u8>>> = s.images.iter().map(|i| i.get_bytes()).collect();
    let want: Vec<Option<Vec<u8>>> = w.images.iter().filter_map(|i| i.clone().ok().map(Some)).collect();
    if pics != want {
        return Err(format!("{} pictures, {} expected, or others", pics.len(), want.len()));
    }
    let labels: Vec<String> = s.shapes.iter().filter_map(|x| x.text.clone()).collect();
    let missing: Vec<String> = w.images.iter().filter_map(|i| i.clone().err()).collect();
    if labels.len() != missing.len() || !labels.iter().zip(&missing).all(|(l, m)| flat(l).contains(&flat(m))) {
        return Err(format!("placeholders {:?} for missing images {:?}", labels, missing));
    }
    Ok(())
}

/// Everything written on a slide, its notes included, with single spaces.
pub(super) fn slide_text(k: &Pkg, part: &str) -> Result<(Vec<String>, String), String> {
    let sl = xml::parse(&k.parts[part])?;
    let mut v: Vec<String> = vec![];
    for s in sl.desc("p") {
        let t: String = s.desc("t").iter().map(|t| t.text()).collect();
        v.push(flat(&t));
    }
    let notes = k.rel_by_type(part, "notesSlide").first().and_then(|r| k.parts.get(&r.part)).map(|b| xml::parse(b)).transpose()?.map(|e| pml::all_text(&e).join(" ")).unwrap_or_default();
    Ok((v, flat(&notes)))
}

fn options() -> Options {
    Options::ENABLE_TABLES | Options::ENABLE_STRIKETHROUGH | Options::ENABLE_TASKLISTS | Options::ENABLE_PLUSES_DELIMITED_METADATA_BLOCKS
}

/// A document, for checks that only need one.
pub fn document(r: &mut Rng, dir: &std::path::Path) -> String {
    let n = 1 + r.below(14);
    let mut d = Doc { r, dir, out: String::new(), slides: vec![], cur: None, kinds: vec![], pics: 0 };
    for _ in 0..n {
        d.block();
    }
    d.out
}

pub fn c18(ctx: &Ctx) {
    ctx.rule("Distinct by the sequence of blocks of the document and its length.");
    let dir = ctx.scratch.join("pics");
    let _ = std::fs::create_dir_all(&dir);
    for i in 0..6u8 {
        let mut b = b"\x89PNG\r\n\x1a\n".to_vec();
        b.extend(vec![i; 20 + i as usize]);
        std::fs::write(dir.join(format!("{:x}.png", i)), b).unwrap();
    }
    ctx.cases("documents", ctx.n(16_000, 150_000), |r: &mut Rng, _| -> Res {
        let n = 1 + r.below(14);
        let crlf = r.chance(1, 8);
        let mut d = Doc { r, dir: &dir, out: String::new(), slides: vec![], cur: None, kinds: vec![], pics: 0 };
        for _ in 0..n {
            d.block();
        }
        d.push_slide();
        let Doc { out, slides, kinds, .. } = d;
        let md = if crlf { out.replace('\n', "\r\n") } else { out };
        let show = |e: String| format!("{} — document:\n{}", e, md);
        let want: Vec<WantSlide> = slides.into_iter().filter(|s| !(s.empty() && s.title.as_ref().is_none_or(|t| t.ends_with("(continued)")))).collect();
        let got = match guard(|| parse_markdown(&md)).map_err(|(m, l)| show(format!("panic: {} at {}", m, l)))? {
            Ok(g) => g,
            Err(_) if want.is_empty() => return Ok(Out::trivial()),
            Err(e) => return Err(show(format!("refused: {}", e))),
        };
        let got: Vec<SlideContent> = got.into_iter().filter(|s| !(s.title.ends_with("(continued)") && s.content.is_empty() && s.table.is_none() && s.code_blocks.is_empty() && s.notes.is_none() && s.images.is_empty() && s.shapes.is_empty())).collect();
        if got.len() != want.len() {
            return Err(show(format!("{} slides {:?} instead of {}", got.len(), got.iter().map(|s| &s.title).collect::<Vec<_>>(), want.len())));
        }
        for (i, (w, g)) in want.iter().zip(&got).enumerate() {
            check_slide(w, g).map_err(|e| show(format!("slide {}: {}", i + 1, e)))?;
        }
        for k in &kinds {
            ctx.count(k, 1);
        }
        // and the deck says it too
        if r_deck(&md) {
            let b = create_pptx_with_content("Deck", got).map_err(|e| show(e.to_string()))?;
            let k = sound(&b).map_err(show)?;
            for (w, p) in want.iter().zip(k.slides()) {
                let (paras, notes) = slide_text(&k, &p)?;
                // a table takes the place of the bullets: known finding bullets-beside-table
                let mut need: Vec<String> = w.bullets.iter().filter(|_| w.table.is_none()).map(|b| b.0.clone()).collect();
                need.extend(w.title.clone());
                need.extend(w.table.iter().flatten().flatten().cloned());
                need.extend(w.codes.iter().flat_map(|c| c.1.lines().map(flat).collect::<Vec<_>>()));
                for t in need.iter().filter(|t| !t.is_empty()) {
                    if !paras.contains(t) {
                        return Err(show(format!("{}: {:?} is not on the slide: {:?}", p, t, paras)));
                    }
                }
                for t in &w.notes {
                    if !notes.contains(t.as_str()) {
                        return Err(show(format!("{}: {:?} is not in the notes: {:?}", p, t, notes)));
                    }
                }
            }
            ctx.count("decks written and read back", 1);
        }
        Ok(Out::sig(format!("{:?}{}", kinds, md.len())).with_sample(md.chars().take(300).collect::<String>()))
    });
    ctx.probe("bullets-beside-table", || {
        let s = parse_markdown("# T\n\nkqwert\n\n| a |\n|---|\n| b |\n").map_err(|e| e.to_string())?;
        let b = create_pptx_with_content("Deck", s).map_err(|e| e.to_string())?;
        let k = sound(&b)?;
        let all: Vec<String> = k.slides().iter().flat_map(|p| slide_text(&k, p).map(|x| x.0).unwrap_or_default()).collect();
        if !all.contains(&"kqwert".to_string()) {
            return Err(format!("the paragraph beside a table is not in the deck: {:?}", all));
        }
        Ok(())
    });
    // any text at all: no panic, the same result twice, and no text lost
    ctx.cases("soup", ctx.n(4000, 200_000), |r: &mut Rng, _| -> Res {
        let mut md = String::new();
        for _ in 0..r.below(60) {
            match r.below(4) {
                0 => md.push_str(&text::tag(r)),
                1 => md.push_str(*r.pick(&["\n", "\n\n", " ", "  \n", "\t", "\r\n", "\n    ", "\n> ", "\n- ", "\n1. ", "\n# ", "\n## ", "\n  - ", "\n| ", " | ", "\n|---|---|\n", "\n```\n", "\n```rust\n", "\n---\n", "\n===\n"])),
                2 => md.push_str(*r.pick(&["*", "**", "~~", "`", "``", "_", "[", "](", ")", "![", "<", ">", "</", "<mark>", "</mark>", "<ins>", "<sub>", "</sub>", "<sup a='</'>", "<x b=\"</\" a=\"<mark>\">", "<mark></", "&amp;", "&#0;", "\\", "+++\n", "[ ] ", "[x] ", "<!--", "-->", "<div>\n", "[^1]", "[^1]: ", "![a](b)", "é", "日", "🙂", "\u{0}", "\u{feff}"])),
                _ => md.push_str(&text::any(r)),
            }
        }
        let run = || guard(|| parse_markdown(&md));
        let show = |e: String| format!("{} — {:?}", e, md);
        let a = run().map_err(|(m, l)| show(format!("panic: {} at {}", m, l)))?;
        let b = run().map_err(|(m, l)| show(format!("panic: {} at {}", m, l)))?;
        let (da, db) = (format!("{:?}", a), format!("{:?}", b));
        let _ = (da, db);
        if a.is_ok() != b.is_ok() || a.as_ref().ok().map(|a| brief(a)) != b.as_ref().ok().map(|b| brief(b)) {
            return Err(show("two runs differ".into()));
        }
        // words the reference parser sees as text
        let mut words: Vec<String> = vec![];
        let (mut meta, mut fence) = (0, false);
        for e in Parser::new_ext(&md, options()) {
            match e {
                Event::Start(Tag::MetadataBlock(_)) => meta += 1,
                Event::End(TagEnd::MetadataBlock(_)) => meta -= 1,
                Event::Start(Tag::CodeBlock(pulldown_cmark::CodeBlockKind::Fenced(l))) if l.as_ref() == "mermaid" => fence = true,
                Event::End(TagEnd::CodeBlock) => fence = false,
                Event::Text(t) | Event::Code(t) if meta == 0 && !fence => words.extend(t.split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| w.len() == 6 && w.starts_with('k')).map(|w| w.to_string())),
                _ => {}
            }
        }
        let all = a.as_ref().map(|s| s.iter().map(|x| everything(x)).collect::<Vec<_>>().join("\n")).unwrap_or_default();
        for w in &words {
            if !all.contains(w.as_str()) {
                return Err(show(format!("{:?} is text of the document and nowhere in the deck", w)));
            }
        }
        ctx.count("words accounted for", words.len() as u64);
        if let Ok(s) = a {
            let b = guard(|| create_pptx_with_content("Deck", s)).map_err(|(m, l)| show(format!("panic: {} at {}", m, l)))?.map_err(|e| show(e.to_string()))?;
            sound(&b).map_err(show)?;
        }
        Ok(Out::sig(format!("{}-{}", words.len(), md.len())))
    });
}

fn r_deck(md: &str) -> bool {
    md.len() % 4 == 0
}

/// All that a slide model shows.
pub(super) fn everything(s: &SlideContent) -> String {
    let mut v = vec![s.title.clone()];
    v.extend(s.content.iter().cloned());
    v.extend(s.table.iter().flat_map(|t| t.rows.iter().flat_map(|r| r.cells.iter().map(|c| c.text.clone()))));
    v.extend(s.code_blocks.iter().map(|c| c.code.clone()));
    v.extend(s.notes.clone());
    v.extend(s.shapes.iter().filter_map(|x| x.text.clone()));
    v.join("\n")
}
pub(super) fn brief(s: &[SlideContent]) -> String {
    s.iter().map(|x| everything(x)).collect::<Vec<_>>().join("\n\n")
}

/// Text full of what Markdown gives a meaning to.
pub fn marked(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.below(6) {
        match r.below(5) {
            0 => s.push_str(&text::tag(r)),
            1 => s.push_str(&line(r)),
            _ => s.push_str(*r.pick(&[
                "- ", "+ ", "* ", "1. ", "12) ", "# ", "###### ", "> ", "``", "```", "`", "~~", "~~~", "|", " | ", "&amp;", "&#65;", "&copy", "===", "---", "***", "___", "    ", "\t", "[a](b)", "![x](y)", "<b>", "</b>", "<br>", "<!-- ",
                "-->", "\\", "\\n", "http://a.b/c_d_e", "<http://a.b>", "+++", ":--", "|---|", "^", "$", "[^1]", "[ ] ", "[x] ", "*a*", "_b_", "**", "__", "(", ")", "{", "}", "!", "\"", "'", "  ", "1986. A", "a*b*c", "x_y_z", "é", "日本",
            ])),
        }
        if r.chance(1, 3) {
            s.push(' ');
        }
    }
    s
}
fn marked_lines(r: &mut Rng) -> String {
    let n = if r.chance(1, 4) { 2 + r.below(3) } else { 1 };
    let nl = if r.chance(1, 8) { "\r\n" } else { "\n" };
    (0..n).map(|_| if r.chance(1, 8) { String::new() } else { marked(r) }).collect::<Vec<_>>().join(nl)
}

fn spaced(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

#[derive(Default, Debug, PartialEq, Clone)]
struct Said {
    title: String,
    bullets: Vec<String>,
    table: Vec<Vec<String>>,
    images: Vec<String>,
    codes: Vec<(String, String)>,
    notes: String,
}

/// What a Markdown reader finds in an exported document.
fn reader(md: &str) -> Result<(Option<String>, String, Vec<Said>, usize), String> {
    let o = Options::ENABLE_TABLES | Options::ENABLE_STRIKETHROUGH | Options::ENABLE_TASKLISTS | Options::ENABLE_YAML_STYLE_METADATA_BLOCKS;
    let (mut front, mut head, mut slides, mut rules) = (None, None, vec![], 0);
    let mut buf = String::new();
    let (mut quote, mut list) = (0, 0);
    let (mut after_notes_label, mut strong) = (false, false);
    let mut cur: Option<Said> = None;
    for e in Parser::new_ext(md, o) {
        let n = "content before the first slide heading";
        match e {
            Event::Start(t) => match t {
                Tag::MetadataBlock(_) | Tag::Heading { .. } | Tag::Item | Tag::TableCell | Tag::CodeBlock(_) => {
                    if matches!(t, Tag::Item) && list > 1 {
                        return Err("a nested list".into());
                    }
                    buf.clear();
                    if let Tag::CodeBlock(k) = t {
                        let pulldown_cmark::CodeBlockKind::Fenced(l) = k else { return Err("an indented code block".into()) };
                        cur.as_mut().ok_or(n)?.codes.push((l.to_string(), String::new()));
                    }
                }
                Tag::Paragraph => {
                    if quote == 0 && list == 0 {
                        buf.clear();
                    } else {
                        buf.push(' ');
                    }
                }
                Tag::BlockQuote => {
                    if !after_notes_label {
                        return Err("a quote that is not the notes".into());
                    }
                    quote += 1;
                    buf.clear();
                }
                Tag::List(first) => {
                    if first.is_some() {
                        return Err("a numbered list".into());
                    }
                    list += 1;
                }
                Tag::Table(_) | Tag::TableHead => {}
                Tag::TableRow => cur.as_mut().ok_or(n)?.table.push(vec![]),
                Tag::Image { dest_url, .. } => {
                    cur.as_mut().ok_or(n)?.images.push(dest_url.to_string());
                }
                Tag::Strong if quote == 0 && list == 0 && buf.is_empty() => strong = true,
                t => return Err(format!("unexpected {:?}", t)),
            },
            Event::End(t) => match t {
                TagEnd::Strong => strong = false,
                TagEnd::MetadataBlock(_) => front = Some(buf.clone()),
                TagEnd::Heading(l) => {
                    let t = spaced(&buf);
                    match l as usize {
                        1 if head.is_none() && cur.is_none() => head = Some(t),
                        2 => {
                            slides.extend(cur.take());
                            cur = Some(Said { title: t, ..Default::default() });
                        }
                        n => return Err(format!("an unexpected heading of level {}: {:?}", n, t)),
                    }
                    after_notes_label = false;
                }
                TagEnd::Item => cur.as_mut().ok_or(n)?.bullets.push(spaced(&buf)),
                TagEnd::TableCell => {
                    let c = cur.as_mut().ok_or(n)?;
                    if c.table.is_empty() {
                        c.table.push(vec![]);
                    }
                    c.table.last_mut().unwrap().push(spaced(&buf));
                }
                TagEnd::CodeBlock => cur.as_mut().ok_or(n)?.codes.last_mut().unwrap().1 = buf.clone(),
                TagEnd::BlockQuote => {
                    quote -= 1;
                    cur.as_mut().ok_or(n)?.notes = spaced(&buf);
                }
                TagEnd::List(_) => list -= 1,
                TagEnd::Paragraph if quote == 0 && list == 0 => {
                    let t = spaced(&buf);
                    if t == "Notes:" {
                        after_notes_label = true;
                    } else if !t.is_empty() && !t.starts_with("Image ") {
                        return Err(format!("an unexpected paragraph {:?}", t));
                    }
                }
                _ => {}
            },
            Event::Text(t) | Event::Code(t) => {
                if cur.as_ref().is_some_and(|_| t.is_empty()) {
                    continue;
                }
                if strong && t.as_ref() != "Notes:" {
                    return Err(format!("strong {:?}", t));
                }
                buf.push_str(&t);
            }
            Event::SoftBreak | Event::HardBreak => buf.push(' '),
            Event::InlineHtml(h) if h.as_ref() == "<br>" => buf.push(' '),
            Event::Rule => rules += 1,
            e => return Err(format!("unexpected {:?}", e)),
        }
    }
    slides.extend(cur);
    Ok((front, head.ok_or("no first heading")?, slides, rules))
}

/// The value of a key of a YAML mapping written as plain, quoted or block scalar.
fn yaml(front: &str, key: &str) -> Result<String, String> {
    let lines: Vec<&str> = front.lines().collect();
    let i = lines.iter().position(|l| l.starts_with(&format!("{}:", key))).ok_or(format!("no {} in the frontmatter", key))?;
    let v = lines[i][key.len() + 1..].trim();
    if let Some(q) = v.strip_prefix('"') {
        let mut out = String::new();
        let mut it = q.chars();
        while let Some(c) = it.next() {
            match c {
                '"' => {
                    return if it.as_str().trim().is_empty() { Ok(out) } else { Err(format!("text after a quoted scalar: {:?}", v)) };
                }
                '\\' => match it.next() {
                    Some('n') => out.push('\n'),
                    Some('r') => out.push('\r'),
                    Some('t') => out.push('\t'),
                    Some(c @ ('"' | '\\' | '/')) => out.push(c),
                    c => return Err(format!("unknown escape {:?}", c)),
                },
                c => out.push(c),
            }
        }
        return Err(format!("unterminated quoted scalar {:?}", v));
    }
    if v.starts_with(['|', '>']) {
        let indent: Option<usize> = v.chars().find_map(|c| c.to_digit(10)).map(|d| d as usize);
        let body: Vec<&str> = lines[i + 1..].iter().take_while(|l| l.is_empty() || l.starts_with(' ')).copied().collect();
        let n = match indent {
            Some(n) => n,
            None => body.iter().find(|l| !l.trim().is_empty()).map_or(0, |l| l.len() - l.trim_start_matches(' ').len()),
        };
        return Ok(body.iter().map(|l| l.get(n..).unwrap_or("")).collect::<Vec<_>>().join("\n"));
    }
    if v.starts_with(['[', ']', '{', '}', '&', '*', '#', '!', '%', '@', '`', '\'', ',', '-', '?', ':']) || v.contains(": ") || v.contains(" #") {
        return Err(format!("{:?} is no plain scalar", v));
    }
    Ok(v.to_string())
}

pub fn c20(ctx: &Ctx) {
    use crate::spec::deck;
    use ppt_rs::api::Presentation;
    use ppt_rs::export::md::{MarkdownOptions, export_to_markdown_with_options};
    ctx.rule("Distinct by the shape of the deck, the options and the length of the document.");
    let dir = ctx.scratch.clone();
    ctx.cases("export", ctx.n(100_000, 800_000), |r: &mut Rng, _| -> Res {
        let mut d = deck::random(r, &deck::ALL, None);
        // texts that mean something in Markdown, in every place
        let some = |r: &mut Rng, s: String| if r.chance(2, 3) { marked_lines(r) } else { s };
        d.title = some(r, d.title);
        for s in d.slides.iter_mut() {
            s.title = some(r, s.title.clone());
            for b in s.bullets.iter_mut() {
                b.text = some(r, b.text.clone());
            }
            if let Some(n) = s.notes.as_mut() {
                *n = some(r, n.clone());
            }
            for c in s.code.iter_mut() {
                if r.bool() {
                    c.code = marked_lines(r);
                }
            }
        }
        let mut slides = d.contents();
        for s in slides.iter_mut() {
            if let Some(t) = s.table.as_mut() {
                for row in t.rows.iter_mut() {
                    for c in row.cells.iter_mut() {
                        c.text = some(r, c.text.clone());
                    }
                }
                if r.chance(1, 3) {
                    // ragged
                    let k = r.below(t.rows.len());
                    if t.rows[k].cells.len() > 1 {
                        t.rows[k].cells.pop();
                    }
                }
            }
        }
        let sep = *r.pick(&["---", "---", "***", "___", "* * *", "-----"]);
        let (nums, notes, tables, images, front) = (r.bool(), r.chance(3, 4), r.chance(3, 4), r.chance(3, 4), r.bool());
        let opt = MarkdownOptions::new().with_slide_numbers(nums).with_separator(sep).with_notes(notes).with_gfm_tables(tables).with_images(images).with_frontmatter(front);
        let mut p = Presentation::with_title(&d.title);
        for s in &slides {
            p = p.add_slide(s.clone());
        }
        let default = r.chance(1, 6);
        let (nums, notes, tables, images, front) = if default { (true, true, true, true, true) } else { (nums, notes, tables, images, front) };
        let md = if r.chance(1, 8) {
            let f = dir.join(format!("{}.md", r.u64()));
            if default { p.save_as_markdown(&f) } else { p.save_as_markdown_with_options(&f, &opt) }.map_err(|e| e.to_string())?;
            let t = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
            let _ = std::fs::remove_file(&f);
            ctx.count("through a file", 1);
            t
        } else {
            let o = if default { MarkdownOptions::default() } else { opt };
            guard(|| export_to_markdown_with_options(&p, &o)).map_err(|(m, l)| format!("panic: {} at {}", m, l))?.map_err(|e| e.to_string())?
        };
        let show = |e: String| format!("{} — document:\n{}", e, md);
        let (fm, head, got, rules) = reader(&md).map_err(show)?;
        if fm.is_some() != front {
            return Err(show(format!("frontmatter {:?}, asked for: {}", fm, front)));
        }
        if let Some(f) = &fm {
            let t = yaml(f, "title").map_err(show)?;
            if spaced(&t) != spaced(&d.title) {
                return Err(show(format!("frontmatter title {:?} instead of {:?}", t, d.title)));
            }
            if yaml(f, "slides").map_err(show)? != slides.len().to_string() {
                return Err(show("frontmatter with another number of slides".into()));
            }
        }
        if head != spaced(&d.title) {
            return Err(show(format!("heading {:?} instead of {:?}", head, d.title)));
        }
        let want_rules = if nums { slides.len() } else { slides.len().saturating_sub(1) };
        if rules != want_rules {
            return Err(show(format!("{} separators instead of {}", rules, want_rules)));
        }
        if got.len() != slides.len() {
            return Err(show(format!("{} slides instead of {}", got.len(), slides.len())));
        }
        let mut urls = std::collections::HashSet::new();
        for (i, (s, g)) in slides.iter().zip(&got).enumerate() {
            let no = |what: &str, a: &dyn std::fmt::Debug, b: &dyn std::fmt::Debug| show(format!("slide {}: {} {:?} instead of {:?}", i + 1, what, a, b));
            let t = spaced(&s.title);
            let t = if nums { spaced(&format!("Slide {}: {}", i + 1, t)) } else { t };
            if g.title != t {
                return Err(no("title", &g.title, &t));
            }
            let b: Vec<String> = s.content.iter().map(|b| spaced(b)).collect();
            if g.bullets != b {
                return Err(no("bullets", &g.bullets, &b));
            }
            let mut rows: Vec<Vec<String>> = if tables { s.table.iter().flat_map(|t| t.rows.iter().map(|r| r.cells.iter().map(|c| spaced(&c.text)).collect())).collect() } else { vec![] };
            let n = rows.iter().map(|r| r.len()).max().unwrap_or(0);
            rows.iter_mut().for_each(|r| r.resize(n, String::new()));
            if g.table != rows {
                return Err(no("table", &g.table, &rows));
            }
            let codes: Vec<(String, String)> = s.code_blocks.iter().map(|c| (c.language.clone(), c.code.clone())).collect();
            let tidy = |c: &[(String, String)]| c.iter().map(|c| (c.0.clone(), c.1.replace("\r\n", "\n").trim_end_matches('\n').to_string())).collect::<Vec<_>>();
            if tidy(&g.codes) != tidy(&codes) {
                return Err(no("code", &g.codes, &codes));
            }
            let want = if notes { s.notes.as_deref().map(spaced).unwrap_or_default() } else { String::new() };
            if g.notes != want {
                return Err(no("notes", &g.notes, &want));
            }
            let n = if images { s.images.len() } else { 0 };
            if g.images.len() != n {
                return Err(no("pictures", &g.images, &n));
            }
            for (u, im) in g.images.iter().zip(&s.images) {
                if !urls.insert(u.clone()) {
                    return Err(show(format!("two pictures refer to {}", u)));
                }
                let ext = u.rsplit_once('.').map(|x| x.1.to_lowercase()).unwrap_or_default();
                let f = im.format.to_lowercase();
                if ext != f && !(ext == "jpg" && f == "jpeg") {
                    return Err(show(format!("a {} picture is referred to as {}", f, u)));
                }
            }
            ctx.count("slides read back", 1);
            ctx.count("bullets", b.len() as u64);
            ctx.count("table cells", rows.iter().map(|r| r.len()).sum::<usize>() as u64);
            ctx.count("code blocks", codes.len() as u64);
        }
        Ok(Out::sig(format!("{}{}{}{}{}{}", d.sig(), nums, notes, tables, images, md.len())).with_sample(md.chars().take(300).collect::<String>()))
    });
}
