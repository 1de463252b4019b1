//! HTML import: what a page says must be what the deck says.
use super::gen1::sound;
use super::md::{brief, everything, flat, line, slide_text};
use crate::report::{Ctx, Out, Res, guard};
use crate::rng::Rng;
use crate::text;
use ppt_rs::generator::{SlideContent, create_pptx_with_content};
use ppt_rs::import::{Html2Ppt, HtmlParseOptions, parse_html, parse_html_with_options};
use scraper::Html;

/// The formatting a bullet has because of the styles of the elements it is in.
#[derive(Clone, Debug, Default, PartialEq)]
struct Fmt {
    bold: bool,
    italic: bool,
    underline: bool,
    strike: bool,
    color: Option<String>,
    back: Option<String>,
    size: Option<u32>,
    font: Option<String>,
}
#[derive(Default, Clone, Debug)]
struct Want {
    /// None: made up by the importer
    title: Option<(String, Fmt)>,
    bullets: Vec<(String, Fmt)>,
    table: Option<Vec<Vec<String>>>,
    codes: Vec<String>,
    notes: Option<String>,
}

/// Text with white space around breaks and runs of it as one space.
fn tidy(s: &str) -> String {
    flat(s)
}

struct Page<'a> {
    r: &'a mut Rng,
    out: String,
    slides: Vec<Want>,
    cur: Option<Want>,
    style: Vec<Fmt>,
    kinds: Vec<&'static str>,
    hidden: Vec<String>,
    code: bool,
    tables: bool,
    images: bool,
    max: usize,
    depth: usize,
}

fn esc(r: &mut Rng, s: &str) -> String {
    let mut o = String::new();
    let v: Vec<char> = s.chars().collect();
    for (i, c) in v.iter().enumerate() {
        let next = v.get(i + 1).copied();
        match c {
            '&' => o.push_str(r.pick(&["&amp;", "&#38;", "&#x26;", "&#X26;"])),
            // a lone < before a blank or a digit is text
            '<' if next.is_some_and(|n| n == ' ' || n.is_ascii_digit()) && r.bool() => o.push('<'),
            '<' => o.push_str(r.pick(&["&lt;", "&#60;", "&#x3c;", "&#x3C;"])),
            '>' if r.bool() => o.push('>'),
            '>' => o.push_str("&gt;"),
            '"' if r.chance(1, 3) => o.push_str("&quot;"),
            '\'' if r.chance(1, 3) => o.push_str(r.pick(&["&apos;", "&#39;", "&#x27;"])),
            c if !c.is_ascii() && r.chance(1, 4) => o.push_str(&match r.below(3) {
                0 => format!("&#{};", *c as u32),
                1 => format!("&#x{:x};", *c as u32),
                _ => format!("&#X{:X};", *c as u32),
            }),
            c => o.push(*c),
        }
    }
    o
}
fn attr(r: &mut Rng, k: &str, v: &str) -> String {
    let e = esc(r, v);
    let simple = !v.is_empty() && v.chars().all(|c| c.is_ascii_alphanumeric() || "-_./:#".contains(c));
    let k = if r.chance(1, 6) { k.to_uppercase() } else { k.to_string() };
    match r.below(4) {
        0 if simple => format!(" {}={}", k, v),
        1 => format!(" {}='{}'", k, e.replace('\'', "&#39;")),
        2 => format!("\n\t{} = \"{}\"", k, e.replace('"', "&quot;")),
        _ => format!(" {}=\"{}\"", k, e.replace('"', "&quot;")),
    }
}

/// The colour names the importer knows, with the values CSS gives them.
const NAMED: [(&str, &str); 47] = [("red", "FF0000"), ("blue", "0000FF"), ("green", "008000"), ("yellow", "FFFF00"), ("white", "FFFFFF"), ("black", "000000"), ("gray", "808080"), ("grey", "808080"), ("silver", "C0C0C0"), ("maroon", "800000"), ("purple", "800080"), ("fuchsia", "FF00FF"), ("lime", "00FF00"), ("olive", "808000"), ("navy", "000080"), ("teal", "008080"), ("aqua", "00FFFF"), ("orange", "FFA500"), ("pink", "FFC0CB"), ("coral", "FF7F50"), ("tomato", "FF6347"), ("darkred", "8B0000"), ("darkblue", "00008B"), ("darkgreen", "006400"), ("darkgray", "A9A9A9"), ("darkgrey", "A9A9A9"), ("lightgray", "D3D3D3"), ("lightgrey", "D3D3D3"), ("darkorange", "FF8C00"), ("brown", "A52A2A"), ("crimson", "DC143C"), ("gold", "FFD700"), ("goldenrod", "DAA520"), ("indigo", "4B0082"), ("salmon", "FA8072"), ("chocolate", "D2691E"), ("steelblue", "4682B4"), ("violet", "EE82EE"), ("orchid", "DA70D6"), ("plum", "DDA0DD"), ("wheat", "F5DEB3"), ("deeppink", "FF1493"), ("hotpink", "FF69B4"), ("royalblue", "4169E1"), ("skyblue", "87CEEB"), ("seagreen", "2E8B57"), ("forestgreen", "228B22")];

impl Page<'_> {
    fn slide(&mut self) -> &mut Want {
        self.cur.get_or_insert_with(Want::default)
    }
    fn done(&mut self) {
        if let Some(s) = self.cur.take() {
            self.slides.push(s);
        }
    }
    fn bullet(&mut self, t: String) {
        if t.is_empty() {
            return;
        }
        let f = self.style.last().cloned().unwrap_or_default();
        let max = self.max;
        let s = self.slide();
        if s.bullets.len() < max {
            s.bullets.push((t, f));
        }
    }
    fn name(&mut self, n: &str) -> String {
        if self.r.chance(1, 8) { n.to_uppercase() } else { n.to_string() }
    }
    /// A start tag, with a style now and then; the style in force inside is pushed.
    fn open(&mut self, n: &str) {
        let mut f = self.style.last().cloned().unwrap_or_default();
        let mut a = String::new();
        if self.r.chance(1, 6) {
            a.push_str(&attr(self.r, "class", "a b<c>"));
        }
        if self.r.chance(1, 4) {
            let mut d = vec![];
            for _ in 0..1 + self.r.below(3) {
                let p = self.r.below(8);
                let s = match p {
                    0 => {
                        let (v, h) = self.colour();
                        f.color = Some(h);
                        format!("color:{}", v)
                    }
                    1 => {
                        let (v, h) = self.colour();
                        f.back = Some(h);
                        format!("background-color : {}", v)
                    }
                    2 => {
                        f.bold = self.r.bool();
                        format!("font-weight: {}", if f.bold { *self.r.pick(&["bold", "700", "bolder", "800", "900"]) } else { *self.r.pick(&["normal", "400", "300", "lighter"]) })
                    }
                    3 => {
                        f.italic = self.r.bool();
                        format!("FONT-STYLE:{}", if f.italic { *self.r.pick(&["italic", "oblique"]) } else { "normal" })
                    }
                    4 => {
                        let k = self.r.below(4);
                        f.underline = k & 1 > 0;
                        f.strike = k & 2 > 0;
                        format!("text-decoration: {}", ["none", "underline", "line-through", "underline line-through"][k])
                    }
                    5 => {
                        let n = 1 + self.r.below(120) as u32;
                        f.size = Some(n);
                        format!("font-size: {}pt", n)
                    }
                    6 => {
                        let n = self.r.pick(&["Arial", "Courier New", "Ärial"]).to_string();
                        f.font = Some(n.clone());
                        format!("font-family: '{}'", n)
                    }
                    _ => self.r.pick(&["margin: 1px", "x", ": y", "color", "unknown: é", "border: 1px solid #zzé"]).to_string(),
                };
                d.push(s);
            }
            let sep = *self.r.pick(&[";", "; ", " ;\n "]);
            let mut v = d.join(sep);
            if self.r.bool() {
                v.push(';');
            }
            a.push_str(&attr(self.r, "style", &v));
        }
        let n = self.name(n);
        self.out.push_str(&format!("<{}{}>", n, a));
        self.style.push(f);
    }
    fn colour(&mut self) -> (String, String) {
        let (r, g, b) = (self.r.below(256), self.r.below(256), self.r.below(256));
        let h = format!("{:02X}{:02X}{:02X}", r, g, b);
        match self.r.below(6) {
            0 => {
                let (n, h) = *self.r.pick(&NAMED);
                let n = match self.r.below(6) {
                    0 => n.to_uppercase(),
                    1 => n[..1].to_uppercase() + &n[1..],
                    _ => n.to_string(),
                };
                (n, h.into())
            }
            1 => (format!("{}({}, {},{})", self.r.pick(&["rgb", "rgb", "RGB"]), r, g, b), h),
            2 => (format!("{}({},{},{}, 0.5)", self.r.pick(&["rgba", "rgba", "Rgba"]), r, g, b), h),
            4 => (format!("#{}{:02x}", h, self.r.below(256)), h),
            3 => ("#a4F".into(), "AA44FF".into()),
            _ => (format!("#{}", h.to_lowercase()), h),
        }
    }
    fn close(&mut self, n: &str) {
        let n = self.name(n);
        self.out.push_str(&format!("</{}{}>", n, if self.r.chance(1, 8) { " " } else { "" }));
        self.style.pop();
    }
    /// An end tag that a reader does not need: `sure` when what follows does not end the element
    fn close_maybe(&mut self, n: &str) {
        if self.r.chance(2, 3) {
            self.close(n)
        } else {
            self.style.pop();
        }
    }
    fn gap(&mut self) {
        let g = *self.r.pick(&["", "", "\n", " ", "\n  ", "\r\n"]);
        self.out.push_str(g);
        match self.r.below(14) {
            0 => {
                let t = self.secret();
                self.out.push_str(&format!("<!-- {} -> <p>{}</p> - -- > -- ><b>{} -->", t, t, t));
                self.hidden.push(t);
            }
            1 => self.skipped(),
            _ => {}
        }
    }
    /// A word long enough not to come up by chance
    fn secret(&mut self) -> String {
        format!("{}{}", text::tag(self.r), text::tag(self.r))
    }
    fn skipped(&mut self) {
        let t = self.secret();
        let n = *self.r.pick(&["script", "style", "nav", "form", "svg", "canvas", "iframe", "noscript"]);
        let inner = match n {
            "script" => format!("if (a<b && c>d) {{ x = '<p>{}</p></div>' }} // \"", t),
            "style" => format!("p > a {{ content: '{}</p><h1>' }}", t),
            "nav" => format!("<ul><li><a href=x>{}</a><li>{}</ul><img src=logo.png><hr>", t, t),
            "form" => format!("<p>{}<input type=text><br><h2>{}</h2><label>{}</label>", t, t, t),
            "svg" => format!("<g><circle r='1'/><text>{}</text><path d='M 0 0'/></g>", t),
            "noscript" => format!("<p>{}<img src=x></p>", t),
            _ => t.clone(),
        };
        let n = self.name(n);
        self.out.push_str(&format!("<{} class=c>{}</{}>", n, inner, n));
        self.hidden.push(t);
        self.kinds.push("skipped element");
    }

    /// Inline content and the text of it.
    fn inline(&mut self) -> String {
        let n = 1 + self.r.below(4);
        let mut txt = String::new();
        for i in 0..n {
            if i > 0 {
                let s = *self.r.pick(&[" ", " ", "\n", "\n   ", "<br>", "<br/>", "<BR />", " <br>\n", "<wbr> ", " <!-- x --> ", " <!--a->b--> "]);
                self.out.push_str(s);
                txt.push(' ');
            }
            let t = text::tag(self.r);
            match self.r.below(12) {
                k @ 0..=4 => {
                    let h = [*self.r.pick(&["b", "strong"]), *self.r.pick(&["i", "em"]), *self.r.pick(&["code", "span", "u", "mark", "small"]), "sub", "font"][k];
                    let n = self.name(h);
                    self.out.push_str(&format!("<{}>{}</{}>", n, t, n));
                    txt.push_str(&t);
                }
                5 => {
                    let u = text::tag(self.r);
                    self.out.push_str(&format!("<b>{} <i>{}</i></b>", t, u));
                    txt.push_str(&format!("{} {}", t, u));
                }
                6 => {
                    let a = attr(self.r, "href", "http://example.com/a?b=c&d=/x");
                    self.out.push_str(&format!("<a{}>{}</a>", a, t));
                    txt.push_str(&t);
                }
                7 => {
                    // two words glued by markup are one word
                    let u = text::tag(self.r);
                    self.out.push_str(&format!("{}<b></b><span></span>{}", t, u));
                    txt.push_str(&format!("{}{}", t, u));
                }
                8 => {
                    let e = *self.r.pick(&["a < b", "1 <2", "x & y", "a > b", "<", "& ", "&;", "&x", "AT&T", "a <= b", "</ ", "<3"]);
                    // as a reader sees it, whatever is left bare
                    self.out.push_str(&format!("{} {}", t, e.replace("</ ", "&lt;/ ")));
                    txt.push_str(&format!("{} {}", t, e));
                }
                _ => {
                    let s = line(self.r);
                    let e = esc(self.r, &s);
                    self.out.push_str(&e);
                    txt.push_str(&s);
                }
            }
        }
        tidy(&txt)
    }

    fn list(&mut self) {
        let n = *self.r.pick(&["ul", "ol"]);
        self.open(n);
        for _ in 0..1 + self.r.below(5) {
            self.gap();
            self.open("li");
            if self.r.chance(1, 6) {
                for _ in 0..1 + self.r.below(3) {
                    let (p, f) = if self.r.bool() { ("p", true) } else { ("div", false) };
                    self.open(p);
                    let t = self.inline();
                    self.bullet(t);
                    if f { self.close_maybe(p) } else { self.close(p) }
                }
            } else {
                let t = self.inline();
                self.bullet(t);
            }
            self.close_maybe("li");
        }
        self.gap();
        self.close(n);
    }

    fn table(&mut self) {
        self.open("table");
        let mut want = vec![];
        if self.tables && self.r.chance(1, 4) {
            self.open("caption");
            let t = self.inline();
            self.bullet(t);
            self.close("caption");
        }
        let parts = self.r.bool();
        let cols = 1 + self.r.below(4);
        for (k, part) in ["thead", "tbody", "tfoot"].iter().enumerate() {
            if k > 0 && self.r.bool() && !want.is_empty() {
                continue;
            }
            if parts {
                self.gap();
                self.open(part);
            }
            for _ in 0..1 + self.r.below(3) {
                self.gap();
                self.open("tr");
                let mut row = vec![];
                for _ in 0..cols {
                    self.gap();
                    let c = if k == 0 { "th" } else { "td" };
                    self.open(c);
                    let t = match self.r.below(8) {
                        0 => String::new(),
                        1 => {
                            let mut v = vec![];
                            for _ in 0..2 {
                                self.open("p");
                                v.push(self.inline());
                                self.close_maybe("p");
                            }
                            v.join(" ")
                        }
                        2 => {
                            self.open("ul");
                            let mut v = vec![];
                            for _ in 0..2 {
                                self.open("li");
                                v.push(self.inline());
                                self.close_maybe("li");
                            }
                            self.close("ul");
                            v.join(" ")
                        }
                        3 => {
                            let (a, b) = (text::tag(self.r), text::tag(self.r));
                            self.out.push_str(&format!("<table><tr><td>{}<td>{}</table>", a, b));
                            format!("{} {}", a, b)
                        }
                        _ => self.inline(),
                    };
                    row.push(tidy(&t));
                    self.close_maybe(c);
                }
                self.close_maybe("tr");
                want.push(row);
            }
            if parts {
                self.close_maybe(part);
            }
        }
        self.gap();
        self.close("table");
        if self.tables {
            if self.cur.as_ref().is_some_and(|s| s.table.is_some()) {
                self.done();
            }
            self.slide().table = Some(want);
        }
    }

    fn block(&mut self) {
        self.gap();
        let kind = *self.r.pick(&["h1", "h1", "heading", "paragraph", "paragraph", "list", "table", "code", "quote", "image", "rule", "wrapper", "bare text"]);
        self.kinds.push(kind);
        match kind {
            "h1" => {
                self.done();
                self.open("h1");
                let f = self.style.last().cloned().unwrap();
                let t = if self.r.chance(1, 12) { String::new() } else { self.inline() };
                self.close("h1");
                self.cur = Some(Want { title: Some((if t.is_empty() { "Slide".into() } else { t }, f)), ..Default::default() });
            }
            "heading" => {
                let n = *self.r.pick(&["h2", "h3", "h4", "h5", "h6"]);
                self.open(n);
                let t = self.inline();
                self.bullet(t);
                self.close(n);
            }
            "paragraph" => {
                self.open("p");
                let t = self.inline();
                self.bullet(t);
                // what follows may be text that would belong to the paragraph
                self.close("p");
            }
            "list" => self.list(),
            "table" => self.table(),
            "code" => {
                let mut code = String::new();
                for i in 0..1 + self.r.below(5) {
                    if i > 0 {
                        code.push('\n');
                    }
                    code.push_str(*self.r.pick(&["", "    ", "\t", "  "]));
                    code.push_str(&text::tag(self.r));
                    code.push_str(*self.r.pick(&["", " < 3 && x > y", "<T>", " // \"é\" & 'z'", "  a   b", "**x**", "</p>"]));
                }
                let inner = self.r.bool();
                self.open("pre");
                if inner {
                    self.open("code");
                }
                let lead = *self.r.pick(&["", "\n"]);
                let e = esc(self.r, &code);
                self.out.push_str(&format!("{}{}", lead, e));
                if inner {
                    self.close("code");
                }
                self.close("pre");
                if self.code {
                    self.slide().codes.push(code);
                }
            }
            "quote" => {
                self.open("blockquote");
                let mut v = vec![];
                for _ in 0..1 + self.r.below(3) {
                    if self.r.bool() {
                        let n = *self.r.pick(&["p", "div", "h3", "footer"]);
                        self.open(n);
                        v.push(self.inline());
                        self.close(n);
                    } else {
                        v.push(self.inline());
                        self.out.push(' ');
                    }
                }
                self.close("blockquote");
                let t = v.join(" ");
                self.slide().notes = Some(tidy(&t));
            }
            "image" => {
                let t = text::tag(self.r);
                let src = format!("no/such/{}.png", t);
                let alt = if self.r.bool() { Some(line(self.r)).filter(|a| !a.is_empty()) } else { None };
                let mut a = vec![attr(self.r, "src", &src)];
                if let Some(x) = &alt {
                    a.push(attr(self.r, "alt", x));
                }
                self.r.shuffle(&mut a);
                let n = self.name("img");
                let end = if a.last().unwrap().ends_with(['"', '\'']) { *self.r.pick(&[">", "/>", " />"]) } else { *self.r.pick(&[">", " />"]) };
                self.out.push_str(&format!("<{}{}{}", n, a.concat(), end));
                if self.images {
                    self.bullet(tidy(&format!("[Image: {}]", alt.unwrap_or(src))));
                }
            }
            "rule" => {
                let h = *self.r.pick(&["<hr>", "<hr/>", "<HR class=x>"]);
                self.out.push_str(h);
                self.done();
            }
            "wrapper" if self.depth < 4 => {
                self.depth += 1;
                let n = *self.r.pick(&["div", "section", "article", "main", "header", "footer", "aside", "center"]);
                self.open(n);
                for _ in 0..self.r.below(4) {
                    self.block();
                }
                self.gap();
                self.close(n);
                self.depth -= 1;
            }
            _ => {
                // text that is ended by the start or the end of a block
                self.open("div");
                let t = self.inline();
                self.bullet(t);
                if self.r.bool() {
                    self.open("p");
                    let t = self.inline();
                    self.bullet(t);
                    self.close_maybe("p");
                }
                self.close("div");
            }
        }
    }
}

fn check(w: &Want, s: &SlideContent) -> Result<(), String> {
    if let Some((t, f)) = &w.title {
        if flat(&s.title) != *t {
            return Err(format!("title {:?} instead of {:?}", s.title, t));
        }
        let got = (s.title_color.clone(), s.title_size, f.bold && !s.title_bold, f.italic && !s.title_italic, f.underline && !s.title_underline);
        if got.0 != f.color || (f.size.is_some() && got.1 != f.size) || got.2 || got.3 || got.4 {
            return Err(format!("title {:?} with {:?} size {:?} bold {} italic {} underlined {} instead of {:?}", t, s.title_color, s.title_size, s.title_bold, s.title_italic, s.title_underline, f));
        }
    }
    let got: Vec<String> = s.content.iter().map(|b| flat(b)).collect();
    let want: Vec<String> = w.bullets.iter().map(|b| b.0.clone()).collect();
    if got != want {
        let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return Err(format!("{} bullets instead of {}; number {} is {:?} instead of {:?}", got.len(), want.len(), i, got.get(i), want.get(i)));
    }
    if s.bullets.len() != want.len() {
        return Err(format!("{} bullets and {} lines of text", s.bullets.len(), want.len()));
    }
    for (b, (t, f)) in s.bullets.iter().zip(&w.bullets) {
        if flat(&b.text) != *t {
            return Err(format!("bullet {:?} instead of {:?}", b.text, t));
        }
        let g = b.format.clone().unwrap_or_default();
        let g = Fmt { bold: g.bold, italic: g.italic, underline: g.underline, strike: g.strikethrough, color: g.color, back: g.highlight, size: g.font_size, font: g.font_family };
        if g != *f {
            return Err(format!("bullet {:?} is formatted {:?} instead of {:?}", t, g, f));
        }
    }
    let rows = s.table.as_ref().map(|t| t.rows.iter().map(|r| r.cells.iter().map(|c| flat(&c.text)).collect::<Vec<_>>()).collect::<Vec<_>>());
    if rows != w.table {
        return Err(format!("table {:?} instead of {:?}", rows, w.table));
    }
    let lines = |c: &str| c.replace('\r', "").trim_matches('\n').trim_end().to_string();
    let codes: Vec<String> = s.code_blocks.iter().map(|c| lines(&c.code)).collect();
    let want: Vec<String> = w.codes.iter().map(|c| lines(c)).collect();
    if codes != want {
        return Err(format!("code {:?} instead of {:?}", codes, want));
    }
    let notes = s.notes.as_ref().map(|n| tidy(n)).unwrap_or_default();
    if notes != w.notes.clone().unwrap_or_default() {
        return Err(format!("notes {:?} instead of {:?}", notes, w.notes));
    }
    if !s.images.is_empty() || !s.shapes.is_empty() {
        return Err("pictures or shapes that are not in the document".into());
    }
    Ok(())
}

fn words(s: &str) -> Vec<String> {
    s.split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| w.len() == 6 && w.starts_with('k')).map(|w| w.to_string()).collect()
}

/// A tree of elements, some of them without their end tag.
fn tree(r: &mut Rng, depth: usize, list: bool, hidden: bool, quoted: &mut bool, drop: bool, secret: &mut Vec<String>, out: &mut String) {
    for _ in 0..1 + r.below(5) {
        match r.below(10) {
            0..=3 => {
                out.push_str(&text::tag(r));
                out.push_str(*r.pick(&[" ", "\n", "", "<br>", "&amp;"]));
            }
            4 => {
                let v = *r.pick(&["<img>", "<input>", "<hr>", "<wbr>", "<br>", "<!-- </div> -->", "</b>", "</p>", "</span>", "</section>", "<meta a=b>"]);
                out.push_str(v);
            }
            _ if depth == 0 => out.push_str(&text::tag(r)),
            _ => {
                let n = *r.pick(&[
                    "div", "p", "span", "b", "i", "em", "strong", "a", "h1", "h2", "h5", "ul", "ol", "table", "blockquote", "pre", "code", "section", "main", "article", "dl", "figure", "details", "nav", "form", "script", "style", "noscript", "canvas", "iframe", "u",
                ]);
                let skip = ["nav", "form", "script", "style", "noscript", "canvas", "iframe"].contains(&n);
                // an element that is skipped is not put in another: a browser has rules of its own for some
                if matches!(n, "ul" | "ol") && list || n == "blockquote" && *quoted || hidden && matches!(n, "h1" | "h2" | "h5") || skip && (hidden || r.bool()) {
                    continue;
                }
                out.push_str(&format!("<{}>", n));
                let at = out.len();
                match n {
                    "ul" | "ol" => {
                        for _ in 0..1 + r.below(3) {
                            out.push_str("<li>");
                            tree(r, depth - 1, true, hidden, quoted, drop, secret, out);
                            if r.bool() {
                                out.push_str("</li>");
                            }
                        }
                    }
                    "dl" => {
                        for _ in 0..1 + r.below(3) {
                            out.push_str("<dt>");
                            tree(r, 0, list, hidden, quoted, drop, secret, out);
                            out.push_str("<dd>");
                            tree(r, depth - 1, list, hidden, quoted, drop, secret, out);
                        }
                    }
                    "table" => {
                        if r.chance(1, 4) {
                            out.push_str(&format!("<caption>{}</caption>", text::tag(r)));
                        }
                        for _ in 0..1 + r.below(3) {
                            out.push_str("<tr>");
                            for _ in 0..1 + r.below(3) {
                                out.push_str(*r.pick(&["<td>", "<th>"]));
                                tree(r, depth - 1, list, hidden, quoted, drop, secret, out);
                                if r.bool() {
                                    out.push_str("</td>");
                                }
                            }
                        }
                    }
                    "script" | "style" | "iframe" | "canvas" | "noscript" => out.push_str(&if n == "canvas" || n == "noscript" { format!("{} <b>{}</b>", text::tag(r), text::tag(r)) } else { format!("{} <p>{}</p>", text::tag(r), text::tag(r)) }),
                    "blockquote" => {
                        *quoted = true;
                        tree(r, depth - 1, list, hidden, quoted, drop, secret, out);
                    }
                    _ => tree(r, depth - 1, list, hidden || skip, quoted, drop && !skip, secret, out),
                }
                if skip {
                    secret.extend(words(&out[at..]));
                }
                if skip || matches!(n, "ul" | "ol" | "blockquote") || n == "table" && list || !drop || !r.chance(1, 4) {
                    out.push_str(&format!("</{}>", n));
                }
            }
        }
    }
}

/// Words a browser's parser sees, those in elements that are not content apart.
fn browser(html: &str) -> (Vec<String>, Vec<String>) {
    let (mut shown, mut hidden) = (vec![], vec![]);
    for n in Html::parse_document(html).tree.nodes() {
        if let Some(t) = n.value().as_text() {
            let skip = n.ancestors().any(|a| a.value().as_element().is_some_and(|e| ["script", "style", "nav", "form", "svg", "canvas", "iframe", "noscript", "title"].contains(&e.name())));
            (if skip { &mut hidden } else { &mut shown }).extend(words(t));
        }
    }
    (shown, hidden)
}

/// A page, for checks that only need one.
pub fn page(r: &mut Rng) -> String {
    let n = 1 + r.below(14);
    let mut d = Page { r, out: String::new(), slides: vec![], cur: None, style: vec![], kinds: vec![], hidden: vec![], code: true, tables: true, images: true, max: 10, depth: 0 };
    for _ in 0..n {
        d.block();
    }
    d.out
}

pub fn c17(ctx: &Ctx) {
    ctx.rule("Distinct by the sequence of elements of the page and its length.");
    let dir = ctx.scratch.clone();
    ctx.cases("pages", ctx.n(18_000, 200_000), |r: &mut Rng, id| -> Res {
        let n = 1 + r.below(14);
        let opts = (r.chance(1, 4), !r.chance(1, 6), !r.chance(1, 6), !r.chance(1, 6));
        let (max, most) = if opts.0 { (r.below(6), r.below(5)) } else { (10, 50) };
        let mut d = Page { r, out: String::new(), slides: vec![], cur: None, style: vec![], kinds: vec![], hidden: vec![], code: opts.1, tables: opts.2, images: opts.3, max, depth: 0 };
        if d.r.bool() {
            let t = d.secret();
            d.out.push_str(&format!("<!DOCTYPE html>\n<html><head><meta charset=utf-8><title>{} &lt;</title><link rel=x><style>b{{}}</style></head>\n<body>", t));
            d.hidden.push(t);
        }
        for _ in 0..n {
            d.block();
        }
        d.done();
        let Page { out: html, mut slides, kinds, hidden, .. } = d;
        let show = |e: String| format!("{} — max {} of {}, code {} tables {} images {}:\n{}", e, max, most, opts.1, opts.2, opts.3, html);
        let o = HtmlParseOptions::new().max_bullets(max).max_slides(most).include_code(opts.1).include_tables(opts.2).include_images(opts.3);
        let none = slides.is_empty();
        slides.truncate(most);
        let got = guard(|| parse_html_with_options(&html, o.clone())).map_err(|(m, l)| show(format!("panic: {} at {}", m, l)))?;
        let got = match got {
            Ok(g) => g,
            Err(_) if none => return Ok(Out::trivial()),
            Err(e) => return Err(show(format!("refused: {}", e))),
        };
        if got.len() != slides.len() {
            return Err(show(format!("{} slides {:?} instead of {}", got.len(), got.iter().map(|s| &s.title).collect::<Vec<_>>(), slides.len())));
        }
        for (i, (w, g)) in slides.iter().zip(&got).enumerate() {
            check(w, g).map_err(|e| show(format!("slide {}: {}", i + 1, e)))?;
        }
        let all = brief(&got);
        if let Some(h) = hidden.iter().find(|h| all.contains(h.as_str())) {
            return Err(show(format!("{:?} is no content and is in the deck", h)));
        }
        for k in &kinds {
            ctx.count(k, 1);
        }
        if html.len() % 4 == 0 {
            // the other ways in
            let f = dir.join(format!("p{}.html", id));
            std::fs::write(&f, &html).unwrap();
            let a = Html2Ppt::with_options(o).parse_file(f.to_str().unwrap());
            let _ = std::fs::remove_file(&f);
            if a.map(|a| format!("{:?}", a)) != Ok(format!("{:?}", got)) {
                return Err(show("the page read from a file gives another deck".into()));
            }
            if got.is_empty() {
                return Ok(Out::trivial());
            }
            let b = create_pptx_with_content("Deck", got).map_err(|e| show(e.to_string()))?;
            let k = sound(&b).map_err(show)?;
            for (w, p) in slides.iter().zip(k.slides()) {
                let (paras, notes) = slide_text(&k, &p)?;
                // a table takes the place of the bullets: known finding of C18
                let mut need: Vec<String> = w.bullets.iter().filter(|_| w.table.is_none()).map(|b| b.0.clone()).collect();
                need.extend(w.title.iter().map(|t| t.0.clone()));
                need.extend(w.codes.iter().flat_map(|c| c.lines().map(flat).collect::<Vec<_>>()));
                need.extend(w.table.iter().flatten().flatten().cloned());
                let joined = tidy(&paras.join(" "));
                for t in need.iter().filter(|t| !t.is_empty()) {
                    if !joined.contains(t.as_str()) {
                        return Err(show(format!("{}: {:?} is not on the slide: {:?}", p, t, paras)));
                    }
                }
                if let Some(t) = &w.notes
                    && !notes.contains(t.as_str()) {
                        return Err(show(format!("{}: {:?} is not in the notes: {:?}", p, t, notes)));
                    }
            }
            ctx.count("decks written and read back", 1);
        }
        Ok(Out::sig(format!("{:?}{}", kinds, html.len())).with_sample(html.chars().take(300).collect::<String>()))
    });
    ctx.probe("nested-list", || {
        let s = parse_html("<h1>T</h1><ul><li>kfirst</li><li>kouter<ul><li>kinner</li></ul></li></ul>")?;
        if s[0].content != ["kfirst", "kouter", "kinner"] {
            return Err(format!("the items of nested lists are {:?}", s[0].content));
        }
        Ok(())
    });
    ctx.probe("several-quotes", || {
        let s = parse_html("<h1>T</h1><blockquote>kfirst</blockquote><blockquote>ksecond</blockquote>")?;
        if !s[0].notes.as_ref().is_some_and(|n| n.contains("kfirst") && n.contains("ksecond")) {
            return Err(format!("the notes of two quotations are {:?}", s[0].notes));
        }
        Ok(())
    });
    // any tree of elements: the words a browser shows, no others
    ctx.cases("trees", ctx.n(16_000, 300_000), |r: &mut Rng, _| -> Res {
        let mut html = String::new();
        let (mut quoted, mut secret) = (false, vec![]);
        let drop = r.bool();
        tree(r, 1 + r.clone().below(3), false, false, &mut quoted, drop, &mut secret, &mut html);
        let show = |e: String| format!("{} — {}", e, html);
        let (shown, hidden) = browser(&html);
        let o = HtmlParseOptions::new().max_bullets(100_000).max_slides(100_000);
        let got = guard(|| parse_html_with_options(&html, o)).map_err(|(m, l)| show(format!("panic: {} at {}", m, l)))?;
        let all = got.as_ref().map(|s| s.iter().map(|x| everything(x)).collect::<Vec<_>>().join("\n")).unwrap_or_default();
        // (a word in a skipped element that a browser moves out of it is left open)
        for w in shown.iter().filter(|w| !secret.contains(w)) {
            if !all.contains(w.as_str()) {
                return Err(show(format!("{:?} is on the page and not in the deck: {:?}", w, all)));
            }
        }
        for w in hidden.iter().filter(|w| secret.contains(w) && html.matches(w.as_str()).count() == 1) {
            if all.contains(w.as_str()) {
                return Err(show(format!("{:?} is not shown on the page and is in the deck: {:?}", w, all)));
            }
        }
        ctx.count("words accounted for", shown.len() as u64);
        ctx.count("hidden words absent", hidden.len() as u64);
        Ok(Out::sig(html.clone()))
    });
    // anything at all: no panic, an end, the same result twice, a sound deck
    ctx.cases("soup", ctx.n(5000, 200_000), |r: &mut Rng, _| -> Res {
        let mut html = String::new();
        for _ in 0..r.below(60) {
            match r.below(4) {
                0 => html.push_str(&text::tag(r)),
                1 => html.push_str(&super::html::tagged(r)),
                2 => html.push_str(*r.pick(&[
                    "<", "</", "<!", "<!-", "<!--", "<!-->", "-->", "<?", "<p", "<p ", "<p a", "<p a=", "<p a='", "<p style=\"color:#é12345\">", "<p style='font-size:-3px'>", "<li style='font-size:1e30px'>", "<h1 style='font-size:NaNpx;color:#ééé'>", "<p style='font-size:99999999999'>",
                    "<p style='color:rgb(1,2)'>", "<p style='color:rgb(300,-1,0)'>", "<p style='font-size:0'>", "</td>", "<td>", "<tr>", "<table>", "</table>", "<blockquote>", "<pre>", "</pre>", "<ul>", "<li>", "</ul>", "<hr>", "<h1>", "</h1>", "<h2>", "<script>", "<style>", "</script", "<title>", "<svg/>", "<img src=''>", "<img src='a\u{0}b' alt='x'>",
                    "&", "&#", "&#x", "&#xFFFFFFFF;", "&#0;", "&#xD800;", "&#65534;", "é", "\u{0}", "\u{feff}",
                ])),
                _ => html.push_str(&text::any(r)),
            }
        }
        if r.chance(1, 200) {
            let t = *r.pick(&["<div>", "<b>", "<ul><li>", "<table><tr><td>", "<p style='color:red'>", "<nav>", "<h1>"]);
            html = format!("{}{}{}", html, t.repeat(3000), text::tag(r));
        }
        let show = |e: String| format!("{} — {:?}", e, html);
        let run = || guard(|| parse_html(&html)).map_err(|(m, l)| show(format!("panic: {} at {}", m, l)));
        let (a, b) = (run()?, run()?);
        if format!("{:?}", a) != format!("{:?}", b) {
            return Err(show("two runs differ".into()));
        }
        if let Ok(s) = a {
            let b = guard(|| create_pptx_with_content("Deck", s)).map_err(|(m, l)| show(format!("panic: {} at {}", m, l)))?.map_err(|e| show(e.to_string()))?;
            sound(&b).map_err(show)?;
            ctx.count("decks of broken pages", 1);
        }
        Ok(Out::sig(html.clone()))
    });
}
