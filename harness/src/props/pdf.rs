//! PDF export: one sound page per slide that shows the slide's texts.
use crate::pdf::{self, CP1252, Page, Shown};
use crate::report::{Ctx, Out, Res, guard};
use crate::rng::Rng;
use crate::spec::deck::{self, DeckS, SlideS};
use crate::text;
use ppt_rs::api::Presentation;
use ppt_rs::export::slide_render::{render_to_pdf, render_to_pdf_bytes};
use ppt_rs::generator::slide_content::BulletStyle;

/// The characters of a text as a PDF font with the Latin alphabet shows them: itself, or one
/// stand-in; blanks are left out.
fn ink(s: &str) -> Vec<Option<char>> {
    s.chars()
        .filter(|c| !c.is_control() && *c != ' ' && *c != '\u{a0}')
        .map(|c| match c {
            '!'..='~' | '\u{a1}'..='\u{ff}' => Some(c),
            c if CP1252.contains(&c) => Some(c),
            _ => None,
        })
        .collect()
}
fn dark(s: &str) -> Vec<char> {
    s.chars().filter(|c| !c.is_control() && *c != ' ' && *c != '\u{a0}').collect()
}
fn same(got: &[char], want: &[Option<char>]) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(g, w)| w.is_none_or(|w| w == *g))
}

fn roman(mut n: u32) -> String {
    let mut o = String::new();
    for (v, s) in [(1000, "m"), (900, "cm"), (500, "d"), (400, "cd"), (100, "c"), (90, "xc"), (50, "l"), (40, "xl"), (10, "x"), (9, "ix"), (5, "v"), (4, "iv"), (1, "i")] {
        while n >= v {
            o.push_str(s);
            n -= v;
        }
    }
    o
}

/// What stands before bullet `i`: numbers go up over the neighbours of its level and style.
fn prefix(all: &[(u32, BulletStyle)], i: usize) -> String {
    let (level, style) = all[i];
    let mut n = 1;
    for (l, s) in all[..i].iter().rev() {
        if *l < level || *l == level && *s != style {
            break;
        }
        n += (*l == level) as u32;
    }
    let letters = || {
        let c = (b'a' + ((n - 1) % 26) as u8) as char;
        std::iter::repeat_n(c, ((n - 1) / 26 + 1) as usize).collect::<String>()
    };
    match style {
        BulletStyle::Bullet => "•".into(),
        BulletStyle::Number => format!("{}.", n),
        BulletStyle::LetterLower => format!("{}.", letters()),
        BulletStyle::LetterUpper => format!("{}.", letters().to_uppercase()),
        BulletStyle::RomanLower => format!("{}.", roman(n)),
        BulletStyle::RomanUpper => format!("{}.", roman(n).to_uppercase()),
        BulletStyle::Custom(c) => c.to_string(),
        BulletStyle::None => String::new(),
    }
}

fn font(b: bool, i: bool) -> &'static str {
    match (b, i) {
        (true, true) => "Helvetica-BoldOblique",
        (true, false) => "Helvetica-Bold",
        (false, true) => "Helvetica-Oblique",
        (false, false) => "Helvetica",
    }
}
fn rgb(hex: &str) -> [f64; 3] {
    let h = hex.trim_start_matches('#');
    let n = |i: usize| u8::from_str_radix(&h[i..i + 2], 16).unwrap_or(0) as f64 / 255.0;
    [n(0), n(2), n(4)]
}

/// How a text is to look
struct Look {
    font: &'static str,
    color: Option<[f64; 3]>,
    underline: bool,
}

struct Reader<'a> {
    page: &'a Page,
    at: usize,
    checked: u64,
}

impl<'a> Reader<'a> {
    /// The next strings, which together hold `n` visible characters
    fn take(&mut self, n: usize, what: &str) -> Result<&'a [Shown], String> {
        let s = self.at;
        let mut have = 0;
        while have < n {
            let Some(t) = self.page.shown.get(self.at) else { return Err(format!("the page ends before the end of {}", what)) };
            have += dark(&t.text).len();
            self.at += 1;
        }
        if have != n {
            return Err(format!("{} is followed by other text in {:?}", what, self.page.shown[self.at - 1].text));
        }
        Ok(&self.page.shown[s..self.at])
    }
    fn look(&mut self, t: &Shown, l: &Look, what: &str) -> Result<(), String> {
        if dark(&t.text).is_empty() {
            return Ok(());
        }
        if t.font != l.font {
            return Err(format!("{} is in {} instead of {}", what, t.font, l.font));
        }
        if let Some(c) = l.color
            && c.iter().zip(t.color).any(|(a, b)| (a - b).abs() > 0.003)
        {
            return Err(format!("{} is in colour {:?} instead of {:?}", what, t.color, c));
        }
        let under = self.page.lines.iter().any(|(p, c)| {
            p[1] == p[3] && p[1] <= t.y && p[1] > t.y - 0.4 * t.size && (p[0] - t.x).abs() < 0.01 && p[2] > p[0] && c.iter().zip(t.color).all(|(a, b)| (a - b).abs() < 0.003)
        });
        if under != l.underline {
            return Err(format!("{} is {}underlined", what, if under { "" } else { "not " }));
        }
        self.checked += 1;
        Ok(())
    }
    fn text(&mut self, want: &str, l: &Look, what: &str) -> Result<(), String> {
        let w = ink(want);
        let s = self.take(w.len(), what)?;
        let got: Vec<char> = s.iter().flat_map(|t| dark(&t.text)).collect();
        if !same(&got, &w) {
            return Err(format!("{} {} is shown as {:?}", what, text::short(want), s.iter().map(|t| &t.text).collect::<Vec<_>>()));
        }
        for t in s {
            self.look(t, l, what)?;
        }
        // what is kept apart in the text is kept apart on the page, and every line break is one
        let mut shown = vec![];
        for (k, t) in s.iter().enumerate() {
            for c in t.text.chars() {
                match c {
                    ' ' | '\u{a0}' => shown.push((' ', k)),
                    _ if c.is_control() => {}
                    _ => shown.push((c, k)),
                }
            }
            shown.push((' ', k));
        }
        let ink_at: Vec<(bool, usize)> = shown.iter().enumerate().filter(|(_, c)| c.0 != ' ').map(|(i, c)| (i > 0 && shown[i - 1].0 == ' ', c.1)).collect();
        let (mut at, mut blank, mut broken) = (0, false, false);
        for c in want.chars() {
            match c {
                '\n' | '\r' | '\u{b}' => (blank, broken) = (true, true),
                ' ' | '\t' | '\u{a0}' => blank = true,
                _ if c.is_control() => {}
                _ => {
                    if at > 0 && (blank && !ink_at[at].0 || broken && ink_at[at].1 == ink_at[at - 1].1) {
                        return Err(format!("{} {} is shown as {:?}, run together before {:?}", what, text::short(want), s.iter().map(|t| &t.text).collect::<Vec<_>>(), c));
                    }
                    at += 1;
                    (blank, broken) = (false, false);
                }
            }
        }
        Ok(())
    }
}

/// How far a text reaches at least.
fn long(t: &Shown) -> f64 {
    t.text.trim_end().chars().map(|c| pdf::advance(&t.font, c)).sum::<f64>() * t.size
}

fn check(s: &SlideS, page: &Page, i: usize, n: usize) -> Result<u64, String> {
    let mut r = Reader { page, at: 0, checked: 0 };
    let col = |c: &Option<(String, String)>| c.as_ref().map(|c| rgb(&c.1));
    r.text(&s.title, &Look { font: font(s.title_bold, s.title_italic), color: col(&s.title_color), underline: s.title_underline }, "the title")?;
    let built = s.build();
    let all: Vec<(u32, BulletStyle)> = built.bullets.iter().map(|b| (b.level, b.style)).collect();
    for (k, b) in s.bullets.iter().enumerate() {
        let f = b.fmt.as_ref().filter(|_| b.via > 4 && !s.plain_content);
        let l = Look {
            font: font(s.content_bold || f.is_some_and(|f| f.bold), s.content_italic || f.is_some_and(|f| f.italic)),
            color: f.and_then(|f| col(&f.color)).or(col(&s.content_color)),
            underline: s.content_underline || f.is_some_and(|f| f.underline),
        };
        let p = if s.plain_content { String::new() } else { prefix(&all, k) };
        r.text(&format!("{}{}", p, b.text), &l, &format!("bullet {}", k + 1))?;
    }
    let l = Look { font: font(s.content_bold, s.content_italic), color: col(&s.content_color), underline: false };
    for (k, row) in built.table.iter().flat_map(|t| &t.rows).enumerate() {
        let cells: Vec<Vec<Option<char>>> = row.cells.iter().filter(|c| !c.h_merge && !c.v_merge).map(|c| ink(&c.text)).collect();
        let what = format!("row {} of the table", k + 1);
        let got = r.take(cells.iter().map(|c| c.len()).sum(), &what)?;
        let mut v: Vec<&Shown> = got.iter().filter(|t| !dark(&t.text).is_empty()).collect();
        v.sort_by(|a, b| a.x.total_cmp(&b.x));
        let g: Vec<char> = v.iter().flat_map(|t| dark(&t.text)).collect();
        if !same(&g, &cells.concat()) {
            return Err(format!("{} is shown as {:?}", what, v.iter().map(|t| &t.text).collect::<Vec<_>>()));
        }
        let mut xs: Vec<f64> = v.iter().map(|t| t.x).collect();
        xs.dedup();
        for t in &v {
            let next = xs.iter().copied().filter(|x| *x > t.x).fold(page.width, f64::min);
            if t.text.chars().count() > 1 && t.x + long(t) > next + 0.1 {
                return Err(format!("{:?} in {} runs from {} to {}, over the next text at {}", t.text, what, t.x, t.x + long(t), next));
            }
        }
        let w = cells.iter().filter(|c| !c.is_empty()).count();
        if xs.len() != w {
            return Err(format!("{} has {} cells with text, shown in {} columns", what, w, xs.len()));
        }
        for t in got {
            r.look(t, &l, &what)?;
        }
    }
    for (k, c) in s.code.iter().enumerate() {
        for (m, line) in c.code.lines().enumerate() {
            r.text(line, &Look { font: "Courier", color: None, underline: false }, &format!("line {} of code block {}", m + 1, k + 1))?;
        }
    }
    r.text(&format!("{} / {}", i + 1, n), &Look { font: "Helvetica", color: None, underline: false }, "the slide number")?;
    if let Some(t) = page.shown[r.at..].iter().find(|t| !dark(&t.text).is_empty()) {
        return Err(format!("{:?} is shown after the slide number", t.text));
    }
    let mut last = page.height;
    for t in &page.shown {
        if t.text.trim_end().chars().count() > 1 && t.x + long(t) > page.width + 0.1 {
            return Err(format!("{:?} in {} of size {} runs from {} to {} on a page {} wide", t.text, t.font, t.size, t.x, t.x + long(t), page.width));
        }
        if t.x < 0.0 || t.x > page.width || t.y < 0.0 || t.y + t.size * 0.6 > page.height || !(t.size > 0.0) {
            return Err(format!("{:?} of size {} stands at {}, {} on a page of {} by {}", t.text, t.size, t.x, t.y, page.width, page.height));
        }
        if t.y > last + 1e-3 {
            return Err(format!("{:?} stands above the text before it", t.text));
        }
        last = t.y;
    }
    // Lines of the body do not run into each other
    let mut ys: Vec<(f64, f64)> = page.shown.iter().filter(|t| !dark(&t.text).is_empty()).map(|t| (t.y, t.size)).collect();
    ys.dedup_by(|a, b| (a.0 - b.0).abs() < 1e-3);
    for w in ys.windows(2) {
        if w[0].0 - w[1].0 < w[1].1 * 0.7 {
            return Err(format!("text of size {} at {} runs into the text above it at {}", w[1].1, w[1].0, w[0].0));
        }
    }
    Ok(r.checked)
}

fn latin(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.below(5) {
        match r.below(5) {
            0 => s.push_str(&text::tag(r)),
            1 => s.push_str(&text::ascii(r)),
            2 => s.push_str(*r.pick(&["(", ")", "\\", "((", "\\)", ") Tj ET", "%", "<<", ">>", "/F1", "endstream", "endobj", "BT", "\\051", "[", "]", "{", "}", "\\n", "\r", "\n", "\t", "é", "ß", "€", "™", "’", "“", "…", "•", "–", "ÿ", "\u{ad}", "日本", "🙂", "\u{301}", "Ω", "\u{81}", "\u{7f}", "\u{0}"])),
            3 => {
                let few: &[char] = *r.pick(&[&['a', 'b', 'W', 'i', ' ', '.', 'x'][..], &['W', 'm', '@'], &['M', ' '], &['i', 'l'], &['Æ', '—'], &['n', ' ', 'é']]);
                for _ in 0..1 + r.below(60) {
                    s.push(*r.pick(few));
                }
            }
            _ if r.bool() => s.push(' '),
            _ => s.push(if r.bool() { *r.pick(&CP1252) } else { char::from(0xa0 + r.below(0x60) as u8) }),
        }
    }
    s
}

fn deck(r: &mut Rng, dir: Option<&std::path::Path>) -> DeckS {
    let p = if r.chance(1, 3) { deck::TEXT } else { deck::ALL };
    let mut d = deck::random(r, &p, dir);
    for s in d.slides.iter_mut() {
        let some = |r: &mut Rng, old: String| if r.chance(1, 2) { latin(r) } else { old };
        s.title = some(r, s.title.clone());
        for b in s.bullets.iter_mut() {
            b.text = some(r, b.text.clone());
        }
        if r.chance(1, 8) {
            // many bullets, few styles and levels
            let n = r.below(120);
            let pool: Vec<_> = s.bullets.clone();
            if !pool.is_empty() {
                s.bullets = (0..n).map(|_| pool[r.below(pool.len())].clone()).collect();
            }
        }
        for c in s.code.iter_mut() {
            if r.bool() {
                c.code = latin(r);
            }
        }
    }
    d
}

pub fn c22(ctx: &Ctx) {
    ctx.rule("the PDF file is read strictly: header, cross-reference table, lengths, references, page tree, resources, operators");
    ctx.rule("page i shows, in order, the title, bullets with their numbers, table cells, code and number of slide i: no character more or less");
    ctx.rule("fonts, colours and underlines are those of the slide; all text stands inside the page, in lines that do not run into each other");
    let dir = ctx.scratch.join("c22");
    let _ = std::fs::create_dir_all(&dir);
    let n = ctx.n(2500, 80000);
    ctx.cases("rendered", n, |r, _| -> Res {
        let d = deck(r, Some(&dir));
        let mut p = Presentation::with_title(&d.title);
        for s in &d.slides {
            p = p.add_slide(s.build());
        }
        let run = |f: &mut dyn FnMut() -> ppt_rs::exc::Result<Vec<u8>>| guard(|| f()).map_err(|(m, l)| format!("panic: {} at {}", m, l));
        let via = r.below(8);
        let out = match via {
            0 | 1 => {
                let f = dir.join(format!("{}.pdf", r.u64()));
                if r.bool() {
                    let _ = std::fs::write(&f, vec![b'%'; 200_000]);
                }
                let o = run(&mut || {
                    if via == 0 { p.save_as_pdf(&f)? } else { render_to_pdf(&p, &f)? }
                    Ok(std::fs::read(&f)?)
                });
                let _ = std::fs::remove_file(&f);
                ctx.count("through a file", 1);
                o?
            }
            _ => run(&mut || render_to_pdf_bytes(&p))?,
        };
        if d.slides.is_empty() {
            return if out.is_err() { Ok(Out::trivial()) } else { Err("a deck without slides gives a PDF file".into()) };
        }
        let b = out.map_err(|e| e.to_string())?;
        let doc = pdf::parse(&b)?;
        if doc.pages.len() != d.slides.len() {
            return Err(format!("{} slides give {} pages", d.slides.len(), doc.pages.len()));
        }
        ctx.count("pages", doc.pages.len() as u64);
        for (i, (s, page)) in d.slides.iter().zip(&doc.pages).enumerate() {
            if page.width <= page.height {
                return Err(format!("page {} is {} by {}", i + 1, page.width, page.height));
            }
            let c = check(s, page, i, d.slides.len()).map_err(|e| format!("slide {}: {}", i + 1, e))?;
            ctx.count("strings", c);
            ctx.count("operators", page.ops as u64);
        }
        Ok(Out::sig(d.sig()))
    });
    flowed(ctx, &dir);
    let _ = std::fs::remove_dir_all(&dir);
}

/// The other PDF export, by way of Markdown: sound pages that hold the words of the deck.
fn flowed(ctx: &Ctx, dir: &std::path::Path) {
    use ppt_rs::export::pdf_export::{PdfExportOptions, PdfOrientation, export_to_pdf, export_to_pdf_bytes};
    ctx.cases("flowed", ctx.n(800, 20000), |r, _| -> Res {
        let mut d = deck(r, Some(dir));
        let plain = r.bool();
        if plain {
            for s in d.slides.iter_mut() {
                s.title = text::tag(r);
                for b in s.bullets.iter_mut() {
                    b.text = text::tag(r);
                }
                s.notes = s.notes.as_ref().map(|_| text::tag(r));
                for c in s.code.iter_mut() {
                    c.code = text::tag(r);
                }
            }
        }
        let mut p = Presentation::with_title(&d.title);
        for s in &d.slides {
            p = p.add_slide(s.build());
        }
        let (notes, with_images) = (r.bool(), r.bool());
        let mut o = PdfExportOptions::new().with_frontmatter(r.bool()).with_notes(notes).with_images(with_images).with_font_size(*r.pick(&[0.0, 1.0, 8.0, 12.0, 24.0, 72.0]));
        if r.bool() {
            o = o.with_orientation(PdfOrientation::Landscape);
        }
        if r.bool() {
            o = o.with_font(*r.pick(&["Helvetica", "Times-Roman", "Courier"]));
        }
        let f = dir.join(format!("f{}.pdf", r.u64()));
        let file = r.chance(1, 4);
        let b = guard(|| if file { export_to_pdf(&p, &f, &o) } else { export_to_pdf_bytes(&p, &o) }).map_err(|(m, l)| format!("panic: {} at {}", m, l))?.map_err(|e| e.to_string())?;
        if file && std::fs::read(&f).ok().as_ref() != Some(&b) {
            return Err("the file holds other bytes than were returned".into());
        }
        let _ = std::fs::remove_file(&f);
        let doc = pdf::parse(&b)?;
        let all: String = doc.pages.iter().flat_map(|p| &p.shown).flat_map(|t| dark(&t.text)).collect();
        let pics: usize = d.slides.iter().map(|s| s.images.len()).sum();
        let drawn: usize = doc.pages.iter().map(|p| p.images).sum();
        if drawn > if with_images { pics } else { 0 } {
            return Err(format!("{} pictures are drawn for {}", drawn, pics));
        }
        ctx.count("pictures drawn", drawn as u64);
        ctx.count("pictures", if with_images { pics as u64 } else { 0 });
        if plain {
            let mut at = 0;
            let contents = d.contents();
            for (i, s) in contents.iter().enumerate() {
                let alts: Vec<String> = (0..if with_images { s.images.len() } else { 0 }).map(|k| format!("Image {} on slide {}", k + 1, i + 1)).collect();
                for w in [format!("Slide {}: {}", i + 1, s.title)].iter().chain(&s.content).chain(&alts).chain(s.code_blocks.iter().map(|c| &c.code)).chain(s.notes.iter().filter(|_| notes)) {
                    for w in w.split(' ') {
                    let Some(k) = all[at..].find(&w) else { return Err(format!("{} not found {:?} in {}", w, o, all)) };
                    at += k + w.len();
                    ctx.count("words found", 1);
                    }
                }
            }
            if !notes && let Some(n) = contents.iter().filter_map(|s| s.notes.as_ref()).find(|n| all.contains(n.as_str())) {
                return Err(format!("notes {} are shown though they were not asked for", n));
            }
        }
        Ok(Out::sig(d.sig()))
    });
}
