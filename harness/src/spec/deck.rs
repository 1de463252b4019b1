//! A deck as a user describes it, and the check that a produced package shows exactly that.
use super::{chart, image, shape, table};
use crate::opc::Pkg;
use crate::pml;
use crate::rng::Rng;
use crate::text;
use crate::xml::Elem;
use ppt_rs::generator::{BulletPoint, BulletStyle, BulletTextFormat, CodeBlock, InkAnnotations, InkPen, InkStroke, SlideContent, SlideLayout, TransitionType};
use std::path::Path;

#[derive(Clone, Copy, Debug)]
pub struct Profile {
    /// Text generator: 0 plain, 1 any, 2 wild (empty, long), 3 hostile.
    pub text: u8,
    pub format: bool,
    pub shapes: usize,
    pub conns: usize,
    pub images: usize,
    pub charts: usize,
    pub table: bool,
    pub notes: bool,
    pub code: bool,
    pub ink: bool,
    pub links: bool,
    pub max_slides: usize,
}

pub const ALL: Profile = Profile { text: 1, format: true, shapes: 4, conns: 3, images: 3, charts: 2, table: true, notes: true, code: true, ink: true, links: true, max_slides: 6 };
pub const TEXT: Profile = Profile { text: 2, format: false, shapes: 3, conns: 0, images: 0, charts: 0, table: true, notes: true, code: true, ink: false, links: false, max_slides: 5 };

pub fn txt(r: &mut Rng, p: &Profile) -> String {
    match p.text {
        0 => text::plain(r),
        1 => text::any(r),
        2 => text::wild(r),
        _ => text::hostile(r),
    }
}

#[derive(Clone, Debug, Default)]
pub struct Fmt {
    pub bold: bool,
    pub italic: bool,
    pub underline: bool,
    pub strike: bool,
    /// 0 none 1 subscript 2 superscript
    pub script: u8,
    pub color: Option<(String, String)>,
    pub highlight: Option<(String, String)>,
    pub size: Option<u32>,
    pub font: Option<String>,
}

#[derive(Clone, Debug)]
pub struct BulletS {
    pub text: String,
    pub level: u32,
    pub style: BulletStyle,
    pub fmt: Option<Fmt>,
    /// 0 add_bullet, 1 add_styled_bullet, 2 add_numbered, 3 add_lettered, 4 add_sub_bullet, 5 direct
    pub via: u8,
}

#[derive(Clone, Debug)]
pub struct CodeS {
    pub code: String,
    pub lang: String,
    pub x: i64,
    pub y: i64,
    pub w: i64,
    pub h: i64,
}

#[derive(Clone, Debug)]
pub struct SlideS {
    pub title: String,
    pub layout: SlideLayout,
    pub title_size: Option<u32>,
    pub title_bold: bool,
    pub title_italic: bool,
    pub title_underline: bool,
    pub title_color: Option<(String, String)>,
    pub content_size: Option<u32>,
    pub content_bold: bool,
    pub content_italic: bool,
    pub content_underline: bool,
    pub content_color: Option<(String, String)>,
    pub style: BulletStyle,
    pub bullets: Vec<BulletS>,
    pub plain_content: bool,
    pub transition: TransitionType,
    pub table: Option<table::TableS>,
    pub shapes: Vec<shape::ShapeS>,
    pub conns: Vec<shape::ConnS>,
    pub images: Vec<image::ImageS>,
    pub charts: Vec<chart::ChartS>,
    pub code: Vec<CodeS>,
    pub notes: Option<String>,
    pub ink: Option<Vec<(String, u32, Vec<(i64, i64)>)>>,
}

#[derive(Clone, Debug)]
pub struct DeckS {
    pub title: String,
    pub slides: Vec<SlideS>,
}

pub const LAYOUTS: [SlideLayout; 7] =
    [SlideLayout::CenteredTitle, SlideLayout::TitleAndContent, SlideLayout::TwoColumn, SlideLayout::SectionHeader, SlideLayout::Blank, SlideLayout::TitleOnly, SlideLayout::TitleAndBigContent];

pub const TRANSITIONS: [TransitionType; 9] = [
    TransitionType::None, TransitionType::Fade, TransitionType::Cut, TransitionType::Push, TransitionType::Wipe, TransitionType::Split, TransitionType::Reveal, TransitionType::Cover, TransitionType::Zoom,
];

fn style(r: &mut Rng) -> BulletStyle {
    match r.below(9) {
        0 => BulletStyle::Number,
        1 => BulletStyle::LetterLower,
        2 => BulletStyle::LetterUpper,
        3 => BulletStyle::RomanLower,
        4 => BulletStyle::RomanUpper,
        5 => BulletStyle::Custom(*r.pick(&['→', '✓', '-', '*', '§', '&', '<', '"', '\'', '►', '日'])),
        6 => BulletStyle::None,
        _ => BulletStyle::Bullet,
    }
}

pub fn fmt(r: &mut Rng) -> Fmt {
    Fmt {
        bold: r.chance(1, 3),
        italic: r.chance(1, 3),
        underline: r.chance(1, 3),
        strike: r.chance(1, 3),
        script: if r.chance(1, 2) { r.below(3) as u8 } else { 0 },
        color: if r.chance(1, 2) { Some(text::color(r)) } else { None },
        highlight: if r.chance(1, 3) { Some(text::color(r)) } else { None },
        size: if r.chance(1, 2) { Some(r.u32(1, 400)) } else { None },
        font: if r.chance(1, 3) { Some(r.pick(&["Arial", "Times New Roman", "R&D \"Sans\" <x>", "明朝"]).to_string()) } else { None },
    }
}

pub fn code(r: &mut Rng) -> CodeS {
    let n = if r.chance(1, 12) { 0 } else { 1 + r.below(6) };
    let lang = r.pick(&["rust", "python", "js", "", "unknown", "c++", "xml", "json", "sql"]).to_string();
    let lines: Vec<String> = (0..n)
        .map(|i| match r.below(6) {
            0 if i + 1 < n => String::new(),
            1 => format!("{}fn f_{}(a: &str) -> Vec<u8> {{ \"<x>\".into() }}", " ".repeat(r.below(8)), text::tag(r)),
            2 => format!("if a < b && c > d {{ return '{}'; }} // note", text::tag(r)),
            3 => format!("\t{} = \"&amp;\" + 1", text::tag(r)),
            _ => text::any(r),
        })
        .collect();
    CodeS { code: lines.join("\n"), lang, x: r.range(0, 9_000_000), y: r.range(0, 6_000_000), w: r.range(1, 9_000_000), h: r.range(1, 6_000_000) }
}

/// Text two editors agree on: the tab and newline policy of code blocks is per line.
pub fn random_slide(r: &mut Rng, p: &Profile, pool: &mut Vec<(Vec<u8>, String)>, dir: Option<&Path>) -> SlideS {
    let st = if p.format { style(r) } else { BulletStyle::Bullet };
    let nb = match r.below(8) {
        0 => 0,
        1 => r.below(14),
        _ => 1 + r.below(5),
    };
    let bullets: Vec<BulletS> = (0..nb)
        .map(|_| {
            let via = if p.format { r.below(6) as u8 } else { [0, 0, 4, 5][r.below(4)] };
            let mut b = BulletS { text: txt(r, p), level: 0, style: st, fmt: None, via };
            match via {
                1 => b.style = style(r),
                2 => b.style = BulletStyle::Number,
                3 => b.style = BulletStyle::LetterLower,
                4 => b.level = 1,
                5 => {
                    if p.format {
                        b.style = style(r);
                        b.fmt = if r.chance(2, 3) { Some(fmt(r)) } else { None };
                    }
                    b.level = r.u32(0, 8);
                }
                _ => {}
            }
            b
        })
        .collect();
    let many = |r: &mut Rng, m: usize| if m == 0 || r.bool() { 0 } else if r.chance(1, 40) { m + 7 + r.below(4) } else { r.below(m + 1) };
    let mut shapes: Vec<shape::ShapeS> = (0..many(r, p.shapes))
        .map(|_| {
            let mut s = shape::random(r, true);
            if s.text.is_some() && p.text == 3 {
                s.text = Some(text::hostile(r));
            }
            if p.links && r.chance(1, 4) {
                s.link = Some(shape::Link::random(r));
            }
            s
        })
        .collect();
    let mut used = vec![];
    for s in shapes.iter_mut() {
        if r.chance(1, 3) {
            let id = r.u32(10, 200);
            if !used.contains(&id) {
                used.push(id);
                s.id = Some(id);
            }
        }
    }
    let nconn = many(r, p.conns);
    SlideS {
        title: txt(r, p),
        layout: if r.chance(1, 2) { SlideLayout::TitleAndContent } else { *r.pick(&LAYOUTS) },
        title_size: if p.format && r.bool() { Some(r.u32(1, 400)) } else { None },
        title_bold: !p.format || r.bool(),
        title_italic: p.format && r.bool(),
        title_underline: p.format && r.bool(),
        title_color: if p.format && r.bool() { Some(text::color(r)) } else { None },
        content_size: if p.format && r.bool() { Some(r.u32(1, 400)) } else { None },
        content_bold: p.format && r.bool(),
        content_italic: p.format && r.bool(),
        content_underline: p.format && r.bool(),
        content_color: if p.format && r.bool() { Some(text::color(r)) } else { None },
        style: st,
        plain_content: r.chance(1, 6),
        bullets,
        transition: if p.format { *r.pick(&TRANSITIONS) } else { TransitionType::None },
        table: if p.table && r.chance(1, 3) { Some(table::random(r)) } else { None },
        shapes,
        conns: (0..nconn).map(|_| shape::random_conn(r, &used, false)).collect(),
        images: (0..many(r, p.images)).map(|_| image::random(r, pool, dir)).collect(),
        charts: (0..many(r, p.charts)).map(|_| chart::random(r)).collect(),
        code: if p.code && r.chance(1, 4) { (0..1 + r.below(2)).map(|_| code(r)).collect() } else { vec![] },
        notes: if p.notes && r.chance(1, 3) {
            let n = match p.text {
                _ if r.chance(1, 16) => String::new(),
                3 => text::hostile(r),
                _ => text::multi(r),
            };
            Some(n)
        } else {
            None
        },
        ink: if p.ink && r.chance(1, 8) {
            Some(
                (0..1 + r.below(3))
                    .map(|_| (text::hex(r), r.u32(1, 40), (0..1 + r.below(5)).map(|_| (r.range(-100, 9_000_000), r.range(-100, 9_000_000))).collect()))
                    .collect(),
            )
        } else {
            None
        },
    }
}

pub fn random(r: &mut Rng, p: &Profile, dir: Option<&Path>) -> DeckS {
    let mut pool = vec![];
    let n = if r.chance(1, 12) { 10 + r.below(4) } else { 1 + r.below(p.max_slides) };
    DeckS { title: txt(r, p), slides: (0..n).map(|_| random_slide(r, p, &mut pool, dir)).collect() }
}

/// Expected text: characters XML cannot carry are left out; line ends are normalised.
pub fn clean(s: &str) -> String {
    let t: String = s.chars().filter(|c| crate::xml::is_xml_char(*c)).collect();
    t.replace("\r\n", "\n").replace('\r', "\n")
}

fn same_text(got: &str, want: &str) -> bool {
    got == want || clean(got) == clean(want)
}

impl BulletS {
    pub fn point(&self) -> BulletPoint {
        let mut b = BulletPoint::new(&self.text).with_level(self.level).with_style(self.style);
        if let Some(f) = self.fmt.as_ref().filter(|f| !f.underline && f.font.is_none() && self.text.len() % 2 == 0) {
            if let Some(c) = &f.color {
                b = b.color(&c.0);
            }
            if f.strike {
                b = b.strikethrough();
            }
            if f.script == 1 {
                b = b.subscript();
            }
            if f.italic {
                b = b.italic();
            }
            if let Some(s) = f.size {
                b = b.font_size(s);
            }
            if f.script == 2 {
                b = b.superscript();
            }
            if let Some(c) = &f.highlight {
                b = b.highlight(&c.0);
            }
            if f.bold {
                b = b.bold();
            }
        } else if let Some(f) = &self.fmt {
            let mut g = BulletTextFormat::new();
            if f.bold {
                g = g.bold();
            }
            if f.italic {
                g = g.italic();
            }
            if f.underline {
                g = g.underline();
            }
            if f.strike {
                g = g.strikethrough();
            }
            if f.script == 1 {
                g = g.superscript().subscript();
            }
            if f.script == 2 {
                g = g.subscript().superscript();
            }
            if let Some(c) = &f.color {
                g = g.color(&c.0);
            }
            if let Some(c) = &f.highlight {
                g = g.highlight(&c.0);
            }
            if let Some(s) = f.size {
                g = g.font_size(s);
            }
            if let Some(s) = &f.font {
                g = g.font_family(s);
            }
            b = b.with_format(g);
        }
        b
    }
    fn bullet(&self) -> String {
        match self.style {
            BulletStyle::Bullet => "char:•".into(),
            BulletStyle::Number => "auto:arabicPeriod".into(),
            BulletStyle::LetterLower => "auto:alphaLcPeriod".into(),
            BulletStyle::LetterUpper => "auto:alphaUcPeriod".into(),
            BulletStyle::RomanLower => "auto:romanLcPeriod".into(),
            BulletStyle::RomanUpper => "auto:romanUcPeriod".into(),
            BulletStyle::Custom(c) => format!("char:{}", c),
            BulletStyle::None => "none".into(),
        }
    }
}

fn flag(run: &pml::Run, k: &str) -> bool {
    pml::boolish(run.p.get(k).map(|s| s.as_str()))
}

struct Want<'a> {
    size: Option<u32>,
    bold: Option<bool>,
    italic: bool,
    underline: bool,
    strike: bool,
    script: u8,
    color: Option<&'a str>,
    highlight: Option<&'a str>,
    font: Option<&'a str>,
}

fn fmt_check(run: &pml::Run, w: &Want) -> Result<(), String> {
    let size: i64 = run.p.get("sz").and_then(|v| v.parse().ok()).unwrap_or(-1);
    if let Some(s) = w.size
        && size != s as i64 * 100 {
            return Err(format!("size {} (1/100 pt) instead of {} pt", size, s));
        }
    if size <= 0 && w.size.is_none() {
        return Err(format!("no usable size ({:?})", run.p.get("sz")));
    }
    if let Some(b) = w.bold
        && flag(run, "b") != b {
            return Err(format!("bold {} instead of {}", flag(run, "b"), b));
        }
    if flag(run, "i") != w.italic {
        return Err(format!("italic {} instead of {}", flag(run, "i"), w.italic));
    }
    let u = run.p.get("u").map(|s| s != "none").unwrap_or(false);
    if u != w.underline {
        return Err(format!("underline {} instead of {}", u, w.underline));
    }
    let s = run.p.get("strike").map(|s| s != "noStrike").unwrap_or(false);
    if s != w.strike {
        return Err(format!("strikethrough {} instead of {}", s, w.strike));
    }
    let bl: i64 = run.p.get("baseline").and_then(|v| v.parse().ok()).unwrap_or(0);
    if bl.signum() != [0, -1, 1][w.script as usize] {
        return Err(format!("baseline {} instead of {}", bl, ["normal", "subscript", "superscript"][w.script as usize]));
    }
    for (k, v) in [("color", w.color), ("highlight", w.highlight), ("latin", w.font)] {
        let g = run.p.get(k).map(|s| s.as_str());
        if g != v {
            return Err(format!("{} {:?} instead of {:?}", k, g, v));
        }
    }
    Ok(())
}

impl SlideS {
    pub fn build(&self) -> SlideContent {
        let mut s = SlideContent::new(&self.title).layout(self.layout).with_bullet_style(self.style).with_transition(self.transition);
        if let Some(v) = self.title_size {
            s = s.title_size(v);
        }
        if let Some(v) = self.content_size {
            s = s.content_size(v);
        }
        s = s.title_bold(self.title_bold).title_italic(self.title_italic).title_underline(self.title_underline);
        s = s.content_bold(self.content_bold).content_italic(self.content_italic).content_underline(self.content_underline);
        if let Some((c, _)) = &self.title_color {
            s = s.title_color(c);
        }
        if let Some((c, _)) = &self.content_color {
            s = s.content_color(c);
        }
        for b in &self.bullets {
            if self.plain_content {
                s.content.push(b.text.clone());
                continue;
            }
            s = match b.via {
                0 => s.add_bullet(&b.text),
                1 => s.add_styled_bullet(&b.text, b.style),
                2 => s.add_numbered(&b.text),
                3 => s.add_lettered(&b.text),
                4 => s.add_sub_bullet(&b.text),
                _ => {
                    s.bullets.push(b.point());
                    s
                }
            };
        }
        let at_once = self.title.len() % 3 == 0;
        if let Some(t) = &self.table {
            s = s.table(t.build());
        }
        if at_once {
            s = s.with_shapes(self.shapes.iter().map(|x| x.build()).collect());
        } else {
            for x in &self.shapes {
                s = s.add_shape(x.build());
            }
        }
        if at_once {
            s = s.with_connectors(self.conns.iter().map(|x| x.build()).collect());
        } else {
            for x in &self.conns {
                s = s.add_connector(x.build());
            }
        }
        if at_once {
            s = s.with_images(self.images.iter().map(|x| x.build()).collect());
        } else {
            for x in &self.images {
                s = s.add_image(x.build());
            }
        }
        if at_once {
            s = s.with_charts(self.charts.iter().map(|x| x.build()).collect());
        } else {
            for x in &self.charts {
                s = s.add_chart(x.build());
            }
        }
        for c in &self.code {
            s.code_blocks.push(CodeBlock::new(&c.code, &c.lang).position(c.x, c.y).size(c.w, c.h));
        }
        if let Some(n) = &self.notes {
            s = s.notes(n);
        }
        if let Some(i) = &self.ink {
            let mut a = InkAnnotations::new();
            for (c, w, pts) in i {
                let p: Vec<(f64, f64)> = pts.iter().map(|(x, y)| (*x as f64, *y as f64)).collect();
                a.add_stroke(InkStroke::new(InkPen::new(c, *w)).add_points(&p));
            }
            s = s.with_ink(a);
        }
        s
    }

    pub fn has_title(&self) -> bool {
        self.layout != SlideLayout::Blank
    }
    pub fn has_body(&self) -> bool {
        matches!(self.layout, SlideLayout::TitleAndContent | SlideLayout::TwoColumn | SlideLayout::TitleAndBigContent)
    }
    pub fn shown_table(&self) -> Option<&table::TableS> {
        self.table.as_ref()
    }
    pub fn shown_bullets(&self) -> &[BulletS] {
        if self.has_body() && (self.layout != SlideLayout::TitleAndContent || self.table.is_none()) { &self.bullets } else { &[] }
    }

    /// The slide split into the roles the description gives its objects.
    pub fn roles(&self, sl: &Elem) -> Result<Roles, String> {
        let all = pml::shapes(sl);
        let mut sps: Vec<pml::Shape> = vec![];
        let mut o = Roles::default();
        for s in all {
            match s.kind.as_str() {
                "sp" => sps.push(s),
                "pic" => o.images.push(s),
                "chart" => o.charts.push(s),
                "table" => o.tables.push(s),
                "cxnSp" => o.conns.push(s),
                "contentPart" => o.ink.push(s),
                k => return Err(format!("unexpected object kind {}", k)),
            }
        }
        let mut it = sps.into_iter();
        let nb = self.shown_bullets().len();
        let cols = if nb == 0 {
            0
        } else if self.layout == SlideLayout::TwoColumn && nb > 1 {
            2
        } else {
            1
        };
        if self.has_title() {
            o.title = Some(it.next().ok_or("the slide has no title box")?);
        }
        for _ in 0..cols {
            o.body.push(it.next().ok_or("the slide lacks a content box")?);
        }
        let rest: Vec<pml::Shape> = it.collect();
        if rest.len() != self.shapes.len() + self.code.len() {
            return Err(format!("{} shapes and {} code blocks were added, {} further boxes are drawn", self.shapes.len(), self.code.len(), rest.len()));
        }
        let mut it = rest.into_iter();
        o.shapes = it.by_ref().take(self.shapes.len()).collect();
        o.code = it.collect();
        for (k, got, want) in [
            ("pictures", o.images.len(), self.images.len()),
            ("charts", o.charts.len(), self.charts.len()),
            ("tables", o.tables.len(), self.shown_table().is_some() as usize),
            ("connectors", o.conns.len(), self.conns.len()),
        ] {
            if got != want {
                return Err(format!("{} {} drawn, {} described", got, k, want));
            }
        }
        Ok(o)
    }

    pub fn check_text(&self, o: &Roles) -> Result<(), String> {
        if let Some(t) = &o.title {
            let got = t.text();
            if !same_text(&got, &self.title) {
                return Err(format!("title {} came out as {}", text::short(&self.title), text::short(&got)));
            }
        }
        let got: Vec<String> = o.body.iter().flat_map(|b| b.paras.iter().map(|p| p.text())).collect();
        let want: Vec<&String> = self.shown_bullets().iter().map(|b| &b.text).collect();
        if got.len() != want.len() {
            return Err(format!("{} bullets came out as {} paragraphs", want.len(), got.len()));
        }
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            if !same_text(g, w) {
                return Err(format!("bullet {} {} came out as {}", i, text::short(w), text::short(g)));
            }
        }
        if o.body.len() == 2 {
            let (l, r) = (o.body[0].paras.len(), o.body[1].paras.len());
            if l.abs_diff(r) > 1 || o.body[0].x >= o.body[1].x {
                return Err(format!("two columns hold {} and {} bullets at x {} and {}", l, r, o.body[0].x, o.body[1].x));
            }
        }
        for (i, (s, g)) in self.shapes.iter().zip(&o.shapes).enumerate() {
            let want = s.text.clone().unwrap_or_default();
            let (a, b) = (clean(&g.text()), clean(&want));
            if a.trim_end_matches('\n') != b.trim_end_matches('\n') {
                return Err(format!("text of shape {} {} came out as {}", i, text::short(&want), text::short(&g.text())));
            }
        }
        for (i, (c, g)) in self.code.iter().zip(&o.code).enumerate() {
            let got: Vec<String> = g.paras.iter().map(|p| p.text()).collect();
            let want: Vec<String> = c.code.lines().map(|l| l.to_string()).collect();
            let same = (want.is_empty() && got.concat().trim().is_empty()) || got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a == b || (b.is_empty() && a.trim().is_empty()));
            if !same {
                return Err(format!("code block {} {:?} came out as {:?}", i, want, got));
            }
        }
        Ok(())
    }

    pub fn check_format(&self, o: &Roles) -> Result<(), String> {
        if let Some(t) = &o.title
            && !self.title.is_empty() {
                let Some(run) = t.paras.iter().flat_map(|p| p.runs.iter()).find(|r| !r.text.is_empty()) else { return Err("the title has no run".into()) };
                let w = Want {
                    size: Some(self.title_size.unwrap_or(44)),
                    bold: if self.layout == SlideLayout::SectionHeader { None } else { Some(self.title_bold) },
                    italic: self.title_italic,
                    underline: self.title_underline,
                    strike: false,
                    script: 0,
                    color: self.title_color.as_ref().map(|c| c.1.as_str()),
                    highlight: None,
                    font: None,
                };
                fmt_check(run, &w).map_err(|e| format!("title on {:?}: {}", self.layout, e))?;
                let ctr = matches!(self.layout, SlideLayout::CenteredTitle | SlideLayout::SectionHeader);
                if (t.paras[0].algn.as_deref() == Some("ctr")) != ctr {
                    return Err(format!("title on {:?} is aligned {:?}", self.layout, t.paras[0].algn));
                }
            }
        let paras: Vec<&pml::Para> = o.body.iter().flat_map(|b| b.paras.iter()).collect();
        for (i, (b, p)) in self.shown_bullets().iter().zip(paras).enumerate() {
            let b = if self.plain_content { BulletS { level: 0, style: self.style, fmt: None, ..b.clone() } } else { b.clone() };
            if p.lvl != b.level as i64 {
                return Err(format!("bullet {} has level {} instead of {}", i, p.lvl, b.level));
            }
            if p.bullet != b.bullet() {
                return Err(format!("bullet {} is drawn with {:?} instead of {:?}", i, p.bullet, b.bullet()));
            }
            let (m, ind) = (p.marl.unwrap_or(0), p.indent.unwrap_or(0));
            let l = b.level as i64;
            if m != l * 914_400 + 457_200 || ind != -(457_200 + l * 457_200) {
                return Err(format!("bullet {} at level {} has margin {} and indent {}", i, l, m, ind));
            }
            if b.text.is_empty() {
                continue;
            }
            let Some(run) = p.runs.iter().find(|r| !r.text.is_empty()) else { return Err(format!("bullet {} has no run", i)) };
            let f = b.fmt.clone().unwrap_or_default();
            let w = Want {
                size: Some(f.size.or(self.content_size).unwrap_or(28)),
                bold: Some(f.bold || self.content_bold),
                italic: f.italic || self.content_italic,
                underline: f.underline || self.content_underline,
                strike: f.strike,
                script: f.script,
                color: f.color.as_ref().or(self.content_color.as_ref()).map(|c| c.1.as_str()),
                highlight: f.highlight.as_ref().map(|c| c.1.as_str()),
                font: f.font.as_deref(),
            };
            fmt_check(run, &w).map_err(|e| format!("bullet {} ({:?}): {}", i, b, e))?;
        }
        Ok(())
    }

    /// Boxes the library places itself lie on the slide and do not cover each other.
    pub fn check_layout(&self, o: &Roles) -> Result<(), String> {
        let mut b: Vec<(&str, &pml::Shape)> = vec![];
        if let Some(t) = &o.title {
            b.push(("title", t));
        }
        for c in &o.body {
            b.push(("content", c));
        }
        for (k, s) in &b {
            if s.cx <= 0 || s.cy <= 0 || s.x < 0 || s.y < 0 || s.x + s.cx > 9_144_000 || s.y + s.cy > 6_858_000 {
                return Err(format!("{} box {:?} of {:?} is not on the slide", k, (s.x, s.y, s.cx, s.cy), self.layout));
            }
        }
        for i in 0..b.len() {
            for j in 0..i {
                let (p, q) = (b[i].1, b[j].1);
                if p.x < q.x + q.cx && q.x < p.x + p.cx && p.y < q.y + q.cy && q.y < p.y + p.cy {
                    return Err(format!("{} and {} boxes of {:?} overlap", b[j].0, b[i].0, self.layout));
                }
            }
        }
        Ok(())
    }

    pub fn check_objects(&self, o: &Roles) -> Result<(), String> {
        for (s, g) in self.shapes.iter().zip(&o.shapes) {
            s.check(g)?;
        }
        for (s, g) in self.conns.iter().zip(&o.conns) {
            s.check(g)?;
        }
        for (c, g) in self.code.iter().zip(&o.code) {
            if (g.x, g.y, g.cx, g.cy) != (c.x, c.y, c.w, c.h) {
                return Err(format!("code block asked at {:?}, drawn at {:?}", (c.x, c.y, c.w, c.h), (g.x, g.y, g.cx, g.cy)));
            }
        }
        Ok(())
    }

    /// Every shape leads where it was asked to, and nothing else leads anywhere.
    pub fn check_links(&self, k: &Pkg, part: &str, sl: &Elem, o: &Roles) -> Result<usize, String> {
        let slides = k.slides();
        let mut n = 0;
        let mut used = vec![];
        for (i, (s, g)) in self.shapes.iter().zip(&o.shapes).enumerate() {
            let h = g.e().desc("hlinkClick");
            if h.len() > usize::from(s.link.is_some()) {
                return Err(format!("shape {} of {} has {} links", i + 1, self.shapes.len(), h.len()));
            }
            if let Some(l) = &s.link {
                l.check(k, part, &slides, h.first().copied())?;
                n += 1;
            }
            used.extend(h.iter().filter_map(|h| h.attr_ns(crate::opc::NS_R, "id")));
        }
        let all = sl.desc("hlinkClick").len();
        if all != used.len() {
            return Err(format!("{} links on the slide, {} on its shapes", all, used.len()));
        }
        for r in k.rels_of(part) {
            if crate::opc::short_type(&r.typ) == "hyperlink" && !used.contains(&r.id.as_str()) {
                return Err(format!("relationship {} leads to {:?} from nowhere", r.id, r.target));
            }
        }
        Ok(n)
    }

    pub fn check_images(&self, k: &Pkg, part: &str, o: &Roles) -> Result<(), String> {
        for (s, g) in self.images.iter().zip(&o.images) {
            let b = g.embed.as_deref().and_then(|id| k.rel(part, id)).and_then(|r| k.parts.get(&r.part)).map(|v| v.as_slice());
            s.check(g, b)?;
        }
        Ok(())
    }

    pub fn check_charts(&self, k: &Pkg, part: &str, o: &Roles) -> Result<(), String> {
        for (s, g) in self.charts.iter().zip(&o.charts) {
            s.check_frame(g)?;
            let Some(r) = g.chart.as_deref().and_then(|id| k.rel(part, id)) else { return Err(format!("chart frame refers to {:?}, which is no relationship", g.chart)) };
            let Some(x) = k.xml.get(&r.part) else { return Err(format!("chart part {} is missing or not XML", r.part)) };
            s.check_part(x)?;
            chart::check_workbook(k, &r.part)?;
        }
        Ok(())
    }

    pub fn check_table(&self, o: &Roles) -> Result<(), String> {
        if let (Some(t), Some(g)) = (self.shown_table(), o.tables.first()) {
            t.check(g)?;
            table::check_spans(g.table.as_ref().unwrap())?;
        }
        Ok(())
    }

    pub fn check_notes(&self, k: &Pkg, part: &str) -> Result<(), String> {
        let n = k.rel_by_type(part, "notesSlide");
        match (&self.notes, n.first()) {
            (None, None) => Ok(()),
            (None, Some(r)) => Err(format!("{} has no notes but refers to {}", part, r.part)),
            (Some(w), None) => Err(format!("{}: notes {} are nowhere", part, text::short(w))),
            (Some(w), Some(r)) => {
                if n.len() > 1 {
                    return Err(format!("{} refers to {} notes slides", part, n.len()));
                }
                let Some(x) = k.xml.get(&r.part) else { return Err(format!("notes part {} is missing or not XML", r.part)) };
                let back: Vec<String> = k.rel_by_type(&r.part, "slide").iter().map(|b| b.part.clone()).collect();
                if back != [part] {
                    return Err(format!("the notes of {} say they belong to {:?}", part, back));
                }
                let got = notes_text(x).ok_or_else(|| format!("{} has no notes body", r.part))?;
                if clean(&got).trim_end_matches('\n') != clean(w).trim_end_matches('\n') {
                    return Err(format!("notes {} came out as {}", text::short(w), text::short(&got)));
                }
                Ok(())
            }
        }
    }

    pub fn check_misc(&self, k: &Pkg, part: &str, sl: &Elem, o: &Roles) -> Result<(), String> {
        let tr: Vec<String> = sl.kids("transition").iter().flat_map(|t| t.elems().map(|e| e.local.clone())).collect();
        let want: &[&str] = match self.transition {
            TransitionType::None | TransitionType::Cut => &[],
            TransitionType::Fade => &["fade"],
            TransitionType::Push => &["push"],
            TransitionType::Wipe => &["wipe"],
            TransitionType::Split => &["split"],
            TransitionType::Reveal => &["reveal"],
            TransitionType::Cover => &["cover"],
            TransitionType::Zoom => &["zoom"],
        };
        if self.transition != TransitionType::Reveal && tr != want {
            return Err(format!("transition {:?} is written as {:?}", self.transition, tr));
        }
        if let Some(strokes) = &self.ink {
            let parts = k.rels_of(part).iter().filter(|r| r.part.contains("/ink/")).collect::<Vec<_>>();
            if parts.len() != 1 || o.ink.len() != 1 {
                return Err(format!("ink of {}: {} parts, {} references", part, parts.len(), o.ink.len()));
            }
            let id = o.ink[0].e().attr_ns(crate::opc::NS_R, "id").unwrap_or("");
            if k.rel(part, id).map(|r| r.part.as_str()) != Some(parts[0].part.as_str()) {
                return Err(format!("ink reference {} does not lead to {}", id, parts[0].part));
            }
            let Some(x) = k.xml.get(&parts[0].part) else { return Err("ink part is not XML".into()) };
            let got: Vec<String> = x.desc("trace").iter().map(|t| t.text()).collect();
            let want: Vec<String> = strokes.iter().map(|(_, _, p)| p.iter().map(|(a, b)| format!("{} {}", a, b)).collect::<Vec<_>>().join(" ")).collect();
            if got != want {
                return Err(format!("ink traces {:?} instead of {:?}", got, want));
            }
            for (b, (c, w, _)) in x.desc("brush").iter().zip(strokes) {
                if b.attr("color").map(|s| s.trim_start_matches('#').to_string()) != Some(c.clone()) || b.attr("width") != Some(w.to_string().as_str()) {
                    return Err(format!("ink brush {:?} instead of {} {}", b.canon(), c, w));
                }
            }
        } else if !o.ink.is_empty() {
            return Err("ink on a slide without ink".into());
        }
        Ok(())
    }

    pub fn check_link(&self, k: &Pkg, part: &str, want: &str) -> Result<(), String> {
        let lay = k.rel_by_type(part, "slideLayout");
        if lay.len() != 1 || lay[0].part != want {
            return Err(format!("layout {:?} is tied to {:?}, not to {}", self.layout, lay.iter().map(|r| r.part.clone()).collect::<Vec<_>>(), want));
        }
        Ok(())
    }

    pub fn check_all(&self, k: &Pkg, part: &str) -> Result<(), String> {
        self.check_link(k, part, &format!("ppt/slideLayouts/slideLayout{}.xml", self.layout.layout_number()))?;
        self.check_but_link(k, part)
    }

    pub fn check_but_link(&self, k: &Pkg, part: &str) -> Result<(), String> {
        let sl = k.xml.get(part).ok_or_else(|| format!("{} is missing or not XML", part))?;
        let o = self.roles(sl)?;
        self.check_text(&o)?;
        self.check_format(&o)?;
        self.check_layout(&o)?;
        self.check_objects(&o)?;
        self.check_images(k, part, &o)?;
        self.check_charts(k, part, &o)?;
        self.check_links(k, part, sl, &o)?;
        self.check_table(&o)?;
        self.check_notes(k, part)?;
        self.check_misc(k, part, sl, &o)
    }
}

pub fn notes_text(x: &Elem) -> Option<String> {
    let s = pml::shapes(x);
    let b = s.iter().find(|s| s.ph.as_deref() == Some("body")).or_else(|| s.iter().find(|s| s.has_text && s.ph.as_deref() != Some("sldNum")))?;
    Some(b.text())
}

#[derive(Default)]
pub struct Roles {
    pub title: Option<pml::Shape>,
    pub body: Vec<pml::Shape>,
    pub shapes: Vec<pml::Shape>,
    pub code: Vec<pml::Shape>,
    pub images: Vec<pml::Shape>,
    pub charts: Vec<pml::Shape>,
    pub tables: Vec<pml::Shape>,
    pub conns: Vec<pml::Shape>,
    pub ink: Vec<pml::Shape>,
}

impl DeckS {
    pub fn contents(&self) -> Vec<SlideContent> {
        self.slides.iter().map(|s| s.build()).collect()
    }
    /// A signature of which features the deck combines.
    pub fn sig(&self) -> String {
        let mut s = String::new();
        for x in &self.slides {
            s.push_str(&format!(
                "[{:?}{}b{}s{}c{}i{}h{}t{}n{}k{}{:?}]",
                x.layout,
                x.ink.is_some() as u8,
                x.bullets.len(),
                x.shapes.iter().map(|p| p.ty.to_string()).collect::<Vec<_>>().join(","),
                x.conns.len(),
                x.images.iter().map(|i| format!("{}{}", i.fmt, i.via)).collect::<Vec<_>>().join(","),
                x.charts.iter().map(|c| format!("{:?}{}", c.ty, c.series.len())).collect::<Vec<_>>().join(","),
                x.shown_table().is_some() as u8,
                x.notes.is_some() as u8,
                x.code.len(),
                x.transition
            ));
        }
        s
    }
    pub fn check_all(&self, k: &Pkg) -> Result<(), String> {
        let parts = k.slides();
        if parts.len() != self.slides.len() {
            return Err(format!("{} slides described, {} listed", self.slides.len(), parts.len()));
        }
        for (i, (s, p)) in self.slides.iter().zip(&parts).enumerate() {
            s.check_all(k, p).map_err(|e| format!("slide {}: {}", i + 1, e))?;
        }
        let core = k.xml.get("docProps/core.xml").and_then(|c| c.child("title")).map(|t| t.text());
        if !core.as_deref().map(|c| same_text(c, &self.title)).unwrap_or(false) {
            return Err(format!("document title {} is recorded as {:?}", text::short(&self.title), core));
        }
        Ok(())
    }
}
