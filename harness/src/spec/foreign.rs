//! Packages another producer could have written: slide parts in any order and under any name,
//! relationship ids of any form, groups, fields, line breaks, several paragraphs per cell,
//! pictures, notes, links — with the model of what they contain.
use crate::opc::Pkg;
use crate::rng::Rng;
use crate::text;
use crate::xml::esc;
use crate::zipx;
use ppt_rs::generator::{SlideContent, create_pptx_with_content};
use std::collections::BTreeMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct FRun {
    pub text: String,
    pub b: bool,
    pub i: bool,
    pub u: bool,
    pub sz: Option<u32>,
    pub color: Option<String>,
}
#[derive(Clone, Debug, Default)]
pub struct FPara {
    pub lvl: u32,
    /// runs; `field` runs are a:fld, text "\n" is a:br
    pub runs: Vec<(FRun, bool)>,
}
impl FPara {
    pub fn text(&self) -> String {
        self.runs.iter().map(|r| r.0.text.as_str()).collect()
    }
}
#[derive(Clone, Debug)]
pub struct FShape {
    pub name: String,
    /// type attribute of p:ph ("-" = ph without type)
    pub ph: Option<String>,
    pub prst: Option<String>,
    pub x: i64,
    pub y: i64,
    pub w: i64,
    pub h: i64,
    pub paras: Vec<FPara>,
}
impl FShape {
    pub fn text(&self) -> String {
        self.paras.iter().filter(|p| p.runs.iter().any(|r| !r.0.text.is_empty())).map(|p| p.text()).collect::<Vec<_>>().join("\n")
    }
    pub fn is_title(&self) -> bool {
        match self.ph.as_deref() {
            Some(t) => t == "title" || t == "ctrTitle",
            None => self.name.to_lowercase().contains("title"),
        }
    }
    pub fn is_body(&self) -> bool {
        match self.ph.as_deref() {
            Some(t) => t == "body" || t == "obj" || t == "-",
            None => self.name.to_lowercase().contains("content"),
        }
    }
}
#[derive(Clone, Debug)]
pub struct FCell {
    pub paras: Vec<FPara>,
    pub gs: u32,
    pub rs: u32,
    pub h: bool,
    pub v: bool,
}
impl FCell {
    pub fn text(&self) -> String {
        self.paras.iter().map(|p| p.text()).collect::<Vec<_>>().join("\n")
    }
}
#[derive(Clone, Debug)]
pub enum FObj {
    Shape(FShape),
    /// offset x,y, scale in halves (1 = half size, 2 = same, 4 = double), members
    Group(i64, i64, i64, Vec<FObj>),
    Table(Vec<Vec<FCell>>),
    Picture(usize),
    Line,
}
#[derive(Clone, Debug)]
pub struct FSlide {
    pub objs: Vec<FObj>,
    pub notes: Option<String>,
    pub part: String,
    pub link: Option<String>,
}
#[derive(Clone, Debug)]
pub struct Foreign {
    pub title: Option<String>,
    pub creator: Option<String>,
    pub revision: Option<u32>,
    pub slides: Vec<FSlide>,
    pub media: Vec<Vec<u8>>,
    pub parts: Vec<(String, Vec<u8>)>,
    pub bytes: Vec<u8>,
}

pub fn base() -> &'static BTreeMap<String, Vec<u8>> {
    static B: OnceLock<BTreeMap<String, Vec<u8>>> = OnceLock::new();
    B.get_or_init(|| {
        let b = create_pptx_with_content("base", vec![SlideContent::new("a").notes("n")]).unwrap();
        Pkg::load(&b).unwrap().parts
    })
}

fn run(r: &mut Rng) -> FRun {
    let mut f = FRun { text: text::any(r), ..Default::default() };
    if r.chance(1, 12) {
        f.text = " ".repeat(1 + r.below(3));
    }
    f.b = r.chance(1, 3);
    f.i = r.chance(1, 3);
    f.u = r.chance(1, 3);
    f.sz = if r.bool() { Some(r.u32(100, 40000)) } else { None };
    f.color = if r.bool() { Some(text::hex(r)) } else { None };
    f
}
fn para(r: &mut Rng) -> FPara {
    let n = match r.below(6) {
        0 => 0,
        1 => 3,
        _ => 1 + r.below(2),
    };
    let mut runs = vec![];
    for k in 0..n {
        if k > 0 && r.chance(1, 3) {
            runs.push((FRun { text: "\n".into(), ..Default::default() }, false));
        }
        let fld = r.chance(1, 8);
        runs.push((run(r), fld));
    }
    FPara { lvl: if r.chance(1, 3) { r.u32(0, 8) } else { 0 }, runs }
}
fn paras(r: &mut Rng) -> Vec<FPara> {
    (0..1 + r.below(4)).map(|_| para(r)).collect()
}
fn shape(r: &mut Rng, role: u8) -> FShape {
    let (ph, name): (Option<&str>, String) = match role {
        1 => (Some(*r.pick(&["title", "ctrTitle"])), r.pick(&["Title 1", "x", "Rechteck 7"]).to_string()),
        2 => (Some(*r.pick(&["body", "-", "obj"])), r.pick(&["Content Placeholder 2", "Text", "Inhalt"]).to_string()),
        3 => (Some(*r.pick(&["subTitle", "dt", "ftr", "sldNum"])), r.pick(&["Subtitle 2", "Date Placeholder 3", "My Content"]).to_string()),
        4 => (None, r.pick(&["Title", "TITLE 3", "Section title"]).to_string()),
        5 => (None, r.pick(&["Content", "Left Content"]).to_string()),
        _ => (None, r.pick(&["Rectangle 4", "TextBox 9", "", "A & B <x>", "形"]).to_string()),
    };
    let prst = if role == 1 || role == 2 { None } else { Some(r.pick(&["rect", "roundRect", "ellipse", "heart", "cloud", "star5", "chevron", "wedgeRectCallout", "gear6", "line"]).to_string()) };
    let has = role == 0 || role > 3 || r.bool();
    // coordinates may lie far outside the slide
    let far = r.chance(1, 12);
    let mut c = || if !has { 0 } else if far { r.range(-20_000_000_000, 20_000_000_000) } else { r.range(-200_000, 9_000_000) };
    let (x, y) = (c(), c());
    let (w, h) = (c().abs(), c().abs());
    FShape { name, ph: ph.map(|s| s.to_string()), prst, x, y, w: w & !1, h: h & !1, paras: paras(r) }
}

fn table(r: &mut Rng) -> Vec<Vec<FCell>> {
    let (nr, nc) = (1 + r.below(4), 1 + r.below(4));
    let mut t: Vec<Vec<FCell>> = (0..nr).map(|_| (0..nc).map(|_| FCell { paras: paras(r), gs: 1, rs: 1, h: false, v: false }).collect()).collect();
    if r.bool() {
        let (a, b) = (r.below(nr), r.below(nc));
        let (h, w) = (1 + r.below(nr - a), 1 + r.below(nc - b));
        for i in a..a + h {
            for j in b..b + w {
                let c = &mut t[i][j];
                if (i, j) == (a, b) {
                    c.gs = w as u32;
                    c.rs = h as u32;
                } else {
                    c.h = j > b;
                    c.v = i > a;
                    if j == b {
                        c.gs = w as u32;
                    }
                    if i == a {
                        c.rs = h as u32;
                    }
                }
            }
        }
    }
    t
}

/// Where the coordinates of a group lie on the slide; scales in halves.
#[derive(Clone, Copy)]
struct Frame {
    ox: i64,
    oy: i64,
    sx: i64,
    sy: i64,
    cx: i64,
    cy: i64,
}
impl Frame {
    const SLIDE: Frame = Frame { ox: 0, oy: 0, sx: 2, sy: 2, cx: 0, cy: 0 };
    fn at(&self, x: i64, y: i64) -> (i64, i64) {
        ((x - self.ox) * 2 / self.sx + self.cx, (y - self.oy) * 2 / self.sy + self.cy)
    }
}

pub struct Style {
    /// white space between elements, attribute quoting, CDATA and character references
    pub pretty: bool,
    pub single: bool,
    pub refs: bool,
    pub comments: bool,
    pub pfx: (&'static str, &'static str, &'static str),
}

struct W<'a> {
    s: &'a Style,
    id: u32,
    out: String,
    links: usize,
}
impl W<'_> {
    fn nl(&mut self) {
        if self.s.pretty {
            self.out.push_str("\n  ");
        }
        if self.s.comments && self.id.is_multiple_of(3) {
            self.out.push_str("<!-- <a:t>not text</a:t> -->");
        }
    }
    fn p(&mut self, s: &str) {
        self.out.push_str(s);
    }
    fn txt(&mut self, t: &str) {
        if self.s.refs {
            let mut first = true;
            for c in t.chars() {
                if first && c.is_ascii_alphabetic() {
                    self.out.push_str(&format!("&#x{:X};", c as u32));
                    first = false;
                } else {
                    self.out.push_str(&esc(&c.to_string()));
                }
            }
        } else {
            self.out.push_str(&esc(t));
        }
    }
    fn para(&mut self, p: &FPara) {
        self.p("<a:p>");
        if p.lvl > 0 {
            self.p(&format!("<a:pPr lvl=\"{}\"/>", p.lvl));
        }
        for (r, fld) in &p.runs {
            if r.text == "\n" {
                self.p("<a:br/>");
                continue;
            }
            self.nl();
            self.p(if *fld { "<a:fld id=\"{B6F15528-21DE-4FAA-801E-634DDDAF4B2B}\" type=\"slidenum\">" } else { "<a:r>" });
            let mut a = String::from("<a:rPr lang=\"en-US\"");
            if let Some(z) = r.sz {
                a.push_str(&format!(" sz=\"{}\"", z));
            }
            a.push_str(if r.b { " b=\"1\"" } else { " b=\"0\"" });
            a.push_str(if r.i { " i=\"true\"" } else { " i=\"false\"" });
            a.push_str(if r.u { " u=\"sng\"" } else { " u=\"none\"" });
            a.push_str("><a:ln><a:solidFill><a:srgbClr val=\"010203\"/></a:solidFill></a:ln>");
            if let Some(c) = &r.color {
                a.push_str(&format!("<a:solidFill><a:srgbClr val=\"{}\"/></a:solidFill>", c));
            }
            a.push_str("</a:rPr>");
            self.p(&a);
            self.nl();
            self.p("<a:t>");
            self.txt(&r.text);
            self.p(if *fld { "</a:t></a:fld>" } else { "</a:t></a:r>" });
        }
        self.p("<a:endParaRPr lang=\"en-US\"/></a:p>");
        self.nl();
    }
    fn obj(&mut self, o: &FObj, g: Frame, pics: &[String], link: Option<&str>) {
        self.id += 1;
        let id = self.id;
        self.nl();
        match o {
            FObj::Shape(s) => {
                let hl = match link {
                    Some(rid) if self.links == 0 => {
                        self.links += 1;
                        format!("><a:hlinkClick r:id=\"{}\"/></p:cNvPr>", rid)
                    }
                    _ => "/>".into(),
                };
                self.p(&format!("<p:sp><p:nvSpPr><p:cNvPr id=\"{}\" name=\"{}\"{}<p:cNvSpPr/><p:nvPr>", id, esc(&s.name), hl));
                match s.ph.as_deref() {
                    Some("-") => self.p(&format!("<p:ph idx=\"{}\"/>", id)),
                    Some(t) => self.p(&format!("<p:ph type=\"{}\" idx=\"{}\"/>", t, id)),
                    None => {}
                }
                self.p("</p:nvPr></p:nvSpPr><p:spPr>");
                if (s.x, s.y, s.w, s.h) != (0, 0, 0, 0) {
                    // model coordinates are slide coordinates; inside a group they are written in its own
                    let (x, y) = g.at(s.x, s.y);
                    self.p(&format!("<a:xfrm><a:off x=\"{}\" y=\"{}\"/><a:ext cx=\"{}\" cy=\"{}\"/></a:xfrm>", x, y, s.w * 2 / g.sx, s.h * 2 / g.sy));
                }
                if let Some(g) = &s.prst {
                    self.p(&format!("<a:prstGeom prst=\"{}\"><a:avLst/></a:prstGeom>", g));
                }
                self.p("</p:spPr><p:txBody><a:bodyPr/><a:lstStyle/>");
                for p in &s.paras {
                    self.para(p);
                }
                self.p("</p:txBody></p:sp>");
            }
            FObj::Group(x, y, k, v) => {
                // two halves per unit: ext = chExt * k / 2, another k for each axis
                let (kx, ky) = (k / 16, k % 16);
                let (px, py) = g.at(*x, *y);
                let (cx, cy) = (x / 2 % 5 * 700, y / 2 % 4 * 300 - 300);
                self.p(&format!(
                    "<p:grpSp><p:nvGrpSpPr><p:cNvPr id=\"{}\" name=\"Group {}\"/><p:cNvGrpSpPr/><p:nvPr/></p:nvGrpSpPr><p:grpSpPr><a:xfrm><a:off x=\"{}\" y=\"{}\"/><a:ext cx=\"{}\" cy=\"{}\"/><a:chOff x=\"{}\" y=\"{}\"/><a:chExt cx=\"1000\" cy=\"{}\"/></a:xfrm></p:grpSpPr>",
                    id, id, px, py, 500 * kx, 800 * ky, cx, cy, 1600
                ));
                for m in v {
                    self.obj(m, Frame { ox: *x, oy: *y, sx: g.sx * kx / 2, sy: g.sy * ky / 2, cx, cy }, pics, None);
                }
                self.p("</p:grpSp>");
            }
            FObj::Table(t) => {
                self.p(&format!("<p:graphicFrame><p:nvGraphicFramePr><p:cNvPr id=\"{}\" name=\"Table {}\"/><p:cNvGraphicFramePr/><p:nvPr/></p:nvGraphicFramePr><p:xfrm><a:off x=\"1\" y=\"2\"/><a:ext cx=\"3000\" cy=\"4000\"/></p:xfrm><a:graphic><a:graphicData uri=\"http://schemas.openxmlformats.org/drawingml/2006/table\"><a:tbl><a:tblPr/><a:tblGrid>", id, id));
                for _ in &t[0] {
                    self.p("<a:gridCol w=\"1000\"/>");
                }
                self.p("</a:tblGrid>");
                for row in t {
                    self.p("<a:tr h=\"100\">");
                    for c in row {
                        let mut a = String::from("<a:tc");
                        if c.gs > 1 {
                            a.push_str(&format!(" gridSpan=\"{}\"", c.gs));
                        }
                        if c.rs > 1 {
                            a.push_str(&format!(" rowSpan=\"{}\"", c.rs));
                        }
                        if c.h {
                            a.push_str(" hMerge=\"1\"");
                        }
                        if c.v {
                            a.push_str(" vMerge=\"1\"");
                        }
                        a.push_str("><a:txBody><a:bodyPr/><a:lstStyle/>");
                        self.p(&a);
                        for p in &c.paras {
                            self.para(p);
                        }
                        self.p("</a:txBody><a:tcPr/></a:tc>");
                    }
                    self.p("</a:tr>");
                }
                self.p("</a:tbl></a:graphicData></a:graphic></p:graphicFrame>");
            }
            FObj::Picture(n) => {
                self.p(&format!("<p:pic><p:nvPicPr><p:cNvPr id=\"{}\" name=\"Picture {}\"/><p:cNvPicPr/><p:nvPr/></p:nvPicPr><p:blipFill><a:blip r:embed=\"{}\"/><a:stretch><a:fillRect/></a:stretch></p:blipFill><p:spPr><a:xfrm><a:off x=\"5\" y=\"5\"/><a:ext cx=\"50\" cy=\"50\"/></a:xfrm><a:prstGeom prst=\"rect\"><a:avLst/></a:prstGeom></p:spPr></p:pic>", id, id, pics[*n]));
            }
            FObj::Line => self.p(&format!("<p:cxnSp><p:nvCxnSpPr><p:cNvPr id=\"{}\" name=\"Line {}\"/><p:cNvCxnSpPr/><p:nvPr/></p:nvCxnSpPr><p:spPr><a:xfrm><a:off x=\"1\" y=\"1\"/><a:ext cx=\"9\" cy=\"0\"/></a:xfrm><a:prstGeom prst=\"line\"><a:avLst/></a:prstGeom></p:spPr></p:cxnSp>", id, id)),
        }
    }
}

fn rid(r: &mut Rng, used: &mut Vec<String>) -> String {
    loop {
        let s = match r.below(4) {
            0 => format!("R{:x}", r.below(1 << 24)),
            1 => format!("rel-{}", r.below(1000)),
            _ => format!("rId{}", 1 + r.below(60)),
        };
        if !used.contains(&s) {
            used.push(s.clone());
            return s;
        }
    }
}

fn target(r: &mut Rng, from: &str, to: &str) -> String {
    // both under ppt/
    let dir: Vec<&str> = from.split('/').collect();
    let up = "../".repeat(dir.len() - 2);
    let rel = format!("{}{}", up, to.strip_prefix("ppt/").unwrap());
    match r.below(5) {
        0 => format!("/{}", to),
        1 => format!("./{}", rel),
        2 => format!("{}../ppt/{}", up, to.strip_prefix("ppt/").unwrap()),
        _ => rel,
    }
}

pub fn png(r: &mut Rng) -> Vec<u8> {
    let mut v = b"\x89PNG\r\n\x1a\n\0\0\0\rIHDR\0\0\0\x01\0\0\0\x01\x08\x06\0\0\0\x1f\x15\xc4\x89".to_vec();
    let n = r.below(60);
    v.extend(r.bytes(8 + n));
    v
}

/// `tame`: only what an editor has to understand as well (usual namespace prefixes).
pub fn random(r: &mut Rng, tame: bool) -> Foreign {
    let b = base();
    let n = if r.chance(1, 10) { 0 } else { 1 + r.below(6) };
    let pfx = if tame || r.bool() { ("p", "a", "r") } else { *r.pick(&[("pp", "d", "rel"), ("a", "p", "x"), ("p1", "", "r9")]) };
    let st = Style { pretty: r.bool(), single: r.chance(1, 4), refs: r.bool(), comments: r.chance(1, 3), pfx };
    let mut media: Vec<Vec<u8>> = (0..r.below(4)).map(|_| png(r)).collect();
    if media.len() > 1 && r.chance(1, 4) {
        let m = media[0].clone();
        *media.last_mut().unwrap() = m;
    }
    let mut nums: Vec<usize> = (1..=n + 5).collect();
    r.shuffle(&mut nums);
    let odd = r.chance(1, 4);
    let plain = r.chance(1, 4);
    let mut slides = vec![];
    for k in 0..n {
        let mut objs = vec![];
        if r.chance(4, 5) {
            let role = if r.chance(1, 5) { 4 } else { 1 };
            objs.push(FObj::Shape(shape(r, role)));
        }
        for _ in 0..r.below(3) {
            let role = if r.chance(1, 5) { 5 } else { 2 };
            objs.push(FObj::Shape(shape(r, role)));
        }
        if r.chance(1, 3) {
            objs.push(FObj::Shape(shape(r, 3)));
        }
        for _ in 0..r.below(4) {
            match r.below(7) {
                0 | 1 => objs.push(FObj::Shape(shape(r, 0))),
                2 => objs.push(FObj::Table(table(r))),
                3 if !media.is_empty() => objs.push(FObj::Picture(r.below(media.len()))),
                4 => objs.push(FObj::Line),
                5 => {
                    let (x, y) = (r.range(0, 1_000_000) * 2, r.range(0, 1_000_000) * 2);
                    let (kk, ky) = (*r.pick(&[1, 2, 4]), *r.pick(&[1, 2, 4]));
                    let member = |r: &mut Rng, x: i64, y: i64, k: i64, ky: i64| {
                        let mut s = shape(r, 0);
                        // keep coordinates exactly representable in group units
                        s.x = x + r.range(0, 100_000) * 4 * k;
                        s.y = y + r.range(0, 100_000) * 4 * ky;
                        s.w = r.range(0, 100_000) * 4 * k;
                        s.h = r.range(1, 100_000) * 4 * ky;
                        FObj::Shape(s)
                    };
                    let mut v: Vec<FObj> = (0..1 + r.below(3)).map(|_| member(r, x, y, kk, ky)).collect();
                    if r.chance(1, 3) {
                        let (x2, y2) = (x + r.range(0, 1000) * 4 * kk, y + r.range(0, 1000) * 4 * ky);
                        let m = member(r, x2, y2, kk * 2, ky * 2);
                        v.push(FObj::Group(x2, y2, 4 * 16 + 4, vec![m]));
                    }
                    if r.chance(1, 4) {
                        v.push(FObj::Table(table(r)));
                    }
                    objs.push(FObj::Group(x, y, kk * 16 + ky, v));
                }
                _ => objs.push(FObj::Shape(shape(r, 0))),
            }
        }
        if r.chance(1, 4) {
            r.shuffle(&mut objs);
        }
        let part = if odd { format!("ppt/slides/{}{}.xml", r.pick(&["intro", "slideA", "S-", "Slide_x"]), k) } else if plain { format!("ppt/slides/slide{}.xml", k + 1) } else { format!("ppt/slides/slide{}.xml", nums[k]) };
        slides.push(FSlide { objs, notes: if r.chance(1, 3) { Some(text::any(r)) } else { None }, part, link: if r.chance(1, 4) { Some(match r.below(4) { 0 => format!("../other/{}.docx", text::tag(r)), 1 => format!("slide{}.xml", 1 + r.below(9)), _ => format!("https://example.com/{}?a=1&b=2", text::tag(r)) }) } else { None } });
    }
    let mut parts: Vec<(String, Vec<u8>)> = vec![];
    let keep = |n: &str| n.starts_with("ppt/slideLayouts/") || n.starts_with("ppt/slideMasters/") || n == "ppt/theme/theme1.xml" || n == "ppt/presProps.xml" || n == "ppt/viewProps.xml" || n == "ppt/tableStyles.xml";
    for (k, v) in b {
        if keep(k) {
            parts.push((k.clone(), v.clone()));
        }
    }
    let has_notes = slides.iter().any(|s| s.notes.is_some());
    if has_notes {
        for n in ["ppt/notesMasters/notesMaster1.xml", "ppt/notesMasters/_rels/notesMaster1.xml.rels", "ppt/theme/theme2.xml"] {
            parts.push((n.into(), b[n].clone()));
        }
    }
    let (pp, pa, pr) = st.pfx;
    let rename = |x: &str| -> String {
        // the writer uses p:/a:/r:; put the chosen prefixes in
        if st.pfx == ("p", "a", "r") {
            return x.to_string();
        }
        let q = |s: &str| if s.is_empty() { String::new() } else { format!("{}:", s) };
        x.replace("<p:", "<\u{1}").replace("</p:", "</\u{1}").replace("<a:", "<\u{2}").replace("</a:", "</\u{2}").replace(" r:", " \u{3}").replace('\u{1}', &q(pp)).replace('\u{2}', &q(pa)).replace('\u{3}', &q(pr))
    };
    let decl = {
        let d = |p: &str, u: &str| if p.is_empty() { format!(" xmlns=\"{}\"", u) } else { format!(" xmlns:{}=\"{}\"", p, u) };
        format!("{}{}{}", d(pp, crate::opc::NS_P), d(pa, crate::opc::NS_A), d(pr, crate::opc::NS_R))
    };
    let quote = |x: String| -> String {
        if !st.single {
            return x;
        }
        // attribute values written by us contain no quotes but the delimiters
        let mut o = String::new();
        let mut intag = false;
        for c in x.chars() {
            match c {
                '<' => intag = true,
                '>' => intag = false,
                _ => {}
            }
            o.push(if intag && c == '"' { '\'' } else { c });
        }
        o
    };
    let mut ov: Vec<(String, &str)> = vec![];
    const CT: &str = "application/vnd.openxmlformats-officedocument.";
    let mut nn = 0;
    for (k, s) in slides.iter().enumerate() {
        let mut used = vec![];
        let pics: Vec<String> = media.iter().map(|_| rid(r, &mut used)).collect();
        let lrid = s.link.as_ref().map(|_| rid(r, &mut used));
        let has_shape = s.objs.iter().any(|o| matches!(o, FObj::Shape(_)));
        let mut w = W { s: &st, id: 1, out: String::new(), links: 0 };
        w.p(&format!("<p:sld{}><p:cSld><p:spTree><p:nvGrpSpPr><p:cNvPr id=\"1\" name=\"\"/><p:cNvGrpSpPr/><p:nvPr/></p:nvGrpSpPr><p:grpSpPr/>", decl));
        for o in &s.objs {
            w.obj(o, Frame::SLIDE, &pics, lrid.as_deref());
        }
        w.p("</p:spTree></p:cSld><p:clrMapOvr><a:masterClrMapping/></p:clrMapOvr></p:sld>");
        let body = rename(&w.out);
        parts.push((s.part.clone(), format!("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n{}", quote(body)).into_bytes()));
        ov.push((s.part.clone(), "presentationml.slide+xml"));
        let mut rels: Vec<String> = vec![];
        let layout = format!("ppt/slideLayouts/slideLayout{}.xml", 1 + r.below(7));
        rels.push(format!("<Relationship Id=\"{}\" Type=\"{}/slideLayout\" Target=\"{}\"/>", rid(r, &mut used), crate::opc::NS_R, target(r, &s.part, &layout)));
        for (i, p) in pics.iter().enumerate() {
            if s.objs.iter().any(|o| uses(o, i)) {
                rels.push(format!("<Relationship Id=\"{}\" Type=\"{}/image\" Target=\"{}\"/>", p, crate::opc::NS_R, target(r, &s.part, &format!("ppt/media/pic{}.png", i + 3))));
            }
        }
        if let (Some(l), Some(u), true) = (&lrid, &s.link, has_shape) {
            rels.push(format!("<Relationship Id=\"{}\" Type=\"{}/hyperlink\" Target=\"{}\" TargetMode=\"External\"/>", l, crate::opc::NS_R, esc(u)));
        }
        if let Some(t) = &s.notes {
            nn += 1;
            let np = format!("ppt/notesSlides/notesSlide{}.xml", nn * 3);
            rels.push(format!("<Relationship Id=\"{}\" Type=\"{}/notesSlide\" Target=\"{}\"/>", rid(r, &mut used), crate::opc::NS_R, target(r, &s.part, &np)));
            parts.push((np.clone(), format!("<p:notes xmlns:p=\"{}\" xmlns:a=\"{}\"><p:cSld><p:spTree><p:nvGrpSpPr><p:cNvPr id=\"1\" name=\"\"/><p:cNvGrpSpPr/><p:nvPr/></p:nvGrpSpPr><p:grpSpPr/><p:sp><p:nvSpPr><p:cNvPr id=\"2\" name=\"Notes\"/><p:cNvSpPr/><p:nvPr><p:ph type=\"body\" idx=\"1\"/></p:nvPr></p:nvSpPr><p:spPr/><p:txBody><a:bodyPr/><a:p><a:r><a:t>{}</a:t></a:r></a:p></p:txBody></p:sp></p:spTree></p:cSld></p:notes>", crate::opc::NS_P, crate::opc::NS_A, esc(t)).into_bytes()));
            ov.push((np.clone(), "presentationml.notesSlide+xml"));
            parts.push((crate::opc::rels_name(&np), format!("<Relationships xmlns=\"{}\"><Relationship Id=\"rId2\" Type=\"{}/notesMaster\" Target=\"../notesMasters/notesMaster1.xml\"/><Relationship Id=\"rId1\" Type=\"{}/slide\" Target=\"{}\"/></Relationships>", crate::opc::NS_REL, crate::opc::NS_R, crate::opc::NS_R, target(r, &np, &s.part)).into_bytes()));
        }
        if r.bool() {
            r.shuffle(&mut rels);
        }
        parts.push((crate::opc::rels_name(&s.part), format!("<Relationships xmlns=\"{}\">{}</Relationships>", crate::opc::NS_REL, rels.join("")).into_bytes()));
        let _ = k;
    }
    for (i, m) in media.iter().enumerate() {
        if slides.iter().any(|s| s.objs.iter().any(|o| uses(o, i))) {
            parts.push((format!("ppt/media/pic{}.png", i + 3), m.clone()));
        }
    }
    // presentation part
    let mut used = vec![];
    let main = "ppt/presentation.xml";
    let mut rels: Vec<String> = vec![];
    let mut add = |r: &mut Rng, used: &mut Vec<String>, kind: &str, to: &str| -> String {
        let id = rid(r, used);
        let t = target(r, main, to);
        // attribute order varies
        let x = match r.below(3) {
            0 => format!("<Relationship Target=\"{}\" Type=\"{}/{}\" Id=\"{}\"/>", t, crate::opc::NS_R, kind, id),
            1 => format!("<Relationship Type=\"{}/{}\" Target=\"{}\" Id=\"{}\"></Relationship>", crate::opc::NS_R, kind, t, id),
            _ => format!("<Relationship Id=\"{}\" Type=\"{}/{}\" Target=\"{}\"/>", id, crate::opc::NS_R, kind, t),
        };
        rels.push(x);
        id
    };
    let m = add(r, &mut used, "slideMaster", "ppt/slideMasters/slideMaster1.xml");
    let sl: Vec<String> = slides.iter().map(|s| add(r, &mut used, "slide", &s.part)).collect();
    let nm = if has_notes { Some(add(r, &mut used, "notesMaster", "ppt/notesMasters/notesMaster1.xml")) } else { None };
    add(r, &mut used, "theme", "ppt/theme/theme1.xml");
    for (k, p) in [("presProps", "ppt/presProps.xml"), ("viewProps", "ppt/viewProps.xml"), ("tableStyles", "ppt/tableStyles.xml")] {
        if r.chance(3, 4) {
            add(r, &mut used, k, p);
            // an outline view that remembers which slides are unfolded
            if k == "viewProps" && n > 0 && r.chance(1, 4) {
                let open: Vec<&FSlide> = slides.iter().filter(|_| r.chance(2, 3)).collect();
                let (mut used, mut list, mut rels) = (vec![], String::new(), String::new());
                for s in open {
                    let id = rid(r, &mut used);
                    list.push_str(&format!("<p:sld r:id=\"{}\"{}", id, if r.bool() { " collapse=\"1\"/>" } else { "></p:sld>" }));
                    rels.push_str(&format!("<Relationship Id=\"{}\" Type=\"{}/slide\" Target=\"{}\"/>", id, crate::opc::NS_R, target(r, p, &s.part)));
                }
                if !list.is_empty() {
                    let x = format!("<p:viewPr{}><p:outlineViewPr><p:cViewPr><p:scale><a:sx n=\"1\" d=\"1\"/><a:sy n=\"1\" d=\"1\"/></p:scale><p:origin x=\"0\" y=\"0\"/></p:cViewPr><p:sldLst>{}</p:sldLst></p:outlineViewPr></p:viewPr>", decl, list);
                    parts.retain(|x| x.0 != p);
                    parts.push((p.into(), quote(rename(&x)).into_bytes()));
                    parts.push((crate::opc::rels_name(p), quote(format!("<Relationships xmlns=\"{}\">{}</Relationships>", crate::opc::NS_REL, rels)).into_bytes()));
                }
            }
        } else {
            parts.retain(|x| x.0 != p);
        }
    }
    if r.chance(2, 3) {
        r.shuffle(&mut rels);
    }
    let sep = if st.pretty { "\n  " } else { "" };
    let mut ids: Vec<u32> = vec![];
    for _ in 0..n {
        loop {
            let v = if r.chance(1, 10) { r.u32(256, 2_000_000_000) } else { r.u32(256, 300) };
            if !ids.contains(&v) {
                ids.push(v);
                break;
            }
        }
    }
    let list = if n == 0 && r.bool() {
        String::new()
    } else if n == 0 && r.bool() {
        "<p:sldIdLst/>".into()
    } else {
        format!("<p:sldIdLst>{}{}</p:sldIdLst>", sl.iter().zip(&ids).map(|(i, v)| if r.bool() { format!("{}<p:sldId id=\"{}\" r:id=\"{}\"/>", sep, v, i) } else { format!("{}<p:sldId r:id=\"{}\" id=\"{}\"></p:sldId>", sep, i, v) }).collect::<String>(), sep)
    };
    // shows of some of the slides, and slides grouped in sections
    let mut tail = String::new();
    if n > 0 && r.chance(1, 4) {
        tail.push_str("<p:custShowLst>");
        for k in 0..1 + r.below(2) {
            let l: String = (0..1 + r.below(4)).map(|_| format!("<p:sld r:id=\"{}\"{}", r.pick(&sl), if r.bool() { "/>" } else { "></p:sld>" })).collect();
            tail.push_str(&format!("<p:custShow name=\"{}\" id=\"{}\"><p:sldLst>{}</p:sldLst></p:custShow>", crate::xml::esc(&text::tag(r)), k, l));
        }
        tail.push_str("</p:custShowLst>");
    }
    if n > 0 && r.chance(1, 4) {
        let cut = r.below(n + 1);
        let sect = |k: usize, l: &[u32]| format!("<p14:section name=\"S{}\" id=\"{{6D9936A3-3945-4757-BC8B-B5C252D8E03{}}}\"><p14:sldIdLst>{}</p14:sldIdLst></p14:section>", k, k, l.iter().map(|v| format!("<p14:sldId id=\"{}\"/>", v)).collect::<String>());
        tail.push_str(&format!("<p:extLst><p:ext uri=\"{{521415D9-36F7-43E2-AB2F-B90AF26B5E84}}\"><p14:sectionLst xmlns:p14=\"http://schemas.microsoft.com/office/powerpoint/2010/main\">{}{}</p14:sectionLst></p:ext></p:extLst>", sect(0, &ids[..cut]), sect(1, &ids[cut..])));
    }
    let pres = format!(
        "<p:presentation{}><p:sldMasterIdLst><p:sldMasterId id=\"2147483648\" r:id=\"{}\"/></p:sldMasterIdLst>{}{}{}<p:sldSz cx=\"12192000\" cy=\"6858000\"/><p:notesSz cx=\"6858000\" cy=\"9144000\"/>{}</p:presentation>",
        decl,
        m,
        nm.map(|x| format!("<p:notesMasterIdLst><p:notesMasterId r:id=\"{}\"/></p:notesMasterIdLst>", x)).unwrap_or_default(),
        sep,
        list,
        tail
    );
    parts.push((main.into(), format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>{}", quote(rename(&pres))).into_bytes()));
    let relx = format!("<Relationships xmlns=\"{}\">{}</Relationships>", crate::opc::NS_REL, rels.join(sep));
    parts.push((crate::opc::rels_name(main), quote(relx).into_bytes()));
    // properties
    let title = if r.chance(4, 5) { Some(text::any(r)) } else { None };
    let creator = if r.bool() { Some(text::any(r)) } else { None };
    let revision = if r.bool() { Some(r.u32(0, 1_000_000)) } else { None };
    let has_core = title.is_some() || creator.is_some() || revision.is_some();
    let mut root = format!("<Relationship Id=\"rId1\" Type=\"{}/officeDocument\" Target=\"{}ppt/presentation.xml\"/>", crate::opc::NS_R, if r.bool() { "/" } else { "" });
    if has_core {
        let mut c = String::from("<cp:coreProperties xmlns:cp=\"http://schemas.openxmlformats.org/package/2006/metadata/core-properties\" xmlns:dc=\"http://purl.org/dc/elements/1.1/\" xmlns:dcterms=\"http://purl.org/dc/terms/\" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\">");
        if let Some(t) = &creator {
            c.push_str(&format!("<dc:creator>{}</dc:creator>", esc(t)));
        }
        if let Some(t) = revision {
            c.push_str(&format!("<cp:revision>{}</cp:revision>", t));
        }
        if let Some(t) = &title {
            c.push_str(&format!("<dc:title>{}</dc:title>", esc(t)));
        }
        c.push_str("</cp:coreProperties>");
        parts.push(("docProps/core.xml".into(), c.into_bytes()));
        root.push_str("<Relationship Id=\"rId2\" Type=\"http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties\" Target=\"docProps/core.xml\"/>");
    }
    let has_app = r.chance(3, 4);
    if has_app {
        parts.push(("docProps/app.xml".into(), b["docProps/app.xml"].clone()));
        root.push_str(&format!("<Relationship Id=\"rId3\" Type=\"{}/extended-properties\" Target=\"docProps/app.xml\"/>", crate::opc::NS_R));
    }
    parts.push(("_rels/.rels".into(), format!("<Relationships xmlns=\"{}\">{}</Relationships>", crate::opc::NS_REL, root).into_bytes()));
    // content types
    let mut ct = format!("<Types xmlns=\"{}\"><Default Extension=\"rels\" ContentType=\"application/vnd.openxmlformats-package.relationships+xml\"/><Default Extension=\"xml\" ContentType=\"application/xml\"/>", crate::opc::NS_CT);
    if !media.is_empty() {
        ct.push_str("<Default ContentType=\"image/png\" Extension=\"PNG\"/>");
    }
    for (n, t) in &ov {
        ct.push_str(&format!("<Override PartName=\"/{}\" ContentType=\"{}{}\"/>", n, CT, t));
    }
    for (n, _) in &parts {
        let t = if n == main {
            "presentationml.presentation.main+xml"
        } else if n.starts_with("ppt/slideLayouts/slide") {
            "presentationml.slideLayout+xml"
        } else if n.starts_with("ppt/slideMasters/slide") {
            "presentationml.slideMaster+xml"
        } else if n.starts_with("ppt/notesMasters/notes") {
            "presentationml.notesMaster+xml"
        } else if n.starts_with("ppt/theme/") {
            "theme+xml"
        } else if n == "ppt/presProps.xml" {
            "presentationml.presProps+xml"
        } else if n == "ppt/viewProps.xml" {
            "presentationml.viewProps+xml"
        } else if n == "ppt/tableStyles.xml" {
            "presentationml.tableStyles+xml"
        } else if n == "docProps/app.xml" {
            "extended-properties+xml"
        } else if n == "docProps/core.xml" {
            ct.push_str("<Override PartName=\"/docProps/core.xml\" ContentType=\"application/vnd.openxmlformats-package.core-properties+xml\"/>");
            continue;
        } else {
            continue;
        };
        ct.push_str(&format!("<Override ContentType=\"{}{}\" PartName=\"/{}\"/>", CT, t, n));
    }
    ct.push_str("</Types>");
    parts.insert(0, ("[Content_Types].xml".into(), ct.into_bytes()));
    if r.bool() {
        let first = parts.remove(0);
        r.shuffle(&mut parts);
        parts.insert(0, first);
    }
    let bytes = zipx::write(&parts);
    Foreign { title, creator, revision, slides, media, parts, bytes }
}

impl FSlide {
    /// Shapes in document order with slide coordinates, groups opened.
    pub fn shapes(&self) -> Vec<&FShape> {
        fn go<'a>(v: &'a [FObj], out: &mut Vec<&'a FShape>) {
            for o in v {
                match o {
                    FObj::Shape(s) => out.push(s),
                    FObj::Group(_, _, _, v) => go(v, out),
                    _ => {}
                }
            }
        }
        let mut out = vec![];
        go(&self.objs, &mut out);
        out
    }
    pub fn tables(&self) -> Vec<&Vec<Vec<FCell>>> {
        fn go<'a>(v: &'a [FObj], out: &mut Vec<&'a Vec<Vec<FCell>>>) {
            for o in v {
                match o {
                    FObj::Table(t) => out.push(t),
                    FObj::Group(_, _, _, v) => go(v, out),
                    _ => {}
                }
            }
        }
        let mut out = vec![];
        go(&self.objs, &mut out);
        out
    }
}

fn uses(o: &FObj, i: usize) -> bool {
    match o {
        FObj::Picture(n) => *n == i,
        FObj::Group(_, _, _, v) => v.iter().any(|o| uses(o, i)),
        _ => false,
    }
}

impl Foreign {
    pub fn sig(&self) -> String {
        self.slides.iter().map(|s| format!("[{}{}{}]", s.objs.iter().map(sigk).collect::<Vec<_>>().join(","), s.notes.is_some() as u8, s.link.is_some() as u8)).collect()
    }
}
fn sigk(o: &FObj) -> String {
    match o {
        FObj::Shape(s) => format!("{}{}", s.ph.as_deref().unwrap_or("s"), s.paras.len()),
        FObj::Group(_, _, k, v) => format!("g{}({})", k, v.iter().map(sigk).collect::<String>()),
        FObj::Table(t) => format!("t{}x{}", t.len(), t[0].len()),
        FObj::Picture(_) => "p".into(),
        FObj::Line => "l".into(),
    }
}
