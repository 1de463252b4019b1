use crate::opc::Pkg;
use crate::pml;
use crate::rng::Rng;
use crate::text;
use crate::xml::Elem;
use ppt_rs::generator::ShapeType as T;
use ppt_rs::generator::{ArrowSize, ArrowType, ConnectionSite, Connector, ConnectorLine, ConnectorType, Hyperlink, HyperlinkAction, LineDash, Shape, ShapeFill, ShapeGradientDirection, ShapeGradientFill, ShapeGradientStop, ShapeLine};

/// Every shape type and the DrawingML preset it names ("*": no exact preset exists, any valid one).
pub const PRESET: &[(T, &str)] = include!("presets.inc");

#[derive(Clone, Debug)]
pub enum Fill {
    None,
    Solid { input: String, hex: String, transparency: Option<u32> },
    Grad { stops: Vec<(String, String, u32, Option<u32>)>, dir: u8, deg: u32 },
}

#[derive(Clone, Debug)]
pub struct Link {
    pub kind: u8,
    pub a: String,
    pub b: Option<String>,
    pub n: u32,
    pub tip: Option<String>,
    pub lit: bool,
    pub rid: Option<String>,
}

#[derive(Clone, Debug)]
pub struct ShapeS {
    pub ty: usize,
    pub x: u32,
    pub y: u32,
    pub w: u32,
    pub h: u32,
    pub fill: Fill,
    pub line: Option<(String, String, u32)>,
    pub text: Option<String>,
    pub rot: Option<i32>,
    pub id: Option<u32>,
    pub link: Option<Link>,
}

pub const COORD: u32 = 13_000_000;

pub fn emu(r: &mut Rng) -> u32 {
    match r.below(10) {
        0 => 0,
        1 => 1,
        2 => r.u32(0, 2_147_483_647),
        _ => r.u32(0, COORD),
    }
}

pub fn random(r: &mut Rng, rich: bool) -> ShapeS {
    let fill = match r.below(4) {
        0 => Fill::None,
        1 => {
            let n = if r.chance(1, 6) { 6 + r.below(8) } else { 2 + r.below(4) };
            let mut stops = vec![];
            let even = n < 4 && r.bool();
            for k in 0..n as u32 {
                let (i, h) = text::color(r);
                stops.push((i, h, if even { 100 * k / (n as u32 - 1) } else { r.u32(0, 100) }, if !even && r.chance(1, 3) { Some(r.u32(0, 100)) } else { None }));
            }
            Fill::Grad { stops, dir: r.below(5) as u8, deg: r.u32(0, 359) }
        }
        _ => {
            let (input, hex) = text::color(r);
            Fill::Solid { input, hex, transparency: if r.chance(1, 3) { Some(r.u32(0, 100)) } else { None } }
        }
    };
    let line = if r.bool() {
        let (i, h) = text::color(r);
        Some((i, h, r.u32(0, 200_000)))
    } else {
        None
    };
    let t = if r.chance(3, 4) {
        Some(match r.below(6) {
            0 => text::multi(r),
            1 => {
                let n = 1 + r.below(4);
                format!("[{}]\n{}", r.pick(&["rust", "py", ""]), (0..n).map(|_| if r.chance(1, 5) { String::new() } else { text::any(r) }).collect::<Vec<_>>().join("\n"))
            }
            2 => text::wild(r),
            _ => text::any(r),
        })
    } else {
        None
    };
    ShapeS {
        ty: r.below(PRESET.len()),
        x: emu(r),
        y: emu(r),
        w: emu(r),
        h: emu(r),
        fill,
        line,
        text: t,
        rot: if rich && r.chance(1, 3) { Some(r.range(-720, 720) as i32) } else { None },
        id: None,
        link: None,
    }
}

impl Link {
    pub fn random(r: &mut Rng) -> Link {
        let kind = r.below(9) as u8;
        Link {
            kind,
            a: match kind {
                0 => match r.below(4) {
                    0 => format!("https://example.org/{}?a=1&b={}#f", text::tag(r), text::tag(r)),
                    1 => format!("http://example.org/it's({})/%20x;y=1", text::tag(r)),
                    2 => format!("ftp://[::1]:8080/{}", text::tag(r)),
                    _ => format!("https://example.org/{}", text::tag(r)),
                },
                1 => format!("{}{}@{}.org", r.pick(&["", "", "Ada.L+", "X-", "o'neil_"]), text::tag(r), r.pick(&["example", "Example-2", "EXAMPLE"])),
                _ => match r.below(3) {
                    0 => format!("C:\\docs\\{}.txt", text::tag(r)),
                    1 => format!("notes/{}&x.txt", text::tag(r)),
                    _ => format!("D:/{}/a.pptx", text::tag(r)),
                },
            },
            b: if kind == 1 && r.bool() { Some(match r.below(4) {
                0 | 1 => text::any(r),
                2 => format!("{}\t{}\n{}", text::tag(r), text::tag(r), text::tag(r)),
                _ => text::tag(r),
            }) } else { None },
            n: if r.chance(1, 10) { *r.pick(&[0, 99, u32::MAX]) } else { r.u32(1, 7) },
            tip: if r.bool() { Some(text::any(r)) } else { None },
            lit: r.bool(),
            rid: if r.chance(1, 3) { Some(format!("{}{}", r.pick(&["rId", "rId", "rId", "link", "R"]), r.u32(0, 9))) } else { None },
        }
    }
    /// Where the link leads, and through which kind of relationship.
    fn target(&self) -> String {
        match self.kind {
            0 => self.a.clone(),
            1 => match &self.b {
                None => format!("mailto:{}", self.a),
                Some(s) => format!("mailto:{}?subject={}", self.a, s.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-._~".contains(&b) { (b as char).to_string() } else { format!("%{:02X}", b) }).collect::<String>()),
            },
            _ => format!("file:///{}", self.a.replace('\\', "/")),
        }
    }
    pub fn check(&self, k: &Pkg, part: &str, slides: &[String], e: Option<&Elem>) -> Result<(), String> {
        let w = |m: String| Err(format!("link {:?}: {}", self.action(), m));
        let gone = self.kind == 3 && !(1..=slides.len()).contains(&(self.n as usize));
        let Some(e) = e else { return if gone { Ok(()) } else { w("is not on its shape".into()) } };
        if gone {
            return w("leads to a slide that is not there".into());
        }
        let want = match self.kind {
            3 => "ppaction://hlinksldjump",
            4 => "ppaction://hlinkshowjump?jump=firstslide",
            5 => "ppaction://hlinkshowjump?jump=lastslide",
            6 => "ppaction://hlinkshowjump?jump=nextslide",
            7 => "ppaction://hlinkshowjump?jump=previousslide",
            8 => "ppaction://hlinkshowjump?jump=endshow",
            _ => "",
        };
        if e.attr("action").unwrap_or("") != want {
            return w(format!("action {:?} instead of {:?}", e.attr("action"), want));
        }
        let tip = self.tip.as_deref().unwrap_or("");
        if e.attr("tooltip").unwrap_or("") != tip {
            return w(format!("tip {:?} instead of {:?}", e.attr("tooltip"), tip));
        }
        if pml::boolish(e.attr("highlightClick")) != self.lit {
            return w(format!("highlight {:?} instead of {}", e.attr("highlightClick"), self.lit));
        }
        let Some(id) = e.attr_ns(crate::opc::NS_R, "id") else { return w("has no r:id".into()) };
        if self.kind > 3 {
            return if id.is_empty() { Ok(()) } else { w(format!("a jump within the show refers to relationship {:?}", id)) };
        }
        let found: Vec<_> = k.rels_of(part).iter().filter(|r| r.id == id).collect();
        let [rel] = found[..] else { return w(format!("{} relationships are called {:?}", found.len(), id)) };
        let typ = if self.kind == 3 { "slide" } else { "hyperlink" };
        if crate::opc::short_type(&rel.typ) != typ {
            return w(format!("goes through relationship {:?} of type {}", id, rel.typ));
        }
        if self.kind == 3 {
            if rel.external || rel.part != slides[self.n as usize - 1] {
                return w(format!("leads to {:?} instead of {}", rel.target, slides[self.n as usize - 1]));
            }
        } else if !rel.external || rel.target != self.target() {
            return w(format!("leads to {:?} (external: {}) instead of {:?}", rel.target, rel.external, self.target()));
        }
        Ok(())
    }
    pub fn action(&self) -> HyperlinkAction {
        match self.kind {
            0 => HyperlinkAction::url(&self.a),
            1 => match &self.b {
                Some(s) => HyperlinkAction::email_with_subject(&self.a, s),
                None => HyperlinkAction::email(&self.a),
            },
            2 => HyperlinkAction::file(&self.a),
            3 => HyperlinkAction::slide(self.n),
            4 => HyperlinkAction::FirstSlide,
            5 => HyperlinkAction::LastSlide,
            6 => HyperlinkAction::NextSlide,
            7 => HyperlinkAction::PreviousSlide,
            _ => HyperlinkAction::EndShow,
        }
    }
    pub fn build(&self) -> Hyperlink {
        let mut h = match self.kind {
            0 if self.lit => Hyperlink::url(&self.a),
            1 if self.lit && self.b.is_none() => Hyperlink::email(&self.a),
            3 if self.lit => Hyperlink::slide(self.n),
            _ => Hyperlink::new(self.action()).with_highlight_click(self.lit),
        };
        if let Some(t) = &self.tip {
            h = h.with_tooltip(t);
        }
        if let Some(t) = &self.rid {
            h = h.with_r_id(t);
        }
        h
    }
}

impl ShapeS {
    pub fn build(&self) -> Shape {
        let mut s = Shape::new(PRESET[self.ty].0, self.x, self.y, self.w, self.h);
        match &self.fill {
            Fill::None => {}
            Fill::Solid { input, transparency, .. } => {
                let mut f = ShapeFill::new(input);
                if let Some(t) = transparency {
                    f = if t % 2 == 0 { f.with_transparency(*t) } else { f.transparency(*t) };
                }
                s = s.with_fill(f);
            }
            Fill::Grad { stops, dir, deg } => {
                let d = match dir {
                    0 => ShapeGradientDirection::Horizontal,
                    1 => ShapeGradientDirection::Vertical,
                    2 => ShapeGradientDirection::DiagonalDown,
                    3 => ShapeGradientDirection::DiagonalUp,
                    _ => ShapeGradientDirection::Angle(*deg),
                };
                let plain = |i: usize, p: u32| stops[i].2 == p && stops[i].3.is_none();
                let g = if stops.len() == 2 && plain(0, 0) && plain(1, 100) {
                    ShapeGradientFill::linear(&stops[0].0, &stops[1].0, d)
                } else if stops.len() == 3 && plain(0, 0) && plain(1, 50) && plain(2, 100) {
                    ShapeGradientFill::three_color(&stops[0].0, &stops[1].0, &stops[2].0, d)
                } else {
                    let mut g = ShapeGradientFill { stops: vec![], direction: d };
                    for (i, _, p, t) in stops {
                        let mut st = ShapeGradientStop::new(i, *p);
                        if let Some(t) = t {
                            st = st.with_transparency(*t);
                        }
                        g = g.with_stop(st);
                    }
                    g
                };
                s = s.with_gradient(g);
            }
        }
        if let Some((i, _, w)) = &self.line {
            s = s.with_line(ShapeLine::new(i, *w));
        }
        if let Some(t) = &self.text {
            s = s.with_text(t);
        }
        if let Some(r) = self.rot {
            s = s.with_rotation(r);
        }
        if let Some(i) = self.id {
            s = s.with_id(i);
        }
        if let Some(l) = &self.link {
            s = s.with_hyperlink(l.build());
        }
        s
    }

    pub fn check(&self, g: &pml::Shape) -> Result<(), String> {
        let w = |m: String| Err(format!("shape {:?}: {}", PRESET[self.ty].0, m));
        if g.kind != "sp" {
            return w(format!("drawn as {}", g.kind));
        }
        if (g.x, g.y, g.cx, g.cy) != (self.x as i64, self.y as i64, self.w as i64, self.h as i64) {
            return w(format!("asked for position/size {:?}, drawn at {:?}", (self.x, self.y, self.w, self.h), (g.x, g.y, g.cx, g.cy)));
        }
        let want = self.rot.unwrap_or(0) as i64 * 60000;
        if (g.rot - want).rem_euclid(21_600_000) != 0 {
            return w(format!("asked for rotation {:?} degrees, drawn with rot={}", self.rot, g.rot));
        }
        let p = g.prst.clone().unwrap_or_default();
        if PRESET[self.ty].1 != "*" && p != PRESET[self.ty].1 {
            return w(format!("drawn with preset geometry {:?} instead of {:?}", p, PRESET[self.ty].1));
        }
        let spr = g.e().child("spPr").ok_or("no spPr")?;
        fill_check(&self.fill, spr).or_else(w)?;
        let ln = spr.child("ln");
        match (&self.line, ln) {
            (None, None) => {}
            (None, Some(l)) if l.child("noFill").is_some() => {}
            (Some((_, h, wd)), Some(l)) => {
                if l.attr("w") != Some(wd.to_string().as_str()) {
                    return w(format!("line width {:?} instead of {}", l.attr("w"), wd));
                }
                if l.child("solidFill").and_then(pml::color_of).as_deref() != Some(h) {
                    return w(format!("line colour {:?} instead of {}", l.child("solidFill").and_then(pml::color_of), h));
                }
            }
            (a, b) => return w(format!("line asked {:?}, drawn {:?}", a, b.map(|x| x.canon()))),
        }
        let got = g.text();
        match &self.text {
            Some(t) => {
                if got.trim_end_matches('\n') != t.trim_end_matches('\n') {
                    return w(format!("text {} came out as {}", text::short(t), text::short(&got)));
                }
            }
            None => {
                if !got.is_empty() {
                    return w(format!("unexpected text {}", text::short(&got)));
                }
            }
        }
        if let Some(i) = self.id
            && g.id != i {
                return w(format!("asked for id {}, drawn with {}", i, g.id));
            }
        Ok(())
    }
}

fn alpha_of(c: &Elem) -> Option<i64> {
    c.child("alpha").and_then(|a| a.attr("val")).and_then(|v| v.parse().ok())
}

fn alpha_want(t: Option<u32>) -> i64 {
    (100 - t.unwrap_or(0).min(100) as i64) * 1000
}

pub fn fill_check(f: &Fill, spr: &Elem) -> Result<(), String> {
    match f {
        Fill::None => {
            if spr.child("solidFill").is_some() || spr.child("gradFill").is_some() {
                return Err("filled although no fill was asked for".into());
            }
        }
        Fill::Solid { hex, transparency, .. } => {
            let Some(c) = spr.child("solidFill").and_then(|s| s.child("srgbClr")) else {
                return Err("no solid fill drawn".into());
            };
            if c.attr("val") != Some(hex) {
                return Err(format!("fill colour {:?} instead of {}", c.attr("val"), hex));
            }
            if alpha_of(c).unwrap_or(100_000) != alpha_want(*transparency) {
                return Err(format!("fill alpha {:?} for transparency {:?}%", alpha_of(c), transparency));
            }
        }
        Fill::Grad { stops, dir, deg } => {
            let Some(g) = spr.child("gradFill") else {
                return Err("no gradient fill drawn".into());
            };
            let mut want: Vec<(i64, String, i64)> = stops.iter().map(|s| (s.2 as i64 * 1000, s.1.clone(), alpha_want(s.3))).collect();
            let mut got: Vec<(i64, String, i64)> = g
                .child("gsLst")
                .map(|l| {
                    l.kids("gs")
                        .into_iter()
                        .map(|s| {
                            let c = s.child("srgbClr");
                            (s.attr("pos").and_then(|v| v.parse().ok()).unwrap_or(-1), c.and_then(|c| c.attr("val")).unwrap_or("").to_string(), c.and_then(alpha_of).unwrap_or(100_000))
                        })
                        .collect()
                })
                .unwrap_or_default();
            if got.windows(2).any(|p| p[0].0 > p[1].0) {
                return Err(format!("gradient stops out of order: {:?}", got));
            }
            want.sort();
            got.sort();
            if want != got {
                return Err(format!("gradient stops {:?} instead of {:?}", got, want));
            }
            let ang: i64 = g.child("lin").and_then(|l| l.attr("ang")).and_then(|v| v.parse().ok()).unwrap_or(-1);
            let want = match dir {
                0 => 0,
                1 => 90,
                2 => 45,
                3 => 315,
                _ => *deg as i64,
            } * 60000;
            if ang != want {
                return Err(format!("gradient angle {} instead of {}", ang, want));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- connectors
#[derive(Clone, Debug)]
pub struct ConnS {
    pub ty: u8,
    pub a: (u32, u32),
    pub b: (u32, u32),
    pub color: Option<(String, String)>,
    pub width: Option<u32>,
    pub dash: u8,
    pub heads: (u8, u8),
    pub size: u8,
    pub from: Option<(u32, u8)>,
    pub to: Option<(u32, u8)>,
    pub label: Option<String>,
}

const ARROWS: [(ArrowType, &str); 6] = [(ArrowType::None, "none"), (ArrowType::Triangle, "triangle"), (ArrowType::Stealth, "stealth"), (ArrowType::Diamond, "diamond"), (ArrowType::Oval, "oval"), (ArrowType::Open, "arrow")];
const DASHES: [(LineDash, &str); 7] = [
    (LineDash::Solid, "solid"),
    (LineDash::Dash, "dash"),
    (LineDash::Dot, "dot"),
    (LineDash::DashDot, "dashDot"),
    (LineDash::DashDotDot, "lgDashDotDot"),
    (LineDash::LongDash, "lgDash"),
    (LineDash::LongDashDot, "lgDashDot"),
];
const SITES: [(ConnectionSite, u32); 9] = [
    (ConnectionSite::Top, 0),
    (ConnectionSite::Right, 1),
    (ConnectionSite::Bottom, 2),
    (ConnectionSite::Left, 3),
    (ConnectionSite::TopLeft, 4),
    (ConnectionSite::TopRight, 5),
    (ConnectionSite::BottomRight, 6),
    (ConnectionSite::BottomLeft, 7),
    (ConnectionSite::Center, 8),
];

pub fn random_conn(r: &mut Rng, ids: &[u32], label: bool) -> ConnS {
    let end = |r: &mut Rng| {
        if !ids.is_empty() && r.chance(1, 3) { Some((*r.pick(ids), r.below(SITES.len()) as u8)) } else { None }
    };
    ConnS {
        ty: r.below(3) as u8,
        a: (emu(r), emu(r)),
        b: (emu(r), emu(r)),
        color: if r.bool() { Some(text::color(r)) } else { None },
        width: if r.bool() { Some(r.u32(0, 200_000)) } else { None },
        dash: r.below(7) as u8,
        heads: (r.below(6) as u8, r.below(6) as u8),
        size: r.below(3) as u8,
        from: end(r),
        to: end(r),
        label: if label && r.chance(1, 3) { Some(text::any(r)) } else { None },
    }
}

impl ConnS {
    pub fn build(&self) -> Connector {
        let (a, b) = (self.a, self.b);
        let mut c = match self.ty {
            0 => Connector::straight(a.0, a.1, b.0, b.1),
            1 => Connector::elbow(a.0, a.1, b.0, b.1),
            _ => Connector::new(ConnectorType::Curved, a.0, a.1, b.0, b.1),
        };
        let (col, w) = (self.color.clone(), self.width);
        if let (Some(x), Some(w)) = (&col, w) {
            c = c.with_line(ConnectorLine::new(&x.0, w).with_dash(DASHES[self.dash as usize].0));
        } else {
            c = c.with_line(ConnectorLine::default().with_dash(DASHES[self.dash as usize].0));
            if let Some(x) = &col {
                c = c.with_color(&x.0);
            }
            if let Some(w) = w {
                c = c.with_width(w);
            }
        }
        let (s, e) = (ARROWS[self.heads.0 as usize].0, ARROWS[self.heads.1 as usize].0);
        c = if self.heads.0 % 2 == 0 { c.with_arrows(s, e) } else { c.with_start_arrow(s).with_end_arrow(e) };
        c = c.with_arrow_size([ArrowSize::Small, ArrowSize::Medium, ArrowSize::Large][self.size as usize]);
        if let Some((i, s)) = self.from {
            c = c.connect_start(i, SITES[s as usize].0);
        }
        if let Some((i, s)) = self.to {
            c = c.connect_end(i, SITES[s as usize].0);
        }
        if let Some(l) = &self.label {
            c = c.with_label(l);
        }
        c
    }

    pub fn check(&self, g: &pml::Shape) -> Result<(), String> {
        let w = |m: String| Err(format!("connector {:?}->{:?}: {}", self.a, self.b, m));
        if g.kind != "cxnSp" {
            return w(format!("drawn as {}", g.kind));
        }
        // end points as a reader reconstructs them
        let (mut x0, mut y0, mut x1, mut y1) = (g.x, g.y, g.x + g.cx, g.y + g.cy);
        if g.flip_h {
            std::mem::swap(&mut x0, &mut x1);
        }
        if g.flip_v {
            std::mem::swap(&mut y0, &mut y1);
        }
        if (x0, y0, x1, y1) != (self.a.0 as i64, self.a.1 as i64, self.b.0 as i64, self.b.1 as i64) {
            return w(format!("drawn from {:?} to {:?}", (x0, y0), (x1, y1)));
        }
        let want = ["straightConnector1", "bentConnector3", "curvedConnector3"][self.ty as usize];
        if g.prst.as_deref() != Some(want) {
            return w(format!("geometry {:?} instead of {}", g.prst, want));
        }
        let Some(ln) = g.e().at("spPr/ln") else { return w("no line".into()) };
        let hex = self.color.as_ref().map(|c| c.1.as_str()).unwrap_or("000000");
        if ln.child("solidFill").and_then(pml::color_of).as_deref() != Some(hex) {
            return w(format!("colour {:?} instead of {}", ln.child("solidFill").and_then(pml::color_of), hex));
        }
        if ln.attr("w") != Some(self.width.unwrap_or(12700).to_string().as_str()) {
            return w(format!("width {:?} instead of {:?}", ln.attr("w"), self.width));
        }
        if ln.child("prstDash").and_then(|d| d.attr("val")).unwrap_or("solid") != DASHES[self.dash as usize].1 {
            return w("wrong dash".into());
        }
        let sz = ["sm", "med", "lg"][self.size as usize];
        for (el, k) in [("headEnd", self.heads.0), ("tailEnd", self.heads.1)] {
            let e = ln.child(el);
            let got = e.and_then(|e| e.attr("type")).unwrap_or("none");
            if got != ARROWS[k as usize].1 {
                return w(format!("{} {:?} instead of {:?}", el, got, ARROWS[k as usize].1));
            }
            if got != "none" && (e.unwrap().attr("w").unwrap_or("med") != sz || e.unwrap().attr("len").unwrap_or("med") != sz) {
                return w(format!("{} size is not {}", el, sz));
            }
        }
        let cn = g.e().at("nvCxnSpPr/cNvCxnSpPr");
        for (el, k) in [("stCxn", self.from), ("endCxn", self.to)] {
            let got = cn.and_then(|c| c.child(el)).map(|e| (e.attr("id").unwrap_or("").to_string(), e.attr("idx").unwrap_or("").to_string()));
            let want = k.map(|(i, s)| (i.to_string(), SITES[s as usize].1.to_string()));
            if got != want {
                return w(format!("{} {:?} instead of {:?}", el, got, want));
            }
        }
        if let Some(l) = &self.label
            && !g.e().desc("t").iter().any(|t| t.text() == *l) {
                return w(format!("label {} is missing", text::short(l)));
            }
        Ok(())
    }
}
