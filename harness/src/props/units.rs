//! C23: units, colours, ready-made shapes, tables and arrangements against exact models.
use crate::opc::{NS_A, NS_R, Pkg};
use crate::pml;
use crate::report::{Ctx, Out, Res, guard};
use crate::rng::Rng;
use crate::spec::shape::{Fill, PRESET, ShapeS};
use crate::text;
use crate::xml;
use ppt_rs::core::{Dimension, ElementSized, FlexPosition, FlexSize, Positioned, ToXml};
use ppt_rs::elements::{Color, Position, RgbColor, SchemeColor, Size, Transform};
use ppt_rs::generator::{self, ShapeGradientDirection as GradientDirection, ShapeType as T, SlideContent};
use ppt_rs::helpers as h;
use ppt_rs::helpers::ShapeExt;
use ppt_rs::prelude as p;

const INCH: f64 = 914_400.0;
const CM: f64 = 360_000.0;
const PT: f64 = 12_700.0;
const W: u32 = 9_144_000;
const H: u32 = 6_858_000;

fn near(what: &str, got: f64, want: f64, tol: f64) -> Result<(), String> {
    if (got - want).abs() <= tol { Ok(()) } else { Err(format!("{}: {} instead of {}", what, got, want)) }
}

fn eq<A: PartialEq + std::fmt::Debug>(what: &str, got: A, want: A) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{}: {:?} instead of {:?}", what, got, want)) }
}

/// A length in some unit: ordinary, boundary, tiny, negative, huge.
fn len(r: &mut Rng, unit: f64) -> f64 {
    match r.below(12) {
        0 => 0.0,
        1 => -r.f64() * 20.0,
        2 => r.f64() * 1e12,
        3 => r.u32(0, u32::MAX) as f64 / unit,
        4 => r.f64() / unit * 3.0,
        5 => r.u32(0, 40) as f64,
        6 => r.u32(0, 4000) as f64 / 100.0,
        7 => u32::MAX as f64 / unit,
        _ => r.f64() * 15.0,
    }
}

fn clamp32(v: f64) -> f64 {
    v.clamp(0.0, u32::MAX as f64)
}

/// (dimension, what it means against a reference)
fn dim(r: &mut Rng) -> (Dimension, Box<dyn Fn(u32) -> f64>) {
    match r.below(6) {
        0 => {
            let v = if r.bool() { r.u32(0, u32::MAX) } else { r.u32(0, W) };
            (if r.bool() { Dimension::Emu(v) } else if r.bool() { Dimension::emu(v) } else { Dimension::from(v) }, Box::new(move |_| v as f64))
        }
        1 => {
            let v = len(r, INCH);
            (if r.bool() { Dimension::Inches(v) } else { Dimension::inches(v) }, Box::new(move |_| clamp32(v * INCH)))
        }
        2 => {
            let v = len(r, CM);
            (if r.bool() { Dimension::Cm(v) } else { Dimension::cm(v) }, Box::new(move |_| clamp32(v * CM)))
        }
        3 => {
            let v = len(r, PT) * if r.bool() { 72.0 } else { 1.0 };
            (if r.bool() { Dimension::Pt(v) } else { Dimension::pt(v) }, Box::new(move |_| clamp32(v * PT)))
        }
        k => {
            let v = match r.below(8) {
                0 => -r.f64(),
                1 => 1.0 + r.f64() * 50.0,
                2 => 1.0,
                3 => 0.0,
                _ => r.f64(),
            };
            let d = if k == 4 {
                if r.bool() { Dimension::Ratio(v) } else { Dimension::ratio(v) }
            } else {
                Dimension::percent(v * 100.0)
            };
            (d, Box::new(move |reference| v.clamp(0.0, 1.0) * reference as f64))
        }
    }
}

fn units(r: &mut Rng) -> Res {
    let (d, m) = dim(r);
    let reference = match r.below(4) {
        0 => W,
        1 => H,
        2 => r.u32(0, 60_000_000),
        _ => r.u32(0, u32::MAX),
    };
    near(&format!("{:?} against {}", d, reference), d.to_emu(reference) as f64, m(reference), 1.0)?;
    near(&format!("{:?} across", d), d.to_emu_x() as f64, m(W), 1.0)?;
    near(&format!("{:?} down", d), d.to_emu_y() as f64, m(H), 1.0)?;
    let (e, n) = dim(r);
    let at = FlexPosition::new(d.clone(), e.clone()).to_emu();
    near("position across", at.0 as f64, m(W), 1.0)?;
    near("position down", at.1 as f64, n(H), 1.0)?;
    let (sw, sh) = (r.u32(0, 40_000_000), r.u32(0, 40_000_000));
    let at = FlexPosition::new(d.clone(), e.clone()).to_emu_with(sw, sh);
    near("position across a custom slide", at.0 as f64, m(sw), 1.0)?;
    near("position down a custom slide", at.1 as f64, n(sh), 1.0)?;
    let sz = FlexSize::new(d.clone(), e.clone()).to_emu();
    near("width", sz.0 as f64, m(W), 1.0)?;
    near("height", sz.1 as f64, n(H), 1.0)?;
    let sz = FlexSize::new(d.clone(), e.clone()).to_emu_with(sw, sh);
    near("width on a custom slide", sz.0 as f64, m(sw), 1.0)?;
    near("height on a custom slide", sz.1 as f64, n(sh), 1.0)?;
    // the shape built from them
    let (f, o) = dim(r);
    let (g, q) = dim(r);
    let mut s = generator::Shape::from_dimensions(T::Rectangle, d.clone(), e.clone(), f.clone(), g.clone());
    near("shape x", s.x as f64, m(W), 1.0)?;
    near("shape y", s.y as f64, n(H), 1.0)?;
    near("shape width", s.width as f64, o(W), 1.0)?;
    near("shape height", s.height as f64, q(H), 1.0)?;
    s = s.at(f, g).with_dimensions(d, e);
    near("moved shape x", Positioned::x(&s) as f64, o(W), 1.0)?;
    near("moved shape y", Positioned::y(&s) as f64, q(H), 1.0)?;
    near("resized shape width", ElementSized::width(&s) as f64, m(W), 1.0)?;
    near("resized shape height", ElementSized::height(&s) as f64, n(H), 1.0)?;
    let (a, b, c, d) = (r.u32(0, W), r.u32(0, W), r.u32(0, W), r.u32(0, W));
    s.set_position(a, b);
    s.set_size(c, d);
    eq("explicit geometry", (s.x, s.y, s.width, s.height), (a, b, c, d))?;
    Ok(Out::sig(format!("{:?}", s)))
}

/// The three unit helpers, the element types, and going back to inches; order is kept.
fn helpers(r: &mut Rng) -> Res {
    let v = len(r, INCH);
    near("inches", p::inches(v) as f64, clamp32(v * INCH), 1.0)?;
    near("inches_to_emu", generator::inches_to_emu(v) as f64, clamp32(v * INCH), 1.0)?;
    near("cm", p::cm(v) as f64, clamp32(v * CM), 1.0)?;
    near("cm_to_emu", generator::cm_to_emu(v) as f64, clamp32(v * CM), 1.0)?;
    near("pt", p::pt(v) as f64, clamp32(v * PT), 1.0)?;
    let w = v + r.f64() * 0.001;
    for (n, f) in [("inches", p::inches as fn(f64) -> u32), ("cm", p::cm), ("pt", p::pt)] {
        if f(v) > f(w) {
            return Err(format!("{} of {} exceeds that of {}", n, v, w).into());
        }
    }
    let e = if r.bool() { r.u32(0, u32::MAX) } else { r.u32(0, W) };
    near("emu_to_inches", generator::emu_to_inches(e), e as f64 / INCH, 1e-9)?;
    near("there and back", generator::inches_to_emu(generator::emu_to_inches(e)) as f64, e as f64, 1.0)?;
    let s = r.u32(0, 4000);
    eq("font size units", p::font_sizes::to_emu(s), s * 100)?;
    let c = |v: f64, u: f64| (v * u).clamp(i64::MIN as f64, i64::MAX as f64);
    let (x, y, a, b) = (len(r, INCH), len(r, INCH), len(r, INCH), len(r, INCH));
    let ps = Position::from_inches(x, y);
    near("position x", ps.x as f64, c(x, INCH), 1.0)?;
    near("position y", ps.y as f64, c(y, INCH), 1.0)?;
    near("x in inches", ps.x_inches(), x, 2e-6 + x.abs() * 1e-12)?;
    near("y in inches", ps.y_inches(), y, 2e-6 + y.abs() * 1e-12)?;
    let pc = Position::from_cm(x, y);
    near("position x", pc.x as f64, c(x, CM), 1.0)?;
    near("position y", pc.y as f64, c(y, CM), 1.0)?;
    let sz = Size::from_inches(a, b);
    near("width", sz.width as f64, c(a, INCH), 1.0)?;
    near("height", sz.height as f64, c(b, INCH), 1.0)?;
    near("width in inches", sz.width_inches(), a, 2e-6 + a.abs() * 1e-12)?;
    near("height in inches", sz.height_inches(), b, 2e-6 + b.abs() * 1e-12)?;
    let sc = Size::from_cm(a, b);
    near("width", sc.width as f64, c(a, CM), 1.0)?;
    near("height", sc.height as f64, c(b, CM), 1.0)?;
    let deg = r.f64() * 720.0 - 360.0;
    let t = if r.bool() { Transform::from_inches(x, y, a, b) } else { Transform::new(ps, sz) };
    let (t, deg) = if r.bool() { (t.with_rotation(deg), deg) } else { (t, 0.0) };
    let d = format!("<w xmlns:a=\"{}\">{}</w>", NS_A, t.to_xml());
    let e = xml::parse(d.as_bytes()).map_err(|m| format!("transform: {}", m))?;
    let f = e.child("xfrm").ok_or("no transform")?;
    let n = |k: &str, at: &str| f.child(k).and_then(|q| q.attr(at)).and_then(|v| v.parse::<i64>().ok()).unwrap_or(i64::MIN) as f64;
    near("written x", n("off", "x"), c(x, INCH), 1.0)?;
    near("written y", n("off", "y"), c(y, INCH), 1.0)?;
    near("written width", n("ext", "cx"), c(a, INCH), 1.0)?;
    near("written height", n("ext", "cy"), c(b, INCH), 1.0)?;
    near("written rotation", f.attr("rot").unwrap_or("0").parse::<f64>().map_err(|_| "rotation is no number")?, deg * 60000.0, 1.0)?;
    Ok(Out::sig(format!("{:?}{}", t, v)))
}

// ---------------------------------------------------------------- colours

type C = h::ColorValue;

fn chan(what: &str, got: [u8; 4], want: [f64; 4]) -> Result<(), String> {
    for i in 0..4 {
        near(&format!("{} channel {}", what, i), got[i] as f64, want[i], 1.001)?;
    }
    Ok(())
}

fn arr(c: &C) -> [u8; 4] {
    [c.r, c.g, c.b, c.a]
}

fn any_col(r: &mut Rng) -> C {
    let mut ch = || match r.below(4) {
        0 => 0,
        1 => 255,
        _ => r.below(256) as u8,
    };
    let (a, b, c, d) = (ch(), ch(), ch(), ch());
    if r.bool() { C::rgb(a, b, c) } else { C::rgba(a, b, c, d) }
}

fn amount(r: &mut Rng) -> f32 {
    match r.below(8) {
        0 => 0.0,
        1 => 1.0,
        2 => -(r.f64() as f32) * 4.0,
        3 => 1.0 + r.f64() as f32 * 4.0,
        4 => r.below(101) as f32 / 100.0,
        _ => r.f64() as f32,
    }
}

fn colors(r: &mut Rng) -> Res {
    let c = any_col(r);
    let f = [c.r as f64, c.g as f64, c.b as f64, c.a as f64];
    let t = amount(r);
    let k = t.clamp(0.0, 1.0) as f64;
    let s = &format!("{:?} by {}", c, t);
    chan(&format!("lighter {}", s), arr(&c.lighter(t)), [f[0] + (255.0 - f[0]) * k, f[1] + (255.0 - f[1]) * k, f[2] + (255.0 - f[2]) * k, f[3]])?;
    chan(&format!("darker {}", s), arr(&c.darker(t)), [f[0] * (1.0 - k), f[1] * (1.0 - k), f[2] * (1.0 - k), f[3]])?;
    chan(&format!("opacity {}", s), arr(&c.opacity(t)), [f[0], f[1], f[2], 255.0 * k])?;
    let pc = r.below(256) as u8;
    chan(&format!("transparent {}%", pc), arr(&c.transparent(pc)), [f[0], f[1], f[2], 255.0 * (100 - pc.min(100)) as f64 / 100.0])?;
    let o = any_col(r);
    let g = [o.r as f64, o.g as f64, o.b as f64, o.a as f64];
    let mut want = [0.0; 4];
    for i in 0..4 {
        want[i] = f[i] * (1.0 - k) + g[i] * k;
    }
    chan(&format!("mix of {:?} with {:?} by {}", c, o, t), arr(&c.mix(&o, t)), want)?;
    let l = 0.299 * f[0] + 0.587 * f[1] + 0.114 * f[2];
    chan(&format!("grey of {:?}", c), arr(&c.grayscale()), [l, l, l, f[3]])?;
    eq("inverse", arr(&c.invert()), [255 - c.r, 255 - c.g, 255 - c.b, c.a])?;
    eq("double inverse", c.invert().invert(), c)?;
    if t >= 0.0 && (c.lighter(t).r < c.r || c.darker(t).b > c.b) {
        return Err(format!("lighter or darker went the wrong way for {}", s).into());
    }
    // texts
    let six = format!("{:02X}{:02X}{:02X}", c.r, c.g, c.b);
    let eight = format!("{}{:02X}", six, c.a);
    eq("hex", c.to_hex(), six.clone())?;
    eq("hex with alpha", c.to_hex_alpha(), eight.clone())?;
    let dress = |r: &mut Rng, s: &str| {
        let s = if r.bool() { s.to_lowercase() } else { s.to_string() };
        if r.bool() { format!("#{}", s) } else { s }
    };
    let x = dress(r, &six);
    eq(&format!("read {:?}", x), arr(&C::from_hex(&x)), [c.r, c.g, c.b, 255])?;
    let y = dress(r, &eight);
    eq(&format!("read {:?}", y), C::from_hex(&y), c)?;
    let rgb = RgbColor::new(c.r, c.g, c.b);
    for (n, q) in [
        ("to_color", c.to_color()),
        ("rgb", Color::rgb(c.r, c.g, c.b)),
        ("helper rgb", h::rgb(c.r, c.g, c.b)),
        ("helper hex", h::hex(&x)),
        ("from_hex", Color::from_hex(&x).ok_or("a hex colour was refused")?),
        ("RgbColor", Color::Rgb(RgbColor::from_hex(&x).ok_or("a hex colour was refused")?)),
    ] {
        eq(n, &q, &Color::Rgb(rgb.clone()))?;
        let d = format!("<w xmlns:a=\"{}\">{}</w>", NS_A, q.to_xml());
        let e = xml::parse(d.as_bytes()).map_err(|m| format!("colour: {}", m))?;
        eq(n, e.child("srgbClr").and_then(|v| v.attr("val")), Some(six.as_str()))?;
    }
    eq("RgbColor hex", rgb.to_hex(), six)?;
    // anything else is refused or black, never a crash
    let junk = match r.below(6) {
        0 => text::any(r),
        1 => text::hostile(r),
        2 => text::wild(r),
        3 => "é".repeat(1 + r.below(4)),
        4 => {
            let mut v: Vec<char> = x.chars().collect();
            let i = r.below(v.len());
            v[i] = *r.pick(&['é', 'g', ' ', '+', '-', '漢', 'x', '#']);
            v.into_iter().collect()
        }
        _ => x[..r.below(x.len())].to_string(),
    };
    let (a, b, d, e) = guard(|| (C::from_hex(&junk), Color::from_hex(&junk), h::hex(&junk), RgbColor::from_hex(&junk))).map_err(|(m, l)| format!("colour text {:?} crashes: {} at {}", junk, m, l))?;
    let bare = junk.trim_start_matches('#');
    let ok = bare.len() == 6 && bare.bytes().all(|b| b.is_ascii_hexdigit());
    eq(&format!("{:?} taken for a colour", junk), b.is_some(), ok)?;
    eq(&format!("{:?} taken for a colour", junk), e.is_some(), ok)?;
    if !ok && bare.len() != 6 {
        eq(&format!("{:?} as a colour", junk), d, Color::rgb(0, 0, 0))?;
        if bare.len() != 8 {
            eq(&format!("{:?} as a colour", junk), a, C::rgb(0, 0, 0))?;
        }
    }
    // a deck with the text as a colour still gets built
    Ok(Out::sig(format!("{:?}{:?}{}", c, o, junk)))
}

/// Names stand for their usual values; every spelling and every home of a name agrees.
fn names(ctx: &Ctx) -> Result<(), String> {
    let v: &[(&str, C, &str)] = &[
        ("red", h::red(), "FF0000"), ("green", h::green(), "00FF00"), ("blue", h::blue(), "0000FF"), ("yellow", h::yellow(), "FFFF00"),
        ("cyan", h::cyan(), "00FFFF"), ("magenta", h::magenta(), "FF00FF"), ("white", h::white(), "FFFFFF"), ("black", h::black(), "000000"),
        ("gray", h::gray(), "808080"), ("grey", h::grey(), "808080"), ("light_gray", h::light_gray(), "D3D3D3"), ("light_grey", h::light_grey(), "D3D3D3"),
        ("silver", h::silver(), "C0C0C0"), ("orange", h::orange(), "FFA500"), ("purple", h::purple(), "800080"), ("pink", h::pink(), "FFC0CB"),
        ("brown", h::brown(), "A52A2A"), ("navy", h::navy(), "000080"), ("teal", h::teal(), "008080"), ("olive", h::olive(), "808000"),
        ("maroon", h::maroon(), "800000"), ("lime", h::lime(), "00FF00"), ("aqua", h::aqua(), "00FFFF"),
        ("material_red", h::material_red(), "F44336"), ("material_pink", h::material_pink(), "E91E63"), ("material_purple", h::material_purple(), "9C27B0"),
        ("material_indigo", h::material_indigo(), "3F51B5"), ("material_blue", h::material_blue(), "2196F3"), ("material_cyan", h::material_cyan(), "00BCD4"),
        ("material_teal", h::material_teal(), "009688"), ("material_green", h::material_green(), "4CAF50"), ("material_lime", h::material_lime(), "CDDC39"),
        ("material_amber", h::material_amber(), "FFC107"), ("material_orange", h::material_orange(), "FF9800"), ("material_brown", h::material_brown(), "795548"),
        ("material_gray", h::material_gray(), "9E9E9E"), ("material_grey", h::material_grey(), "9E9E9E"),
        ("corporate_blue", h::corporate_blue(), p::colors::CORPORATE_BLUE), ("corporate_green", h::corporate_green(), p::colors::CORPORATE_GREEN), ("corporate_orange", h::corporate_orange(), p::colors::CORPORATE_ORANGE),
        ("dark_gray", h::dark_gray(), &h::dark_grey().to_hex()),
    ];
    for (n, c, w) in v {
        eq(n, c.to_hex(), w.to_string())?;
        eq(n, c.a, 255)?;
        ctx.count("colour-names", 1);
    }
    use p::colors as k;
    let w: &[(&str, &str, C)] = &[
        ("RED", k::RED, h::red()), ("GREEN", k::GREEN, h::green()), ("BLUE", k::BLUE, h::blue()), ("WHITE", k::WHITE, h::white()), ("BLACK", k::BLACK, h::black()),
        ("GRAY", k::GRAY, h::gray()), ("YELLOW", k::YELLOW, h::yellow()), ("ORANGE", k::ORANGE, h::orange()), ("PURPLE", k::PURPLE, h::purple()), ("CYAN", k::CYAN, h::cyan()),
        ("MAGENTA", k::MAGENTA, h::magenta()), ("MATERIAL_RED", k::MATERIAL_RED, h::material_red()), ("MATERIAL_PINK", k::MATERIAL_PINK, h::material_pink()),
        ("MATERIAL_PURPLE", k::MATERIAL_PURPLE, h::material_purple()), ("MATERIAL_INDIGO", k::MATERIAL_INDIGO, h::material_indigo()), ("MATERIAL_BLUE", k::MATERIAL_BLUE, h::material_blue()),
        ("MATERIAL_CYAN", k::MATERIAL_CYAN, h::material_cyan()), ("MATERIAL_TEAL", k::MATERIAL_TEAL, h::material_teal()), ("MATERIAL_GREEN", k::MATERIAL_GREEN, h::material_green()),
        ("MATERIAL_LIME", k::MATERIAL_LIME, h::material_lime()), ("MATERIAL_AMBER", k::MATERIAL_AMBER, h::material_amber()), ("MATERIAL_ORANGE", k::MATERIAL_ORANGE, h::material_orange()),
        ("MATERIAL_BROWN", k::MATERIAL_BROWN, h::material_brown()), ("MATERIAL_GRAY", k::MATERIAL_GRAY, h::material_gray()),
    ];
    for (n, s, c) in w {
        eq(n, s.to_string(), c.to_hex())?;
        ctx.count("colour-names", 1);
    }
    for (n, c, w) in [("black", RgbColor::black(), h::black()), ("white", RgbColor::white(), h::white()), ("red", RgbColor::red(), h::red()), ("green", RgbColor::green(), h::green()), ("blue", RgbColor::blue(), h::blue())] {
        eq(n, c.to_hex(), w.to_hex())?;
    }
    use SchemeColor::*;
    for (c, w) in [
        (Accent1, "accent1"), (Accent2, "accent2"), (Accent3, "accent3"), (Accent4, "accent4"), (Accent5, "accent5"), (Accent6, "accent6"), (Dark1, "dk1"), (Dark2, "dk2"),
        (Light1, "lt1"), (Light2, "lt2"), (Hyperlink, "hlink"), (FollowedHyperlink, "folHlink"), (Background1, "bg1"), (Background2, "bg2"), (Text1, "tx1"), (Text2, "tx2"),
    ] {
        eq("scheme colour", Color::scheme(c.clone()).to_xml(), c.to_xml())?;
        let d = format!("<w xmlns:a=\"{}\">{}</w>", NS_A, c.to_xml());
        let e = xml::parse(d.as_bytes()).map_err(|m| format!("colour: {}", m))?;
        eq("scheme colour", e.child("schemeClr").and_then(|v| v.attr("val")), Some(w))?;
    }
    // every shape type names its preset and is found by it
    for (t, w) in PRESET {
        let n = t.preset_name();
        if *w != "*" {
            eq(&format!("preset of {:?}", t), n, *w)?;
        }
        let q = T::from_preset_name(n).ok_or_else(|| format!("no shape type for preset {:?}", n))?;
        eq(&format!("shape type read for {:?}", n), q.preset_name(), n)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- ready-made shapes

fn inch(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => 0.0,
        1 => r.below(8) as f64,
        2 => r.below(800) as f64 / 100.0,
        _ => r.f64() * 9.0,
    }
}

struct Want {
    s: ShapeS,
    g: [f64; 4],
    what: &'static str,
}

fn readymade(r: &mut Rng) -> (generator::Shape, Want) {
    let (x, y, w, hh) = (inch(r), inch(r), inch(r), inch(r));
    let txt = text::any(r);
    let (cin, chex) = text::color(r);
    let g4 = [x * INCH, y * INCH, w * INCH, hh * INCH];
    let sq = [x * INCH, y * INCH, w * INCH, w * INCH];
    let mut fill = Fill::None;
    let mut line = None;
    let mut text = None;
    let k = r.below(34);
    let (mut s, what, ty, g): (generator::Shape, &'static str, T, [f64; 4]) = match k {
        0 => (h::rect(x, y, w, hh), "rect", T::Rectangle, g4),
        1 => (h::circle(x, y, w), "circle", T::Ellipse, sq),
        2 => (h::ellipse(x, y, w, hh), "ellipse", T::Ellipse, g4),
        3 => (h::rounded_rect(x, y, w, hh), "rounded_rect", T::RoundedRectangle, g4),
        4 => (h::triangle(x, y, w, hh), "triangle", T::Triangle, g4),
        5 => (h::diamond(x, y, w, hh), "diamond", T::Diamond, g4),
        6 => (ppt_rs::shape!(rect x, y, w, hh), "shape!(rect)", T::Rectangle, g4),
        7 => (ppt_rs::shape!(circle x, y, w), "shape!(circle)", T::Circle, sq),
        8 => (p::shapes::rect(x, y, w, hh), "shapes::rect", T::Rectangle, g4),
        9 => (p::shapes::circle(x, y, w), "shapes::circle", T::Circle, sq),
        10 => (p::shapes::rounded_rect(x, y, w, hh), "shapes::rounded_rect", T::RoundedRectangle, g4),
        11 => {
            text = Some(txt.clone());
            (p::shapes::text_box(x, y, w, hh, &txt), "shapes::text_box", T::Rectangle, g4)
        }
        12 => (p::shapes::arrow_right(x, y, w, hh), "arrow_right", T::RightArrow, g4),
        13 => (p::shapes::arrow_left(x, y, w, hh), "arrow_left", T::LeftArrow, g4),
        14 => (p::shapes::arrow_up(x, y, w, hh), "arrow_up", T::UpArrow, g4),
        15 => (p::shapes::arrow_down(x, y, w, hh), "arrow_down", T::DownArrow, g4),
        16 => (p::shapes::diamond(x, y, w), "shapes::diamond", T::Diamond, sq),
        17 => (p::shapes::triangle(x, y, w, hh), "shapes::triangle", T::Triangle, g4),
        18 => (p::shapes::star(x, y, w), "star", T::Star5, sq),
        19 => (p::shapes::heart(x, y, w), "heart", T::Heart, sq),
        20 => (p::shapes::cloud(x, y, w, hh), "cloud", T::Cloud, g4),
        21 => {
            text = Some(txt.clone());
            (p::shapes::callout(x, y, w, hh, &txt), "callout", T::WedgeRectCallout, g4)
        }
        22 => {
            text = Some(txt.clone());
            fill = Fill::Solid { input: cin.clone(), hex: chex.clone(), transparency: None };
            (p::shapes::badge(x, y, &txt, &cin), "badge", T::RoundedRectangle, [x * INCH, y * INCH, 1.5 * INCH, 0.4 * INCH])
        }
        23 => {
            text = Some(txt.clone());
            (p::shapes::process(x, y, w, hh, &txt), "process", T::FlowChartProcess, g4)
        }
        24 => {
            text = Some(txt.clone());
            (p::shapes::decision(x, y, w, &txt), "decision", T::FlowChartDecision, sq)
        }
        25 => {
            text = Some(txt.clone());
            (p::shapes::document(x, y, w, hh, &txt), "document", T::FlowChartDocument, g4)
        }
        26 => {
            text = Some(txt.clone());
            (p::shapes::data(x, y, w, hh, &txt), "data", T::FlowChartData, g4)
        }
        27 => {
            text = Some(txt.clone());
            (p::shapes::terminator(x, y, w, hh, &txt), "terminator", T::FlowChartTerminator, g4)
        }
        28 | 29 => {
            let (a, b, c, d) = (r.f64(), r.f64(), r.f64(), r.f64());
            let g = [a * W as f64, b * H as f64, c * W as f64, d * H as f64];
            if k == 28 {
                (p::shapes::rect_ratio(a, b, c, d), "rect_ratio", T::Rectangle, g)
            } else {
                text = Some(txt.clone());
                (p::shapes::text_box_ratio(a, b, c, d, &txt), "text_box_ratio", T::Rectangle, g)
            }
        }
        30 | 31 => {
            let (a, b, c, d) = (r.u32(0, W), r.u32(0, H), r.u32(0, W), r.u32(0, H));
            let (a, b, c, d) = (a, b, c, d);
            if k == 30 {
                (p::shapes::rect_emu(a, b, c, d), "rect_emu", T::Rectangle, [a as f64, b as f64, c as f64, d as f64])
            } else {
                (p::shapes::circle_emu(a, b, c), "circle_emu", T::Circle, [a as f64, b as f64, c as f64, c as f64])
            }
        }
        _ => {
            let t = PRESET[r.below(PRESET.len())].0;
            (p::shapes::dim(t, Dimension::Inches(x), Dimension::Pt(y * 72.0), Dimension::Cm(w * 2.54), Dimension::Inches(hh)), "dim", t, g4)
        }
    };
    // dressing, in any order; the last of a kind counts
    for _ in 0..r.below(4) {
        let (c, hx) = text::color(r);
        match r.below(6) {
            0 => {
                s = s.fill(h::hex(&c));
                fill = Fill::Solid { input: c, hex: hx, transparency: None };
            }
            1 => {
                let pt = r.below(60) as f64 / 4.0;
                s = s.stroke(h::hex(&c), pt);
                line = Some((c, hx, (pt * PT) as u32));
            }
            2 => {
                let t = text::any(r);
                s = s.text(&t);
                text = Some(t);
            }
            3 => {
                let l = r.bool();
                let (c2, h2) = text::color(r);
                s = p::shapes::colored(s, &c, if l { Some(c2.as_str()) } else { None });
                fill = Fill::Solid { input: c, hex: hx, transparency: None };
                if l {
                    line = Some((c2, h2, 12700));
                }
            }
            4 => {
                let (c2, h2) = text::color(r);
                let dir = r.below(5) as u8;
                let deg = r.u32(0, 359);
                let d = match dir {
                    0 => GradientDirection::Horizontal,
                    1 => GradientDirection::Vertical,
                    2 => GradientDirection::DiagonalDown,
                    3 => GradientDirection::DiagonalUp,
                    _ => GradientDirection::Angle(deg),
                };
                s = p::shapes::gradient(s, &c, &c2, d);
                fill = Fill::Grad { stops: vec![(c, hx, 0, None), (c2, h2, 100, None)], dir, deg };
            }
            _ => {
                let v = any_col(r);
                s = s.fill(v.to_color());
                fill = Fill::Solid { input: String::new(), hex: v.to_hex(), transparency: None };
            }
        }
    }
    let ti = PRESET.iter().position(|q| q.0 == ty).unwrap();
    let e = ShapeS { ty: ti, x: 0, y: 0, w: 0, h: 0, fill, line, text, rot: None, id: None, link: None };
    (s, Want { s: e, g, what })
}

fn shapes(ctx: &Ctx, r: &mut Rng) -> Res {
    let v: Vec<_> = (0..1 + r.below(5)).map(|_| readymade(r)).collect();
    let t = text::plain(r);
    let list: Vec<generator::Shape> = v.iter().map(|x| x.0.clone()).collect();
    let b = if r.bool() {
        ppt_rs::pptx!("d").shapes_slide(&t, list).build()
    } else {
        generator::create_pptx_with_content("d", vec![SlideContent::new(&t).with_shapes(list)])
    }
    .map_err(|e| format!("not built: {:?}", e))?;
    let k = Pkg::load(&b)?;
    let part = k.slides().first().cloned().ok_or("no slide")?;
    let sl = k.xml.get(&part).ok_or("no slide")?;
    let got: Vec<pml::Shape> = pml::shapes(sl).into_iter().filter(|s| s.kind == "sp" && s.name.starts_with("Shape ")).collect();
    eq("shapes drawn", got.len(), v.len())?;
    for (g, (_, w)) in got.iter().zip(&v) {
        ctx.see("ready-made shapes", w.what);
        for (n, (a, b)) in [g.x, g.y, g.cx, g.cy].iter().zip(w.g).enumerate() {
            near(&format!("{}: {}", w.what, ["x", "y", "width", "height"][n]), *a as f64, b, 1.0)?;
        }
        let mut e = w.s.clone();
        (e.x, e.y, e.w, e.h) = (g.x as u32, g.y as u32, g.cx as u32, g.cy as u32);
        if let Some(t) = &e.text {
            e.text = Some(crate::spec::deck::clean(t));
        }
        if let Some(l) = &mut e.line {
            // half a point may round either way
            let w: i64 = g.e().at("spPr/ln").and_then(|q| q.attr("w")).and_then(|q| q.parse().ok()).unwrap_or(-1);
            if (w - l.2 as i64).abs() <= 1 {
                l.2 = w as u32;
            }
        }
        e.check(g).map_err(|m| format!("{}: {}", w.what, m))?;
    }
    Ok(Out::sig(format!("{:?}", v.iter().map(|x| &x.0).collect::<Vec<_>>())))
}

// ---------------------------------------------------------------- ready-made tables

#[derive(Clone)]
struct Cel {
    t: String,
    head: bool,
    bg: Option<String>,
}

fn tables(ctx: &Ctx, r: &mut Rng) -> Res {
    let cols = 1 + r.below(7);
    let txt = |r: &mut Rng| if r.chance(1, 6) { String::new() } else { text::any(r) };
    let words = |r: &mut Rng, n: usize| -> Vec<String> { (0..n).map(|_| txt(r)).collect() };
    let plain = |v: &[String]| -> Vec<Cel> { v.iter().map(|t| Cel { t: t.clone(), head: false, bg: None }).collect() };
    let heads = |v: &[String]| -> Vec<Cel> { v.iter().map(|t| Cel { t: t.clone(), head: true, bg: Some("1F4E79".into()) }).collect() };
    let strs = |v: &[String]| -> Vec<String> { v.to_vec() };
    let widths: Vec<f64> = (0..cols).map(|_| 0.2 + inch(r)).collect();
    let even = vec![(W / cols as u32) as f64; cols];
    let given: Vec<f64> = widths.iter().map(|w| w * INCH).collect();
    let kind = r.below(6);
    let mut at = None;
    let mut want: Vec<Vec<Cel>> = vec![];
    let (t, cw, name) = match kind {
        0 => {
            let n = 1 + r.below(6);
            want = vec![plain(&vec![String::new(); cols]); n];
            (h::simple_table(n, cols).build(), even, "simple_table")
        }
        1 => {
            let mut b = h::table_with_widths(&widths);
            for _ in 0..1 + r.below(5) {
                let w = words(r, cols);
                b = b.add_simple_row(w.iter().map(|s| s.as_str()).collect());
                want.push(plain(&w));
            }
            (b.build(), given, "table_with_widths")
        }
        2 => {
            let d: Vec<Vec<String>> = (0..1 + r.below(5)).map(|_| words(r, cols)).collect();
            want = d.iter().map(|w| plain(w)).collect();
            let v: Vec<Vec<&str>> = d.iter().map(|w| w.iter().map(|s| s.as_str()).collect()).collect();
            if r.bool() { (h::table_from_data(&v, Some(widths.clone())).build(), given, "table_from_data with widths") } else { (h::table_from_data(&v, None).build(), even, "table_from_data") }
        }
        3 => {
            let w = words(r, cols);
            let n = r.below(5);
            want.push(heads(&w));
            want.extend(vec![plain(&vec![String::new(); cols]); n]);
            let v: Vec<&str> = w.iter().map(|s| s.as_str()).collect();
            (h::table_with_header(&v, n).build(), even, "table_with_header")
        }
        _ => {
            let mut b = if kind == 4 { h::QuickTable::new(cols) } else { h::QuickTable::with_widths(&widths) };
            for i in 0..1 + r.below(6) {
                let w = strs(&words(r, cols));
                let v: Vec<&str> = w.iter().map(|s| s.as_str()).collect();
                match r.below(5) {
                    0 => {
                        b = b.header(&v);
                        want.push(heads(&w));
                    }
                    1 => {
                        let w2 = words(r, cols);
                        b = b.rows(&[v.clone(), w2.iter().map(|s| s.as_str()).collect()]);
                        want.push(plain(&w));
                        want.push(plain(&w2));
                    }
                    2 => {
                        let mut row = vec![];
                        let mut wr = vec![];
                        for t in &w {
                            match r.below(3) {
                                0 => {
                                    row.push(h::cell(t));
                                    wr.push(Cel { t: t.clone(), head: false, bg: None });
                                }
                                1 => {
                                    row.push(h::header_cell(t));
                                    wr.push(Cel { t: t.clone(), head: true, bg: Some("1F4E79".into()) });
                                }
                                _ => {
                                    let (c, hx) = text::color(r);
                                    row.push(h::highlight_cell(t, &c));
                                    wr.push(Cel { t: t.clone(), head: false, bg: Some(hx) });
                                }
                            }
                        }
                        b = b.styled_row(row);
                        want.push(wr);
                    }
                    _ => {
                        b = b.row(&v);
                        want.push(plain(&w));
                    }
                }
                if i == 0 && r.bool() {
                    let (x, y) = (inch(r), inch(r));
                    b = b.at(x, y);
                    at = Some((x, y));
                }
            }
            (b.build(), if kind == 4 { even } else { given }, if kind == 4 { "QuickTable" } else { "QuickTable with widths" })
        }
    };
    ctx.see("ready-made tables", name);
    let b = generator::create_pptx_with_content("d", vec![SlideContent::new("t").table(t)]).map_err(|e| format!("not built: {:?}", e))?;
    let k = Pkg::load(&b)?;
    let part = k.slides().first().cloned().ok_or("no slide")?;
    let sh = pml::shapes(k.xml.get(&part).ok_or("no slide")?);
    let g = sh.iter().find(|s| s.kind == "table").ok_or("no table drawn")?;
    if let Some((x, y)) = at {
        near("table x", g.x as f64, x * INCH, 1.0)?;
        near("table y", g.y as f64, y * INCH, 1.0)?;
    }
    let t = g.table.as_ref().unwrap();
    eq("columns", t.cols.len(), cols)?;
    for (a, b) in t.cols.iter().zip(&cw) {
        near(&format!("{}: column width", name), *a as f64, *b, 1.0)?;
    }
    eq("rows", t.rows.len(), want.len())?;
    for (i, (a, w)) in t.rows.iter().zip(&want).enumerate() {
        eq("cells in a row", a.len(), w.len())?;
        for (c, w) in a.iter().zip(w) {
            let at = format!("{}: row {}", name, i);
            eq(&at, c.text(), crate::spec::deck::clean(&w.t))?;
            let e = c.elem.as_ref().unwrap();
            eq(&format!("{} background", at), e.child("tcPr").and_then(|q| q.child("solidFill")).and_then(pml::color_of), w.bg.clone())?;
            for q in c.paras.iter().flat_map(|p| &p.runs) {
                if q.text.is_empty() {
                    continue;
                }
                eq(&format!("{} bold", at), pml::boolish(q.p.get("b").map(|s| s.as_str())), w.bg.is_some())?;
                eq(&format!("{} colour", at), q.p.get("color").map(|s| s.as_str()), if w.head { Some("FFFFFF") } else { None })?;
            }
        }
    }
    Ok(Out::sig(format!("{}{}{:?}", name, cols, want.iter().map(|r| r.iter().map(|c| c.t.clone()).collect::<Vec<_>>()).collect::<Vec<_>>())))
}

// ---------------------------------------------------------------- arrangements

fn layouts(r: &mut Rng) -> Res {
    use p::layouts as l;
    let size = |r: &mut Rng, full: u32| match r.below(6) {
        0 => 0,
        1 => r.u32(full.saturating_sub(2), full.saturating_add(2)),
        2 => r.u32(0, u32::MAX),
        _ => r.u32(0, full),
    };
    let mid = |full: u32, w: i128| ((full as i128 - w).max(0)) / 2;
    let (w, hh) = (size(r, W), size(r, H));
    eq("centre across", l::center_x(w) as i128, mid(W, w as i128))?;
    eq("centre down", l::center_y(hh) as i128, mid(H, hh as i128))?;
    eq("centre", l::center(w, hh), (l::center_x(w), l::center_y(hh)))?;
    let (rows, cols) = (r.below(9), r.below(9));
    let (cw, ch) = (size(r, W / 4), size(r, H / 4));
    let sat = |v: i128| v.min(u32::MAX as i128);
    let g = l::grid(rows, cols, cw, ch);
    eq("grid places", g.len(), rows * cols)?;
    for (i, q) in g.iter().enumerate() {
        let (y, x) = ((i / cols) as i128, (i % cols) as i128);
        let want = (sat(mid(W, sat(cw as i128 * cols as i128)) + sat(x * cw as i128)), sat(mid(H, sat(ch as i128 * rows as i128)) + sat(y * ch as i128)));
        eq(&format!("place {} of a {}x{} grid of {}x{}", i, rows, cols, cw, ch), (q.0 as i128, q.1 as i128), want)?;
    }
    let n = r.below(12);
    let (sw, gap, other) = (size(r, W / 6), size(r, W / 20), r.u32(0, u32::MAX));
    let total = sw as i128 * n as i128 + gap as i128 * (n as i128 - 1).max(0);
    let st = l::stack_horizontal(n, sw, gap, other);
    let sv = l::stack_vertical(n, sw, gap, other);
    eq("stacked across", st.len(), n)?;
    eq("stacked down", sv.len(), n)?;
    for i in 0..n {
        let off = sat(i as i128 * sat(sw as i128 + gap as i128));
        eq(&format!("place {} of {} stacked across", i, n), (st[i].0 as i128, st[i].1), (sat(mid(W, total) + off), other))?;
        eq(&format!("place {} of {} stacked down", i, n), (sv[i].1 as i128, sv[i].0), (sat(mid(H, total) + off), other))?;
    }
    let d = l::distribute_horizontal(n, sw, other);
    eq("distributed", d.len(), n)?;
    if n == 1 {
        eq("the only place", (d[0].0 as i128, d[0].1), (mid(W, sw as i128), other))?;
    }
    for (i, q) in d.iter().enumerate().filter(|_| n > 1) {
        eq("distributed at height", q.1, other)?;
        let room = (W - 2 * l::MARGIN) as i128 - sw as i128;
        let want = l::MARGIN as i128 + i as i128 * room.max(0) / (n as i128 - 1);
        if (q.0 as i128 - want).abs() > n as i128 {
            return Err(format!("place {} of {} shapes of width {} is at {} instead of {}", i, n, sw, q.0, want).into());
        }
        if i > 0 && (d[i].0 - d[i - 1].0) != (d[1].0 - d[0].0) {
            return Err(format!("places {:?} are not evenly spaced", d).into());
        }
    }
    Ok(Out::sig(format!("{} {} {} {} {} {} {}", w, hh, rows, cols, n, sw, gap)))
}

// ---------------------------------------------------------------- the quick builder

fn quick(r: &mut Rng) -> Res {
    let title = text::any(r);
    let mut q = ppt_rs::pptx!(&title);
    let mut v: Vec<SlideContent> = vec![];
    for _ in 0..r.below(5) {
        let t = text::any(r);
        match r.below(4) {
            0 => {
                q = q.title_slide(&t);
                v.push(SlideContent::new(&t));
            }
            1 => {
                let s = SlideContent::new(&t).add_bullet(&text::any(r));
                q = q.content_slide(s.clone());
                v.push(s);
            }
            2 => {
                let list: Vec<generator::Shape> = (0..r.below(4)).map(|_| readymade(r).0).collect();
                q = q.shapes_slide(&t, list.clone());
                v.push(SlideContent::new(&t).with_shapes(list));
            }
            _ => {
                let b: Vec<String> = (0..r.below(5)).map(|_| text::any(r)).collect();
                let bs: Vec<&str> = b.iter().map(|s| s.as_str()).collect();
                q = q.slide(&t, &bs);
                let mut s = SlideContent::new(&t);
                for x in &b {
                    s = s.add_bullet(x);
                }
                v.push(s);
            }
        }
    }
    let n = v.len();
    let a = q.build().map_err(|e| format!("not built: {:?}", e))?;
    let ka = Pkg::load(&a)?;
    if n == 0 {
        eq("slides of an empty quick deck", ka.slides().len(), 1)?;
        return Ok(Out::sig(title));
    }
    let b = generator::create_pptx_with_content(&title, v).map_err(|e| format!("not built: {:?}", e))?;
    let kb = Pkg::load(&b)?;
    eq("slides", ka.slides().len(), n)?;
    let t = |k: &Pkg| k.xml.get("docProps/core.xml").map(|e| e.desc("title").first().map(|t| t.text()).unwrap_or_default());
    eq("title", t(&ka), Some(crate::spec::deck::clean(&title)))?;
    for (x, y) in ka.slides().iter().zip(kb.slides()) {
        let (p, q) = (ka.xml.get(x).map(|e| e.canon()), kb.xml.get(&y).map(|e| e.canon()));
        if p != q || p.is_none() {
            return Err(format!("slide {} differs from the one built by hand", x).into());
        }
    }
    let _ = NS_R;
    Ok(Out::sig(format!("{}{}", title, n)))
}

pub fn c23(ctx: &Ctx) {
    ctx.probe("scheme-fill", || {
        let s = h::rect(1.0, 1.0, 1.0, 1.0).fill(Color::Scheme(SchemeColor::Accent2));
        let b = generator::create_pptx_with_content("d", vec![SlideContent::new("t").with_shapes(vec![s])]).map_err(|e| format!("{:?}", e))?;
        let k = Pkg::load(&b)?;
        let p = k.slides().first().cloned().ok_or("no slide")?;
        let g = pml::shapes(k.xml.get(&p).unwrap()).into_iter().find(|s| s.name.starts_with("Shape ")).ok_or("no shape")?;
        let f = g.e().at("spPr/solidFill").ok_or("no fill")?.canon();
        if f.contains("accent2") { Ok(()) } else { Err(format!("a fill with a theme colour is drawn as {}", f)) }
    });
    if let Err(m) = names(ctx) {
        ctx.fail("names", 0, m, "");
    }
    ctx.cases("units", ctx.n(200_000, 4_000_000), |r, _| units(r));
    ctx.cases("helpers", ctx.n(150_000, 3_000_000), |r, _| helpers(r));
    ctx.cases("colours", ctx.n(150_000, 3_000_000), |r, _| colors(r));
    ctx.cases("layouts", ctx.n(150_000, 3_000_000), |r, _| layouts(r));
    ctx.cases("shapes", ctx.n(6000, 90_000), |r, _| shapes(ctx, r));
    ctx.cases("tables", ctx.n(6000, 90_000), |r, _| tables(ctx, r));
    ctx.cases("quick", ctx.n(5000, 70_000), |r, _| quick(r));
}
