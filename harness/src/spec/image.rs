use crate::pml;
use crate::rng::Rng;
use crate::text;
use crate::zipx;
use ppt_rs::generator::images::ImageEffect;
use ppt_rs::core::Dimension;
use ppt_rs::generator::{Image, ImageBuilder};
use std::path::{Path, PathBuf};

#[derive(Clone, Debug)]
pub struct ImageS {
    pub data: Vec<u8>,
    pub fmt: String,
    pub via: u8,
    pub x: u32,
    pub y: u32,
    pub w: u32,
    pub h: u32,
    pub crop: Option<[f64; 4]>,
    pub effects: Vec<u8>,
    pub alt: Option<String>,
    pub file: Option<PathBuf>,
}

/// Formats whose content type the library declares for every entry point.
pub const FORMATS: &[&str] = &["PNG", "jpg", "JPG", "gif", "GIF", "png", "jpeg", "JPEG", "bmp", "BMP", "tiff", "svg"];

pub fn png(r: &mut Rng, w: u32, h: u32) -> Vec<u8> {
    let mut v = b"\x89PNG\r\n\x1a\n".to_vec();
    let chunk = |v: &mut Vec<u8>, t: &[u8], d: &[u8]| {
        v.extend((d.len() as u32).to_be_bytes());
        let mut b = t.to_vec();
        b.extend(d);
        v.extend(&b);
        v.extend(zipx::crc32(&b).to_be_bytes());
    };
    let mut ih = vec![];
    ih.extend(w.to_be_bytes());
    ih.extend(h.to_be_bytes());
    ih.extend([8, 2, 0, 0, 0]);
    chunk(&mut v, b"IHDR", &ih);
    let mut raw = vec![];
    for _ in 0..h.min(64) {
        raw.push(0);
        raw.extend(r.bytes(w.min(64) as usize * 3));
    }
    use std::io::Write;
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::fast());
    e.write_all(&raw).unwrap();
    chunk(&mut v, b"IDAT", &e.finish().unwrap());
    chunk(&mut v, b"IEND", b"");
    v
}

pub fn gif(r: &mut Rng, w: u16, h: u16) -> Vec<u8> {
    let mut v = if r.bool() { b"GIF89a".to_vec() } else { b"GIF87a".to_vec() };
    v.extend(w.to_le_bytes());
    v.extend(h.to_le_bytes());
    v.extend([0, 0, 0]);
    v.extend(r.bytes(20));
    v.push(0x3b);
    v
}

pub fn jpeg(r: &mut Rng, w: u16, h: u16) -> Vec<u8> {
    let mut v = vec![0xff, 0xd8];
    // APP0
    v.extend([0xff, 0xe0, 0, 16]);
    v.extend(b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0");
    for _ in 0..r.below(3) {
        let n = r.below(40);
        v.extend([0xff, *r.pick(&[0xe1, 0xfe, 0xdb])]);
        v.extend(((n + 2) as u16).to_be_bytes());
        v.extend(r.bytes(n));
    }
    v.extend([0xff, *r.pick(&[0xc0, 0xc1, 0xc2]), 0, 17, 8]);
    v.extend(h.to_be_bytes());
    v.extend(w.to_be_bytes());
    v.extend([3, 1, 0x22, 0, 2, 0x11, 1, 3, 0x11, 1]);
    v.extend([0xff, 0xda, 0, 12, 3, 1, 0, 2, 0x11, 3, 0x11, 0, 63, 0]);
    v.extend(r.bytes(30).iter().map(|b| b & 0x7f));
    v.extend([0xff, 0xd9]);
    v
}

pub fn bytes_of(r: &mut Rng, fmt: &str) -> Vec<u8> {
    match fmt.to_ascii_lowercase().as_str() {
        "png" => {
            let (w, h) = (r.u32(1, 20), r.u32(1, 20));
            png(r, w, h)
        }
        "gif" => gif(r, 7, 9),
        "jpg" | "jpeg" => jpeg(r, 8, 8),
        "svg" => format!("<svg xmlns=\"http://www.w3.org/2000/svg\" width=\"10\" height=\"10\"><title>{}</title></svg>", text::tag(r)).into_bytes(),
        _ => {
            let n = 20 + r.below(200);
            r.bytes(n)
        }
    }
}

pub fn b64(d: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() {
                s.push(A[(n >> (18 - 6 * k)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

/// `pool`: image bytes already used in the deck, so that sharing happens.
pub fn random(r: &mut Rng, pool: &mut Vec<(Vec<u8>, String)>, dir: Option<&Path>) -> ImageS {
    let (data, fmt) = if !pool.is_empty() && r.chance(1, 3) {
        let (mut d, f) = r.pick(pool).clone();
        // a twin: same length, same beginning and end, one byte apart; or another type
        if r.chance(1, 3) && d.len() > 40 && !f.eq_ignore_ascii_case("svg") {
            let at = if d[0] == 0xff { d.len() - 1 - r.below(20) } else if r.bool() { d.len() - 1 - r.below(d.len() / 3) } else { 36 + r.below(d.len() - 36) };
            d[at] ^= 1 << r.below(8);
            pool.push((d.clone(), f.clone()));
        }
        (d, f)
    } else {
        let f = r.pick(FORMATS).to_string();
        let mut d = bytes_of(r, &f);
        if r.chance(1, 4) && !f.eq_ignore_ascii_case("svg") {
            let n = 300 + r.below(6000);
            d.extend(r.bytes(n));
        }
        pool.push((d.clone(), f.clone()));
        (d, f)
    };
    let mut via = r.below(12) as u8;
    let mut file = None;
    let known = ["png", "gif", "jpg", "jpeg"].iter().any(|k| fmt.eq_ignore_ascii_case(k)) && data.len() > 30;
    if via == 7 && !known {
        via = 0;
    }
    if via == 6 && !known {
        via = 5;
    }
    if via == 5 || via == 6 {
        match dir {
            Some(d) => {
                let p = d.join(format!("{}-{:x}.{}", text::tag(r), r.u64() & 0xffff, fmt));
                std::fs::write(&p, &data).unwrap();
                file = Some(p);
            }
            None => via = 1,
        }
    }
    let crop = if r.chance(1, 4) { Some([r.f64() * 0.4, r.f64() * 0.4, r.f64() * 0.4, r.f64() * 0.4]) } else { None };
    let mut effects: Vec<u8> = vec![];
    if r.chance(1, 3) {
        match r.below(4) {
            0 => effects.push(r.below(6) as u8),
            1 => effects.extend([0, 1]),
            _ => {
                for e in 0..6 {
                    if r.chance(1, 3) {
                        effects.push(e);
                    }
                }
                r.shuffle(&mut effects);
            }
        }
    }
    let alt = if r.chance(1, 3) { Some(text::any(r)) } else { None };
    ImageS { data, fmt, via, x: super::shape::emu(r), y: super::shape::emu(r), w: r.u32(1, 9_000_000), h: r.u32(1, 9_000_000), crop, effects, alt, file }
}

const EFF: [(ImageEffect, &str); 6] = [
    (ImageEffect::Shadow, "outerShdw"),
    (ImageEffect::Reflection, "reflection"),
    (ImageEffect::Glow, "glow"),
    (ImageEffect::SoftEdges, "softEdge"),
    (ImageEffect::InnerShadow, "innerShdw"),
    (ImageEffect::Blur, "blur"),
];

impl ImageS {
    /// Size is reached by scaling a picture of the same proportions.
    fn scaled(&self) -> bool {
        self.via > 8
    }
    pub fn build(&self) -> Image {
        let builder = |mut b: ImageBuilder| -> Image {
            b = match self.via {
                9 => b.size(self.w * 2, self.h * 2).scale_to_width(self.w).at(self.x, self.y),
                10 => b.size(self.w * 3, self.h * 3).scale_to_height(self.h).position(self.x, self.y),
                _ => b.size(self.w, self.h).position(self.x, self.y),
            };
            if self.via == 8 && self.alt.is_none() {
                match (self.crop, &self.effects[..]) {
                    (Some(c), []) => return b.build_with_crop(c[0], c[1], c[2], c[3]),
                    (None, [0, 1]) => return b.build_with_effects(),
                    (None, [0]) => return b.build_with_shadow(),
                    (None, [1]) => return b.build_with_reflection(),
                    (None, [2]) => return b.build_with_glow(),
                    (None, [3]) => return b.build_with_soft_edges(),
                    (None, [4]) => return b.build_with_inner_shadow(),
                    (None, [5]) => return b.build_with_blur(),
                    _ => {}
                }
            }
            for e in &self.effects {
                b = match e {
                    0 => b.shadow(),
                    1 => b.reflection(),
                    2 => b.glow(),
                    3 => b.soft_edges(),
                    4 => b.inner_shadow(),
                    _ => b.blur(),
                };
            }
            if let Some(c) = self.crop {
                b = b.crop(c[0], c[1], c[2], c[3]);
            }
            let mut i = b.build();
            if let Some(a) = &self.alt {
                i = i.with_alt_text(a);
            }
            i
        };
        let plain = |mut i: Image| -> Image {
            i = match self.via {
                6 => i.at(Dimension::emu(self.x), Dimension::emu(self.y)).with_dimensions(Dimension::emu(self.w), Dimension::emu(self.h)),
                11 if self.x % 2 == 0 => Image { width: self.w * 2, height: self.h * 2, ..i }.scale_to_width(self.w).position(self.x, self.y),
                11 => Image { width: self.w * 3, height: self.h * 3, ..i }.scale_to_height(self.h).position(self.x, self.y),
                _ => i.position(self.x, self.y),
            };
            for e in &self.effects {
                i = i.with_effect(EFF[*e as usize].0.clone());
            }
            if let Some(c) = self.crop {
                i = i.with_crop(c[0], c[1], c[2], c[3]);
            }
            if let Some(a) = &self.alt {
                i = i.with_alt_text(a);
            }
            i
        };
        match self.via {
            0 => builder(ImageBuilder::from_bytes(self.data.clone(), self.w, self.h, &self.fmt)),
            1 => plain(Image::from_bytes(self.data.clone(), self.w, self.h, &self.fmt)),
            2 => plain(Image::from_base64(&b64(&self.data), self.w, self.h, &self.fmt)),
            3 => builder(ImageBuilder::base64(&b64(&self.data), &self.fmt)),
            4 | 8 => builder(ImageBuilder::bytes(self.data.clone(), &self.fmt)),
            6 => plain(Image::from_path(self.file.as_ref().unwrap()).unwrap()),
            7 => builder(ImageBuilder::auto(self.data.clone())),
            9 => builder(ImageBuilder::from_base64(&b64(&self.data), 3, 5, &self.fmt)),
            10 => builder(ImageBuilder::from_bytes(self.data.clone(), 5, 3, "png").format(&self.fmt)),
            11 => plain(Image::from_bytes(self.data.clone(), 1, 1, &self.fmt)),
            _ => builder(ImageBuilder::new(&self.file.as_ref().unwrap().to_string_lossy(), self.w, self.h)),
        }
    }

    /// `embedded`: the bytes of the part the picture refers to.
    pub fn check(&self, g: &pml::Shape, embedded: Option<&[u8]>) -> Result<(), String> {
        let w = |m: String| Err(format!("image ({} bytes, {}, via {}): {}", self.data.len(), self.fmt, self.via, m));
        if g.kind != "pic" {
            return w(format!("drawn as {}", g.kind));
        }
        let off = (g.cx - self.w as i64).abs().max((g.cy - self.h as i64).abs());
        if (g.x, g.y) != (self.x as i64, self.y as i64) || off > i64::from(self.scaled()) {
            return w(format!("asked for {:?}, drawn at {:?}", (self.x, self.y, self.w, self.h), (g.x, g.y, g.cx, g.cy)));
        }
        match embedded {
            None => return w("picture refers to no part".into()),
            Some(b) if b != self.data.as_slice() => return w(format!("picture shows other bytes ({} of them)", b.len())),
            _ => {}
        }
        if g.descr.as_deref().unwrap_or("") != self.alt.as_deref().unwrap_or("") {
            return w(format!("alternative text {:?} instead of {:?}", g.descr, self.alt));
        }
        let sr = g.e().at("blipFill/srcRect");
        for (k, i) in [("l", 0), ("t", 1), ("r", 2), ("b", 3)] {
            let got: f64 = sr.and_then(|s| s.attr(k)).and_then(|v| v.parse().ok()).unwrap_or(0.0);
            let want = self.crop.map(|c| c[i]).unwrap_or(0.0) * 100_000.0;
            if (got - want).abs() > 1.0 {
                return w(format!("crop {} is {} instead of {}", k, got, want));
            }
        }
        let mut got: Vec<String> = g.e().at("spPr/effectLst").map(|e| e.elems().map(|c| c.local.clone()).collect()).unwrap_or_default();
        let mut want: Vec<String> = self.effects.iter().map(|e| EFF[*e as usize].1.to_string()).collect();
        got.sort();
        want.sort();
        if got != want {
            return w(format!("effects {:?} instead of {:?}", got, want));
        }
        Ok(())
    }
}
