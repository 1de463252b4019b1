//! String generators. Every string carries a unique marker so that misplaced, swapped or
//! dropped text is told apart from text that merely looks alike.
use crate::rng::Rng;

const WORDS: &[&str] = &[
    "alpha", "Budget", "Q3", "revenue", "north", "plan", "risk", "Müller", "naïve", "数据", "отчёт", "日本", "مرحبا", "🙂", "e\u{301}", "x²", "€5", "100%", "A-B", "co/op", "f(x)",
];
const SPECIALS: &[&str] = &[
    "&", "<", ">", "\"", "'", "&amp;", "&lt;", "&#65;", "]]>", "<b>", "</a:t>", "a&b", "R&D", "<!--", "-->", "<?x?>", "{}", "$1", "\\n", "%s", "'quoted'", "\"dq\"", "1 < 2 > 0", "{{x}}", "&unknown;",
];

/// A unique tag: letters and digits only.
pub fn tag(r: &mut Rng) -> String {
    let mut s = String::from("k");
    for _ in 0..5 {
        s.push(*r.pick(b"abcdefghjkmnpqrstuvwxyz23456789") as char);
    }
    s
}

/// Plain words (ASCII and other scripts) with a unique tag; no markup characters.
pub fn plain(r: &mut Rng) -> String {
    let n = r.below(4);
    let mut v: Vec<String> = (0..n).map(|_| r.pick(WORDS).to_string()).collect();
    let at = r.below(v.len() + 1);
    v.insert(at, tag(r));
    v.join(" ")
}

/// ASCII identifier-like words.
pub fn ascii(r: &mut Rng) -> String {
    let n = r.below(3);
    let mut v: Vec<String> = (0..n).map(|_| r.pick(&["alpha", "beta", "Gamma", "delta9", "x1", "Plan"]).to_string()).collect();
    v.push(tag(r));
    v.join(" ")
}

/// Any single-line text a user could type: specials, entities, scripts, runs of spaces.
pub fn any(r: &mut Rng) -> String {
    match r.below(12) {
        0 => return plain(r),
        1 => return tag(r),
        2 => {
            // random code points, legal in XML, no control characters
            let mut s = tag(r);
            for _ in 0..r.below(12) {
                let c = loop {
                    let v = match r.below(4) {
                        0 => r.range(0x20, 0x7e),
                        1 => r.range(0xa1, 0x2ff),
                        2 => r.range(0x3041, 0x9fa0),
                        _ => r.range(0x1f300, 0x1f6ff),
                    } as u32;
                    if let Some(c) = char::from_u32(v) {
                        break c;
                    }
                };
                s.push(c);
            }
            return s;
        }
        _ => {}
    }
    let n = 1 + r.below(6);
    let mut s = String::new();
    let at = r.below(n);
    for i in 0..n {
        if i == at {
            s.push_str(&tag(r));
        } else if r.chance(1, 2) {
            s.push_str(r.pick(SPECIALS));
        } else {
            s.push_str(r.pick(WORDS));
        }
        match r.below(6) {
            0 => {}
            1 => s.push_str("  "),
            _ => s.push(' '),
        }
    }
    if r.chance(1, 6) {
        s.insert(0, ' ');
    }
    if !r.chance(1, 5) {
        while s.ends_with(' ') {
            s.pop();
        }
    }
    s
}

/// `any`, occasionally empty or very long.
pub fn wild(r: &mut Rng) -> String {
    match r.below(40) {
        0 => String::new(),
        1 => " ".repeat(1 + r.below(3)),
        2 => {
            let mut s = tag(r);
            for _ in 0..200 + r.below(800) {
                s.push_str(r.pick(WORDS));
                s.push(' ');
            }
            s.push_str("end");
            s
        }
        _ => any(r),
    }
}

/// Several lines (LF), some empty.
pub fn multi(r: &mut Rng) -> String {
    let n = 1 + r.below(4);
    (0..n).map(|_| if r.chance(1, 6) { String::new() } else { any(r) }).collect::<Vec<_>>().join("\n")
}

/// Adversarial: characters that XML 1.0 forbids, carriage returns, tabs.
pub fn hostile(r: &mut Rng) -> String {
    let mut s = any(r);
    for _ in 0..1 + r.below(4) {
        let c = *r.pick(&['\u{0}', '\u{1}', '\u{8}', '\u{b}', '\u{c}', '\u{1f}', '\u{fffe}', '\u{ffff}', '\r', '\t', '\n', '\u{7f}', '\u{85}', '\u{2028}']);
        let mut at = r.below(s.len() + 1);
        while !s.is_char_boundary(at) {
            at -= 1;
        }
        s.insert(at, c);
    }
    s
}

pub fn hex(r: &mut Rng) -> String {
    format!("{:06X}", r.below(0x1000000))
}

/// A colour as users write it (optional '#', any case) and its canonical form.
pub fn color(r: &mut Rng) -> (String, String) {
    let h = hex(r);
    let s = match r.below(4) {
        0 => format!("#{}", h),
        1 => format!("#{}", h.to_lowercase()),
        2 => h.to_lowercase(),
        _ => h.clone(),
    };
    (s, h)
}

pub fn short(s: &str) -> String {
    let t: String = s.chars().take(160).collect();
    format!("{:?}", t)
}
