//! A small strict PDF reader: structure, page tree, content streams and the text they show.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Num(f64),
    Name(String),
    Str(Vec<u8>),
    Arr(Vec<V>),
    Dict(BTreeMap<String, V>),
    Ref(u32),
    Op(String),
}

impl V {
    pub fn num(&self) -> Option<f64> {
        if let V::Num(n) = self { Some(*n) } else { None }
    }
    pub fn dict(&self) -> Option<&BTreeMap<String, V>> {
        if let V::Dict(d) = self { Some(d) } else { None }
    }
    pub fn name(&self) -> Option<&str> {
        if let V::Name(d) = self { Some(d) } else { None }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Obj {
    pub v: Option<V>,
    pub stream: Option<Vec<u8>>,
}

/// A string shown on a page
#[derive(Clone, Debug)]
pub struct Shown {
    pub text: String,
    pub font: String,
    pub size: f64,
    pub color: [f64; 3],
    pub x: f64,
    pub y: f64,
}

#[derive(Clone, Debug, Default)]
pub struct Page {
    pub width: f64,
    pub height: f64,
    pub shown: Vec<Shown>,
    pub ops: usize,
    pub images: usize,
    /// Straight lines drawn: from, to and colour
    pub lines: Vec<([f64; 4], [f64; 3])>,
}

pub struct Doc {
    pub objs: BTreeMap<u32, Obj>,
    pub pages: Vec<Page>,
}

struct Lex<'a> {
    b: &'a [u8],
    p: usize,
    /// In content streams names of operators stand for themselves
    ops: bool,
}

fn white(c: u8) -> bool {
    matches!(c, 0 | 9 | 10 | 12 | 13 | 32)
}
fn delim(c: u8) -> bool {
    b"()<>[]{}/%".contains(&c)
}

impl Lex<'_> {
    fn skip(&mut self) {
        while let Some(&c) = self.b.get(self.p) {
            if white(c) {
                self.p += 1;
            } else if c == b'%' {
                while self.b.get(self.p).is_some_and(|c| *c != 10 && *c != 13) {
                    self.p += 1;
                }
            } else {
                break;
            }
        }
    }
    fn err<T>(&self, m: &str) -> Result<T, String> {
        let e = (self.p + 30).min(self.b.len());
        Err(format!("{} at {}: {:?}", m, self.p, String::from_utf8_lossy(&self.b[self.p.min(e)..e])))
    }
    fn word(&mut self) -> String {
        let s = self.p;
        while self.b.get(self.p).is_some_and(|c| !white(*c) && !delim(*c)) {
            self.p += 1;
        }
        String::from_utf8_lossy(&self.b[s..self.p]).into_owned()
    }
    fn value(&mut self, depth: usize) -> Result<Option<V>, String> {
        if depth > 40 {
            return self.err("too deep");
        }
        self.skip();
        let Some(&c) = self.b.get(self.p) else { return Ok(None) };
        Ok(Some(match c {
            b'/' => {
                self.p += 1;
                let w = self.word();
                let b = w.as_bytes();
                let mut o = vec![];
                let mut i = 0;
                while i < b.len() {
                    if b[i] == b'#' && i + 2 < b.len() && let Ok(x) = u8::from_str_radix(&w[i + 1..i + 3], 16) {
                        o.push(x);
                        i += 3;
                    } else {
                        o.push(b[i]);
                        i += 1;
                    }
                }
                V::Name(String::from_utf8_lossy(&o).into_owned())
            }
            b'(' => {
                self.p += 1;
                let mut o = vec![];
                let mut level = 1;
                loop {
                    let Some(&c) = self.b.get(self.p) else { return self.err("string without an end") };
                    self.p += 1;
                    match c {
                        b'(' => {
                            level += 1;
                            o.push(c);
                        }
                        b')' => {
                            level -= 1;
                            if level == 0 {
                                break;
                            }
                            o.push(c);
                        }
                        b'\\' => {
                            let Some(&e) = self.b.get(self.p) else { return self.err("string without an end") };
                            self.p += 1;
                            match e {
                                b'n' => o.push(10),
                                b'r' => o.push(13),
                                b't' => o.push(9),
                                b'b' => o.push(8),
                                b'f' => o.push(12),
                                b'0'..=b'7' => {
                                    let mut n = (e - b'0') as u32;
                                    for _ in 0..2 {
                                        match self.b.get(self.p) {
                                            Some(d @ b'0'..=b'7') => {
                                                n = n * 8 + (d - b'0') as u32;
                                                self.p += 1;
                                            }
                                            _ => break,
                                        }
                                    }
                                    o.push(n as u8);
                                }
                                13 => {
                                    if self.b.get(self.p) == Some(&10) {
                                        self.p += 1;
                                    }
                                }
                                10 => {}
                                e => o.push(e),
                            }
                        }
                        13 => {
                            if self.b.get(self.p) == Some(&10) {
                                self.p += 1;
                            }
                            o.push(10);
                        }
                        c => o.push(c),
                    }
                }
                V::Str(o)
            }
            b'<' if self.b.get(self.p + 1) == Some(&b'<') => {
                self.p += 2;
                let mut d = BTreeMap::new();
                loop {
                    self.skip();
                    if self.b[self.p..].starts_with(b">>") {
                        self.p += 2;
                        break;
                    }
                    match self.value(depth + 1)? {
                        Some(V::Name(k)) => {
                            let Some(v) = self.value(depth + 1)? else { return self.err("dictionary without an end") };
                            if let V::Op(o) = &v {
                                return self.err(&format!("{} in a dictionary", o));
                            }
                            if d.insert(k.clone(), v).is_some() {
                                return self.err(&format!("key {} twice in a dictionary", k));
                            }
                        }
                        _ => return self.err("key of a dictionary expected"),
                    }
                }
                V::Dict(d)
            }
            b'<' => {
                self.p += 1;
                let mut h = vec![];
                loop {
                    let Some(&c) = self.b.get(self.p) else { return self.err("hex string without an end") };
                    self.p += 1;
                    match c {
                        b'>' => break,
                        c if white(c) => {}
                        c => match (c as char).to_digit(16) {
                            Some(d) => h.push(d as u8),
                            None => return self.err("not a hex digit"),
                        },
                    }
                }
                if h.len() % 2 == 1 {
                    h.push(0);
                }
                V::Str(h.chunks(2).map(|c| c[0] * 16 + c[1]).collect())
            }
            b'[' => {
                self.p += 1;
                let mut a = vec![];
                loop {
                    self.skip();
                    if self.b.get(self.p) == Some(&b']') {
                        self.p += 1;
                        break;
                    }
                    match self.value(depth + 1)? {
                        Some(V::Op(o)) => return self.err(&format!("{} in an array", o)),
                        Some(v) => a.push(v),
                        None => return self.err("array without an end"),
                    }
                }
                V::Arr(a)
            }
            b'+' | b'-' | b'.' | b'0'..=b'9' => {
                let s = self.p;
                let w = self.word();
                let n: f64 = match w.parse() {
                    Ok(n) if !w.contains(['e', 'E', 'n', 'i', 'N', 'I']) => n,
                    _ => {
                        self.p = s;
                        return self.err("not a number");
                    }
                };
                // a reference?
                if !self.ops && n >= 0.0 && n.fract() == 0.0 {
                    let keep = self.p;
                    self.skip();
                    let g = self.word();
                    self.skip();
                    if !g.is_empty() && g.bytes().all(|c| c.is_ascii_digit()) && self.b.get(self.p) == Some(&b'R') && self.b.get(self.p + 1).is_none_or(|c| white(*c) || delim(*c)) {
                        self.p += 1;
                        return Ok(Some(V::Ref(n as u32)));
                    }
                    self.p = keep;
                }
                V::Num(n)
            }
            _ if delim(c) => return self.err("unexpected delimiter"),
            _ => {
                let w = self.word();
                match w.as_str() {
                    "true" => V::Bool(true),
                    "false" => V::Bool(false),
                    "null" => V::Null,
                    _ if w.is_empty() => return self.err("unexpected byte"),
                    _ => V::Op(w),
                }
            }
        }))
    }
}

/// What the upper half of WinAnsiEncoding stands for
pub const CP1252: [char; 32] = [
    '€', '•', '‚', 'ƒ', '„', '…', '†', '‡', 'ˆ', '‰', 'Š', '‹', 'Œ', '•', 'Ž', '•', '•', '‘', '’', '“', '”', '•', '–', '—', '˜', '™', 'š', '›', 'œ', '•', 'ž', 'Ÿ',
];

#[derive(Clone)]
enum Enc {
    WinAnsi,
    /// The font's own encoding, of which only ASCII is taken for granted
    Ascii,
    /// Two bytes a character
    Wide(BTreeMap<u16, String>),
}

fn find(b: &[u8], w: &[u8], from: usize) -> Option<usize> {
    (from..b.len().saturating_sub(w.len() - 1)).find(|&i| &b[i..i + w.len()] == w)
}

pub fn parse(b: &[u8]) -> Result<Doc, String> {
    if !b.starts_with(b"%PDF-1.") && !b.starts_with(b"%PDF-2.") {
        return Err("no PDF header".into());
    }
    let tail = b.len().saturating_sub(1024);
    let sx = (tail..b.len()).rev().find(|&i| b[i..].starts_with(b"startxref")).ok_or("no startxref")?;
    if find(b, b"%%EOF", sx).is_none() {
        return Err("no %%EOF".into());
    }
    let mut l = Lex { b, p: sx + 9, ops: false };
    let at = l.value(0)?.and_then(|v| v.num()).ok_or("startxref without a number")? as usize;
    if b.get(at..at + 4) != Some(b"xref") {
        return Err(format!("startxref {} does not lead to the table", at));
    }
    l.p = at + 4;
    let mut offsets: BTreeMap<u32, usize> = BTreeMap::new();
    loop {
        l.skip();
        if b[l.p..].starts_with(b"trailer") {
            l.p += 7;
            break;
        }
        let first: u32 = l.word().parse().map_err(|_| "bad section of the xref table")?;
        l.skip();
        let n: u32 = l.word().parse().map_err(|_| "bad section of the xref table")?;
        while b.get(l.p).is_some_and(|c| *c == b' ') {
            l.p += 1;
        }
        if b.get(l.p) == Some(&13) {
            l.p += 1;
        }
        if b.get(l.p) == Some(&10) {
            l.p += 1;
        }
        for i in 0..n {
            let e = b.get(l.p..l.p + 20).ok_or("xref table too short")?;
            l.p += 20;
            let t = std::str::from_utf8(e).map_err(|_| "xref entry")?;
            let ok = e[10] == b' ' && e[16] == b' ' && t[..10].bytes().chain(t[11..16].bytes()).all(|c| c.is_ascii_digit()) && white(e[18]) && white(e[19]);
            if !ok {
                return Err(format!("xref entry {:?} is not well-formed", t));
            }
            match e[17] {
                b'n' => {
                    offsets.insert(first + i, t[..10].parse().unwrap());
                }
                b'f' => {}
                _ => return Err(format!("xref entry {:?}", t)),
            }
        }
    }
    let trailer = l.value(0)?.ok_or("no trailer")?;
    let trailer = trailer.dict().ok_or("trailer is not a dictionary")?.clone();
    let size = trailer.get("Size").and_then(V::num).ok_or("trailer without Size")? as u32;
    if offsets.keys().last().is_some_and(|k| *k >= size) {
        return Err("an object above Size".into());
    }
    let mut objs: BTreeMap<u32, Obj> = BTreeMap::new();
    for (id, off) in &offsets {
        let mut l = Lex { b, p: *off, ops: false };
        let head = format!("{} 0 obj", id);
        if !b[(*off).min(b.len())..].starts_with(head.as_bytes()) {
            return l.err(&format!("object {} is not at its place", id));
        }
        l.p += head.len();
        let v = l.value(0)?.ok_or("object without a value")?;
        l.skip();
        let mut o = Obj::default();
        if b[l.p..].starts_with(b"stream") {
            l.p += 6;
            if b.get(l.p) == Some(&13) {
                l.p += 1;
            }
            if b.get(l.p) != Some(&10) {
                return l.err("stream without a line break");
            }
            l.p += 1;
            let d = v.dict().ok_or("stream without a dictionary")?;
            let n = match d.get("Length") {
                Some(V::Num(n)) => *n as usize,
                Some(V::Ref(r)) => {
                    let p = *offsets.get(r).ok_or("Length of a stream is missing")?;
                    let mut m = Lex { b, p: p + format!("{} 0 obj", r).len(), ops: false };
                    m.value(0)?.and_then(|v| v.num()).ok_or("Length of a stream")? as usize
                }
                _ => return l.err("stream without Length"),
            };
            let data = b.get(l.p..l.p + n).ok_or("stream runs past the end")?;
            l.p += n;
            l.skip();
            if !b[l.p..].starts_with(b"endstream") {
                return l.err(&format!("Length of stream {} is wrong", id));
            }
            l.p += 9;
            l.skip();
            let mut data = data.to_vec();
            match d.get("Filter") {
                None => {}
                Some(V::Name(f)) if f == "FlateDecode" => {
                    use std::io::Read;
                    let mut o = vec![];
                    flate2::read::ZlibDecoder::new(&data[..]).read_to_end(&mut o).map_err(|e| format!("stream {}: {}", id, e))?;
                    data = o;
                }
                Some(_) => {}
            }
            o.stream = Some(data);
        }
        if !b[l.p..].starts_with(b"endobj") {
            return l.err(&format!("object {} without endobj", id));
        }
        if let V::Op(w) = &v {
            return Err(format!("object {} is {}", id, w));
        }
        o.v = Some(v);
        objs.insert(*id, o);
    }
    // every reference leads to an object
    fn refs(v: &V, f: &mut dyn FnMut(u32)) {
        match v {
            V::Ref(r) => f(*r),
            V::Arr(a) => a.iter().for_each(|v| refs(v, f)),
            V::Dict(d) => d.values().for_each(|v| refs(v, f)),
            _ => {}
        }
    }
    let mut lost = None;
    for (id, o) in &objs {
        refs(o.v.as_ref().unwrap(), &mut |r| {
            if !objs.contains_key(&r) {
                lost = Some(format!("object {} refers to {}, which does not exist", id, r));
            }
        });
    }
    for v in trailer.values() {
        refs(v, &mut |r| {
            if !objs.contains_key(&r) {
                lost = Some(format!("the trailer refers to {}, which does not exist", r));
            }
        });
    }
    if let Some(l) = lost {
        return Err(l);
    }
    let mut doc = Doc { objs, pages: vec![] };
    let root = doc.follow(trailer.get("Root").ok_or("no Root")?).dict().cloned().ok_or("Root is not a dictionary")?;
    if root.get("Type") != Some(&V::Name("Catalog".into())) {
        return Err("Root is not a catalog".into());
    }
    let pages = root.get("Pages").ok_or("no Pages")?.clone();
    let mut out = vec![];
    doc.walk(&pages, None, &BTreeMap::new(), &mut out, 0)?;
    doc.pages = out;
    Ok(doc)
}

impl Doc {
    pub fn follow<'a>(&'a self, v: &'a V) -> &'a V {
        let mut v = v;
        for _ in 0..20 {
            match v {
                V::Ref(r) => match self.objs.get(r).and_then(|o| o.v.as_ref()) {
                    Some(x) => v = x,
                    None => return &V::Null,
                },
                v => return v,
            }
        }
        &V::Null
    }
    fn walk(&self, v: &V, parent: Option<&V>, inherited: &BTreeMap<String, V>, out: &mut Vec<Page>, depth: usize) -> Result<usize, String> {
        if depth > 30 {
            return Err("page tree too deep".into());
        }
        let d = self.follow(v).dict().ok_or("page is not a dictionary")?;
        if let Some(p) = parent
            && d.get("Parent") != Some(p)
        {
            return Err(format!("Parent {:?} of a page is not {:?}", d.get("Parent"), p));
        }
        let mut inh = inherited.clone();
        for k in ["Resources", "MediaBox"] {
            if let Some(x) = d.get(k) {
                inh.insert(k.into(), x.clone());
            }
        }
        match d.get("Type").and_then(V::name) {
            Some("Pages") => {
                let Some(V::Arr(kids)) = d.get("Kids").map(|k| self.follow(k)) else { return Err("Pages without Kids".into()) };
                let mut n = 0;
                for k in kids {
                    n += self.walk(k, Some(v), &inh, out, depth + 1)?;
                }
                if d.get("Count").and_then(V::num) != Some(n as f64) {
                    return Err(format!("Count {:?} of {} pages", d.get("Count"), n));
                }
                Ok(n)
            }
            Some("Page") => {
                out.push(self.page(d, &inh)?);
                Ok(1)
            }
            t => Err(format!("{:?} in the page tree", t)),
        }
    }
    fn page(&self, d: &BTreeMap<String, V>, inh: &BTreeMap<String, V>) -> Result<Page, String> {
        let Some(V::Arr(m)) = inh.get("MediaBox").map(|m| self.follow(m)) else { return Err("page without a MediaBox".into()) };
        let m: Vec<f64> = m.iter().filter_map(|v| self.follow(v).num()).collect();
        if m.len() != 4 || m[2] <= m[0] || m[3] <= m[1] {
            return Err(format!("MediaBox {:?}", m));
        }
        let res = inh.get("Resources").map(|r| self.follow(r)).and_then(V::dict).ok_or("page without Resources")?;
        let mut fonts: BTreeMap<String, (String, Enc)> = BTreeMap::new();
        if let Some(f) = res.get("Font").map(|f| self.follow(f)).and_then(V::dict) {
            for (k, v) in f {
                let f = self.follow(v).dict().ok_or("font is not a dictionary")?;
                if f.get("Type").and_then(V::name) != Some("Font") {
                    return Err(format!("font {} is not a font", k));
                }
                let base = f.get("BaseFont").and_then(V::name).unwrap_or("").to_string();
                let enc = match (f.get("Subtype").and_then(V::name), f.get("Encoding").map(|e| self.follow(e))) {
                    (Some("Type0"), _) => {
                        let mut m = BTreeMap::new();
                        if let Some(V::Ref(r)) = f.get("ToUnicode")
                            && let Some(s) = self.objs.get(r).and_then(|o| o.stream.as_ref())
                        {
                            cmap(s, &mut m)?;
                        }
                        Enc::Wide(m)
                    }
                    (_, Some(V::Name(n))) if n == "WinAnsiEncoding" => Enc::WinAnsi,
                    (_, Some(V::Dict(d))) if d.get("BaseEncoding").and_then(V::name) == Some("WinAnsiEncoding") => Enc::WinAnsi,
                    _ => Enc::Ascii,
                };
                fonts.insert(k.clone(), (base, enc));
            }
        }
        let xobj: Vec<String> = res.get("XObject").map(|f| self.follow(f)).and_then(V::dict).map(|d| d.keys().cloned().collect()).unwrap_or_default();
        let mut data = vec![];
        let c = d.get("Contents").ok_or("page without Contents")?;
        let list: Vec<V> = match c {
            V::Ref(r) if self.objs[r].stream.is_some() => vec![c.clone()],
            c => match self.follow(c) {
                V::Arr(a) => a.clone(),
                _ => return Err("Contents is not a stream".into()),
            },
        };
        for s in list {
            let V::Ref(r) = s else { return Err("Contents is not a stream".into()) };
            data.extend_from_slice(self.objs[&r].stream.as_ref().ok_or("Contents is not a stream")?);
            data.push(10);
        }
        let mut p = content(&data, &fonts, &xobj)?;
        p.width = m[2] - m[0];
        p.height = m[3] - m[1];
        Ok(p)
    }
}

fn cmap(s: &[u8], m: &mut BTreeMap<u16, String>) -> Result<(), String> {
    let mut l = Lex { b: s, p: 0, ops: true };
    let mut stack: Vec<V> = vec![];
    let u = |b: &[u8]| b.iter().fold(0u32, |a, c| a << 8 | *c as u32);
    let text = |b: &[u8]| String::from_utf16_lossy(&b.chunks(2).map(|c| (c[0] as u16) << 8 | c.get(1).copied().unwrap_or(0) as u16).collect::<Vec<_>>());
    while let Some(v) = l.value(0)? {
        let V::Op(o) = &v else {
            stack.push(v);
            continue;
        };
        match o.as_str() {
            "endbfchar" => {
                for w in stack.chunks(2) {
                    if let [V::Str(a), V::Str(b)] = w {
                        m.insert(u(a) as u16, text(b));
                    }
                }
            }
            "endbfrange" => {
                for w in stack.chunks(3) {
                    if let [V::Str(a), V::Str(b), V::Str(c)] = w {
                        for k in u(a)..=u(b) {
                            m.insert(k as u16, char::from_u32(u(c) + k - u(a)).unwrap_or('?').to_string());
                        }
                    }
                }
            }
            _ => {}
        }
        stack.clear();
    }
    Ok(())
}

fn content(data: &[u8], fonts: &BTreeMap<String, (String, Enc)>, xobj: &[String]) -> Result<Page, String> {
    let mut l = Lex { b: data, p: 0, ops: true };
    let mut page = Page::default();
    let mut st: Vec<V> = vec![];
    let mut in_text = false;
    let mut path = false;
    // font, size, fill colour
    type G = (Option<(String, f64)>, [f64; 3], [f64; 6]);
    let mut g: G = (None, [0.0; 3], [1.0, 0.0, 0.0, 1.0, 0.0, 0.0]);
    let mut saved: Vec<G> = vec![];
    let (mut x, mut y, mut lead) = (0.0, 0.0, 0.0);
    let mut stroke = [0.0; 3];
    let mut pts: Vec<[f64; 2]> = vec![];
    while let Some(v) = l.value(0)? {
        let V::Op(o) = v else {
            st.push(v);
            if st.len() > 400 {
                return Err("operands without an operator".into());
            }
            continue;
        };
        page.ops += 1;
        let nums: Vec<f64> = st.iter().filter_map(V::num).collect();
        let bad = |m: &str| Err(format!("operator {} {}: {:?}", o, m, st));
        let need = match o.as_str() {
            "q" | "Q" | "BT" | "ET" | "S" | "s" | "f" | "F" | "f*" | "B" | "B*" | "b" | "b*" | "n" | "h" | "W" | "W*" | "T*" => Some(0),
            "w" | "J" | "j" | "M" | "i" | "g" | "G" | "Tc" | "Tw" | "Tz" | "TL" | "Tr" | "Ts" => Some(1),
            "m" | "l" | "Td" | "TD" => Some(2),
            "rg" | "RG" => Some(3),
            "re" | "v" | "y" | "k" | "K" => Some(4),
            "cm" | "c" | "Tm" => Some(6),
            _ => None,
        };
        if let Some(n) = need
            && (st.len() != n || nums.len() != n)
        {
            return bad(&format!("needs {} numbers", n));
        }
        if path && !matches!(o.as_str(), "m" | "l" | "c" | "v" | "y" | "h" | "re" | "S" | "s" | "f" | "F" | "f*" | "B" | "B*" | "b" | "b*" | "n" | "W" | "W*") {
            return bad("between making a path and painting it");
        }
        match o.as_str() {
            "q" => saved.push(g.clone()),
            "Q" => g = saved.pop().ok_or("Q without q")?,
            "BT" => {
                if in_text {
                    return bad("in a text object");
                }
                in_text = true;
                (x, y) = (0.0, 0.0);
            }
            "ET" => {
                if !in_text {
                    return bad("without BT");
                }
                in_text = false;
            }
            "m" | "re" => {
                path = true;
                pts = vec![[nums[0], nums[1]]];
            }
            "RG" => stroke = [nums[0], nums[1], nums[2]],
            "l" | "c" | "v" | "y" | "h" => {
                if !path {
                    return bad("without a path");
                }
                if o == "l" {
                    pts.push([nums[0], nums[1]]);
                }
            }
            "S" | "s" | "f" | "F" | "f*" | "B" | "B*" | "b" | "b*" | "n" => {
                if !path {
                    return bad("without a path");
                }
                path = false;
                if o == "S"
                    && let [a, b] = &pts[..]
                {
                    page.lines.push(([a[0], a[1], b[0], b[1]], stroke));
                }
            }
            "rg" => g.1 = [nums[0], nums[1], nums[2]],
            "g" => g.1 = [nums[0]; 3],
            "cm" => g.2 = [nums[0], nums[1], nums[2], nums[3], nums[4], nums[5]],
            "Tf" => match &st[..] {
                [V::Name(f), V::Num(s)] => {
                    if !fonts.contains_key(f) {
                        return Err(format!("font {} is not among the resources of the page", f));
                    }
                    g.0 = Some((f.clone(), *s));
                }
                _ => return bad("needs a font and a size"),
            },
            "TL" => lead = nums[0],
            "Td" | "TD" | "Tm" | "T*" => {
                if !in_text {
                    return bad("outside a text object");
                }
                match o.as_str() {
                    "Tm" => (x, y) = (nums[4], nums[5]),
                    "T*" => y -= lead,
                    _ => {
                        if o == "TD" {
                            lead = -nums[1];
                        }
                        x += nums[0];
                        y += nums[1];
                    }
                }
            }
            "Tj" | "'" | "TJ" => {
                if !in_text {
                    return bad("outside a text object");
                }
                let (f, size) = g.0.clone().ok_or("text without a font")?;
                let mut raw = vec![];
                match (&st[..], o.as_str()) {
                    ([V::Str(s)], "Tj" | "'") => raw.extend_from_slice(s),
                    ([V::Arr(a)], "TJ") => {
                        for v in a {
                            match v {
                                V::Str(s) => raw.extend_from_slice(s),
                                V::Num(_) => {}
                                _ => return bad("with something else than strings and numbers"),
                            }
                        }
                    }
                    _ => return bad("needs a string"),
                }
                if o == "'" {
                    y -= lead;
                }
                let (base, enc) = &fonts[&f];
                let text = match enc {
                    Enc::WinAnsi => raw.iter().map(|c| if (0x80..0xa0).contains(c) { CP1252[*c as usize - 0x80] } else { *c as char }).collect(),
                    Enc::Ascii => raw.iter().map(|c| if *c < 0x80 { *c as char } else { '\u{fffd}' }).collect(),
                    Enc::Wide(m) => raw.chunks(2).map(|c| m.get(&((c[0] as u16) << 8 | c.get(1).copied().unwrap_or(0) as u16)).cloned().unwrap_or("\u{fffd}".into())).collect(),
                };
                page.shown.push(Shown { text, font: base.clone(), size, color: g.1, x: x + g.2[4], y: y + g.2[5] });
            }
            "Do" => match &st[..] {
                [V::Name(n)] if xobj.contains(n) => page.images += 1,
                _ => return bad("draws something that is not among the resources"),
            },
            "BI" => return Err("inline image".into()),
            _ if need.is_some() => {}
            "d" | "gs" | "cs" | "CS" | "sc" | "scn" | "SC" | "SCN" | "ri" | "BDC" | "BMC" | "EMC" | "sh" | "\"" | "MP" | "DP" => {}
            _ => return bad("is unknown"),
        }
        st.clear();
    }
    if !st.is_empty() {
        return Err("operands without an operator at the end of a page".into());
    }
    if in_text || path || !saved.is_empty() {
        return Err("a text object, path or saved state is open at the end of a page".into());
    }
    Ok(page)
}

/// Widths of the characters of WinAnsi that are known for certain, in thousandths of the size.
pub fn advance(font: &str, c: char) -> f64 {
    const PLAIN: [u16; 95] = [
        278, 278, 355, 556, 556, 889, 667, 191, 333, 333, 389, 584, 278, 333, 278, 278, 556, 556, 556, 556, 556, 556, 556, 556, 556, 556, 278, 278, 584, 584, 584, 556, 1015, 667, 667, 722, 722, 667, 611, 778, 722, 278, 500, 667, 556, 833, 722, 778, 667, 778, 722, 667, 611, 722, 667, 944, 667, 667, 611, 278, 278, 278, 469, 556, 333, 556, 556, 500, 556, 556, 278, 556, 556, 222, 222, 500, 222, 833, 556, 556, 556, 556, 333, 500, 278, 556, 500, 722, 500, 500, 500, 334, 260, 334, 584,
    ];
    const BOLD: [u16; 95] = [
        278, 333, 474, 556, 556, 889, 722, 238, 333, 333, 389, 584, 278, 333, 278, 278, 556, 556, 556, 556, 556, 556, 556, 556, 556, 556, 333, 333, 584, 584, 584, 611, 975, 722, 722, 722, 722, 667, 611, 778, 722, 278, 556, 722, 611, 833, 722, 778, 667, 778, 722, 667, 611, 722, 667, 944, 667, 667, 611, 333, 278, 333, 584, 556, 333, 556, 611, 556, 611, 556, 333, 611, 611, 278, 278, 556, 278, 889, 611, 611, 611, 611, 389, 556, 333, 611, 556, 778, 556, 556, 500, 389, 280, 389, 584,
    ];
    if font.starts_with("Courier") {
        return 0.6;
    }
    let t = if font.contains("Bold") { &BOLD } else { &PLAIN };
    (match c {
        ' '..='~' => t[c as usize - 32],
        '\u{a0}' => 278,
        'À'..='Å' | 'È'..='Ë' => 667,
        'Æ' | '—' | '…' | '™' | '‰' => 1000,
        'à'..='å' | 'è'..='ë' | '€' | '–' => 556,
        'æ' => 889,
        _ => 250,
    }) as f64
        / 1000.0
}
