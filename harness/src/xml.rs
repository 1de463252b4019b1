//! Independent strict XML 1.0 + Namespaces parser used as the oracle.
//! It rejects anything that is not well formed: illegal characters, undeclared
//! prefixes, duplicate attributes, mismatched tags, bad entities, junk after the root.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct Attr {
    pub ns: Option<Rc<str>>,
    pub qname: String,
    pub local: String,
    pub value: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Elem(Elem),
    Text(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Elem {
    pub ns: Option<Rc<str>>,
    pub qname: String,
    pub local: String,
    pub attrs: Vec<Attr>,
    pub children: Vec<Node>,
}

impl Elem {
    pub fn attr(&self, name: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.qname == name).map(|a| a.value.as_str())
    }
    pub fn attr_ns(&self, ns: &str, local: &str) -> Option<&str> {
        self.attrs
            .iter()
            .find(|a| a.local == local && a.ns.as_deref() == Some(ns))
            .map(|a| a.value.as_str())
    }
    pub fn elems(&self) -> impl Iterator<Item = &Elem> {
        self.children.iter().filter_map(|n| match n {
            Node::Elem(e) => Some(e),
            _ => None,
        })
    }
    pub fn child(&self, local: &str) -> Option<&Elem> {
        self.elems().find(|e| e.local == local)
    }
    pub fn kids(&self, local: &str) -> Vec<&Elem> {
        self.elems().filter(|e| e.local == local).collect()
    }
    /// Follow a path of local names.
    pub fn at(&self, path: &str) -> Option<&Elem> {
        let mut cur = self;
        for p in path.split('/') {
            cur = cur.child(p)?;
        }
        Some(cur)
    }
    /// All descendants (not self) with the local name, document order.
    pub fn desc(&self, local: &str) -> Vec<&Elem> {
        let mut out = vec![];
        fn go<'a>(e: &'a Elem, l: &str, out: &mut Vec<&'a Elem>) {
            for c in e.elems() {
                if c.local == l {
                    out.push(c);
                }
                go(c, l, out);
            }
        }
        go(self, local, &mut out);
        out
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Elem)) {
        f(self);
        for c in self.elems() {
            c.walk(f);
        }
    }
    /// Concatenated text of this element and its descendants.
    pub fn text(&self) -> String {
        let mut s = String::new();
        fn go(e: &Elem, s: &mut String) {
            for c in &e.children {
                match c {
                    Node::Text(t) => s.push_str(t),
                    Node::Elem(e) => go(e, s),
                }
            }
        }
        go(self, &mut s);
        s
    }
    /// Direct character data only.
    pub fn own_text(&self) -> String {
        self.children
            .iter()
            .filter_map(|n| if let Node::Text(t) = n { Some(t.as_str()) } else { None })
            .collect()
    }
    /// Serialisation with whitespace-only text dropped and attributes sorted, for comparisons.
    pub fn canon(&self) -> String {
        let mut s = String::new();
        self.canon_into(&mut s);
        s
    }
    fn canon_into(&self, s: &mut String) {
        s.push('<');
        if let Some(n) = &self.ns {
            s.push('{');
            s.push_str(n);
            s.push('}');
        }
        s.push_str(&self.local);
        let mut at: Vec<String> = self
            .attrs
            .iter()
            .map(|a| format!(" {{{}}}{}={:?}", a.ns.as_deref().unwrap_or(""), a.local, a.value))
            .collect();
        at.sort();
        for a in at {
            s.push_str(&a);
        }
        s.push('>');
        for c in &self.children {
            match c {
                Node::Text(t) => {
                    if !t.trim().is_empty() || self.local == "t" {
                        s.push_str(&format!("{:?}", t));
                    }
                }
                Node::Elem(e) => e.canon_into(s),
            }
        }
        s.push_str("</>");
    }
}

pub fn is_xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}

fn is_name_start(c: char) -> bool {
    matches!(c, ':' | 'A'..='Z' | '_' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}'
        | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}'
        | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}' | '\u{10000}'..='\u{EFFFF}')
}
fn is_name_char(c: char) -> bool {
    is_name_start(c) || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
}

struct P<'a> {
    s: &'a str,
    i: usize,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> R<T> {
        let from = (0..=self.i.min(self.s.len())).rev().filter(|k| self.s.is_char_boundary(*k)).take(40).last().unwrap_or(0);
        let mut to = (self.i + 30).min(self.s.len());
        while !self.s.is_char_boundary(to) {
            to -= 1;
        }
        Err(format!("{} at byte {} near {:?}", m, self.i, &self.s[from..to.max(from)]))
    }
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.rest().starts_with(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn ws(&mut self) -> bool {
        let st = self.i;
        while let Some(b) = self.s.as_bytes().get(self.i) {
            if matches!(b, b' ' | b'\t' | b'\n' | b'\r') {
                self.i += 1;
            } else {
                break;
            }
        }
        self.i > st
    }
    fn name(&mut self) -> R<&'a str> {
        let st = self.i;
        match self.peek() {
            Some(c) if is_name_start(c) => self.i += c.len_utf8(),
            _ => return self.err("expected a name"),
        }
        while let Some(c) = self.peek() {
            if is_name_char(c) {
                self.i += c.len_utf8();
            } else {
                break;
            }
        }
        Ok(&self.s[st..self.i])
    }
    fn reference(&mut self, out: &mut String) -> R<()> {
        // at '&'
        let r = self.rest();
        let end = match r.find(';') {
            Some(e) => e,
            None => return self.err("unterminated reference"),
        };
        let body = &r[1..end];
        let c = match body {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let v = if let Some(h) = body.strip_prefix("#x") {
                    if h.is_empty() || !h.bytes().all(|b| b.is_ascii_hexdigit()) {
                        return self.err("bad character reference");
                    }
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = body.strip_prefix('#') {
                    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
                        return self.err("bad character reference");
                    }
                    d.parse().ok()
                } else {
                    return self.err("undefined entity");
                };
                match v.and_then(char::from_u32) {
                    Some(c) if is_xml_char(c) => c,
                    _ => return self.err("character reference to an illegal character"),
                }
            }
        };
        out.push(c);
        self.i += end + 1;
        Ok(())
    }
    fn attr_value(&mut self) -> R<String> {
        let q = match self.peek() {
            Some(c @ ('"' | '\'')) => c,
            _ => return self.err("expected a quoted attribute value"),
        };
        self.i += 1;
        let mut out = String::new();
        loop {
            match self.peek() {
                None => return self.err("unterminated attribute value"),
                Some(c) if c == q => {
                    self.i += 1;
                    return Ok(out);
                }
                Some('<') => return self.err("'<' in attribute value"),
                Some('&') => self.reference(&mut out)?,
                Some(c) => {
                    if !is_xml_char(c) {
                        return self.err("illegal character in attribute value");
                    }
                    // attribute-value normalisation
                    if c == '\r' {
                        if self.rest().starts_with("\r\n") {
                            self.i += 1;
                        }
                        out.push(' ');
                    } else if matches!(c, '\t' | '\n') {
                        out.push(' ');
                    } else {
                        out.push(c);
                    }
                    self.i += c.len_utf8();
                }
            }
        }
    }
    fn misc(&mut self) -> R<()> {
        loop {
            self.ws();
            if self.rest().starts_with("<!--") {
                self.comment()?;
            } else if self.rest().starts_with("<?") {
                self.pi()?;
            } else {
                return Ok(());
            }
        }
    }
    fn comment(&mut self) -> R<()> {
        self.i += 4;
        match self.rest().find("--") {
            Some(p) => {
                if self.rest()[..p].chars().any(|c| !is_xml_char(c)) {
                    return self.err("illegal character in comment");
                }
                self.i += p + 2;
                if self.eat(">") { Ok(()) } else { self.err("'--' inside a comment") }
            }
            None => self.err("unterminated comment"),
        }
    }
    fn pi(&mut self) -> R<()> {
        self.i += 2;
        let n = self.name()?;
        if n.eq_ignore_ascii_case("xml") {
            return self.err("misplaced XML declaration");
        }
        match self.rest().find("?>") {
            Some(p) => {
                self.i += p + 2;
                Ok(())
            }
            None => self.err("unterminated processing instruction"),
        }
    }
    fn decl(&mut self) -> R<()> {
        if self.rest().starts_with("<?xml") && self.rest()[5..].starts_with([' ', '\t', '\n', '\r']) {
            let end = match self.rest().find("?>") {
                Some(e) => e,
                None => return self.err("unterminated XML declaration"),
            };
            let d = &self.rest()[5..end];
            if !d.contains("version=\"1.0\"") && !d.contains("version='1.0'") {
                return self.err("XML declaration without version");
            }
            if let Some(p) = d.find("encoding=") {
                let v = d[p + 9..].trim_start_matches(['"', '\'']).to_ascii_lowercase();
                if !v.starts_with("utf-8") {
                    return self.err("unexpected encoding");
                }
            }
            self.i += end + 2;
        }
        Ok(())
    }
    fn element(&mut self, scope: &HashMap<String, Rc<str>>, depth: usize) -> R<Elem> {
        if depth > 400 {
            return self.err("nesting too deep for the oracle");
        }
        if !self.eat("<") {
            return self.err("expected an element");
        }
        let qname = self.name()?.to_string();
        let mut raw: Vec<(String, String)> = vec![];
        let selfclose;
        loop {
            let had = self.ws();
            if self.eat("/>") {
                selfclose = true;
                break;
            }
            if self.eat(">") {
                selfclose = false;
                break;
            }
            if !had {
                return self.err("expected whitespace before attribute");
            }
            let an = self.name()?.to_string();
            self.ws();
            if !self.eat("=") {
                return self.err("attribute without value");
            }
            self.ws();
            let v = self.attr_value()?;
            if raw.iter().any(|(n, _)| *n == an) {
                return self.err("duplicate attribute");
            }
            raw.push((an, v));
        }
        let mut own;
        let mut sc = scope;
        if raw.iter().any(|(n, _)| n == "xmlns" || n.starts_with("xmlns:")) {
            own = scope.clone();
            for (n, v) in &raw {
                if n == "xmlns" {
                    if v.is_empty() {
                        own.remove("");
                    } else {
                        own.insert(String::new(), Rc::from(v.as_str()));
                    }
                } else if let Some(p) = n.strip_prefix("xmlns:") {
                    if v.is_empty() {
                        return self.err("empty namespace for a prefix");
                    }
                    own.insert(p.to_string(), Rc::from(v.as_str()));
                }
            }
            sc = &own;
        }
        let split = |q: &str| -> R<(Option<String>, String)> {
            match q.split_once(':') {
                Some((p, l)) => {
                    if p.is_empty() || l.is_empty() || l.contains(':') {
                        return Err(format!("bad qualified name {:?}", q));
                    }
                    Ok((Some(p.to_string()), l.to_string()))
                }
                None => Ok((None, q.to_string())),
            }
        };
        let (pfx, local) = split(&qname)?;
        let ns = match &pfx {
            Some(p) if p == "xml" => Some(Rc::from("http://www.w3.org/XML/1998/namespace")),
            Some(p) => match sc.get(p) {
                Some(n) => Some(n.clone()),
                None => return self.err(&format!("undeclared namespace prefix {:?}", p)),
            },
            None => sc.get("").cloned(),
        };
        let mut attrs: Vec<Attr> = vec![];
        for (n, v) in raw {
            if n == "xmlns" || n.starts_with("xmlns:") {
                continue;
            }
            let (p, l) = split(&n)?;
            let ans = match &p {
                Some(p) if p == "xml" => Some(Rc::from("http://www.w3.org/XML/1998/namespace")),
                Some(p) => match sc.get(p) {
                    Some(x) => Some(x.clone()),
                    None => return self.err(&format!("undeclared namespace prefix {:?}", p)),
                },
                None => None,
            };
            if attrs.iter().any(|a| a.local == l && a.ns == ans) {
                return self.err("duplicate attribute after namespace expansion");
            }
            attrs.push(Attr { ns: ans, qname: n, local: l, value: v });
        }
        let mut e = Elem { ns, qname, local, attrs, children: vec![] };
        if selfclose {
            return Ok(e);
        }
        let mut text = String::new();
        loop {
            match self.peek() {
                None => return self.err(&format!("unclosed element <{}>", e.qname)),
                Some('<') => {
                    if self.rest().starts_with("<!--") {
                        self.comment()?;
                    } else if self.rest().starts_with("<![CDATA[") {
                        self.i += 9;
                        match self.rest().find("]]>") {
                            Some(p) => {
                                text.push_str(&self.rest()[..p]);
                                self.i += p + 3;
                            }
                            None => return self.err("unterminated CDATA"),
                        }
                    } else if self.rest().starts_with("<?") {
                        self.pi()?;
                    } else if self.rest().starts_with("</") {
                        self.i += 2;
                        let n = self.name()?;
                        if n != e.qname {
                            return self.err(&format!("</{}> closes <{}>", n, e.qname));
                        }
                        self.ws();
                        if !self.eat(">") {
                            return self.err("bad end tag");
                        }
                        if !text.is_empty() {
                            e.children.push(Node::Text(text));
                        }
                        return Ok(e);
                    } else {
                        if !text.is_empty() {
                            e.children.push(Node::Text(std::mem::take(&mut text)));
                        }
                        let c = self.element(sc, depth + 1)?;
                        e.children.push(Node::Elem(c));
                    }
                }
                Some('&') => self.reference(&mut text)?,
                Some(c) => {
                    if !is_xml_char(c) {
                        return self.err("illegal character in content");
                    }
                    if self.rest().starts_with("]]>") {
                        return self.err("']]>' in content");
                    }
                    if c == '\r' {
                        // end-of-line normalisation
                        if !self.rest().starts_with("\r\n") {
                            text.push('\n');
                        }
                    } else {
                        text.push(c);
                    }
                    self.i += c.len_utf8();
                }
            }
        }
    }
}

pub fn parse(bytes: &[u8]) -> Result<Elem, String> {
    let s = std::str::from_utf8(bytes).map_err(|e| format!("not UTF-8: {}", e))?;
    let s = s.strip_prefix('\u{FEFF}').unwrap_or(s);
    let mut p = P { s, i: 0 };
    p.decl()?;
    p.misc()?;
    if p.rest().starts_with("<!DOCTYPE") {
        return p.err("DOCTYPE is not allowed in an OPC part");
    }
    let root = p.element(&HashMap::new(), 0)?;
    p.misc()?;
    if p.i != p.s.len() {
        return p.err("content after the root element");
    }
    Ok(root)
}

/// Escape for building oracle-side XML.
pub fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&apos;")
}
