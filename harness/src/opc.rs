//! Independent OPC / PresentationML package checker.
use crate::xml::{self, Elem};
use crate::zipx;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub const NS_R: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
pub const NS_A: &str = "http://schemas.openxmlformats.org/drawingml/2006/main";
pub const NS_P: &str = "http://schemas.openxmlformats.org/presentationml/2006/main";
pub const NS_C: &str = "http://schemas.openxmlformats.org/drawingml/2006/chart";
pub const NS_REL: &str = "http://schemas.openxmlformats.org/package/2006/relationships";
pub const NS_CT: &str = "http://schemas.openxmlformats.org/package/2006/content-types";

#[derive(Clone, Debug)]
pub struct Rel {
    pub id: String,
    pub typ: String,
    pub target: String,
    pub external: bool,
    /// Resolved part name (no leading slash) when internal.
    pub part: String,
}

#[derive(Clone, Debug)]
pub struct Problem {
    pub code: &'static str,
    pub detail: String,
}

#[derive(Default)]
pub struct Pkg {
    pub parts: BTreeMap<String, Vec<u8>>,
    pub order: Vec<String>,
    pub xml: HashMap<String, Elem>,
    pub rels: HashMap<String, Vec<Rel>>,
    pub defaults: HashMap<String, String>,
    pub overrides: HashMap<String, String>,
    pub problems: Vec<Problem>,
    pub xml_parts: usize,
    pub refs_checked: usize,
}

pub fn rels_name(part: &str) -> String {
    match part.rsplit_once('/') {
        Some((d, f)) => format!("{}/_rels/{}.rels", d, f),
        None => format!("_rels/{}.rels", part),
    }
}

/// Source part of a .rels part ("" for the package root).
pub fn rels_source(name: &str) -> Option<String> {
    let (dir, file) = name.rsplit_once('/')?;
    let f = file.strip_suffix(".rels")?;
    if dir == "_rels" {
        return Some(f.to_string());
    }
    let d = dir.strip_suffix("/_rels")?;
    Some(format!("{}/{}", d, f))
}

pub fn resolve(source: &str, target: &str) -> String {
    let t = target.split('#').next().unwrap_or("");
    let mut segs: Vec<&str> = vec![];
    if !t.starts_with('/')
        && let Some((d, _)) = source.rsplit_once('/') {
            segs.extend(d.split('/'));
        }
    for s in t.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                segs.pop();
            }
            s => segs.push(s),
        }
    }
    segs.join("/")
}

pub fn short_type(t: &str) -> &str {
    t.rsplit('/').next().unwrap_or(t)
}

/// Expected content type for the target of a relationship type (suffix), if fixed.
fn expected_ct(short: &str) -> Option<&'static [&'static str]> {
    Some(match short {
        "officeDocument" => &["application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"],
        "slide" => &["application/vnd.openxmlformats-officedocument.presentationml.slide+xml"],
        "slideLayout" => &["application/vnd.openxmlformats-officedocument.presentationml.slideLayout+xml"],
        "slideMaster" => &["application/vnd.openxmlformats-officedocument.presentationml.slideMaster+xml"],
        "notesSlide" => &["application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml"],
        "notesMaster" => &["application/vnd.openxmlformats-officedocument.presentationml.notesMaster+xml"],
        "handoutMaster" => &["application/vnd.openxmlformats-officedocument.presentationml.handoutMaster+xml"],
        "theme" => &["application/vnd.openxmlformats-officedocument.theme+xml"],
        "presProps" => &["application/vnd.openxmlformats-officedocument.presentationml.presProps+xml"],
        "viewProps" => &["application/vnd.openxmlformats-officedocument.presentationml.viewProps+xml"],
        "tableStyles" => &["application/vnd.openxmlformats-officedocument.presentationml.tableStyles+xml"],
        "chart" => &["application/vnd.openxmlformats-officedocument.drawingml.chart+xml"],
        "core-properties" => &["application/vnd.openxmlformats-package.core-properties+xml"],
        "extended-properties" => &["application/vnd.openxmlformats-officedocument.extended-properties+xml"],
        _ => return None,
    })
}

fn image_ct_ok(ext: &str, ct: &str) -> bool {
    match ext {
        "png" => ct == "image/png",
        "jpg" | "jpeg" => ct == "image/jpeg" || ct == "image/jpg",
        "gif" => ct == "image/gif",
        "bmp" => ct == "image/bmp" || ct == "image/x-bmp",
        "tif" | "tiff" => ct == "image/tiff",
        "svg" => ct == "image/svg+xml",
        "webp" => ct == "image/webp",
        _ => ct.starts_with("image/"),
    }
}

/// Relationship types allowed for an r: attribute on the given element.
fn ref_types(local: &str, attr: &str) -> Option<&'static [&'static str]> {
    Some(match (local, attr) {
        ("sldId", "id") => &["slide"],
        ("sldMasterId", "id") => &["slideMaster"],
        ("sldLayoutId", "id") => &["slideLayout"],
        ("notesMasterId", "id") => &["notesMaster"],
        ("handoutMasterId", "id") => &["handoutMaster"],
        ("blip", "embed") => &["image"],
        ("chart", "id") => &["chart"],
        ("externalData", "id") => &["package", "oleObject"],
        ("hlinkClick", "id") | ("hlinkHover", "id") | ("hlinkMouseOver", "id") => &["hyperlink", "slide"],
        ("contentPart", "id") => &["customXml", "ink"],
        ("videoFile", "link") => &["video"],
        ("audioFile", "link") => &["audio"],
        ("regular", "id") | ("bold", "id") | ("italic", "id") | ("boldItalic", "id") => &["font"],
        _ => return None,
    })
}

impl Pkg {
    fn bad(&mut self, code: &'static str, d: impl Into<String>) {
        self.problems.push(Problem { code, detail: d.into() });
    }
    pub fn content_type(&self, part: &str) -> Option<&str> {
        if let Some(c) = self.overrides.get(&part.to_ascii_lowercase()) {
            return Some(c);
        }
        let ext = part.rsplit('/').next().unwrap_or("").rsplit_once('.').map(|x| x.1.to_ascii_lowercase())?;
        self.defaults.get(&ext).map(|s| s.as_str())
    }
    pub fn rel(&self, part: &str, id: &str) -> Option<&Rel> {
        self.rels.get(part)?.iter().find(|r| r.id == id)
    }
    pub fn rels_of(&self, part: &str) -> &[Rel] {
        self.rels.get(part).map(|v| v.as_slice()).unwrap_or(&[])
    }
    pub fn rel_by_type(&self, part: &str, short: &str) -> Vec<&Rel> {
        self.rels_of(part).iter().filter(|r| short_type(&r.typ) == short).collect()
    }
    pub fn main_part(&self) -> Option<String> {
        self.rel_by_type("", "officeDocument").first().map(|r| r.part.clone())
    }
    /// Slide part names in presentation order.
    pub fn slides(&self) -> Vec<String> {
        let Some(main) = self.main_part() else { return vec![] };
        let Some(p) = self.xml.get(&main) else { return vec![] };
        let mut v = vec![];
        if let Some(l) = p.child("sldIdLst") {
            for s in l.kids("sldId") {
                if let Some(id) = s.attr_ns(NS_R, "id")
                    && let Some(r) = self.rel(&main, id) {
                        v.push(r.part.clone());
                    }
            }
        }
        v
    }

    /// Parse only: parts, content types, relationships, XML. Does not judge.
    pub fn load(bytes: &[u8]) -> Result<Pkg, String> {
        let entries = zipx::read(bytes)?;
        let mut k = Pkg::default();
        let mut seen: HashSet<String> = HashSet::new();
        for e in entries {
            if e.name.ends_with('/') {
                continue;
            }
            if !seen.insert(e.name.to_ascii_lowercase()) {
                k.bad("dup-entry", format!("two ZIP entries named {}", e.name));
            }
            if e.name.starts_with('/') || e.name.contains('\\') || e.name.split('/').any(|s| s == ".." || s == "." || s.is_empty()) {
                k.bad("bad-name", format!("illegal part name {:?}", e.name));
            }
            k.order.push(e.name.clone());
            k.parts.insert(e.name, e.data);
        }
        // content types
        if let Some(ct) = k.parts.get("[Content_Types].xml") {
            match xml::parse(ct) {
                Ok(root) => {
                    if root.local != "Types" || root.ns.as_deref() != Some(NS_CT) {
                        k.bad("ct-root", "content types part has a wrong root");
                    }
                    for e in root.elems() {
                        let c = e.attr("ContentType").unwrap_or("").to_string();
                        match e.local.as_str() {
                            "Default" => {
                                let x = e.attr("Extension").unwrap_or("").to_ascii_lowercase();
                                if x.is_empty() || c.is_empty() {
                                    k.bad("ct-attr", "Default without Extension or ContentType");
                                }
                                if k.defaults.insert(x.clone(), c).is_some() {
                                    k.bad("ct-dup-default", format!("two Defaults for extension {}", x));
                                }
                            }
                            "Override" => {
                                let n = e.attr("PartName").unwrap_or("").to_string();
                                if !n.starts_with('/') || c.is_empty() {
                                    k.bad("ct-attr", format!("bad Override {:?} -> {:?}", n, c));
                                }
                                let key = n.trim_start_matches('/').to_ascii_lowercase();
                                if k.overrides.insert(key, c).is_some() {
                                    k.bad("ct-dup-override", format!("two Overrides for {}", n));
                                }
                            }
                            o => k.bad("ct-elem", format!("unexpected element {} in content types", o)),
                        }
                    }
                }
                Err(e) => k.bad("xml", format!("[Content_Types].xml: {}", e)),
            }
        } else {
            k.bad("no-content-types", "[Content_Types].xml is missing");
        }
        // XML parts
        let names: Vec<String> = k.parts.keys().cloned().collect();
        for n in &names {
            if n == "[Content_Types].xml" {
                continue;
            }
            let lower = n.to_ascii_lowercase();
            let is_xml = lower.ends_with(".xml")
                || lower.ends_with(".rels")
                || k.content_type(n).is_some_and(|c| c.ends_with("+xml") || c.ends_with("/xml"));
            if !is_xml {
                continue;
            }
            k.xml_parts += 1;
            match xml::parse(&k.parts[n]) {
                Ok(e) => {
                    k.xml.insert(n.clone(), e);
                }
                Err(e) => k.bad("xml", format!("{}: {}", n, e)),
            }
        }
        // relationships
        for n in &names {
            if !n.ends_with(".rels") {
                continue;
            }
            let Some(src) = rels_source(n) else {
                k.bad("rels-place", format!("misplaced relationship part {}", n));
                continue;
            };
            let Some(root) = k.xml.get(n) else { continue };
            let mut v = vec![];
            let mut probs = vec![];
            if root.local != "Relationships" || root.ns.as_deref() != Some(NS_REL) {
                probs.push(("rels-root", format!("{}: wrong root element", n)));
            }
            for e in root.elems() {
                if e.local != "Relationship" {
                    probs.push(("rels-elem", format!("{}: element {}", n, e.local)));
                    continue;
                }
                let (Some(id), Some(typ), Some(tg)) = (e.attr("Id"), e.attr("Type"), e.attr("Target")) else {
                    probs.push(("rels-attr", format!("{}: relationship without Id, Type or Target", n)));
                    continue;
                };
                let external = match e.attr("TargetMode") {
                    None | Some("Internal") => false,
                    Some("External") => true,
                    Some(m) => {
                        probs.push(("rels-attr", format!("{}: TargetMode {}", n, m)));
                        false
                    }
                };
                v.push(Rel {
                    id: id.to_string(),
                    typ: typ.to_string(),
                    target: tg.to_string(),
                    external,
                    part: if external { String::new() } else { resolve(&src, tg) },
                });
            }
            for (c, d) in probs {
                k.bad(c, d);
            }
            k.rels.insert(src, v);
        }
        Ok(k)
    }

    /// Load and judge.
    pub fn check(bytes: &[u8]) -> Result<Pkg, String> {
        let mut k = Pkg::load(bytes)?;
        k.judge();
        Ok(k)
    }

    pub fn judge(&mut self) {
        let names: Vec<String> = self.parts.keys().cloned().collect();
        let lower: HashMap<String, String> = names.iter().map(|n| (n.to_ascii_lowercase(), n.clone())).collect();
        for n in &names {
            if n == "[Content_Types].xml" {
                continue;
            }
            match self.content_type(n).map(|s| s.to_string()) {
                None => self.bad("no-ct", format!("part {} has no content type", n)),
                Some(c) => {
                    if n.ends_with(".rels") && c != "application/vnd.openxmlformats-package.relationships+xml" {
                        self.bad("ct-rels", format!("{} has content type {}", n, c));
                    }
                }
            }
        }
        let ov: Vec<String> = self.overrides.keys().cloned().collect();
        for o in ov {
            if !lower.contains_key(&o) {
                self.bad("ct-ghost", format!("content type override for missing part /{}", o));
            }
        }
        // relationships
        let srcs: Vec<String> = self.rels.keys().cloned().collect();
        for src in srcs {
            if !src.is_empty() && !self.parts.contains_key(&src) {
                self.bad("rels-orphan", format!("relationships of missing part {}", src));
            }
            let rels = self.rels[&src].clone();
            let mut ids = HashSet::new();
            for r in &rels {
                let ok_id = r.id.chars().next().is_some_and(|c| c.is_alphabetic() || c == '_')
                    && r.id.chars().all(|c| c.is_alphanumeric() || matches!(c, '_' | '-' | '.'));
                if !ok_id {
                    self.bad("rel-id", format!("{:?}: illegal relationship id {:?}", src, r.id));
                }
                if !ids.insert(r.id.clone()) {
                    self.bad("rel-dup-id", format!("{:?}: relationship id {} used twice", src, r.id));
                }
                if !r.typ.contains("://") {
                    self.bad("rel-type", format!("{:?}: relationship type {:?}", src, r.typ));
                }
                if r.external {
                    if r.target.is_empty() {
                        self.bad("rel-target", format!("{:?}: empty external target for {}", src, r.id));
                    }
                    continue;
                }
                if !self.parts.contains_key(&r.part) {
                    self.bad("rel-dangling", format!("{:?}: {} ({}) -> missing part {}", src, r.id, short_type(&r.typ), r.target));
                    continue;
                }
                let st = short_type(&r.typ).to_string();
                if let Some(exp) = expected_ct(&st) {
                    let c = self.content_type(&r.part).unwrap_or("").to_string();
                    if !exp.contains(&c.as_str()) {
                        self.bad("ct-mismatch", format!("{} (via {} relationship) has content type {:?}", r.part, st, c));
                    }
                }
                if st == "image" {
                    let c = self.content_type(&r.part).unwrap_or("").to_string();
                    let ext = r.part.rsplit('.').next().unwrap_or("").to_ascii_lowercase();
                    if !image_ct_ok(&ext, &c) {
                        self.bad("ct-mismatch", format!("image {} has content type {:?}", r.part, c));
                    }
                }
            }
        }
        // references
        let parts: Vec<String> = self.xml.keys().filter(|n| !n.ends_with(".rels")).cloned().collect();
        for n in &parts {
            let mut probs: Vec<(&'static str, String)> = vec![];
            let mut cnt = 0;
            {
                let root = &self.xml[n];
                root.walk(&mut |e| {
                    for a in &e.attrs {
                        if a.ns.as_deref() != Some(NS_R) {
                            continue;
                        }
                        cnt += 1;
                        if a.value.is_empty() && e.local.starts_with("hlink") && e.attr("action").is_some() {
                            continue;
                        }
                        match self.rel(n, &a.value) {
                            None => probs.push(("ref-undeclared", format!("{}: <{}> refers to undeclared {}={:?}", n, e.qname, a.qname, a.value))),
                            Some(r) => {
                                if let Some(t) = ref_types(&e.local, &a.local)
                                    && !t.contains(&short_type(&r.typ)) {
                                        probs.push(("ref-type", format!("{}: <{} {}={}> points at a {} relationship ({})", n, e.qname, a.qname, a.value, short_type(&r.typ), r.target)));
                                    }
                            }
                        }
                    }
                });
            }
            self.refs_checked += cnt;
            for (c, d) in probs {
                self.bad(c, d);
            }
        }
        // main document
        let mains = self.rel_by_type("", "officeDocument").len();
        if mains != 1 {
            self.bad("main", format!("{} officeDocument relationships", mains));
        }
        let Some(main) = self.main_part() else { return };
        let Some(pres) = self.xml.get(&main).cloned() else { return };
        if pres.local != "presentation" || pres.ns.as_deref() != Some(NS_P) {
            self.bad("main", format!("main part root is {}", pres.qname));
        }
        // slide list
        let mut ids = HashSet::new();
        let mut targets = HashSet::new();
        let mut rids = HashSet::new();
        if let Some(l) = pres.child("sldIdLst") {
            for s in l.kids("sldId") {
                match s.attr("id").and_then(|v| v.parse::<u64>().ok()) {
                    Some(v) if (256..2147483648).contains(&v) => {
                        if !ids.insert(v) {
                            self.bad("sldid-dup", format!("slide id {} used twice", v));
                        }
                    }
                    o => self.bad("sldid-range", format!("slide id {:?} {:?}", s.attr("id"), o)),
                }
                let rid = s.attr_ns(NS_R, "id").unwrap_or("").to_string();
                if !rids.insert(rid.clone()) {
                    self.bad("sldid-dup", format!("slide relationship {} listed twice", rid));
                }
                if let Some(p) = self.rel(&main, &rid).map(|r| r.part.clone())
                    && !targets.insert(p.clone()) {
                        self.bad("sldid-dup", format!("slide part {} listed twice", p));
                    }
            }
        }
        for s in pres.desc("section").iter().flat_map(|s| s.desc("sldId")) {
            if !s.attr("id").and_then(|v| v.parse::<u64>().ok()).is_some_and(|v| ids.contains(&v)) {
                self.bad("section-slide", format!("a section holds slide id {:?}, which no slide has", s.attr("id")));
            }
        }
        let slide_rels: Vec<String> = self.rel_by_type(&main, "slide").iter().map(|r| r.part.clone()).collect();
        for p in &slide_rels {
            if !targets.contains(p) {
                self.bad("slide-unlisted", format!("slide part {} is related but not in the slide list", p));
            }
        }
        for n in &names {
            if self.content_type(n).is_some_and(|c| c.ends_with("presentationml.slide+xml")) && !targets.contains(n) {
                self.bad("slide-unlisted", format!("slide part {} is not in the slide list", n));
            }
        }
        // masters and layouts share one id space
        let mut mids = HashSet::new();
        let mut master_layouts: HashSet<String> = HashSet::new();
        let mut mlist = vec![];
        if let Some(l) = pres.child("sldMasterIdLst") {
            for m in l.kids("sldMasterId") {
                mlist.push((m.attr("id").map(|s| s.to_string()), m.attr_ns(NS_R, "id").unwrap_or("").to_string()));
            }
        }
        if mlist.is_empty() {
            self.bad("no-master", "presentation lists no slide master");
        }
        for (id, rid) in mlist {
            if let Some(id) = id {
                match id.parse::<u64>() {
                    Ok(v) if v >= 2147483648 && v <= u32::MAX as u64 => {
                        if !mids.insert(v) {
                            self.bad("master-id-dup", format!("master/layout id {} used twice", v));
                        }
                    }
                    _ => self.bad("master-id-range", format!("master id {}", id)),
                }
            }
            let Some(mp) = self.rel(&main, &rid).map(|r| r.part.clone()) else { continue };
            let Some(mx) = self.xml.get(&mp).cloned() else { continue };
            let mut listed = HashSet::new();
            if let Some(l) = mx.child("sldLayoutIdLst") {
                for x in l.kids("sldLayoutId") {
                    match x.attr("id").and_then(|v| v.parse::<u64>().ok()) {
                        Some(v) if v >= 2147483648 && v <= u32::MAX as u64 => {
                            if !mids.insert(v) {
                                self.bad("master-id-dup", format!("master/layout id {} used twice", v));
                            }
                        }
                        None if x.attr("id").is_none() => {}
                        _ => self.bad("master-id-range", format!("layout id {:?}", x.attr("id"))),
                    }
                    let r = x.attr_ns(NS_R, "id").unwrap_or("").to_string();
                    if let Some(p) = self.rel(&mp, &r).map(|r| r.part.clone()) {
                        if !listed.insert(p.clone()) {
                            self.bad("layout-dup", format!("{} lists layout {} twice", mp, p));
                        }
                        // layout must point back
                        let back: Vec<String> = self.rel_by_type(&p, "slideMaster").iter().map(|r| r.part.clone()).collect();
                        if back != vec![mp.clone()] {
                            self.bad("layout-master", format!("layout {} has slide masters {:?}", p, back));
                        }
                    }
                }
            }
            for r in self.rel_by_type(&mp, "slideLayout").iter().map(|r| r.part.clone()).collect::<Vec<_>>() {
                if !listed.contains(&r) {
                    self.bad("layout-unlisted", format!("layout {} related but not listed by {}", r, mp));
                }
            }
            let th = self.rel_by_type(&mp, "theme").len();
            if th != 1 {
                self.bad("master-theme", format!("{} has {} themes", mp, th));
            }
            master_layouts.extend(listed);
        }
        // slides
        let slides = self.slides();
        for s in &slides {
            let lay: Vec<String> = self.rel_by_type(s, "slideLayout").iter().map(|r| r.part.clone()).collect();
            if lay.len() != 1 {
                self.bad("slide-layout", format!("{} has {} layouts", s, lay.len()));
            } else if !master_layouts.contains(&lay[0]) {
                self.bad("slide-layout", format!("{} uses layout {} which no listed master owns", s, lay[0]));
            }
            let notes: Vec<String> = self.rel_by_type(s, "notesSlide").iter().map(|r| r.part.clone()).collect();
            if notes.len() > 1 {
                self.bad("slide-notes", format!("{} has {} notes slides", s, notes.len()));
            }
            for nn in notes {
                let back: Vec<String> = self.rel_by_type(&nn, "slide").iter().map(|r| r.part.clone()).collect();
                if back != vec![s.clone()] {
                    self.bad("notes-back", format!("notes {} of {} point back to {:?}", nn, s, back));
                }
                let nm = self.rel_by_type(&nn, "notesMaster").len();
                if nm != 1 {
                    self.bad("notes-master", format!("notes {} have {} notes masters", nn, nm));
                }
            }
        }
        // drawing object ids
        for n in &parts {
            if !(n.contains("slides/") || n.contains("notesSlides/") || n.contains("slideLayouts/") || n.contains("slideMasters/")) {
                continue;
            }
            let root = self.xml[n].clone();
            let mut seen = HashSet::new();
            let mut probs: Vec<(&'static str, String)> = vec![];
            root.walk(&mut |e| {
                if e.local == "cNvPr" {
                    match e.attr("id").and_then(|v| v.parse::<u32>().ok()) {
                        Some(v) => {
                            if !seen.insert(v) {
                                probs.push(("shape-id-dup", format!("{}: drawing object id {} used twice", n, v)));
                            }
                        }
                        None => probs.push(("shape-id", format!("{}: drawing object id {:?}", n, e.attr("id")))),
                    }
                }
                if e.local == "tbl" {
                    if let Some(x) = table_ids(e) {
                        probs.push(("table-id-dup", format!("{}: {}", n, x)));
                    }
                    let g = e.child("tblGrid").map(|g| g.kids("gridCol").len()).unwrap_or(0);
                    for (i, row) in e.kids("tr").iter().enumerate() {
                        let c = row.kids("tc").len();
                        if c != g {
                            probs.push(("table-ragged", format!("{}: table row {} has {} cells in a grid of {} columns", n, i, c, g)));
                        }
                    }
                }
            });
            for (c, d) in probs {
                self.bad(c, d);
            }
        }
        // reachability
        let mut reach: BTreeSet<String> = BTreeSet::new();
        let mut todo = vec![String::new()];
        while let Some(s) = todo.pop() {
            for r in self.rels_of(&s) {
                if !r.external && self.parts.contains_key(&r.part) && reach.insert(r.part.clone()) {
                    todo.push(r.part.clone());
                }
            }
        }
        for n in &names {
            if n == "[Content_Types].xml" || n.ends_with(".rels") {
                continue;
            }
            if !reach.contains(n) {
                self.bad("unreachable", format!("part {} is reachable from no relationship", n));
            }
        }
        // schema-level order and lexical checks
        for n in &parts {
            let root = self.xml[n].clone();
            for d in crate::schema::check(&root) {
                self.bad("schema", format!("{}: {}", n, d));
            }
        }
    }

    pub fn first_problems(&self, k: usize) -> String {
        self.problems.iter().take(k).map(|p| format!("[{}] {}", p.code, p.detail)).collect::<Vec<_>>().join("; ")
    }
}

/// Rows and columns of one table have ids of their own.
pub fn table_ids(tbl: &Elem) -> Option<String> {
    ["rowId", "colId"].iter().find_map(|kind| {
        let ids: Vec<&str> = tbl.desc(kind).iter().filter_map(|x| x.attr("val")).collect();
        (ids.iter().collect::<HashSet<_>>().len() != ids.len()).then(|| format!("{} {:?} of one table", kind, ids))
    })
}
