//! What a reader sees on a slide: shapes in z-order with their geometry, text and formatting.
use crate::opc::{NS_A, NS_R};
use crate::xml::Elem;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Run {
    pub text: String,
    /// sz b i u strike baseline color highlight latin
    pub p: BTreeMap<String, String>,
    pub link: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Para {
    pub runs: Vec<Run>,
    pub lvl: i64,
    pub algn: Option<String>,
    pub marl: Option<i64>,
    pub indent: Option<i64>,
    /// "none", "char:x", "auto:type" or "" when unspecified
    pub bullet: String,
}

impl Para {
    pub fn text(&self) -> String {
        self.runs.iter().map(|r| r.text.as_str()).collect()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Shape {
    pub kind: String,
    pub id: u32,
    pub name: String,
    pub descr: Option<String>,
    pub ph: Option<String>,
    pub x: i64,
    pub y: i64,
    pub cx: i64,
    pub cy: i64,
    pub has_xfrm: bool,
    pub rot: i64,
    pub flip_h: bool,
    pub flip_v: bool,
    pub prst: Option<String>,
    pub paras: Vec<Para>,
    pub has_text: bool,
    /// r:embed of the picture
    pub embed: Option<String>,
    /// r:id of the chart
    pub chart: Option<String>,
    pub table: Option<Table>,
    pub elem: Option<Elem>,
}

impl Shape {
    pub fn text(&self) -> String {
        self.paras.iter().map(|p| p.text()).collect::<Vec<_>>().join("\n")
    }
    pub fn e(&self) -> &Elem {
        self.elem.as_ref().unwrap()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Cell {
    pub paras: Vec<Para>,
    pub grid_span: u32,
    pub row_span: u32,
    pub h_merge: bool,
    pub v_merge: bool,
    pub elem: Option<Elem>,
}
impl Cell {
    pub fn text(&self) -> String {
        self.paras.iter().map(|p| p.text()).collect::<Vec<_>>().join("\n")
    }
}

#[derive(Clone, Debug, Default)]
pub struct Table {
    pub cols: Vec<i64>,
    pub heights: Vec<i64>,
    pub rows: Vec<Vec<Cell>>,
}

pub fn boolish(v: Option<&str>) -> bool {
    matches!(v, Some("1") | Some("true") | Some("on"))
}

/// Colour of a fill element child (solidFill) as hex or scheme name.
pub fn color_of(e: &Elem) -> Option<String> {
    let c = e.elems().next()?;
    c.attr("val").map(|v| v.to_string())
}

pub fn runs_of(p: &Elem) -> Para {
    let mut out = Para::default();
    if let Some(pp) = p.child("pPr") {
        out.lvl = pp.attr("lvl").and_then(|v| v.parse().ok()).unwrap_or(0);
        out.algn = pp.attr("algn").map(|s| s.to_string());
        out.marl = pp.attr("marL").and_then(|v| v.parse().ok());
        out.indent = pp.attr("indent").and_then(|v| v.parse().ok());
        for c in pp.elems() {
            match c.local.as_str() {
                "buNone" => out.bullet = "none".into(),
                "buChar" => out.bullet = format!("char:{}", c.attr("char").unwrap_or("")),
                "buAutoNum" => out.bullet = format!("auto:{}", c.attr("type").unwrap_or("")),
                _ => {}
            }
        }
    }
    for r in p.elems() {
        if r.ns.as_deref() != Some(NS_A) {
            continue;
        }
        match r.local.as_str() {
            "r" | "fld" => {
                let mut run = Run { text: r.child("t").map(|t| t.text()).unwrap_or_default(), ..Default::default() };
                if let Some(rp) = r.child("rPr") {
                    for k in ["sz", "b", "i", "u", "strike", "baseline"] {
                        if let Some(v) = rp.attr(k) {
                            run.p.insert(k.into(), v.to_string());
                        }
                    }
                    for c in rp.elems() {
                        match c.local.as_str() {
                            "solidFill" => {
                                run.p.insert("color".into(), color_of(c).unwrap_or_default());
                            }
                            "highlight" => {
                                run.p.insert("highlight".into(), color_of(c).unwrap_or_default());
                            }
                            "latin" => {
                                run.p.insert("latin".into(), c.attr("typeface").unwrap_or("").to_string());
                            }
                            "hlinkClick" => run.link = c.attr_ns(NS_R, "id").map(|s| s.to_string()),
                            _ => {}
                        }
                    }
                }
                out.runs.push(run);
            }
            "br" => out.runs.push(Run { text: "\n".into(), ..Default::default() }),
            _ => {}
        }
    }
    out
}

pub fn paras_of(body: &Elem) -> Vec<Para> {
    body.kids("p").into_iter().map(runs_of).collect()
}

fn num(e: Option<&Elem>, a: &str) -> i64 {
    e.and_then(|e| e.attr(a)).and_then(|v| v.parse().ok()).unwrap_or(0)
}

fn shape_of(e: &Elem) -> Shape {
    let mut s = Shape { kind: e.local.clone(), elem: Some(e.clone()), ..Default::default() };
    if let Some(nv) = e.elems().find(|c| c.local.starts_with("nv")) {
        if let Some(c) = nv.child("cNvPr") {
            s.id = c.attr("id").and_then(|v| v.parse().ok()).unwrap_or(0);
            s.name = c.attr("name").unwrap_or("").to_string();
            s.descr = c.attr("descr").map(|s| s.to_string());
        }
        if let Some(ph) = nv.at("nvPr/ph") {
            s.ph = Some(ph.attr("type").unwrap_or("obj").to_string());
        }
    }
    let sp = e.child("spPr");
    let xf = sp.and_then(|p| p.child("xfrm")).or_else(|| e.child("xfrm"));
    if let Some(x) = xf {
        s.has_xfrm = true;
        s.rot = num(Some(x), "rot");
        s.flip_h = boolish(x.attr("flipH"));
        s.flip_v = boolish(x.attr("flipV"));
        s.x = num(x.child("off"), "x");
        s.y = num(x.child("off"), "y");
        s.cx = num(x.child("ext"), "cx");
        s.cy = num(x.child("ext"), "cy");
    }
    s.prst = sp.and_then(|p| p.child("prstGeom")).and_then(|g| g.attr("prst")).map(|v| v.to_string());
    if let Some(b) = e.child("txBody") {
        s.has_text = true;
        s.paras = paras_of(b);
    }
    if let Some(b) = e.at("blipFill/blip") {
        s.embed = b.attr_ns(NS_R, "embed").map(|v| v.to_string());
    }
    if e.local == "graphicFrame"
        && let Some(gd) = e.at("graphic/graphicData") {
            if let Some(c) = gd.child("chart") {
                s.chart = c.attr_ns(NS_R, "id").map(|v| v.to_string());
                s.kind = "chart".into();
            }
            if let Some(t) = gd.child("tbl") {
                s.kind = "table".into();
                s.table = Some(table_of(t));
            }
        }
    s
}

pub fn table_of(t: &Elem) -> Table {
    let mut o = Table::default();
    if let Some(g) = t.child("tblGrid") {
        o.cols = g.kids("gridCol").iter().map(|c| num(Some(c), "w")).collect();
    }
    for r in t.kids("tr") {
        o.heights.push(num(Some(r), "h"));
        o.rows.push(
            r.kids("tc")
                .into_iter()
                .map(|c| Cell {
                    paras: c.child("txBody").map(paras_of).unwrap_or_default(),
                    grid_span: c.attr("gridSpan").and_then(|v| v.parse().ok()).unwrap_or(1),
                    row_span: c.attr("rowSpan").and_then(|v| v.parse().ok()).unwrap_or(1),
                    h_merge: boolish(c.attr("hMerge")),
                    v_merge: boolish(c.attr("vMerge")),
                    elem: Some(c.clone()),
                })
                .collect(),
        );
    }
    o
}

/// All top-level drawing objects of a slide (groups flattened).
pub fn shapes(slide: &Elem) -> Vec<Shape> {
    let mut v = vec![];
    fn go(t: &Elem, v: &mut Vec<Shape>) {
        for e in t.elems() {
            match e.local.as_str() {
                "sp" | "pic" | "cxnSp" | "graphicFrame" | "contentPart" => v.push(shape_of(e)),
                "grpSp" => go(e, v),
                "AlternateContent" => {
                    for c in e.elems() {
                        go(c, v);
                    }
                }
                _ => {}
            }
        }
    }
    if let Some(t) = slide.at("cSld/spTree") {
        go(t, &mut v);
    }
    v
}

/// All paragraph texts on the slide in document order (tables included).
pub fn all_text(slide: &Elem) -> Vec<String> {
    let mut v = vec![];
    slide.walk(&mut |e| {
        if e.local == "p" && e.ns.as_deref() == Some(NS_A) {
            v.push(runs_of(e).text());
        }
    });
    v
}
