use crate::opc::Pkg;
use crate::rng::Rng;
use crate::text;
use crate::xml::Elem;
use ppt_rs::generator::{Chart, ChartBuilder, ChartSeries, ChartType as T};

pub const TYPES: &[T] = &[
    T::Bar, T::BarHorizontal, T::BarStacked, T::BarStacked100, T::Line, T::LineMarkers, T::LineStacked, T::Pie, T::Doughnut, T::Area, T::AreaStacked, T::AreaStacked100,
    T::Scatter, T::ScatterLines, T::ScatterSmooth, T::Bubble, T::Radar, T::RadarFilled, T::StockHLC, T::StockOHLC, T::Combo,
];

#[derive(Clone, Debug)]
pub struct ChartS {
    pub ty: T,
    pub title: String,
    pub cats: Vec<String>,
    pub series: Vec<(String, Vec<f64>)>,
    pub x: u32,
    pub y: u32,
    pub w: u32,
    pub h: u32,
    pub builder: bool,
}

fn value(r: &mut Rng) -> f64 {
    match r.below(9) {
        0 => 0.0,
        1 => r.range(-1000, 1000) as f64,
        2 => r.f64(),
        3 => r.f64() * 1e12,
        4 => -r.f64() * 1e-6,
        5 => 0.1 + 0.2,
        6 if r.chance(1, 6) => *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
        _ => (r.range(-100_000, 100_000) as f64) / 100.0,
    }
}

pub fn random(r: &mut Rng) -> ChartS {
    let nc = r.below(6);
    // a sheet has more columns than letters
    let ns = if r.chance(1, 60) { 24 + r.below(40) } else { r.below(5) };
    let ragged = r.chance(1, 4);
    ChartS {
        ty: *r.pick(TYPES),
        title: text::any(r),
        cats: (0..nc).map(|_| text::any(r)).collect(),
        series: (0..ns)
            .map(|_| {
                let n = if ragged { r.below(7) } else { nc };
                (text::any(r), (0..n).map(|_| value(r)).collect())
            })
            .collect(),
        x: super::shape::emu(r),
        y: super::shape::emu(r),
        w: super::shape::emu(r),
        h: super::shape::emu(r),
        builder: r.bool(),
    }
}

pub struct Expect {
    pub groups: Vec<(&'static str, std::ops::Range<usize>)>,
    pub grouping: Option<&'static str>,
    pub dir: Option<&'static str>,
    pub style: Option<(&'static str, &'static str)>,
    pub cats: bool,
}

impl ChartS {
    pub fn build(&self) -> Chart {
        if self.builder {
            let mut b = ChartBuilder::new(&self.title, self.ty).categories(self.cats.iter().map(|s| s.as_str()).collect()).position(self.x, self.y).size(self.w, self.h);
            for (n, v) in &self.series {
                b = b.add_series(ChartSeries::new(n, v.clone()));
            }
            b.build()
        } else {
            let mut c = Chart::new(&self.title, self.ty, self.cats.clone(), self.x, self.y, self.w, self.h);
            for (n, v) in &self.series {
                c = c.add_series(ChartSeries::new(n, v.clone()));
            }
            c
        }
    }

    /// What the chart type promises, independent of the library's tables.
    pub fn expect(&self) -> Expect {
        let n = self.series.len();
        let one = |k: &'static str| vec![(k, 0..n)];
        let e = |groups, grouping, dir, style, cats| Expect { groups, grouping, dir, style, cats };
        match self.ty {
            T::Bar => e(one("barChart"), Some("clustered"), Some("col"), None, true),
            T::BarHorizontal => e(one("barChart"), Some("clustered"), Some("bar"), None, true),
            T::BarStacked => e(one("barChart"), Some("stacked"), Some("col"), None, true),
            T::BarStacked100 => e(one("barChart"), Some("percentStacked"), Some("col"), None, true),
            T::Line | T::LineMarkers => e(one("lineChart"), Some("standard"), None, None, true),
            T::LineStacked => e(one("lineChart"), Some("stacked"), None, None, true),
            T::Pie => e(vec![("pieChart", 0..n.min(1))], None, None, None, true),
            T::Doughnut => e(vec![("doughnutChart", 0..n.min(1))], None, None, None, true),
            T::Area => e(one("areaChart"), Some("standard"), None, None, true),
            T::AreaStacked => e(one("areaChart"), Some("stacked"), None, None, true),
            T::AreaStacked100 => e(one("areaChart"), Some("percentStacked"), None, None, true),
            T::Scatter => e(one("scatterChart"), None, None, Some(("scatterStyle", "marker")), false),
            T::ScatterLines => e(one("scatterChart"), None, None, Some(("scatterStyle", "lineMarker")), false),
            T::ScatterSmooth => e(one("scatterChart"), None, None, Some(("scatterStyle", "smoothMarker")), false),
            T::Bubble => e(one("bubbleChart"), None, None, None, false),
            T::Radar => e(one("radarChart"), None, None, Some(("radarStyle", "marker")), true),
            T::RadarFilled => e(one("radarChart"), None, None, Some(("radarStyle", "filled")), true),
            T::StockHLC | T::StockOHLC => e(one("stockChart"), None, None, None, true),
            T::Combo => {
                let mid = (n / 2).max(1).min(n);
                let mut g = vec![("barChart", 0..mid)];
                if n > 1 {
                    g.push(("lineChart", mid..n));
                }
                e(g, None, Some("col"), None, true)
            }
        }
    }

    pub fn check_part(&self, root: &Elem) -> Result<(), String> {
        let w = |m: String| Err(format!("{:?} chart with {} series: {}", self.ty, self.series.len(), m));
        let Some(chart) = root.child("chart") else { return w("no chart element".into()) };
        let title = chart.child("title").map(|t| t.desc("t").iter().map(|x| x.text()).collect::<String>()).unwrap_or_default();
        if title != self.title {
            return w(format!("title {} instead of {}", text::short(&title), text::short(&self.title)));
        }
        let Some(plot) = chart.child("plotArea") else { return w("no plot area".into()) };
        let groups: Vec<&Elem> = plot.elems().filter(|e| e.local.ends_with("Chart")).collect();
        let ex = self.expect();
        if groups.len() != ex.groups.len() {
            return w(format!("plot groups {:?}", groups.iter().map(|g| g.local.clone()).collect::<Vec<_>>()));
        }
        // categories as a reader finds them
        let cat_pts = |e: &Elem| -> Result<Vec<String>, String> { points(e) };
        for (g, (kind, range)) in groups.iter().zip(&ex.groups) {
            if g.local != *kind {
                return w(format!("drawn as {} instead of {}", g.local, kind));
            }
            if self.ty != T::Combo && let Some(want) = ex.grouping {
                let got = g.child("grouping").and_then(|x| x.attr("val")).unwrap_or("");
                if got != want {
                    return w(format!("grouping {:?} instead of {:?}", got, want));
                }
            }
            if *kind == "barChart" && let Some(want) = ex.dir {
                let got = g.child("barDir").and_then(|x| x.attr("val")).unwrap_or("");
                if got != want {
                    return w(format!("bar direction {:?} instead of {:?}", got, want));
                }
            }
            if let Some((el, want)) = ex.style {
                let got = g.child(el).and_then(|x| x.attr("val")).unwrap_or("");
                if got != want {
                    return w(format!("{} {:?} instead of {:?}", el, got, want));
                }
            }
            let sers = g.kids("ser");
            if sers.len() != range.len() {
                return w(format!("{} series drawn in {} instead of {}", sers.len(), kind, range.len()));
            }
            for (k, s) in sers.iter().enumerate() {
                let (name, vals) = &self.series[range.start + k];
                let tx = s.child("tx").or_else(|| s.child("title"));
                let got: String = match tx {
                    Some(t) => {
                        let v = t.desc("v");
                        if v.is_empty() { t.desc("t").iter().map(|x| x.text()).collect() } else { v.iter().map(|x| x.text()).collect() }
                    }
                    None => String::new(),
                };
                if got != *name {
                    return w(format!("series {} is named {} instead of {}", range.start + k, text::short(&got), text::short(name)));
                }
                let val = s.child("val").or_else(|| s.child("yVal"));
                let got = match val {
                    Some(v) => numbers(v)?,
                    None => vec![],
                };
                // what is not a number is not drawn
                let bad = |(a, b): (&Option<String>, &f64)| a.as_ref().map(|a| a.trim().parse().ok()) != b.is_finite().then_some(Some(*b));
                if got.len() != vals.len() || got.iter().zip(vals).any(bad) {
                    return w(format!("series {} has values {:?} instead of {:?}", range.start + k, got, vals));
                }
                if matches!(self.ty, T::Bubble) {
                    let b = s.child("bubbleSize").map(numbers).transpose()?.unwrap_or_default();
                    if b.len() != vals.len() {
                        return w("bubble sizes and values differ in number".into());
                    }
                }
                if let Some(xv) = s.child("xVal") {
                    let xs = points(xv)?;
                    if xs.len() != vals.len() {
                        return w("x and y values differ in number".into());
                    }
                    let xs: Vec<f64> = xs.iter().filter_map(|v| v.parse().ok()).collect();
                    if xs.windows(2).any(|p| p[1] <= p[0]) {
                        return w(format!("x values {:?} do not keep the order of the points", xs));
                    }
                }
                if ex.cats && let Some(c) = s.child("cat") {
                    let got = cat_pts(c)?;
                    if got != self.cats {
                        return w(format!("categories {:?} instead of {:?}", got, self.cats));
                    }
                }
            }
        }
        // no two names, value lists or category lists come from the same cells
        let mut seen: Vec<(String, (usize, usize, usize))> = vec![];
        for (gi, g) in groups.iter().enumerate() {
            for (k, s) in g.kids("ser").into_iter().enumerate() {
                let i = ex.groups[gi].1.start + k;
                for part in ["tx", "val", "yVal", "bubbleSize"] {
                    let Some(e) = s.child(part) else { continue };
                    for f in e.desc("f") {
                        let Some(c) = cells(&f.text()) else { return w(format!("series {}: {} refers to {:?}", i, part, f.text())) };
                        if c.2 >= c.1
                            && let Some((o, _)) = seen.iter().find(|(_, d)| d.0 == c.0 && d.1 <= c.2 && c.1 <= d.2) {
                                return w(format!("series {}: {} refers to {:?} as {} does", i, part, f.text(), o));
                            }
                        let n = if part == "tx" { 1 } else { self.series[i].1.len() };
                        if c.2 + 1 - c.1 != n {
                            return w(format!("series {}: {} refers to {:?} for {} values", i, part, f.text(), n));
                        }
                        if part != "bubbleSize" {
                            seen.push((format!("{} of series {}", part, i), c));
                        }
                    }
                }
            }
        }
        // a sheet without empty columns between
        let mut cols: Vec<usize> = groups.iter().flat_map(|g| g.kids("ser")).flat_map(|s| s.desc("f")).filter_map(|f| cells(&f.text())).map(|c| c.0).collect();
        cols.sort();
        if let Some(p) = cols.windows(2).find(|p| p[1] > p[0] + 1) {
            return w(format!("columns {} and {} of the sheet are used, and none between", p[0], p[1]));
        }
        if ex.cats && !self.series.is_empty() {
            let in_ser = groups.iter().flat_map(|g| g.kids("ser")).any(|s| s.child("cat").is_some());
            let in_axis: Vec<Vec<String>> = root.desc("catAx").iter().filter_map(|a| a.child("strRef").map(points)).collect::<Result<_, _>>()?;
            if !in_ser && !in_axis.contains(&self.cats) {
                return w(format!("categories {:?} are drawn nowhere (axis has {:?})", self.cats, in_axis));
            }
            if in_axis.iter().any(|c| *c != self.cats) {
                return w(format!("category axis {:?} instead of {:?}", in_axis, self.cats));
            }
        }
        Ok(())
    }

    pub fn check_frame(&self, g: &crate::pml::Shape) -> Result<(), String> {
        if g.kind != "chart" {
            return Err(format!("chart drawn as {}", g.kind));
        }
        if (g.x, g.y, g.cx, g.cy) != (self.x as i64, self.y as i64, self.w as i64, self.h as i64) {
            return Err(format!("chart asked at {:?}, drawn at {:?}", (self.x, self.y, self.w, self.h), (g.x, g.y, g.cx, g.cy)));
        }
        Ok(())
    }
}

/// The cached numbers, with the gaps.
fn numbers(e: &Elem) -> Result<Vec<Option<String>>, String> {
    let n: usize = match e.desc("ptCount").first() {
        Some(c) => c.attr("val").and_then(|x| x.parse().ok()).ok_or("ptCount is not a number")?,
        None => 0,
    };
    let mut v = vec![None; n];
    for p in e.desc("pt") {
        let i: usize = p.attr("idx").and_then(|x| x.parse().ok()).unwrap_or(usize::MAX);
        match v.get_mut(i) {
            Some(slot @ None) => *slot = Some(p.child("v").map(|x| x.text()).unwrap_or_default()),
            _ => return Err(format!("<{}> cache: a point has index {} of {}", e.qname, i, n)),
        }
    }
    Ok(v)
}

/// The column a reference names, counted from 0 for A, and its rows.
fn cells(f: &str) -> Option<(usize, usize, usize)> {
    let (_, f) = f.rsplit_once('!')?;
    let one = |c: &str| -> Option<(usize, usize)> {
        let c = c.replace('$', "");
        let at = c.find(|x: char| x.is_ascii_digit())?;
        if at == 0 || !c[..at].bytes().all(|b| b.is_ascii_uppercase()) {
            return None;
        }
        Some((c[..at].bytes().fold(0, |n, b| n * 26 + (b - b'A') as usize + 1) - 1, c[at..].parse().ok()?))
    };
    let (a, b) = f.split_once(':').unwrap_or((f, f));
    let (a, b) = (one(a)?, one(b)?);
    (a.0 == b.0 && b.1 + 1 >= a.1).then_some((a.0, a.1, b.1))
}

/// Cached points ordered by their index; complains about repeated or missing indices.
fn points(e: &Elem) -> Result<Vec<String>, String> {
    let mut v = vec![];
    for (want, p) in e.desc("pt").into_iter().enumerate() {
        let i: i64 = p.attr("idx").and_then(|x| x.parse().ok()).unwrap_or(-1);
        if i != want as i64 {
            return Err(format!("<{}> cache: point number {} has index {}", e.qname, want, i));
        }
        v.push(p.child("v").map(|x| x.text()).unwrap_or_default());
    }
    if let Some(c) = e.desc("ptCount").first()
        && c.attr("val") != Some(v.len().to_string().as_str()) {
            return Err(format!("<{}> cache: ptCount {:?} but {} points", e.qname, c.attr("val"), v.len()));
        }
    Ok(v)
}

/// Every chart part carries a readable embedded workbook.
pub fn check_workbook(k: &Pkg, part: &str) -> Result<(), String> {
    let Some(root) = k.xml.get(part) else { return Err(format!("{} is not XML", part)) };
    let Some(x) = root.child("externalData") else { return Ok(()) };
    let id = x.attr_ns(crate::opc::NS_R, "id").unwrap_or("");
    let Some(r) = k.rel(part, id) else { return Err(format!("{}: externalData {} is undeclared", part, id)) };
    let Some(b) = k.parts.get(&r.part) else { return Err(format!("{}: embedded workbook {} is missing", part, r.part)) };
    let e = crate::zipx::read(b).map_err(|e| format!("{}: embedded workbook is not a package: {}", part, e))?;
    if !e.iter().any(|x| x.name == "xl/workbook.xml") {
        return Err(format!("{}: embedded workbook holds no workbook", part));
    }
    Ok(())
}
