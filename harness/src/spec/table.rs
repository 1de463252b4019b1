use crate::pml;
use crate::rng::Rng;
use crate::text;
use ppt_rs::generator::{CellAlign, CellVAlign, Table, TableBuilder, TableCell, TableRow};

#[derive(Clone, Debug, Default)]
pub struct CellS {
    pub text: String,
    pub bold: bool,
    pub italic: bool,
    pub underline: bool,
    pub color: Option<(String, String)>,
    pub bg: Option<(String, String)>,
    pub size: Option<u32>,
    pub font: Option<String>,
    pub align: Option<u8>,
    pub valign: Option<u8>,
    pub gs: u32,
    pub rs: u32,
    pub h: bool,
    pub v: bool,
}

#[derive(Clone, Debug)]
pub struct TableS {
    pub cols: Vec<u32>,
    pub rows: Vec<(Vec<CellS>, Option<u32>)>,
    pub x: u32,
    pub y: u32,
    pub via: u8,
}

pub fn random(r: &mut Rng) -> TableS {
    let nr = if r.chance(1, 30) { 30 + r.below(40) } else { 1 + r.below(5) };
    let nc = if r.chance(1, 30) { 6 + r.below(12) } else { 1 + r.below(5) };
    let simple = r.chance(1, 4);
    let mut rows: Vec<(Vec<CellS>, Option<u32>)> = (0..nr)
        .map(|_| {
            let cells = (0..nc)
                .map(|_| {
                    let t = match r.below(8) {
                        0 => String::new(),
                        1 => text::multi(r),
                        _ => text::any(r),
                    };
                    if simple {
                        return CellS { text: t, gs: 1, rs: 1, ..Default::default() };
                    }
                    CellS {
                        text: t,
                        bold: r.chance(1, 3),
                        italic: r.chance(1, 3),
                        underline: r.chance(1, 3),
                        color: if r.chance(1, 3) { Some(text::color(r)) } else { None },
                        bg: if r.chance(1, 3) { Some(text::color(r)) } else { None },
                        size: if r.chance(1, 3) { Some(r.u32(1, 400)) } else { None },
                        font: if r.chance(1, 3) { Some(r.pick(&["Arial", "Courier New", "R&D <Sans>", "明朝"]).to_string()) } else { None },
                        align: if r.chance(1, 2) { Some(r.below(4) as u8) } else { None },
                        valign: if r.chance(1, 2) { Some(r.below(3) as u8) } else { None },
                        gs: 1,
                        rs: 1,
                        h: false,
                        v: false,
                    }
                })
                .collect();
            (cells, if !simple && r.chance(1, 2) { Some(r.u32(1, 2_000_000)) } else { None })
        })
        .collect();
    if !simple && r.chance(1, 2) {
        // one merged block
        let both = r.bool();
        let (r0, c0) = (r.below(nr), r.below(nc));
        let (hr, hc) = (1 + r.below(nr - r0), 1 + r.below(nc - c0));
        for a in r0..r0 + hr {
            for b in c0..c0 + hc {
                let c = &mut rows[a].0[b];
                if (a, b) == (r0, c0) {
                    c.gs = hc as u32;
                    c.rs = hr as u32;
                } else if a == r0 {
                    c.h = true;
                } else {
                    // a cell inside the block goes on both ways, and may say so
                    c.v = true;
                    c.h = b > c0 && both;
                }
            }
        }
    }
    TableS { cols: (0..nc).map(|_| r.u32(1, 4_000_000)).collect(), rows, x: super::shape::emu(r), y: super::shape::emu(r), via: if simple { r.below(3) as u8 } else { 2 + r.below(2) as u8 } }
}

impl CellS {
    pub fn build(&self) -> TableCell {
        let mut c = TableCell::new(&self.text);
        if self.bold {
            c = c.bold();
        }
        if self.italic {
            c = c.italic();
        }
        if self.underline {
            c = c.underline();
        }
        if let Some(x) = &self.color {
            c = c.text_color(&x.0);
        }
        if let Some(x) = &self.bg {
            c = c.background_color(&x.0);
        }
        if let Some(x) = self.size {
            c = c.font_size(x);
        }
        if let Some(x) = &self.font {
            c = c.font_family(x);
        }
        match self.align {
            Some(0) => c = c.align_left(),
            Some(1) => c = c.align_center(),
            Some(2) => c = c.align_right(),
            Some(_) => c = c.align(CellAlign::Justify),
            None => {}
        }
        match self.valign {
            Some(0) => c = c.valign_top(),
            Some(1) => c = c.valign(CellVAlign::Middle),
            Some(_) => c = c.valign_bottom(),
            None => {}
        }
        if self.gs > 1 {
            c = if self.gs % 2 == 0 { c.grid_span(self.gs) } else { c.with_col_span(self.gs) };
        }
        if self.rs > 1 {
            c = if self.rs % 2 == 0 { c.row_span(self.rs) } else { c.with_row_span(self.rs) };
        }
        if self.h {
            c = c.h_merge();
        }
        if self.v {
            c = c.v_merge();
        }
        c
    }
}

impl TableS {
    pub fn build(&self) -> Table {
        match self.via {
            0 => Table::from_data(self.rows.iter().map(|r| r.0.iter().map(|c| c.text.as_str()).collect()).collect(), self.cols.clone(), self.x, self.y),
            1 => {
                let mut b = TableBuilder::new(self.cols.clone()).position(self.x, self.y);
                for r in &self.rows {
                    b = b.add_simple_row(r.0.iter().map(|c| c.text.as_str()).collect());
                }
                b.build()
            }
            v => {
                let rows: Vec<TableRow> = self
                    .rows
                    .iter()
                    .map(|(c, h)| {
                        let mut r = TableRow::new(c.iter().map(|c| c.build()).collect());
                        if let Some(h) = h {
                            r = r.with_height(*h);
                        }
                        r
                    })
                    .collect();
                if v == 2 {
                    Table::new(rows, self.cols.clone(), self.x, self.y)
                } else {
                    let mut b = TableBuilder::new(self.cols.clone());
                    for r in rows {
                        b = b.add_row(r);
                    }
                    b.position(self.x, self.y).build()
                }
            }
        }
    }

    pub fn check(&self, g: &pml::Shape) -> Result<(), String> {
        let w = |m: String| Err(format!("{}x{} table: {}", self.rows.len(), self.cols.len(), m));
        let Some(t) = &g.table else { return w(format!("drawn as {}", g.kind)) };
        if (g.x, g.y) != (self.x as i64, self.y as i64) {
            return w(format!("asked for position {:?}, drawn at {:?}", (self.x, self.y), (g.x, g.y)));
        }
        if t.cols != self.cols.iter().map(|c| *c as i64).collect::<Vec<_>>() {
            return w(format!("column widths {:?} instead of {:?}", t.cols, self.cols));
        }
        if g.cx != t.cols.iter().sum::<i64>() || g.cy != t.heights.iter().sum::<i64>() {
            return w(format!("frame {}x{} but the grid is {}x{}", g.cx, g.cy, t.cols.iter().sum::<i64>(), t.heights.iter().sum::<i64>()));
        }
        if t.rows.len() != self.rows.len() {
            return w(format!("{} rows drawn", t.rows.len()));
        }
        for (i, (row, h)) in self.rows.iter().enumerate() {
            if let Some(h) = h
                && t.heights[i] != *h as i64 {
                    return w(format!("row {} height {} instead of {}", i, t.heights[i], h));
                }
            if t.heights[i] <= 0 {
                return w(format!("row {} has height {}", i, t.heights[i]));
            }
            if t.rows[i].len() != row.len() {
                return w(format!("row {} has {} cells", i, t.rows[i].len()));
            }
            for (j, c) in row.iter().enumerate() {
                c.check(&t.rows[i][j]).or_else(|m| w(format!("cell ({}, {}): {}", i, j, m)))?;
            }
        }
        check_spans(t).or_else(w)
    }
}

impl CellS {
    pub fn check(&self, g: &pml::Cell) -> Result<(), String> {
        if (g.h_merge, g.v_merge) != (self.h, self.v) {
            return Err(format!("merge flags {:?} instead of {:?}", (g.h_merge, g.v_merge), (self.h, self.v)));
        }
        if self.h || self.v {
            return Ok(()); // covered by the merged block: not drawn
        }
        if (g.grid_span, g.row_span) != (self.gs, self.rs) {
            return Err(format!("spans {:?} instead of {:?}", (g.grid_span, g.row_span), (self.gs, self.rs)));
        }
        if g.text() != self.text {
            return Err(format!("text {} instead of {}", text::short(&g.text()), text::short(&self.text)));
        }
        let e = g.elem.as_ref().unwrap();
        let bg = e.child("tcPr").and_then(|p| p.child("solidFill")).and_then(pml::color_of);
        if bg.as_deref().map(|c| c.to_uppercase()) != self.bg.as_ref().map(|c| c.1.to_uppercase()) {
            return Err(format!("background {:?} instead of {:?}", bg, self.bg));
        }
        let anchor = e.child("tcPr").and_then(|p| p.attr("anchor"));
        let ok = match self.valign {
            Some(0) => anchor == Some("t"),
            Some(2) => anchor == Some("b"),
            Some(_) => anchor == Some("ctr"),
            None => anchor.is_none() || anchor == Some("ctr"),
        };
        if !ok {
            return Err(format!("vertical anchor {:?} for {:?}", anchor, self.valign));
        }
        if self.text.is_empty() {
            return Ok(());
        }
        for p in &g.paras {
            let a = p.algn.as_deref();
            let ok = match self.align {
                Some(0) => a == Some("l"),
                Some(2) => a == Some("r"),
                Some(3) => a == Some("just"),
                Some(_) => a == Some("ctr"),
                None => a.is_none() || a == Some("ctr"),
            };
            if !ok {
                return Err(format!("alignment {:?} for {:?}", a, self.align));
            }
            for r in &p.runs {
                let f = |k: &str| r.p.get(k).map(|s| s.as_str());
                if pml::boolish(f("b")) != self.bold || pml::boolish(f("i")) != self.italic || f("u").is_some_and(|u| u != "none") != self.underline {
                    return Err(format!("bold/italic/underline drawn {:?}/{:?}/{:?}, asked {}/{}/{}", f("b"), f("i"), f("u"), self.bold, self.italic, self.underline));
                }
                if f("color").map(|c| c.to_uppercase()) != self.color.as_ref().map(|c| c.1.to_uppercase()) {
                    return Err(format!("text colour {:?} instead of {:?}", f("color"), self.color));
                }
                if f("sz").map(|s| s.to_string()) != self.size.map(|s| (s * 100).to_string()) {
                    return Err(format!("font size {:?} instead of {:?} pt", f("sz"), self.size));
                }
                if f("latin") != self.font.as_deref() {
                    return Err(format!("font {:?} instead of {:?}", f("latin"), self.font));
                }
            }
        }
        Ok(())
    }
}

/// The merge attributes describe a tiling: every continuation cell lies in exactly one block.
pub fn check_spans(t: &pml::Table) -> Result<(), String> {
    let nc = t.cols.len();
    for (i, r) in t.rows.iter().enumerate() {
        if r.len() != nc {
            return Err(format!("row {} has {} cells for {} columns", i, r.len(), nc));
        }
    }
    let nr = t.rows.len();
    let mut own = vec![vec![0; nc]; nr];
    for i in 0..nr {
        for j in 0..nc {
            let c = &t.rows[i][j];
            if c.h_merge || c.v_merge {
                continue;
            }
            for (di, row) in own.iter_mut().enumerate().skip(i).take(c.row_span as usize) {
                for (dj, o) in row.iter_mut().enumerate().skip(j).take(c.grid_span as usize) {
                    *o += 1;
                    if (di, dj) != (i, j) && !t.rows[di][dj].h_merge && !t.rows[di][dj].v_merge {
                        return Err(format!("cell ({}, {}) is spanned by ({}, {}) but not marked as merged", di, dj, i, j));
                    }
                }
            }
            if i + c.row_span as usize > nr || j + c.grid_span as usize > nc {
                return Err(format!("cell ({}, {}) spans outside the table", i, j));
            }
        }
    }
    for (i, r) in own.iter().enumerate() {
        for (j, o) in r.iter().enumerate() {
            if *o != 1 {
                return Err(format!("cell ({}, {}) belongs to {} blocks", i, j, o));
            }
        }
    }
    Ok(())
}
