//! Mermaid diagrams in Markdown: what a diagram says must be drawn on the slide.
use super::gen1::sound;
use super::md::{everything, flat};
use crate::pml;
use crate::report::{Ctx, Out, Res, guard};
use crate::rng::Rng;
use crate::text;
use ppt_rs::cli::parse_markdown;
use ppt_rs::generator::create_pptx_with_content;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
enum Rel {
    /// The first of these texts is left of the second
    Left(String, String),
    Above(String, String),
    /// Boxes of nodes do not lie on top of each other
    Apart(Vec<String>),
    /// An arrow drawn under this text points to the right
    Arrow(String, bool),
}

#[derive(Default, Clone, Debug)]
struct Dia {
    src: String,
    kind: &'static str,
    /// Texts that are drawn, as often as they are here
    texts: Vec<String>,
    /// Connectors: from, to, head at the start, head at the end
    edges: Vec<(String, String, bool, bool)>,
    rels: Vec<Rel>,
    /// Texts without a given wording (commits without an id)
    anon: usize,
    heads: bool,
}

impl Dia {
    fn new(kind: &'static str, head: String) -> Dia {
        Dia { kind, src: head + "\n", heads: true, ..Default::default() }
    }
    fn line(&mut self, r: &mut Rng, s: impl AsRef<str>) {
        let i = *r.pick(&["", "  ", "    ", "\t", "  "]);
        self.src.push_str(i);
        self.src.push_str(s.as_ref());
        self.src.push_str(*r.pick(&["\n", "\n", "\n", " \n", "\n\n", "\n    %% a --> b : comment\n"]));
    }
    fn say(&mut self, s: &str) {
        if !s.is_empty() {
            self.texts.push(s.to_string());
        }
    }
    fn ordered(&mut self, v: &[String], f: fn(String, String) -> Rel) {
        for w in v.windows(2) {
            self.rels.push(f(w[0].clone(), w[1].clone()));
        }
    }
}

/// A name of one word
fn id(r: &mut Rng) -> String {
    let t = text::tag(r);
    match r.below(6) {
        0 => format!("{}_{}", t, r.below(10)),
        1 => format!("{}{}", t.to_uppercase(), r.below(100)),
        2 => format!("f{}o", t),
        _ => t,
    }
}
/// Words without characters that have a meaning in diagrams
fn words(r: &mut Rng) -> String {
    let t = text::tag(r);
    let w = *r.pick(&["", "", " end of", " & co", " é日本", " <b> 1 < 2", " 'x'", " don't", " class", " a/b", " title", " 100%", " o", " to", " 🙂", " x.y", " =", " as if"]);
    match r.below(3) {
        0 if !w.is_empty() && !["title", "class"].contains(&w.trim()) => format!("{} {}", w.trim(), t),
        _ => format!("{}{}", t, w),
    }
}
/// A label that may have more in it, where it stands apart from the syntax
fn rich(r: &mut Rng) -> String {
    let w = words(r);
    let x = *r.pick(&["", "", " [x]", " (y)", " {z}", " a --> b", " -- c", " d:e", " |f|", " ->> g", " A & B", " -.-", " ==", "; h"]);
    format!("{}{}", w, x)
}

fn flowchart(r: &mut Rng) -> Dia {
    let dir = *r.pick(&["TD", "TB", "BT", "LR", "RL"]);
    let semi = r.chance(1, 10);
    let mut d = Dia::new("flowchart", format!("{} {}{}", r.pick(&["flowchart", "graph"]), dir, if semi { ";" } else { "" }));
    let n = 1 + r.below(12);
    let mut ids: Vec<String> = vec![];
    while ids.len() < n {
        let mut i = id(r);
        if r.chance(1, 8) {
            i = format!("{}{}{}", i, r.pick(&["-", "."]), text::tag(r));
        }
        if r.chance(1, 8) && !ids.is_empty() {
            i = format!("{}{}", r.pick(&ids), r.pick(&["a", "1", "_", "B"]));
        }
        if !ids.contains(&i) {
            ids.push(i);
        }
    }
    // None: shown by its id
    let mut label: Vec<Option<String>> = vec![];
    let mut told: Vec<bool> = vec![false; n];
    for _ in 0..n {
        label.push(match r.below(5) {
            0 => None,
            1 | 2 => Some(words(r).replace(['|', '"'], "")),
            _ => Some(format!("\u{1}{}", rich(r))), // quoted
        });
    }
    let mut seen: Vec<usize> = vec![];
    let mut owner: Vec<Option<usize>> = vec![None; n];
    let mut open: Vec<usize> = vec![];
    let mut subs: Vec<String> = vec![];
    let mention = |r: &mut Rng, k: usize, told: &mut Vec<bool>, force: bool| -> String {
        let tail = if r.chance(1, 12) { ":::red" } else { "" };
        match &label[k] {
            Some(l) if !told[k] && (force || r.chance(2, 3)) => {
                told[k] = true;
                let (a, b) = *r.pick(&[("[", "]"), ("(", ")"), ("([", "])"), ("{", "}"), ("{{", "}}"), ("((", "))")]);
                let l = match l.strip_prefix('\u{1}') {
                    Some(q) => format!("\"{}\"", q),
                    None => l.clone(),
                };
                format!("{}{}{}{}{}", ids[k], a, l, b, tail)
            }
            _ => format!("{}{}", ids[k], tail),
        }
    };
    for _ in 0..1 + r.below(14) {
        match r.below(12) {
            0 if subs.len() < 5 && open.len() < 3 => {
                let t = words(r);
                let s = match r.below(4) {
                    0 => format!("subgraph {} [{}]", id(r), t),
                    1 => format!("subgraph {}[\"{}\"]", id(r), t),
                    2 => format!("subgraph \"{}\"", t),
                    _ => format!("subgraph {}", t),
                };
                d.line(r, s);
                d.say(&t);
                open.push(subs.len());
                subs.push(t);
                if r.chance(1, 3) {
                    d.line(r, "direction TB");
                }
            }
            1 if !open.is_empty() => {
                open.pop();
                d.line(r, "end");
            }
            2 => {
                let s = *r.pick(&["classDef red fill:#f00,stroke:#333,stroke-width:4px", "linkStyle 0 stroke:#ff3,stroke-width:4px", "%% x --> y", "style zz fill:#bbf,stroke-dasharray: 5 5"]);
                d.line(r, s);
            }
            3 => {
                let k = r.below(n);
                let m = mention(r, k, &mut told, true);
                if !seen.contains(&k) {
                    seen.push(k);
                }
                if owner[k].is_none() {
                    owner[k] = open.last().copied();
                }
                d.line(r, m);
            }
            _ => {
                let mut prev: Vec<usize> = vec![];
                let mut s = String::new();
                let links = 1 + if r.chance(1, 3) { r.below(4) } else { 0 };
                for j in 0..=links {
                    let mut edge = None;
                    if j > 0 {
                        let core = *r.pick(&["-->", "-->", "---", "-.->", "-.-", "==>", "===", "--->", "<-->", "<==>", "-..->"]);
                        let heads = (core.starts_with('<'), core.ends_with('>'));
                        let sp = *r.pick(&[" ", " ", "", "  "]);
                        let mut lab = None;
                        match r.below(4) {
                            0 => {
                                let l = words(r);
                                s.push_str(&format!("{}{}|{}|{}", sp, core, l, sp));
                                lab = Some(l);
                            }
                            1 if core != "-..->" && core != "--->" => {
                                let l = words(r).replace(['=', '.', '-'], "");
                                let l = l.trim().to_string();
                                let (a, b) = match core.trim_start_matches('<') {
                                    "-->" => ("--", "-->"),
                                    "---" => ("--", "---"),
                                    "-.->" => ("-.", ".->"),
                                    "-.-" => ("-.", ".-"),
                                    "==>" => ("==", "==>"),
                                    _ => ("==", "==="),
                                };
                                s.push_str(&format!(" {}{} {} {} ", if heads.0 { "<" } else { "" }, a, l, b));
                                lab = Some(l);
                            }
                            _ => s.push_str(&format!("{}{}{}", sp, core, sp)),
                        }
                        edge = Some((heads, lab));
                    }
                    let mut here = vec![];
                    for g in 0..if r.chance(1, 6) { 2 } else { 1 } {
                        let k = r.below(n);
                        if here.contains(&k) {
                            continue;
                        }
                        if g > 0 {
                            s.push_str(" & ");
                        }
                        s.push_str(&mention(r, k, &mut told, false));
                        if !seen.contains(&k) {
                            seen.push(k);
                        }
                        if owner[k].is_none() {
                            owner[k] = open.last().copied();
                        }
                        here.push(k);
                    }
                    if let Some((h, l)) = edge {
                        for a in &prev {
                            for b in &here {
                                d.edges.push((a.to_string(), b.to_string(), h.0, h.1));
                                if let Some(l) = &l {
                                    d.texts.push(l.clone());
                                }
                            }
                        }
                    }
                    prev = here;
                }
                if semi || r.chance(1, 12) {
                    s.push(';');
                }
                d.line(r, s);
            }
        }
    }
    for _ in 0..open.len() {
        if r.chance(4, 5) {
            d.line(r, "end");
        }
    }
    let show: Vec<String> = (0..n).map(|k| if told[k] { label[k].clone().unwrap().trim_start_matches('\u{1}').to_string() } else { ids[k].clone() }).collect();
    for e in &mut d.edges {
        e.0 = show[e.0.parse::<usize>().unwrap()].clone();
        e.1 = show[e.1.parse::<usize>().unwrap()].clone();
    }
    for k in &seen {
        d.texts.push(show[*k].clone());
    }
    let all: Vec<String> = seen.iter().map(|k| show[*k].clone()).collect();
    if subs.is_empty() {
        match dir {
            "LR" | "RL" => {
                for row in all.chunks(5) {
                    let row = row.to_vec();
                    d.ordered(&row, Rel::Left);
                }
            }
            _ => d.ordered(&all, Rel::Above),
        }
    }
    d.rels.push(Rel::Apart(all));
    for k in &seen {
        if let Some(s) = owner[*k] {
            d.rels.push(Rel::Above(subs[s].clone(), show[*k].clone()));
        }
    }
    for s in subs.windows(2) {
        d.rels.push(Rel::Left(s[0].clone(), s[1].clone()));
    }
    // nodes of an earlier subgraph are left of those of a later one
    for a in &seen {
        for b in &seen {
            if let (Some(x), Some(y)) = (owner[*a], owner[*b])
                && x < y
            {
                d.rels.push(Rel::Left(show[*a].clone(), show[*b].clone()));
            }
        }
    }
    d
}

fn sequence(r: &mut Rng) -> Dia {
    let mut d = Dia::new("sequence", "sequenceDiagram".into());
    let n = if r.chance(1, 12) { 6 + r.below(8) } else { 1 + r.below(6) };
    let mut ids: Vec<String> = vec![];
    while ids.len() < n {
        let mut i = id(r);
        if r.chance(1, 6) {
            i = format!("{}-{}", i, text::tag(r));
        }
        if r.chance(1, 6) {
            i = format!("{} {}", i, text::tag(r));
        }
        if !ids.contains(&i) {
            ids.push(i);
        }
    }
    let mut shown: Vec<(String, String)> = vec![];
    for i in &ids {
        if i.contains(' ') || r.chance(1, 3) {
            continue;
        }
        let k = *r.pick(&["participant", "actor", "participant"]);
        if r.bool() {
            let w = words(r).replace(" as ", " ");
            d.line(r, format!("{} {} as {}", k, i, w));
            shown.push((i.clone(), w));
        } else {
            d.line(r, format!("{} {}", k, i));
            shown.push((i.clone(), i.clone()));
        }
    }
    let mut msgs = vec![];
    for _ in 0..r.below(10) {
        let (a, b) = (r.pick(&ids).clone(), r.pick(&ids).clone());
        for x in [&a, &b] {
            if !shown.iter().any(|s| &s.0 == x) {
                shown.push((x.clone(), x.clone()));
            }
        }
        let t = rich(r);
        let arrow = *r.pick(&["->>", "-->>", "->", "-->", "-)", "--)"]);
        let act = *r.pick(&["", "", "", "+", "-"]);
        let sp = *r.pick(&["", " "]);
        d.line(r, format!("{}{}{}{}{}{}:{}{}", a, sp, arrow, act, sp, b, sp, t));
        let at = |x: &str| shown.iter().position(|s| s.0 == x).unwrap();
        if a != b {
            d.rels.push(Rel::Arrow(t.clone(), at(&a) < at(&b)));
        }
        d.texts.push(t.clone());
        msgs.push(t);
        if r.chance(1, 8) {
            let s = format!("{} {}", r.pick(&["activate", "deactivate"]), a);
            d.line(r, s);
        }
        if r.chance(1, 10) {
            d.line(r, "autonumber");
        }
    }
    d.ordered(&msgs, Rel::Above);
    let names: Vec<String> = shown.iter().map(|s| s.1.clone()).collect();
    for n in &names {
        d.texts.push(n.clone());
        d.texts.push(n.clone());
    }
    d.ordered(&names, Rel::Left);
    d
}

fn pie(r: &mut Rng) -> Dia {
    let mut head = "pie".to_string();
    if r.chance(1, 3) {
        head.push_str(" showData");
    }
    let t = words(r);
    let k = r.below(3);
    if k == 1 {
        head.push_str(&format!(" title {}", t));
    }
    let mut d = Dia::new("pie", head);
    if k == 2 {
        d.line(r, format!("title {}", t));
    }
    let mut v = vec![];
    for _ in 0..1 + r.below(10) {
        let l = rich(r);
        let x = match r.below(4) {
            0 => r.below(1000) as f64,
            1 => 0.0,
            2 => (1 + r.below(100_000)) as f64 / 100.0,
            _ => r.below(10) as f64 + 0.5,
        };
        let sp = *r.pick(&[" : ", ": ", ":", " :"]);
        d.line(r, format!("\"{}\"{}{}", l, sp, x));
        v.push((l, x));
    }
    // nothing is drawn of a pie without a slice
    if k > 0 {
        d.say(&t);
    }
    let sum: f64 = v.iter().map(|x| x.1).sum();
    let labels: Vec<String> = v.iter().map(|(l, x)| format!("{} ({:.1}%)", l, if sum > 0.0 { x / sum * 100.0 } else { 0.0 })).collect();
    d.texts.extend(labels.clone());
    d.ordered(&labels, Rel::Above);
    d
}

fn gantt(r: &mut Rng) -> Dia {
    let mut d = Dia::new("gantt", "gantt".into());
    let mut col = vec![];
    if r.bool() {
        let t = words(r);
        d.line(r, format!("title {}", t));
        d.say(&t);
        col.push(t);
    }
    for s in ["dateFormat YYYY-MM-DD", "dateFormat  HH:mm", "axisFormat %H:%M", "excludes weekends", "tickInterval 1day"] {
        if r.chance(1, 3) {
            d.line(r, s);
        }
    }
    for _ in 0..r.below(12) {
        if r.chance(1, 4) {
            let t = words(r);
            d.line(r, format!("section {}", t));
            d.say(&t);
            col.push(t);
        } else {
            let t = words(r);
            // a task whose name begins like a keyword
            let t = if r.chance(1, 6) { format!("{}{}", r.pick(&["sectional ", "titles ", "dateFormatter "]), t) } else { t };
            let m = *r.pick(&["a1, 2014-01-01, 30d", "done, crit, des1, 2014-01-06,2014-01-08", "after a1, 20d", "12d", "milestone, m1, 17:49, 2m"]);
            let sp = *r.pick(&[" :", ": ", " : "]);
            d.line(r, format!("{}{}{}", t, sp, m));
            d.say(&t);
            col.push(t);
        }
    }
    d.ordered(&col, Rel::Above);
    d
}

fn journey(r: &mut Rng) -> Dia {
    let mut d = Dia::new("journey", "journey".into());
    let t = words(r);
    d.line(r, format!("title {}", t));
    d.say(&t);
    let mut secs: Vec<String> = vec![];
    let mut col: Vec<String> = vec![];
    let mut prev: Vec<String> = vec![];
    for _ in 0..1 + r.below(12) {
        if r.chance(1, 4) {
            let s = words(r);
            d.line(r, format!("section {}", s));
            d.say(&s);
            d.rels.push(Rel::Above(t.clone(), s.clone()));
            secs.push(s.clone());
            let c = std::mem::replace(&mut col, vec![s]);
            d.ordered(&c, Rel::Above);
            if let (Some(a), Some(b)) = (prev.last(), c.last())
                && c.len() > 1
            {
                d.rels.push(Rel::Left(a.clone(), b.clone()));
            }
            prev = c;
        } else {
            let s = words(r);
            let n = 1 + r.below(5);
            let a = *r.pick(&["", ": Me", ": Me, Cat"]);
            d.line(r, format!("{}: {}{}", s, n, a));
            let s = format!("{} ({})", s, n);
            d.say(&s);
            col.push(s);
        }
    }
    d.ordered(&col, Rel::Above);
    d.ordered(&secs, Rel::Left);
    d
}

fn class(r: &mut Rng) -> Dia {
    let mut d = Dia::new("class", "classDiagram".into());
    let n = if r.chance(1, 12) { 7 + r.below(8) } else { 1 + r.below(7) };
    let mut names: Vec<String> = vec![];
    while names.len() < n {
        let i = id(r);
        if !names.contains(&i) {
            names.push(i);
        }
    }
    let mut known: Vec<usize> = vec![];
    let mut attrs: Vec<Vec<String>> = vec![vec![]; n];
    let mut meths: Vec<Vec<String>> = vec![vec![]; n];
    let member = |r: &mut Rng, m: bool| {
        let v = *r.pick(&["+", "-", "#", "~", ""]);
        let t = text::tag(r);
        if m { format!("{}{}({}) {}", v, t, r.pick(&["", "int a, String b"]), r.pick(&["bool", "void", "List~int~"])) } else { format!("{}{} {}", v, r.pick(&["int", "String", "List~int~"]), t) }
    };
    for _ in 0..1 + r.below(14) {
        let k = r.below(n);
        match r.below(6) {
            0 => {
                let s = format!("class {}", names[k]);
                d.line(r, s);
                known.push(k);
            }
            1 => {
                let s = format!("class {}{}{{", names[k], r.pick(&["", " "]));
                d.line(r, s);
                known.push(k);
                for _ in 0..r.below(5) {
                    let m = r.bool();
                    let s = member(r, m);
                    d.line(r, &s);
                    if m { meths[k].push(s) } else { attrs[k].push(s) }
                }
                d.line(r, "}");
            }
            2 => {
                let m = r.bool();
                let s = member(r, m);
                d.line(r, format!("{} : {}", names[k], s));
                known.push(k);
                if m { meths[k].push(s) } else { attrs[k].push(s) }
            }
            _ => {
                let j = r.below(n);
                let (a, h1, h2) = *r.pick(&[("<|--", true, false), ("--|>", false, true), ("*--", true, false), ("--*", false, true), ("o--", true, false), ("--o", false, true), ("-->", false, true), ("<--", true, false), ("--", false, false), ("..>", false, true), ("..|>", false, true), ("..", false, false), ("<|..", true, false), ("<-->", true, true)]);
                let (c1, c2) = if r.chance(1, 4) { (" \"1\"", "\"0..*\" ") } else { ("", "") };
                let sp = if c1.is_empty() && !a.contains('o') && r.chance(1, 4) { "" } else { " " };
                let mut s = format!("{}{}{}{}{}{}{}", names[k], c1, sp, a, sp, c2, names[j]);
                if r.bool() {
                    let l = words(r);
                    s.push_str(&format!("{}{}", r.pick(&[" : ", ": "]), l));
                    d.texts.push(l);
                }
                d.line(r, s);
                known.push(k);
                known.push(j);
                d.edges.push((names[k].clone(), names[j].clone(), h1, h2));
            }
        }
    }
    let mut all = vec![];
    for k in 0..n {
        if known.contains(&k) {
            d.texts.push(names[k].clone());
            all.push(names[k].clone());
            let (a, m) = (attrs[k].join("\n"), meths[k].join("\n"));
            d.say(&a);
            d.say(&m);
            for x in [&a, &m] {
                if !x.is_empty() {
                    d.rels.push(Rel::Above(names[k].clone(), x.clone()));
                }
            }
        }
    }
    d.rels.push(Rel::Apart(all));
    d
}

fn state(r: &mut Rng) -> Dia {
    let mut d = Dia::new("state", r.pick(&["stateDiagram-v2", "stateDiagram"]).to_string());
    let n = if r.chance(1, 12) { 8 + r.below(8) } else { 1 + r.below(8) };
    let names: Vec<String> = (0..n).map(|_| id(r)).collect();
    if r.chance(1, 4) {
        d.line(r, "direction LR");
    }
    let mut all: Vec<String> = vec![];
    for _ in 0..1 + r.below(14) {
        let a = if r.chance(1, 5) { "[*]".to_string() } else { r.pick(&names).clone() };
        let b = if r.chance(1, 5) { "[*]".to_string() } else { r.pick(&names).clone() };
        let sp = *r.pick(&[" ", ""]);
        let mut s = format!("{}{}-->{}{}", a, sp, sp, b);
        if r.bool() {
            let l = words(r);
            s.push_str(&format!("{}{}", r.pick(&[" : ", ": ", ":"]), l));
            d.texts.push(l);
        }
        d.line(r, s);
        let a = if a == "[*]" { "Start".to_string() } else { a };
        let b = if b == "[*]" { "End".to_string() } else { b };
        for x in [&a, &b] {
            if !all.contains(x) {
                all.push(x.clone());
            }
        }
        d.edges.push((a, b, false, true));
    }
    d.texts.extend(all.clone());
    // two diagrams of a slide both have a start
    all.retain(|s| s != "Start" && s != "End");
    d.rels.push(Rel::Apart(all));
    d
}

fn er(r: &mut Rng) -> Dia {
    let mut d = Dia::new("er", "erDiagram".into());
    let n = if r.chance(1, 12) { 8 + r.below(8) } else { 1 + r.below(8) };
    let mut names: Vec<String> = vec![];
    while names.len() < n {
        let mut i = id(r);
        if r.chance(1, 4) {
            i = format!("{}-{}", i, text::tag(r));
        }
        if !names.contains(&i) {
            names.push(i);
        }
    }
    let mut known = vec![];
    let mut attrs: Vec<Vec<String>> = vec![vec![]; n];
    for _ in 0..1 + r.below(12) {
        let k = r.below(n);
        if r.chance(1, 3) {
            let s = format!("{} {{", names[k]);
            d.line(r, s);
            for _ in 0..1 + r.below(4) {
                let s = format!("{} {}{}", r.pick(&["string", "int", "varchar(5)"]), text::tag(r), r.pick(&["", " PK", " FK", " \"a -- note\"", " \"k ||--o{ q : x\""]));
                d.line(r, &s);
                attrs[k].push(s);
            }
            d.line(r, "}");
            known.push(k);
        } else {
            let j = r.below(n);
            let (a, b) = (*r.pick(&["|o", "||", "}o", "}|"]), *r.pick(&["o|", "||", "o{", "|{"]));
            let l = words(r);
            let q = if l.contains(['\'', '"']) || l.contains(' ') || r.bool() { "\"" } else { "" };
            let s = format!("{} {}{}{} {} : {}{}{}", names[k], a, r.pick(&["--", ".."]), b, names[j], q, l.replace('\'', ""), q);
            d.line(r, s);
            d.texts.push(l.replace('\'', ""));
            known.push(k);
            known.push(j);
            d.edges.push((names[k].clone(), names[j].clone(), false, true));
        }
    }
    d.heads = false;
    let mut all = vec![];
    for k in 0..n {
        if known.contains(&k) {
            d.texts.push(names[k].clone());
            all.push(names[k].clone());
            let a = attrs[k].join("\n");
            d.say(&a);
            if !a.is_empty() {
                d.rels.push(Rel::Above(names[k].clone(), a));
            }
        }
    }
    d.rels.push(Rel::Apart(all));
    d
}

fn mindmap(r: &mut Rng) -> Dia {
    let mut d = Dia::new("mindmap", "mindmap".into());
    let step = 2 + r.below(3);
    let node = |r: &mut Rng| {
        let w = words(r);
        let s = match r.below(7) {
            0 => format!("{}[{}]", id(r), w),
            1 => format!("{}({})", id(r), w),
            2 => format!("{}(({}))", id(r), w),
            3 => format!("{}{{{{{}}}}}", id(r), w),
            4 => format!("(({}))", w),
            _ => w.clone(),
        };
        (s, w)
    };
    let mut depth = 1;
    let (s, w) = node(r);
    d.src.push_str(&format!("{}{}\n", " ".repeat(step), s));
    d.texts.push(w);
    for _ in 0..r.below(14) {
        depth = 2 + r.below(depth.min(4));
        let (s, w) = node(r);
        d.src.push_str(&format!("{}{}\n", " ".repeat(step * depth), s));
        d.texts.push(w);
        if r.chance(1, 10) {
            d.src.push_str("  %% a comment\n\n");
        }
    }
    d
}

fn timeline(r: &mut Rng) -> Dia {
    let mut d = Dia::new("timeline", "timeline".into());
    if r.bool() {
        let t = words(r);
        d.line(r, format!("title {}", t));
        d.say(&t);
    }
    let mut dates = vec![];
    for _ in 0..r.below(8) {
        let t = words(r);
        if r.chance(1, 5) {
            d.line(r, format!("section {}", t));
            d.say(&t);
            dates.push(t);
            continue;
        }
        let mut items = vec![];
        let mut s = t.clone();
        for k in 0..1 + r.below(4) {
            let w = words(r);
            s.push_str(" : ");
            s.push_str(&w);
            items.push(w);
            if k == 0 && r.chance(1, 3) {
                d.line(r, &s);
                s = String::new();
                for _ in 0..r.below(3) {
                    let w = words(r);
                    d.line(r, format!("         : {}", w));
                    items.push(w);
                }
                break;
            }
        }
        if !s.is_empty() {
            d.line(r, s);
        }
        d.say(&t);
        dates.push(t);
        let i = items.join("\n");
        d.rels.push(Rel::Above(dates.last().unwrap().clone(), i.clone()));
        d.texts.push(i);
    }
    d.ordered(&dates, Rel::Left);
    d
}

fn quadrant(r: &mut Rng) -> Dia {
    let mut d = Dia::new("quadrant", "quadrantChart".into());
    if r.bool() {
        let t = words(r);
        d.line(r, format!("title {}", t));
        d.say(&t);
    }
    for (k, f) in [("x-axis", Rel::Left as fn(String, String) -> Rel), ("y-axis", |a, b| Rel::Above(b, a))] {
        if r.bool() {
            let (a, b) = (words(r), words(r));
            if r.chance(1, 4) {
                d.line(r, format!("{} {}", k, a));
                d.say(&a);
            } else {
                d.line(r, format!("{} {} --> {}", k, a, b));
                d.say(&a);
                d.say(&b);
                d.rels.push(f(a, b));
            }
        }
    }
    let mut quad = vec![];
    for k in 1..5 {
        if r.chance(2, 3) {
            let t = words(r);
            d.line(r, format!("quadrant-{} {}", k, t));
            d.say(&t);
            quad.push((k, t));
        }
    }
    for (a, s) in &quad {
        for (b, t) in &quad {
            let right = |k: i32| k == 1 || k == 4;
            let top = |k: i32| k < 3;
            if !right(*a) && right(*b) {
                d.rels.push(Rel::Left(s.clone(), t.clone()));
            }
            if top(*a) && !top(*b) {
                d.rels.push(Rel::Above(s.clone(), t.clone()));
            }
        }
    }
    let mut pts: Vec<(String, u32, u32)> = vec![];
    for _ in 0..1 + r.below(7) {
        let (x, y) = (r.u32(0, 100), r.u32(0, 100));
        let t = words(r);
        let s = format!("{}: [{}, {}]", t, x as f64 / 100.0, y as f64 / 100.0);
        d.line(r, s);
        d.texts.push(t.clone());
        pts.push((t, x, y));
    }
    for (t, x, y) in &pts {
        for (u, v, w) in &pts {
            if *x + 6 < *v {
                d.rels.push(Rel::Left(t.clone(), u.clone()));
            }
            if *y > *w + 6 {
                d.rels.push(Rel::Above(t.clone(), u.clone()));
            }
        }
        // points of the left half begin left of the quadrants on the right
        for (k, q) in &quad {
            if (*k == 1 || *k == 4) && *x < 40 {
                d.rels.push(Rel::Left(t.clone(), q.clone()));
            }
            if (*k == 2 || *k == 3) && *x > 6 {
                d.rels.push(Rel::Left(q.clone(), t.clone()));
            }
            if *k > 2 && *y > 56 {
                d.rels.push(Rel::Above(t.clone(), q.clone()));
            }
            if *k < 3 && *y < 94 {
                d.rels.push(Rel::Above(q.clone(), t.clone()));
            }
        }
    }
    d
}

fn git(r: &mut Rng) -> Dia {
    let mut d = Dia::new("git", r.pick(&["gitGraph", "gitGraph:"]).to_string());
    let mut branches = vec!["main".to_string()];
    let mut cur = 0;
    let mut order: Vec<String> = vec![];
    // Named commits by branch
    let mut by: Vec<(usize, String)> = vec![];
    for _ in 0..1 + r.below(14) {
        match r.below(8) {
            0 => {
                let mut b = id(r);
                if r.chance(1, 3) {
                    b = format!("feature/{}", b);
                }
                d.line(r, format!("branch {}", b));
                cur = branches.len();
                branches.push(b);
            }
            1 if branches.len() > 1 => {
                cur = r.below(branches.len());
                let s = format!("{} {}", r.pick(&["checkout", "switch"]), branches[cur]);
                d.line(r, s);
            }
            2 if branches.len() > 1 => {
                let o = (cur + 1) % branches.len();
                let s = format!("merge {}", branches[o]);
                d.line(r, s);
                d.texts.push(format!("Merge {}", branches[o]));
            }
            3 => {
                d.line(r, "commit");
                d.anon += 1;
            }
            _ => {
                let t = words(r);
                let x = *r.pick(&["", "", " tag: \"v1\"", " type: HIGHLIGHT"]);
                let y = *r.pick(&["", "", " type: REVERSE"]);
                d.line(r, format!("commit{} id: \"{}\"{}", y, t, x));
                d.texts.push(t.clone());
                order.push(t.clone());
                by.push((cur, t));
            }
        }
    }
    d.ordered(&order, Rel::Left);
    for (a, s) in &by {
        for (b, t) in &by {
            if a < b {
                d.rels.push(Rel::Above(s.clone(), t.clone()));
            }
        }
    }
    if order.is_empty() && d.anon == 0 && !d.texts.iter().any(|t| t.starts_with("Merge ")) {
        // a picture without commits says so
        d.anon = 1;
    }
    d.texts.extend(branches.clone());
    d.ordered(&branches[1..], Rel::Above);
    d
}

const KINDS: [fn(&mut Rng) -> Dia; 12] = [flowchart, sequence, pie, gantt, class, state, er, mindmap, timeline, journey, quadrant, git];

fn fenced(r: &mut Rng, src: &str) -> String {
    let f = *r.pick(&["```", "```", "````", "~~~"]);
    let lead = *r.pick(&["", "", "", "\n", "%% a comment\n", "\n  %% x --> y\n\n"]);
    format!("\n{}mermaid\n{}{}{}\n", f, lead, src, f)
}

fn tidy(s: &str) -> String {
    s.replace(" : ", "\n").lines().map(|l| l.split_whitespace().collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join("\n")
}

fn check(want: &[Dia], extra: &[String], shapes: &[pml::Shape], slide: &crate::xml::Elem) -> Result<usize, String> {
    let mut have: BTreeMap<String, Vec<&pml::Shape>> = BTreeMap::new();
    for s in shapes.iter().filter(|s| s.kind == "sp") {
        let t = tidy(&s.text());
        if !t.trim().is_empty() {
            have.entry(t).or_default().push(s);
        }
    }
    let mut left: BTreeMap<String, i64> = have.iter().map(|(k, v)| (k.clone(), v.len() as i64)).collect();
    for t in want.iter().flat_map(|d| &d.texts).chain(extra) {
        let t = tidy(t);
        if t.is_empty() {
            continue;
        }
        let n = left.entry(t.clone()).or_default();
        *n -= 1;
        if *n < 0 {
            return Err(format!("{:?} is not on the slide, or not often enough: {:?}", t, have.keys().collect::<Vec<_>>()));
        }
    }
    let anon: usize = want.iter().map(|d| d.anon).sum();
    let rest: i64 = left.values().sum();
    if rest != anon as i64 {
        return Err(format!("{} texts that the diagrams do not have: {:?}", rest, left.iter().filter(|x| *x.1 > 0).collect::<Vec<_>>()));
    }
    let at = |t: &String| have.get(&tidy(t)).map(|v| v[0]);
    let mut n = 0;
    for rel in want.iter().flat_map(|d| &d.rels) {
        n += 1;
        let bad = match rel {
            Rel::Left(a, b) => matches!((at(a), at(b)), (Some(x), Some(y)) if x.x >= y.x),
            Rel::Above(a, b) => matches!((at(a), at(b)), (Some(x), Some(y)) if x.y >= y.y),
            Rel::Apart(v) => {
                let s: Vec<_> = v.iter().filter_map(at).collect();
                s.iter().enumerate().any(|(i, a)| s[..i].iter().any(|b| a.x < b.x + b.cx && b.x < a.x + a.cx && a.y < b.y + b.cy && b.y < a.y + a.cy))
            }
            Rel::Arrow(t, right) => {
                let s = at(t).ok_or("no text")?;
                let p = if *right { "rightArrow" } else { "leftArrow" };
                !shapes.iter().any(|a| a.prst.as_deref() == Some(p) && a.x == s.x && a.cx == s.cx && a.y > s.y && a.y < s.y + 2 * s.cy)
            }
        };
        if bad {
            return Err(format!("not so in the drawing: {:?}", rel));
        }
    }
    // connectors
    let by_id: BTreeMap<String, String> = shapes.iter().map(|s| (s.id.to_string(), tidy(&s.text()))).collect();
    let mut edges = vec![];
    for c in slide.desc("cxnSp") {
        let end = |n: &str| -> Result<String, String> {
            let v = c.desc(n);
            let id = v.first().and_then(|e| e.attr("id")).ok_or_else(|| format!("a connector without {}", n))?;
            by_id.get(id).cloned().ok_or_else(|| format!("a connector to shape {}, which does not exist", id))
        };
        let head = |n: &str| c.desc(n).first().and_then(|e| e.attr("type")).is_some_and(|t| t != "none");
        edges.push((end("stCxn")?, end("endCxn")?, head("headEnd"), head("tailEnd")));
    }
    let heads: Vec<bool> = want.iter().flat_map(|d| d.edges.iter().map(|_| d.heads)).collect();
    let mut exp: Vec<(String, String, bool, bool)> = want.iter().flat_map(|d| d.edges.iter().map(|e| (tidy(&e.0), tidy(&e.1), e.2, e.3))).collect();
    if edges.len() == exp.len() {
        for (k, e) in edges.iter_mut().enumerate() {
            if !heads[k] {
                (e.2, e.3) = (exp[k].2, exp[k].3);
            }
        }
    }
    let shown = (edges.clone(), exp.clone());
    edges.sort();
    exp.sort();
    if edges != exp {
        return Err(format!("connectors {:?} instead of {:?}", shown.0, shown.1));
    }
    Ok(n + edges.len())
}

/// A document of diagrams, for checks that only need one.
pub fn document(r: &mut Rng) -> String {
    let mut md = format!("# {}\n", text::tag(r));
    for _ in 0..1 + r.below(3) {
        let k = r.below(12);
        let d = KINDS[k](r);
        md.push_str(&fenced(r, &d.src));
    }
    md
}

pub fn c19(ctx: &Ctx) {
    ctx.rule("Distinct by the kinds of the diagrams of a document and its text.");
    ctx.cases("diagrams", ctx.n(6000, 200_000), |r: &mut Rng, i| -> Res {
        let slides = 1 + r.below(2);
        let mut md = String::new();
        let mut want: Vec<(Vec<Dia>, Vec<String>)> = vec![];
        for s in 0..slides {
            let t = text::tag(r);
            let mut extra = vec![t.clone()];
            md.push_str(&format!("{}# {}\n", if s > 0 { "\n" } else { "" }, t));
            let mut ds = vec![];
            for _ in 0..1 + r.below(2) {
                let k = if ds.is_empty() && s == 0 { i as usize % 12 } else { r.below(12) };
                let d = KINDS[k](r);
                md.push_str(&fenced(r, &d.src));
                ds.push(d);
            }
            if r.chance(1, 4) {
                let b = text::tag(r);
                md.push_str(&format!("\n- {}\n", b));
                extra.push(b);
            }
            want.push((ds, extra));
        }
        if r.chance(1, 10) {
            md = md.replace('\n', "\r\n");
        }
        let show = |e: String| format!("{} — document:\n{}", e, md);
        let run = || -> Result<_, String> { guard(|| parse_markdown(&md)).map_err(|(m, l)| show(format!("panic: {} at {}", m, l)))?.map_err(|e| show(e.to_string())) };
        let (a, b) = (run()?, run()?);
        if a.iter().map(everything).ne(b.iter().map(everything)) {
            return Err(show("two runs differ".into()));
        }
        let b = guard(|| create_pptx_with_content("Deck", a)).map_err(|(m, l)| show(format!("panic: {} at {}", m, l)))?.map_err(|e| show(e.to_string()))?;
        let k = sound(&b).map_err(show)?;
        let parts = k.slides();
        if parts.len() != want.len() {
            return Err(show(format!("{} slides instead of {}", parts.len(), want.len())));
        }
        for ((ds, extra), p) in want.iter().zip(&parts) {
            let sl = &k.xml[p];
            let n = check(ds, extra, &pml::shapes(sl), sl).map_err(show)?;
            for d in ds {
                ctx.count(d.kind, 1);
            }
            ctx.count("relations checked", n as u64);
        }
        Ok(Out::sig(format!("{:?}{}", want.iter().flat_map(|w| &w.0).map(|d| d.kind).collect::<Vec<_>>(), md)).with_sample(md.chars().take(400).collect::<String>()))
    });
    // damaged diagrams: a slide all the same
    ctx.cases("damaged", ctx.n(6000, 300_000), |r: &mut Rng, _| -> Res {
        let mut s: Vec<char> = KINDS[r.below(12)](r).src.chars().collect();
        let other: Vec<char> = KINDS[r.below(12)](r).src.chars().collect();
        for _ in 0..r.below(12) {
            if s.is_empty() {
                break;
            }
            let p = r.below(s.len());
            match r.below(5) {
                0 => {
                    s.remove(p);
                }
                1 => {
                    let t = *r.pick(&["[", "]", "(", ")", "{", "}", "((", "|", "\"", "-->", "--", ":", ";", "\n", "end\n", "subgraph x\n", "é", "日", "🙂", "\u{301}", "&", ",", "id:", "branch ", "commit ", "9999999999999999999", "-1", "NaN", "inf", "1e400", "<", "%%", "[*]", "||", "o{", "\t"]);
                    for (i, c) in t.chars().enumerate() {
                        s.insert(p + i, c);
                    }
                }
                2 => {
                    let e = (p + r.below(20)).min(s.len());
                    s.drain(p..e);
                }
                3 => {
                    let q = r.below(other.len());
                    let e = (q + r.below(60)).min(other.len());
                    let ins = other[q..e].to_vec();
                    s.splice(p..p, ins);
                }
                _ => s.truncate(p),
            }
        }
        let src: String = s.into_iter().collect();
        let md = format!("# T\n\n``````mermaid\n{}\n``````\n\n``````mermaid\n{}\n``````\n", src, src);
        let show = |e: String| format!("{} — document:\n{}", e, md);
        let run = || -> Result<_, String> { guard(|| parse_markdown(&md)).map_err(|(m, l)| show(format!("panic: {} at {}", m, l)))?.map_err(|e| show(e.to_string())) };
        let (a, b) = (run()?, run()?);
        if a.iter().map(everything).ne(b.iter().map(everything)) {
            return Err(show("two runs differ".into()));
        }
        let b = guard(|| create_pptx_with_content("Deck", a)).map_err(|(m, l)| show(format!("panic: {} at {}", m, l)))?.map_err(|e| show(e.to_string()))?;
        sound(&b).map_err(show)?;
        Ok(Out::sig(src))
    });
    // large diagrams: every item is drawn
    ctx.cases("large", 12, |r: &mut Rng, i| -> Res {
        let n = if i == 0 || i == 6 { 3000 } else { 6000 };
        let names: Vec<String> = (0..n).map(|k| format!("n{}{}", k, text::tag(r))).collect();
        let (head, mk): (&str, fn(&[String], usize) -> String) = match i {
            0 => ("flowchart TD", |v, k| format!("{} --> {}", v[k], v[(k * 7 + 1) % v.len()])),
            1 => ("sequenceDiagram", |v, k| format!("{}->>{}: x", v[k], v[(k + 1) % v.len()])),
            2 => ("pie", |v, k| format!("\"{}\" : {}", v[k], k)),
            3 => ("gantt", |v, k| format!("{} :a, 3d", v[k])),
            4 => ("classDiagram", |v, k| format!("class {}", v[k])),
            5 => ("stateDiagram", |v, k| format!("{} --> {}", v[k], v[(k + 1) % v.len()])),
            6 => ("erDiagram", |v, k| format!("{} ||--o{{ {} : x", v[k], v[(k + 1) % v.len()])),
            7 => ("mindmap\n  root", |v, k| format!("    {}", v[k])),
            8 => ("timeline", |v, k| format!("{} : x", v[k])),
            9 => ("journey", |v, k| format!("section {}", v[k])),
            10 => ("quadrantChart", |v, k| format!("{}: [0.5, 0.5]", v[k])),
            _ => ("gitGraph", |v, k| format!("commit id: \"{}\"", v[k])),
        };
        let body: String = (0..n).map(|k| format!("  {}\n", mk(&names, k))).collect();
        let md = format!("# T\n\n```mermaid\n{}\n{}```\n", head, body);
        let show = |e: String| format!("{} — {} with {} items", e, head, n);
        let a = guard(|| parse_markdown(&md)).map_err(|(m, l)| show(format!("panic: {} at {}", m, l)))?.map_err(|e| show(e.to_string()))?;
        let all: std::collections::HashSet<String> = a.iter().flat_map(|s| s.shapes.iter().filter_map(|s| s.text.clone())).map(|t| flat(t.split(" (").next().unwrap())).collect();
        if let Some(m) = names.iter().find(|m| !all.contains(*m)) {
            return Err(show(format!("{} is not drawn", m)));
        }
        ctx.count("items of large diagrams", n as u64);
        Ok(Out::sig(head))
    });
}
