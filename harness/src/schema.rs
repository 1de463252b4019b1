//! Partial ECMA-376 schema oracle: child order, unknown children, attribute lexical forms
//! and cross references inside chart parts. Only rules that are certain are listed.
use crate::opc::{NS_A, NS_C, NS_P};
use crate::xml::Elem;
use std::collections::HashSet;

const FILL: &str = "noFill|solidFill|gradFill|blipFill|pattFill|grpFill";
const EFFECT: &str = "effectLst|effectDag";

fn order(ns: &str, local: &str, parent: &str) -> Option<Vec<String>> {
    let f = |s: &str| -> Option<Vec<String>> {
        Some(s.split_whitespace().map(|x| x.replace("FILL", FILL).replace("EFFECT", EFFECT)).collect())
    };
    if ns == NS_P {
        return match local {
            "sld" => f("cSld clrMapOvr transition timing extLst"),
            "sldLayout" => f("cSld clrMapOvr transition timing hf extLst"),
            "sldMaster" => f("cSld clrMap sldLayoutIdLst transition timing hf txStyles extLst"),
            "notes" => f("cSld clrMapOvr extLst"),
            "notesMaster" => f("cSld clrMap hf notesStyle extLst"),
            "handoutMaster" => f("cSld clrMap hf extLst"),
            "cSld" => f("bg spTree custDataLst controls extLst"),
            "spTree" | "grpSp" => f("nvGrpSpPr grpSpPr *sp|grpSp|graphicFrame|cxnSp|pic|contentPart|AlternateContent extLst"),
            "sp" => f("nvSpPr spPr style txBody extLst"),
            "nvSpPr" => f("cNvPr cNvSpPr nvPr"),
            "nvPicPr" => f("cNvPr cNvPicPr nvPr"),
            "nvCxnSpPr" => f("cNvPr cNvCxnSpPr nvPr"),
            "nvGraphicFramePr" => f("cNvPr cNvGraphicFramePr nvPr"),
            "nvGrpSpPr" => f("cNvPr cNvGrpSpPr nvPr"),
            "cNvPr" => f("hlinkClick hlinkHover extLst"),
            "cNvCxnSpPr" => f("cxnSpLocks stCxn endCxn extLst"),
            "pic" => f("nvPicPr blipFill spPr style extLst"),
            "blipFill" => f("blip srcRect tile|stretch"),
            "cxnSp" => f("nvCxnSpPr spPr style extLst"),
            "graphicFrame" => f("nvGraphicFramePr xfrm graphic extLst"),
            "xfrm" => f("off ext"),
            "spPr" => f("xfrm custGeom|prstGeom FILL ln EFFECT scene3d sp3d extLst"),
            "grpSpPr" => f("xfrm FILL EFFECT scene3d extLst"),
            "txBody" => f("bodyPr lstStyle *p"),
            "presentation" => f("sldMasterIdLst notesMasterIdLst handoutMasterIdLst sldIdLst sldSz notesSz smartTags embeddedFontLst custShowLst photoAlbum custDataLst kinsoku defaultTextStyle modifyVerifier extLst"),
            "embeddedFont" => f("font regular bold italic boldItalic"),
            "presentationPr" => f("htmlPubPr webPr prnPr showPr clrMru extLst"),
            "showPr" => f("present|browse|kiosk sldAll|sldRg|custShow penClr extLst"),
            _ => None,
        };
    }
    if ns == NS_A {
        return match local {
            "xfrm" => f("off ext chOff chExt"),
            "bodyPr" => f("prstTxWarp noAutofit|normAutofit|spAutoFit scene3d sp3d|flatTx extLst"),
            "txBody" => f("bodyPr lstStyle *p"),
            "p" => f("pPr *r|br|fld endParaRPr"),
            "pPr" | "lvl1pPr" | "lvl2pPr" | "lvl3pPr" | "lvl4pPr" | "lvl5pPr" | "lvl6pPr" | "lvl7pPr" | "lvl8pPr" | "lvl9pPr" | "defPPr" =>
                f("lnSpc spcBef spcAft buClrTx|buClr buSzTx|buSzPct|buSzPts buFontTx|buFont buNone|buAutoNum|buChar|buBlip tabLst defRPr extLst"),
            "r" => f("rPr t"),
            "fld" => f("rPr pPr t"),
            "rPr" | "defRPr" | "endParaRPr" => f("ln FILL EFFECT highlight uLnTx|uLn uFillTx|uFill latin ea cs sym hlinkClick hlinkMouseOver rtl extLst"),
            "ln" | "lnL" | "lnR" | "lnT" | "lnB" if parent != "lnStyleLst" => f("FILL prstDash|custDash round|bevel|miter headEnd tailEnd extLst"),
            "gradFill" => f("gsLst lin|path tileRect"),
            "tbl" => f("tblPr tblGrid *tr"),
            "tblPr" => f("FILL EFFECT tableStyle|tableStyleId extLst"),
            "tr" => f("*tc extLst"),
            "tc" => f("txBody tcPr extLst"),
            "tcPr" => f("lnL lnR lnT lnB lnTlToBr lnBlToTr cell3D FILL headers extLst"),
            "effectLst" => f("blur fillOverlay glow innerShdw outerShdw prstShdw reflection softEdge"),
            "graphic" => f("graphicData"),
            "srgbClr" | "schemeClr" => f("*tint|shade|comp|inv|gray|alpha|alphaOff|alphaMod|hue|hueOff|hueMod|sat|satOff|satMod|lum|lumOff|lumMod|red|redOff|redMod|green|greenOff|greenMod|blue|blueOff|blueMod|gamma|invGamma"),
            _ => None,
        };
    }
    if ns == NS_C {
        return match local {
            "chartSpace" => f("date1904 lang roundedCorners AlternateContent style clrMapOvr pivotSource protection chart spPr txPr externalData printSettings userShapes extLst"),
            "chart" if parent == "chartSpace" => f("title autoTitleDeleted pivotFmts view3D floor sideWall backWall plotArea legend plotVisOnly dispBlanksAs showDLblsOverMax extLst"),
            "plotArea" => f("layout *barChart|bar3DChart|lineChart|line3DChart|pieChart|pie3DChart|ofPieChart|areaChart|area3DChart|scatterChart|bubbleChart|radarChart|stockChart|doughnutChart|surfaceChart|surface3DChart *valAx|catAx|dateAx|serAx dTable spPr extLst"),
            "barChart" => f("barDir grouping varyColors *ser dLbls gapWidth overlap *serLines *axId extLst"),
            "lineChart" => f("grouping varyColors *ser dLbls dropLines hiLowLines upDownBars marker smooth *axId extLst"),
            "pieChart" => f("varyColors *ser dLbls firstSliceAng extLst"),
            "doughnutChart" => f("varyColors *ser dLbls firstSliceAng holeSize extLst"),
            "areaChart" => f("grouping varyColors *ser dLbls dropLines *axId extLst"),
            "scatterChart" => f("scatterStyle varyColors *ser dLbls *axId extLst"),
            "bubbleChart" => f("varyColors *ser dLbls bubble3D bubbleScale showNegBubbles sizeRepresents *axId extLst"),
            "radarChart" => f("radarStyle varyColors *ser dLbls *axId extLst"),
            "stockChart" => f("*ser dLbls dropLines hiLowLines upDownBars *axId extLst"),
            "ser" => match parent {
                "barChart" => f("idx order tx spPr invertIfNegative pictureOptions *dPt dLbls *trendline errBars cat val shape extLst"),
                "lineChart" | "stockChart" => f("idx order tx spPr marker *dPt dLbls *trendline errBars cat val smooth extLst"),
                "pieChart" | "doughnutChart" => f("idx order tx spPr explosion *dPt dLbls cat val extLst"),
                "areaChart" => f("idx order tx spPr pictureOptions *dPt dLbls *trendline *errBars cat val extLst"),
                "scatterChart" => f("idx order tx spPr marker *dPt dLbls *trendline *errBars xVal yVal smooth extLst"),
                "bubbleChart" => f("idx order tx spPr invertIfNegative *dPt dLbls *trendline *errBars xVal yVal bubbleSize bubble3D extLst"),
                "radarChart" => f("idx order tx spPr marker *dPt dLbls cat val extLst"),
                _ => None,
            },
            "catAx" => f("axId scaling delete axPos majorGridlines minorGridlines title numFmt majorTickMark minorTickMark tickLblPos spPr txPr crossAx crosses|crossesAt auto lblAlgn lblOffset tickLblSkip tickMarkSkip noMultiLvlLbl extLst"),
            "valAx" => f("axId scaling delete axPos majorGridlines minorGridlines title numFmt majorTickMark minorTickMark tickLblPos spPr txPr crossAx crosses|crossesAt crossBetween majorUnit minorUnit dispUnits extLst"),
            "strCache" => f("ptCount *pt extLst"),
            "numCache" => f("formatCode ptCount *pt extLst"),
            "strRef" => f("f strCache extLst"),
            "numRef" => f("f numCache extLst"),
            "title" => f("tx layout overlay spPr txPr extLst"),
            "legend" => f("legendPos *legendEntry layout overlay spPr txPr extLst"),
            "txPr" | "rich" => f("bodyPr lstStyle *p"),
            "spPr" => f("xfrm custGeom|prstGeom FILL ln EFFECT scene3d sp3d extLst"),
            _ => None,
        };
    }
    None
}

pub const PRESETS: &str = " line lineInv triangle rtTriangle rect diamond parallelogram trapezoid nonIsoscelesTrapezoid pentagon hexagon heptagon octagon decagon dodecagon star4 star5 star6 star7 star8 star10 star12 star16 star24 star32 roundRect round1Rect round2SameRect round2DiagRect snipRoundRect snip1Rect snip2SameRect snip2DiagRect plaque ellipse teardrop homePlate chevron pieWedge pie blockArc donut noSmoking rightArrow leftArrow upArrow downArrow stripedRightArrow notchedRightArrow bentUpArrow leftRightArrow upDownArrow leftUpArrow leftRightUpArrow quadArrow leftArrowCallout rightArrowCallout upArrowCallout downArrowCallout leftRightArrowCallout upDownArrowCallout quadArrowCallout bentArrow uturnArrow circularArrow leftCircularArrow leftRightCircularArrow curvedRightArrow curvedLeftArrow curvedUpArrow curvedDownArrow swooshArrow cube can lightningBolt heart sun moon smileyFace irregularSeal1 irregularSeal2 foldedCorner bevel frame halfFrame corner diagStripe chord arc leftBracket rightBracket leftBrace rightBrace bracketPair bracePair straightConnector1 bentConnector2 bentConnector3 bentConnector4 bentConnector5 curvedConnector2 curvedConnector3 curvedConnector4 curvedConnector5 callout1 callout2 callout3 accentCallout1 accentCallout2 accentCallout3 borderCallout1 borderCallout2 borderCallout3 accentBorderCallout1 accentBorderCallout2 accentBorderCallout3 wedgeRectCallout wedgeRoundRectCallout wedgeEllipseCallout cloudCallout cloud ribbon ribbon2 ellipseRibbon ellipseRibbon2 leftRightRibbon verticalScroll horizontalScroll wave doubleWave plus flowChartProcess flowChartDecision flowChartInputOutput flowChartPredefinedProcess flowChartInternalStorage flowChartDocument flowChartMultidocument flowChartTerminator flowChartPreparation flowChartManualInput flowChartManualOperation flowChartConnector flowChartPunchedCard flowChartPunchedTape flowChartSummingJunction flowChartOr flowChartCollate flowChartSort flowChartExtract flowChartMerge flowChartOfflineStorage flowChartOnlineStorage flowChartMagneticTape flowChartMagneticDisk flowChartMagneticDrum flowChartDisplay flowChartDelay flowChartAlternateProcess flowChartOffpageConnector actionButtonBlank actionButtonHome actionButtonHelp actionButtonInformation actionButtonForwardNext actionButtonBackPrevious actionButtonEnd actionButtonBeginning actionButtonReturn actionButtonDocument actionButtonSound actionButtonMovie gear6 gear9 funnel mathPlus mathMinus mathMultiply mathDivide mathEqual mathNotEqual cornerTabs squareTabs plaqueTabs chartX chartStar chartPlus ";

fn int_in(v: &str, lo: i64, hi: i64) -> bool {
    v.parse::<i64>().is_ok_and(|x| x >= lo && x <= hi)
}

/// Attribute lexical rules: returns a complaint.
fn lexical(e: &Elem) -> Option<String> {
    let ns = e.ns.as_deref().unwrap_or("");
    let get = |n: &str| e.attr(n);
    let need = |n: &str, lo: i64, hi: i64| -> Option<String> {
        match e.attr(n) {
            Some(v) if int_in(v, lo, hi) => None,
            v => Some(format!("<{} {}={:?}> not an integer in {}..={}", e.qname, n, v, lo, hi)),
        }
    };
    let opt = |n: &str, lo: i64, hi: i64| -> Option<String> { if e.attr(n).is_some() { need(n, lo, hi) } else { None } };
    const MAXC: i64 = 27273042316900;
    if ns == NS_A {
        match e.local.as_str() {
            "srgbClr" => {
                let v = get("val").unwrap_or("");
                if v.len() != 6 || !v.bytes().all(|b| b.is_ascii_hexdigit()) {
                    return Some(format!("<a:srgbClr val={:?}>", v));
                }
            }
            "off" | "chOff" => return need("x", -MAXC, MAXC).or_else(|| need("y", -MAXC, MAXC)),
            "ext" if e.attr("uri").is_none() => return need("cx", 0, MAXC).or_else(|| need("cy", 0, MAXC)),
            "chExt" => return need("cx", 0, MAXC).or_else(|| need("cy", 0, MAXC)),
            "xfrm" => return opt("rot", i32::MIN as i64, i32::MAX as i64),
            "rPr" | "endParaRPr" | "defRPr" => return opt("sz", 100, 400000),
            "ln" | "lnL" | "lnR" | "lnT" | "lnB" => return opt("w", 0, 20116800),
            "pPr" => {
                return opt("lvl", 0, 8).or_else(|| opt("marL", 0, 51206400)).or_else(|| opt("indent", -51206400, 51206400)).or_else(|| match get("algn") {
                    None | Some("l") | Some("ctr") | Some("r") | Some("just") | Some("justLow") | Some("dist") | Some("thaiDist") => None,
                    Some(v) => Some(format!("<a:pPr algn={:?}>", v)),
                });
            }
            "gs" => return need("pos", 0, 100000),
            "lin" => return opt("ang", 0, 21599999),
            "prstGeom" => {
                let v = get("prst").unwrap_or("");
                if v.is_empty() || v.contains(' ') || !PRESETS.contains(&format!(" {} ", v)) {
                    return Some(format!("<a:prstGeom prst={:?}> is not a preset shape", v));
                }
            }
            "gridCol" => return need("w", 0, MAXC),
            "tr" => return need("h", 0, MAXC),
            "tc" => return opt("gridSpan", 1, 10000).or_else(|| opt("rowSpan", 1, 10000)),
            "tcPr" => {
                return opt("marL", 0, 51206400).or_else(|| match get("anchor") {
                    None | Some("t") | Some("ctr") | Some("b") | Some("just") | Some("dist") => None,
                    Some(v) => Some(format!("<a:tcPr anchor={:?}>", v)),
                });
            }
            "srcRect" => {
                for n in ["l", "t", "r", "b"] {
                    if let Some(m) = opt(n, i32::MIN as i64, i32::MAX as i64) {
                        return Some(m);
                    }
                }
            }
            "alpha" => return need("val", 0, 100000),
            "buChar" => {
                if get("char").is_none() {
                    return Some("<a:buChar> without char".into());
                }
            }
            "buAutoNum" => {
                let v = get("type").unwrap_or("");
                if !["arabicPeriod", "alphaLcPeriod", "alphaUcPeriod", "romanLcPeriod", "romanUcPeriod", "arabicParenR", "arabicParenBoth", "arabicPlain", "alphaLcParenR", "alphaUcParenR", "romanLcParenR", "romanUcParenR", "alphaLcParenBoth", "alphaUcParenBoth", "romanLcParenBoth", "romanUcParenBoth"].contains(&v) {
                    return Some(format!("<a:buAutoNum type={:?}>", v));
                }
            }
            _ => {}
        }
    }
    if ns == NS_P {
        match e.local.as_str() {
            "sldSz" => return need("cx", 914400, 51206400).or_else(|| need("cy", 914400, 51206400)),
            "notesSz" => return need("cx", 0, MAXC).or_else(|| need("cy", 0, MAXC)),
            "sldRg" => return need("st", 0, i32::MAX as i64).or_else(|| need("end", 0, i32::MAX as i64)),
            _ => {}
        }
    }
    if ns == NS_C {
        match e.local.as_str() {
            "idx" | "order" | "axId" | "crossAx" | "ptCount" => return need("val", 0, u32::MAX as i64),
            "pt" => return need("idx", 0, u32::MAX as i64),
            "gapWidth" => return opt("val", 0, 500),
            "overlap" => return opt("val", -100, 100),
            "holeSize" => return opt("val", 1, 90),
            "firstSliceAng" => return opt("val", 0, 360),
            _ => {}
        }
    }
    None
}

fn go(e: &Elem, parent: &str, out: &mut Vec<String>) {
    if out.len() > 20 {
        return;
    }
    if let Some(m) = lexical(e) {
        out.push(m);
    }
    if let Some(seq) = order(e.ns.as_deref().unwrap_or(""), &e.local, parent) {
        let mut pos = 0usize; // next slot allowed
        for c in e.elems() {
            let slot = seq.iter().position(|s| s.trim_start_matches('*').split('|').any(|x| x == c.local));
            match slot {
                None => {
                    if c.local != "AlternateContent" {
                        out.push(format!("<{}> may not contain <{}>", e.qname, c.qname));
                    }
                }
                Some(s) => {
                    if s < pos {
                        out.push(format!("<{}>: child <{}> out of order or repeated", e.qname, c.qname));
                    }
                    pos = if seq[s].starts_with('*') { s } else { s + 1 };
                }
            }
        }
        if e.local == "txBody" && e.child("p").is_none() {
            out.push(format!("<{}> has no paragraph", e.qname));
        }
    }
    // caches: indices unique and below the count
    if e.local == "strCache" || e.local == "numCache" {
        let n = e.child("ptCount").and_then(|c| c.attr("val")).and_then(|v| v.parse::<usize>().ok());
        let mut seen = HashSet::new();
        for p in e.kids("pt") {
            let i = p.attr("idx").and_then(|v| v.parse::<usize>().ok());
            match (i, n) {
                (Some(i), Some(n)) if i < n && seen.insert(i) => {}
                _ => out.push(format!("<{}>: point index {:?} repeated or not below count {:?}", e.qname, i, n)),
            }
        }
    }
    if e.local == "plotArea" {
        let axes: Vec<&Elem> = e.elems().filter(|c| c.local.ends_with("Ax")).collect();
        let ids: Vec<&str> = axes.iter().filter_map(|a| a.child("axId").and_then(|x| x.attr("val"))).collect();
        let set: HashSet<&&str> = ids.iter().collect();
        if set.len() != ids.len() {
            out.push("two axes share an id".into());
        }
        for a in &axes {
            let c = a.child("crossAx").and_then(|x| x.attr("val")).unwrap_or("");
            if !ids.contains(&c) {
                out.push(format!("axis crosses unknown axis {:?}", c));
            }
        }
        let mut idxs = HashSet::new();
        let mut orders = HashSet::new();
        for ch in e.elems().filter(|c| c.local.ends_with("Chart")) {
            for a in ch.kids("axId") {
                if !ids.contains(&a.attr("val").unwrap_or("")) {
                    out.push(format!("<{}> uses undefined axis {:?}", ch.qname, a.attr("val")));
                }
            }
            for s in ch.kids("ser") {
                if let Some(i) = s.child("idx").and_then(|x| x.attr("val"))
                    && !idxs.insert(i.to_string()) {
                        out.push(format!("series idx {} repeated", i));
                    }
                if let Some(i) = s.child("order").and_then(|x| x.attr("val"))
                    && !orders.insert(i.to_string()) {
                        out.push(format!("series order {} repeated", i));
                    }
            }
        }
    }
    for c in e.elems() {
        go(c, &e.local, out);
    }
}

pub fn check(root: &Elem) -> Vec<String> {
    let mut out = vec![];
    go(root, "", &mut out);
    out
}
