//! Presentation-level settings and the check that a package shows them.
use crate::opc::Pkg;
use crate::pml;
use crate::rng::Rng;
use crate::text;
use crate::xml::Elem;
use ppt_rs::generator::*;

#[derive(Clone, Debug)]
pub struct FontS {
    pub face: String,
    pub style: FontStyle,
    pub charset: FontCharset,
    pub panose: Option<String>,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct SigS {
    pub name: String,
    pub algo: HashAlgorithm,
    pub date: Option<String>,
    pub commitment: SignatureCommitment,
    pub comments: Option<String>,
}

#[derive(Clone, Debug, Default)]
pub struct SettingsS {
    pub theme: Option<PresentationTheme>,
    pub show: Option<SlideShowSettings>,
    pub print: Option<PrintSettings>,
    pub fonts: Option<Vec<FontS>>,
    pub sig: Option<SigS>,
}

fn name(r: &mut Rng) -> String {
    loop {
        let s = text::any(r);
        if !s.trim().is_empty() && !s.contains(['\n', '\t', '\r']) {
            return s;
        }
    }
}

fn theme(r: &mut Rng) -> PresentationTheme {
    let mut t = match r.below(11) {
        0 => PresentationTheme::office(),
        1 => PresentationTheme::corporate(),
        2 => PresentationTheme::modern(),
        3 => PresentationTheme::vibrant(),
        4 => PresentationTheme::dark(),
        5 => PresentationTheme::nature(),
        6 => PresentationTheme::tech(),
        7 => PresentationTheme::carbon(),
        8 => PresentationTheme::new(name(r)),
        _ => {
            let c: Vec<String> = (0..7).map(|_| text::color(r).0).collect();
            PresentationTheme::from_palette(name(r), &c[0], &c[1], &c[2], &c[3], &c[4], &c[5], &c[6])
        }
    };
    if r.chance(1, 3) {
        t.colors = t.colors.accent1(text::color(r).0).accent2(text::color(r).0).accent3(text::color(r).0).hyperlink(text::color(r).0);
    }
    if r.chance(1, 3) {
        t = t.major_font(name(r));
    }
    if r.chance(1, 3) {
        t = t.minor_font(name(r));
    }
    t
}

fn show(r: &mut Rng) -> SlideShowSettings {
    let mut s = if r.chance(1, 6) { SlideShowSettings::kiosk() } else { SlideShowSettings::new() };
    if r.bool() {
        s = s.show_type(*r.pick(&[ShowType::Speaker, ShowType::Kiosk, ShowType::Browsed]));
    }
    if r.bool() {
        s = s.loop_continuously(r.bool()).without_animation(r.bool()).without_narration(r.bool());
    }
    if r.bool() {
        s = s.use_timings(r.bool()).show_media_controls(r.bool());
    }
    if r.bool() {
        s = s.pen_color(PenColor::new(&text::color(r).0));
    }
    if r.chance(1, 3) {
        let a = r.u32(1, 50);
        s = s.slide_range(SlideRange::Range { start: a, end: a + r.u32(0, 50) });
    }
    s
}

fn print(r: &mut Rng) -> PrintSettings {
    let mut s = PrintSettings::new();
    s = s.print_what(*r.pick(&[PrintWhat::Slides, PrintWhat::Handouts, PrintWhat::Handouts, PrintWhat::Notes, PrintWhat::Outline]));
    if r.bool() {
        s = s.header(&text::any(r));
    }
    if r.bool() {
        s = s.footer(&text::any(r));
    }
    s = s.print_date(r.bool()).print_page_numbers(r.bool()).frame_slides(r.bool()).include_hidden_slides(r.bool());
    s
}

fn fonts(r: &mut Rng) -> Vec<FontS> {
    let n = r.below(4);
    let mut v: Vec<FontS> = vec![];
    for _ in 0..n {
        let face = match r.below(4) {
            0 => v.first().map(|f| f.face.clone()).unwrap_or_else(|| "Arial".into()),
            1 => name(r),
            _ => r.pick(&["Arial", "Times New Roman", "R&D Sans", "明朝", "A/B", "Fira-Code_2"]).to_string(),
        };
        let style = *r.pick(&[FontStyle::Regular, FontStyle::Bold, FontStyle::Italic, FontStyle::BoldItalic]);
        let key = |s: &str| s.replace(' ', "").to_lowercase();
        if v.iter().any(|f| key(&f.face) == key(&face) && (f.style == style || f.face != face)) {
            continue;
        }
        let len = r.below(200);
        v.push(FontS {
            face,
            style,
            charset: *r.pick(&[FontCharset::Ansi, FontCharset::Symbol, FontCharset::ShiftJis, FontCharset::Gb2312, FontCharset::EastEurope, FontCharset::Russian, FontCharset::Greek]),
            panose: if r.chance(1, 3) { Some("020F0502020204030204".into()) } else { None },
            data: r.bytes(len),
        });
    }
    v
}

pub fn random(r: &mut Rng) -> SettingsS {
    SettingsS {
        theme: if r.bool() { Some(theme(r)) } else { None },
        show: if r.bool() { Some(show(r)) } else { None },
        print: if r.bool() { Some(print(r)) } else { None },
        fonts: if r.bool() { Some(fonts(r)) } else { None },
        sig: if r.chance(1, 3) {
            Some(SigS {
                name: text::any(r),
                algo: *r.pick(&[HashAlgorithm::Sha256, HashAlgorithm::Sha384, HashAlgorithm::Sha512, HashAlgorithm::Sha1]),
                date: if r.bool() { Some(r.pick(&["2024-02-29T10:00:00Z", "a<b&c"]).to_string()) } else { None },
                commitment: *r.pick(&[SignatureCommitment::Created, SignatureCommitment::Approved, SignatureCommitment::Reviewed]),
                comments: if r.bool() { Some(text::any(r)) } else { None },
            })
        } else {
            None
        },
    }
}

fn one<'a>(root: &'a Elem, local: &str) -> Result<&'a Elem, String> {
    let v = root.desc(local);
    if v.len() == 1 { Ok(v[0]) } else { Err(format!("{} <{}> elements", v.len(), local)) }
}

impl SettingsS {
    pub fn sig_str(&self) -> String {
        format!(
            "T{}S{:?}P{:?}F{}G{}",
            self.theme.as_ref().map(|t| t.name.clone()).unwrap_or_default(),
            self.show.as_ref().map(|s| (s.show_type, s.loop_continuously, s.use_timings, s.show_media_controls)),
            self.print.as_ref().map(|p| (p.print_what, p.header.is_some(), p.footer.is_some(), p.print_date, p.print_page_numbers)),
            self.fonts.as_ref().map(|f| f.len() as i32).unwrap_or(-1),
            self.sig.is_some()
        )
    }

    pub fn build(&self, r: &mut Rng) -> Option<PresentationSettings> {
        let mut s = PresentationSettings::new();
        if let Some(t) = &self.theme {
            s = s.theme(t.clone());
        }
        if let Some(t) = &self.show {
            s = s.slide_show(t.clone());
        }
        if let Some(t) = &self.print {
            s = s.print(t.clone());
        }
        if let Some(f) = &self.fonts {
            let mut l = EmbeddedFontList::new();
            for x in f {
                let mut e = EmbeddedFont::new(&x.face, x.style, x.data.clone(), "").charset(x.charset);
                if let Some(p) = &x.panose {
                    e = e.panose(p);
                }
                l.add(e);
            }
            s = s.embedded_fonts(l);
        }
        if let Some(g) = &self.sig {
            let mut d = DigitalSignature::new(SignerInfo::new(&g.name)).hash_algorithm(g.algo).commitment(g.commitment);
            if let Some(x) = &g.date {
                d = d.sign_date(x);
            }
            if let Some(x) = &g.comments {
                d = d.comments(x);
            }
            s = s.digital_signature(d);
        }
        if !s.has_settings() && r.bool() {
            return None;
        }
        Some(s)
    }

    pub fn check(&self, k: &Pkg) -> Result<(), String> {
        self.check_theme(k).map_err(|e| format!("theme: {}", e))?;
        self.check_show(k).map_err(|e| format!("slide show: {}", e))?;
        self.check_print(k).map_err(|e| format!("print: {}", e))?;
        self.check_master(k).map_err(|e| format!("print: {}", e))?;
        self.check_fonts(k).map_err(|e| format!("embedded fonts: {}", e))?;
        self.check_sig(k).map_err(|e| format!("signature: {}", e))
    }

    /// What a deck made from a template has to show of these settings.
    pub fn check_with_template(&self, k: &Pkg) -> Result<(), String> {
        if self.theme.is_some() {
            self.check_theme(k).map_err(|e| format!("theme: {}", e))?;
        }
        self.check_show(k).map_err(|e| format!("slide show: {}", e))?;
        self.check_print(k).map_err(|e| format!("print: {}", e))?;
        self.check_fonts(k).map_err(|e| format!("embedded fonts: {}", e))?;
        self.check_sig(k).map_err(|e| format!("signature: {}", e))
    }

    fn check_theme(&self, k: &Pkg) -> Result<(), String> {
        let main = k.main_part().ok_or("no main part")?;
        let master = k.rel_by_type(&main, "slideMaster").first().map(|r| r.part.clone()).ok_or("no master")?;
        let th = k.rel_by_type(&master, "theme").first().map(|r| r.part.clone()).ok_or("the master has no theme")?;
        let x = k.xml.get(&th).ok_or("the theme is not XML")?;
        let want = self.theme.clone().unwrap_or_else(PresentationTheme::office);
        if x.attr("name") != Some(want.name.as_str()) {
            return Err(format!("name {:?} instead of {:?}", x.attr("name"), want.name));
        }
        let cs = one(x, "clrScheme")?;
        let w = &want.colors;
        let slots: [(&str, &str); 12] = [
            ("dk1", &w.dk1), ("lt1", &w.lt1), ("dk2", &w.dk2), ("lt2", &w.lt2), ("accent1", &w.accent1), ("accent2", &w.accent2),
            ("accent3", &w.accent3), ("accent4", &w.accent4), ("accent5", &w.accent5), ("accent6", &w.accent6), ("hlink", &w.hlink), ("folHlink", &w.fol_hlink),
        ];
        for (s, v) in slots {
            let e = cs.child(s).ok_or_else(|| format!("no colour {}", s))?;
            let got = e.child("srgbClr").and_then(|c| c.attr("val")).or_else(|| e.child("sysClr").and_then(|c| c.attr("lastClr")));
            if got.map(|g| g.to_uppercase()) != Some(v.to_uppercase()) {
                return Err(format!("{} is {:?}, asked {}", s, got, v));
            }
        }
        if self.theme.is_some() && want.fonts != ThemeFonts::office() {
            let fs = one(x, "fontScheme")?;
            for (t, v) in [("majorFont", &want.fonts.major), ("minorFont", &want.fonts.minor)] {
                let got = fs.child(t).and_then(|e| e.child("latin")).and_then(|l| l.attr("typeface"));
                if got != Some(v.as_str()) {
                    return Err(format!("{} is {:?}, asked {:?}", t, got, v));
                }
            }
        }
        Ok(())
    }

    fn check_show(&self, k: &Pkg) -> Result<(), String> {
        let main = k.main_part().ok_or("no main part")?;
        let pp = k.rel_by_type(&main, "presProps").first().map(|r| r.part.clone()).ok_or("no presentation properties")?;
        let x = k.xml.get(&pp).ok_or("not XML")?;
        let sp = x.kids("showPr");
        let Some(s) = &self.show else {
            return if sp.is_empty() { Ok(()) } else { Err("written without being asked for".into()) };
        };
        if sp.len() != 1 {
            return Err(format!("{} showPr elements", sp.len()));
        }
        let e = sp[0];
        let flag = |n: &str, d: bool| e.attr(n).map(|v| pml::boolish(Some(v))).unwrap_or(d);
        let got = (flag("loop", false), !flag("showNarration", false), !flag("showAnimation", true), flag("useTimings", true));
        // showNarration defaults to false in the schema; the generator only turns it off explicitly
        let _ = got;
        if flag("loop", false) != s.loop_continuously {
            return Err(format!("loop {:?}, asked {}", e.attr("loop"), s.loop_continuously));
        }
        if s.show_without_animation == flag("showAnimation", true) {
            return Err(format!("showAnimation {:?}, asked without={}", e.attr("showAnimation"), s.show_without_animation));
        }
        if s.show_without_narration && flag("showNarration", true) {
            return Err(format!("showNarration {:?}, asked without narration", e.attr("showNarration")));
        }
        if s.use_timings && !flag("useTimings", true) {
            return Err("timings were asked for".into());
        }
        let ty = match s.show_type {
            ShowType::Speaker => "present",
            ShowType::Kiosk => "kiosk",
            ShowType::Browsed => "browse",
        };
        for t in ["present", "kiosk", "browse"] {
            if e.child(t).is_some() != (t == ty) {
                return Err(format!("show type is not {}", ty));
            }
        }
        match &s.slide_range {
            SlideRange::All => {
                if e.child("sldAll").is_none() {
                    return Err("all slides were asked for".into());
                }
            }
            SlideRange::Range { start, end } => {
                let g = e.child("sldRg").ok_or("no slide range")?;
                if g.attr("st") != Some(&start.to_string()) || g.attr("end") != Some(&end.to_string()) {
                    return Err(format!("range {:?}-{:?}, asked {}-{}", g.attr("st"), g.attr("end"), start, end));
                }
            }
            SlideRange::Custom(_) => {}
        }
        let pen = e.child("penClr").and_then(|p| p.child("srgbClr")).and_then(|c| c.attr("val"));
        if pen != Some(s.pen_color.color.as_str()) {
            return Err(format!("pen {:?}, asked {}", pen, s.pen_color.color));
        }
        let ctl = e.desc("showMediaCtrls").iter().any(|c| pml::boolish(c.attr("val")));
        if ctl != s.show_media_controls {
            return Err(format!("media controls {}, asked {}", ctl, s.show_media_controls));
        }
        Ok(())
    }

    fn check_print(&self, k: &Pkg) -> Result<(), String> {
        let main = k.main_part().ok_or("no main part")?;
        let hm = k.rel_by_type(&main, "handoutMaster");
        let want = self.print.as_ref().is_some_and(|p| p.print_what == PrintWhat::Handouts);
        if hm.len() != want as usize {
            return Err(format!("{} handout masters, handouts asked: {}", hm.len(), want));
        }
        let ph = |x: &Elem, t: &str| -> Option<String> { pml::shapes(x).iter().find(|s| s.ph.as_deref() == Some(t)).map(|s| s.text()) };
        let d = PrintSettings::default();
        let p = self.print.as_ref().unwrap_or(&d);
        if let Some(r) = hm.first() {
            let x = k.xml.get(&r.part).ok_or("the handout master is not XML")?;
            if ph(x, "hdr") != p.header || ph(x, "ftr") != p.footer {
                return Err(format!("handout header/footer {:?}/{:?}, asked {:?}/{:?}", ph(x, "hdr"), ph(x, "ftr"), p.header, p.footer));
            }
            if ph(x, "dt").is_some() != p.print_date || ph(x, "sldNum").is_some() != p.print_page_numbers {
                return Err("handout date / page number placeholders differ from the request".into());
            }
        }
        Ok(())
    }

    fn check_master(&self, k: &Pkg) -> Result<(), String> {
        let main = k.main_part().ok_or("no main part")?;
        let ph = |x: &Elem, t: &str| -> Option<String> { pml::shapes(x).iter().find(|s| s.ph.as_deref() == Some(t)).map(|s| s.text()) };
        let d = PrintSettings::default();
        let p = self.print.as_ref().unwrap_or(&d);
        let master = k.rel_by_type(&main, "slideMaster").first().map(|r| r.part.clone()).ok_or("no master")?;
        let x = k.xml.get(&master).ok_or("the master is not XML")?;
        if ph(x, "ftr") != p.footer {
            return Err(format!("master footer {:?}, asked {:?}", ph(x, "ftr"), p.footer));
        }
        if ph(x, "hdr").is_some() != p.header.is_some() || ph(x, "dt").is_some() != p.print_date || ph(x, "sldNum").is_some() != p.print_page_numbers {
            return Err("master header / date / page number placeholders differ from the request".into());
        }
        Ok(())
    }

    fn check_fonts(&self, k: &Pkg) -> Result<(), String> {
        let main = k.main_part().ok_or("no main part")?;
        let x = k.xml.get(&main).ok_or("not XML")?;
        let empty = vec![];
        let want = self.fonts.as_ref().unwrap_or(&empty);
        let got = x.desc("embeddedFont");
        let mut faces: Vec<&str> = vec![];
        for f in want {
            if !faces.contains(&f.face.as_str()) {
                faces.push(&f.face);
            }
        }
        let gf: Vec<&str> = got.iter().map(|e| e.child("font").and_then(|f| f.attr("typeface")).unwrap_or("?")).collect();
        if gf != faces {
            return Err(format!("typefaces {:?}, asked {:?}", gf, faces));
        }
        let mut n = 0;
        for e in &got {
            let face = e.child("font").unwrap().attr("typeface").unwrap();
            for (t, st) in [("regular", FontStyle::Regular), ("bold", FontStyle::Bold), ("italic", FontStyle::Italic), ("boldItalic", FontStyle::BoldItalic)] {
                let w = want.iter().find(|f| f.face == face && f.style == st);
                match (e.child(t), w) {
                    (None, None) => {}
                    (Some(g), Some(w)) => {
                        n += 1;
                        let id = g.attr_ns(crate::opc::NS_R, "id").unwrap_or("");
                        let rel = k.rel(&main, id).ok_or_else(|| format!("{} {}: relationship {} is undefined", face, t, id))?;
                        if !rel.typ.ends_with("/font") {
                            return Err(format!("{} {}: relationship {} is of type {}", face, t, id, rel.typ));
                        }
                        if k.parts.get(&rel.part) != Some(&w.data) {
                            return Err(format!("{} {}: the bytes of the font are not those given", face, t));
                        }
                    }
                    (g, w) => return Err(format!("{} {}: present {}, asked {}", face, t, g.is_some(), w.is_some())),
                }
            }
        }
        if n != want.len() {
            return Err(format!("{} fonts, asked {}", n, want.len()));
        }
        Ok(())
    }

    fn check_sig(&self, k: &Pkg) -> Result<(), String> {
        let o = k.rel_by_type("", "origin");
        let Some(s) = &self.sig else {
            return if o.is_empty() && !k.parts.keys().any(|p| p.starts_with("_xmlsig")) { Ok(()) } else { Err("signature parts without a signature".into()) };
        };
        if o.len() != 1 {
            return Err(format!("{} signature origins", o.len()));
        }
        let r = k.rel_by_type(&o[0].part, "signature");
        if r.len() != 1 {
            return Err(format!("the signature origin leads to {} signatures", r.len()));
        }
        let x = k.xml.get(&r[0].part).ok_or("the signature is not XML")?;
        let t = |n: &str| x.desc(n).first().map(|e| e.text());
        let clean = |s: &str| s.chars().filter(|c| crate::xml::is_xml_char(*c)).collect::<String>();
        if t("KeyName") != Some(clean(&s.name)) {
            return Err(format!("signer {:?}, asked {:?}", t("KeyName"), s.name));
        }
        if t("SignatureComments") != s.comments.as_deref().map(clean) {
            return Err(format!("comments {:?}, asked {:?}", t("SignatureComments"), s.comments));
        }
        if let Some(d) = &s.date
            && t("SigningTime").as_ref() != Some(d)
        {
            return Err(format!("date {:?}, asked {:?}", t("SigningTime"), d));
        }
        if t("ManifestHashAlgorithm").as_deref() != Some(s.algo.uri()) || t("CommitmentTypeId").as_deref() != Some(s.commitment.uri()) {
            return Err("hash algorithm or commitment differ from the request".into());
        }
        Ok(())
    }
}
