// Builds presentations from JSON decks through the public API and writes one file per entry point.
use crate::util::{arr, b, panic_text, s, u, u32v};
use crate::Ctx;
use ppt_rs::generator::*;
use ppt_rs::generator::images::{Crop, ImageEffect};
use serde_json::{json, Map, Value};
use std::io::Cursor;
use std::panic::{catch_unwind, AssertUnwindSafe};

macro_rules! by_name {
    ($t:ident, $v:expr, $($n:ident),+ $(,)?) => { match $v { $(stringify!($n) => $t::$n,)+ other => panic!("harness: unknown {} {}", stringify!($t), other) } };
}

fn shape_type(n: &str) -> ShapeType {
    by_name!(ShapeType, n, Rectangle, RoundedRectangle, Ellipse, Circle, Triangle, RightTriangle, Diamond, Pentagon, Hexagon, Octagon, RightArrow,
        LeftArrow, UpArrow, DownArrow, LeftRightArrow, UpDownArrow, BentArrow, UTurnArrow, Star4, Star5, Star6, Star8, Ribbon, Wave,
        WedgeRectCallout, WedgeEllipseCallout, CloudCallout, FlowChartProcess, FlowChartDecision, FlowChartTerminator, FlowChartDocument,
        FlowChartPredefinedProcess, FlowChartInternalStorage, FlowChartData, FlowChartInputOutput, FlowChartManualInput, FlowChartManualOperation,
        FlowChartConnector, FlowChartOffPageConnector, FlowChartPunchedCard, FlowChartPunchedTape, FlowChartSummingJunction, FlowChartOr,
        FlowChartCollate, FlowChartSort, FlowChartExtract, FlowChartMerge, FlowChartOnlineStorage, FlowChartDelay, FlowChartMagneticTape,
        FlowChartMagneticDisk, FlowChartMagneticDrum, FlowChartDisplay, FlowChartPreparation, CurvedRightArrow, CurvedLeftArrow, CurvedUpArrow,
        CurvedDownArrow, CurvedLeftRightArrow, CurvedUpDownArrow, StripedRightArrow, NotchedRightArrow, PentagonArrow, ChevronArrow,
        RightArrowCallout, LeftArrowCallout, UpArrowCallout, DownArrowCallout, LeftRightArrowCallout, UpDownArrowCallout, QuadArrow,
        LeftRightUpArrow, CircularArrow, Parallelogram, Trapezoid, NonIsoscelesTrapezoid, IsoscelesTrapezoid, Cube, Can, Cone, Cylinder, Bevel,
        Donut, NoSmoking, BlockArc, FoldedCorner, SmileyFace, Arc, Chord, Pie, Teardrop, Plaque, MusicNote, PictureFrame, Star10, Star12, Star16,
        Star24, Star32, Seal, Seal4, Seal8, Seal16, Seal32, ActionButtonBlank, ActionButtonHome, ActionButtonHelp, ActionButtonInformation,
        ActionButtonForwardNext, ActionButtonBackPrevious, ActionButtonBeginning, ActionButtonEnd, ActionButtonReturn, ActionButtonDocument,
        ActionButtonSound, ActionButtonMovie, Heart, Lightning, Sun, Moon, Cloud, Brace, Bracket, Plus, Minus)
}
pub fn layout(n: &str) -> SlideLayout {
    by_name!(SlideLayout, n, TitleOnly, CenteredTitle, TitleAndContent, TitleAndBigContent, TwoColumn, Blank, SectionHeader)
}
fn transition(n: &str) -> TransitionType {
    by_name!(TransitionType, n, None, Fade, Cut, Push, Wipe, Split, Reveal, Cover, Zoom)
}
fn chart_type(n: &str) -> ChartType {
    by_name!(ChartType, n, Bar, BarHorizontal, BarStacked, BarStacked100, Line, LineMarkers, LineStacked, Pie, Doughnut, Area, AreaStacked,
        AreaStacked100, Scatter, ScatterLines, ScatterSmooth, Bubble, Radar, RadarFilled, StockHLC, StockOHLC, Combo)
}
fn effect(n: &str) -> ImageEffect {
    by_name!(ImageEffect, n, Shadow, Reflection, Glow, SoftEdges, InnerShadow, Blur)
}
fn arrow(n: &str) -> ArrowType {
    by_name!(ArrowType, n, None, Triangle, Stealth, Diamond, Oval, Open)
}
fn arrow_size(n: &str) -> ArrowSize {
    by_name!(ArrowSize, n, Small, Medium, Large)
}
fn site(n: &str) -> ConnectionSite {
    by_name!(ConnectionSite, n, Top, Bottom, Left, Right, TopLeft, TopRight, BottomLeft, BottomRight, Center)
}
fn dash(n: &str) -> LineDash {
    by_name!(LineDash, n, Solid, Dash, Dot, DashDot, DashDotDot, LongDash, LongDashDot)
}
fn cxn_type(n: &str) -> ConnectorType {
    by_name!(ConnectorType, n, Straight, Elbow, Curved)
}
fn bullet_style(v: &Value) -> BulletStyle {
    match s(&v["k"]) {
        "Custom" => BulletStyle::Custom(s(&v["c"]).chars().next().unwrap()),
        n => by_name!(BulletStyle, n, Bullet, Number, LetterLower, LetterUpper, RomanLower, RomanUpper, None),
    }
}
fn unhex(h: &str) -> Vec<u8> {
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn opt(v: &Value) -> Option<&Value> {
    v.as_array().and_then(|a| a.first())
}
fn f64v(v: &Value) -> f64 {
    match v.as_str() {
        Some(t) => t.parse().unwrap(),
        None => v.as_f64().unwrap_or(0.0),
    }
}

fn bullet_format(f: &Value) -> BulletTextFormat {
    let mut t = BulletTextFormat::new();
    if b(&f["b"]) { t = t.bold(); }
    if b(&f["i"]) { t = t.italic(); }
    if b(&f["u"]) { t = t.underline(); }
    if b(&f["s"]) { t = t.strikethrough(); }
    for x in arr(&f["scr"]) {
        t = if s(x) == "sub" { t.subscript() } else { t.superscript() };
    }
    if let Some(c) = opt(&f["color"]) { t = t.color(s(c)); }
    if let Some(c) = opt(&f["hl"]) { t = t.highlight(s(c)); }
    if let Some(c) = opt(&f["sz"]) { t = t.font_size(u32v(c)); }
    if let Some(c) = opt(&f["font"]) { t = t.font_family(s(c)); }
    t
}

pub fn table(t: &Value) -> Table {
    let rows = arr(&t["rows"]).iter().map(|r| {
        let cells = arr(&r["cells"]).iter().map(|c| {
            let mut k = TableCell::new(s(&c["t"]));
            if b(&c["b"]) { k = k.bold(); }
            if b(&c["i"]) { k = k.italic(); }
            if b(&c["u"]) { k = k.underline(); }
            if let Some(x) = opt(&c["sz"]) { k = k.font_size(u32v(x)); }
            if let Some(x) = opt(&c["tc"]) { k = k.text_color(s(x)); }
            if let Some(x) = opt(&c["bg"]) { k = k.background_color(s(x)); }
            if let Some(x) = opt(&c["font"]) { k = k.font_family(s(x)); }
            if let Some(x) = opt(&c["al"]) { let n = s(x); k = k.align(by_name!(CellAlign, n, Left, Center, Right, Justify)); }
            if let Some(x) = opt(&c["va"]) { let n = s(x); k = k.valign(by_name!(CellVAlign, n, Top, Middle, Bottom)); }
            if let Some(x) = opt(&c["gs"]) { k = k.grid_span(u32v(x)); }
            if let Some(x) = opt(&c["rs"]) { k = k.row_span(u32v(x)); }
            if b(&c["hm"]) { k = k.h_merge(); }
            if b(&c["vm"]) { k = k.v_merge(); }
            k
        }).collect();
        let row = TableRow::new(cells);
        match opt(&r["h"]) { Some(h) => row.with_height(u32v(h)), None => row }
    }).collect();
    Table::new(rows, arr(&t["cols"]).iter().map(u32v).collect(), u32v(&t["x"]), u32v(&t["y"]))
}

fn shape(v: &Value) -> Shape {
    let mut k = Shape::new(shape_type(s(&v["ty"])), u32v(&v["x"]), u32v(&v["y"]), u32v(&v["w"]), u32v(&v["h"]));
    if let Some(r) = opt(&v["rot"]) { k = k.with_rotation(r.as_i64().unwrap() as i32); }
    if let Some(r) = opt(&v["id"]) { k = k.with_id(u32v(r)); }
    for f in arr(&v["fill"]) {
        k = if s(&f["k"]) == "solid" {
            let mut q = ShapeFill::new(s(&f["c"]));
            if let Some(t) = opt(&f["tr"]) { q = q.with_transparency(u32v(t)); }
            k.with_fill(q)
        } else {
            let st = arr(&f["stops"]);
            let dir = match s(&f["dir"]) {
                "Angle" => ShapeGradientDirection::Angle(u32v(&f["ang"])),
                n => by_name!(ShapeGradientDirection, n, Horizontal, Vertical, DiagonalDown, DiagonalUp),
            };
            let mut g = ShapeGradientFill::linear("000000", "FFFFFF", dir);
            g.stops.clear();
            for x in st {
                let mut q = ShapeGradientStop::new(s(&x["c"]), u32v(&x["p"]));
                if let Some(t) = opt(&x["tr"]) { q = q.with_transparency(u32v(t)); }
                g = g.with_stop(q);
            }
            k.with_gradient(g)
        };
    }
    if let Some(l) = opt(&v["ln"]) { k = k.with_line(ShapeLine::new(s(&l["c"]), u32v(&l["w"]))); }
    if let Some(t) = opt(&v["t"]) { k = k.with_text(s(t)); }
    if let Some(l) = opt(&v["link"]) {
        let a = match s(&l["k"]) {
            "url" => HyperlinkAction::url(s(&l["v"])),
            "slide" => HyperlinkAction::slide(u32v(&l["n"])),
            "email" => match opt(&l["subj"]) {
                Some(x) => HyperlinkAction::email_with_subject(s(&l["v"]), s(x)),
                None => HyperlinkAction::email(s(&l["v"])),
            },
            "file" => HyperlinkAction::file(s(&l["v"])),
            n => by_name!(HyperlinkAction, n, FirstSlide, LastSlide, NextSlide, PreviousSlide, EndShow),
        };
        let mut h = Hyperlink::new(a);
        if let Some(t) = opt(&l["tip"]) { h = h.with_tooltip(s(t)); }
        if let Some(t) = opt(&l["hl"]) { h = h.with_highlight_click(b(t)); }
        k = k.with_hyperlink(h);
    }
    k
}

fn image(v: &Value, dir: &std::path::Path) -> Image {
    let (w, h, fmt) = (u32v(&v["w"]), u32v(&v["h"]), s(&v["fmt"]));
    let data = unhex(s(&v["data"]));
    let mut k = match s(&v["src"]) {
        "bytes" => Image::from_bytes(data, w, h, fmt),
        "base64" => Image::from_base64(&base64(&data), w, h, fmt),
        "missing" => Image::new(s(&v["name"]), w, h, fmt),
        "file" => {
            let p = dir.join(s(&v["name"]));
            std::fs::write(&p, &data).unwrap();
            Image::new(p.to_str().unwrap(), w, h, fmt)
        }
        "named" => {
            let mut i = Image::from_bytes(data, w, h, fmt);
            i.filename = s(&v["name"]).to_string();
            i
        }
        x => panic!("harness: image source {x}"),
    };
    k = k.position(u32v(&v["x"]), u32v(&v["y"]));
    if let Some(t) = opt(&v["alt"]) { k = k.with_alt_text(s(t)); }
    if let Some(c) = opt(&v["crop"]) {
        let c = arr(c);
        let q = |i: usize| c[i].as_u64().unwrap() as f64 / 100.0;
        let _ = Crop::new(0.0, 0.0, 0.0, 0.0);
        k = k.with_crop(q(0), q(1), q(2), q(3));
    }
    for e in arr(&v["fx"]) { k = k.with_effect(effect(s(e))); }
    k
}

pub fn base64(d: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() { o.push(T[(n >> (18 - 6 * i)) as usize & 63] as char) } else { o.push('=') }
        }
    }
    o
}

fn connector(v: &Value) -> Connector {
    let mut k = Connector::new(cxn_type(s(&v["ty"])), u32v(&v["x1"]), u32v(&v["y1"]), u32v(&v["x2"]), u32v(&v["y2"]));
    if let Some(l) = opt(&v["ln"]) {
        let mut q = ConnectorLine::new(s(&l["c"]), u32v(&l["w"]));
        if let Some(d) = opt(&l["d"]) { q = q.with_dash(dash(s(d))); }
        k = k.with_line(q);
    }
    if let Some(x) = opt(&v["sa"]) { k = k.with_start_arrow(arrow(s(x))); }
    if let Some(x) = opt(&v["ea"]) { k = k.with_end_arrow(arrow(s(x))); }
    if let Some(x) = opt(&v["asz"]) { k = k.with_arrow_size(arrow_size(s(x))); }
    if let Some(x) = opt(&v["st"]) { k = k.connect_start(u32v(&x["id"]), site(s(&x["s"]))); }
    if let Some(x) = opt(&v["en"]) { k = k.connect_end(u32v(&x["id"]), site(s(&x["s"]))); }
    if let Some(x) = opt(&v["label"]) { k = k.with_label(s(x)); }
    k
}

fn chart(v: &Value) -> Chart {
    let cats: Vec<&str> = arr(&v["cats"]).iter().map(s).collect();
    let mut k = ChartBuilder::new(s(&v["title"]), chart_type(s(&v["ty"]))).categories(cats)
        .position(u32v(&v["x"]), u32v(&v["y"])).size(u32v(&v["w"]), u32v(&v["h"]));
    for q in arr(&v["series"]) {
        k = k.add_series(ChartSeries::new(s(&q["name"]), arr(&q["vals"]).iter().map(f64v).collect()));
    }
    k.build()
}

fn ink(v: &Value) -> InkAnnotations {
    let mut k = InkAnnotations::new();
    for st in arr(v) {
        let tip = s(&st["tip"]);
        let pen = InkPen::new(s(&st["c"]), u32v(&st["w"])).tip(by_name!(PenTip, tip, Ball, Flat)).opacity(f64v(&st["op"]) as f32);
        let mut q = InkStroke::new(pen);
        for p in arr(&st["pts"]) { q = q.add_point(f64v(&p[0]), f64v(&p[1])); }
        k.add_stroke(q);
    }
    k
}

pub fn slide(v: &Value, dir: &std::path::Path) -> SlideContent {
    let mut k = SlideContent::new(s(&v["title"]));
    if !s(&v["layout"]).is_empty() { k = k.layout(layout(s(&v["layout"]))); }
    if !s(&v["trans"]).is_empty() { k = k.with_transition(transition(s(&v["trans"]))); }
    for o in arr(&v["b"]) {
        let t = s(&o["t"]);
        k = match s(&o["m"]) {
            "style" => k.with_bullet_style(bullet_style(&o["st"])),
            "add" => k.add_bullet(t),
            "styled" => k.add_styled_bullet(t, bullet_style(&o["st"])),
            "num" => k.add_numbered(t),
            "let" => k.add_lettered(t),
            "sub" => k.add_sub_bullet(t),
            "content" => { k.content.push(t.to_string()); k }
            "raw" => {
                let mut p = BulletPoint::new(t).with_level(u32v(&o["lvl"])).with_style(bullet_style(&o["st"]));
                if let Some(f) = opt(&o["f"]) { p = p.with_format(bullet_format(f)); }
                k.bullets.push(p);
                k
            }
            x => panic!("harness: bullet op {x}"),
        };
    }
    let nul = |v: &Value| v.as_i64() == Some(-1);
    if let Some(x) = opt(&v["tsz"]) { if nul(x) { k.title_size = None } else { k = k.title_size(u32v(x)) } }
    if let Some(x) = opt(&v["csz"]) { if nul(x) { k.content_size = None } else { k = k.content_size(u32v(x)) } }
    if let Some(x) = opt(&v["tb"]) { k = k.title_bold(b(x)); }
    if let Some(x) = opt(&v["cb"]) { k = k.content_bold(b(x)); }
    if let Some(x) = opt(&v["ti"]) { k = k.title_italic(b(x)); }
    if let Some(x) = opt(&v["ci"]) { k = k.content_italic(b(x)); }
    if let Some(x) = opt(&v["tu"]) { k = k.title_underline(b(x)); }
    if let Some(x) = opt(&v["cu"]) { k = k.content_underline(b(x)); }
    if let Some(x) = opt(&v["tc"]) { k = k.title_color(s(x)); }
    if let Some(x) = opt(&v["cc"]) { k = k.content_color(s(x)); }
    if let Some(x) = opt(&v["table"]) { k = k.table(table(x)); }
    let many = b(&v["bulk"]);
    let shapes: Vec<Shape> = arr(&v["shapes"]).iter().map(shape).collect();
    let images: Vec<Image> = arr(&v["images"]).iter().map(|i| image(i, dir)).collect();
    let cxns: Vec<Connector> = arr(&v["cxns"]).iter().map(connector).collect();
    let charts: Vec<Chart> = arr(&v["charts"]).iter().map(chart).collect();
    if many {
        k = k.with_shapes(shapes).with_images(images).with_connectors(cxns).with_charts(charts);
    } else {
        for x in shapes { k = k.add_shape(x); }
        for x in images { k = k.add_image(x); }
        for x in cxns { k = k.add_connector(x); }
        for x in charts { k = k.add_chart(x); }
    }
    for c in arr(&v["codes"]) {
        k.code_blocks.push(CodeBlock::new(s(&c["t"]), s(&c["lang"])).position(c["x"].as_i64().unwrap(), c["y"].as_i64().unwrap()).size(c["w"].as_i64().unwrap(), c["h"].as_i64().unwrap()));
    }
    if let Some(x) = opt(&v["notes"]) { k = k.notes(s(x)); }
    if let Some(x) = opt(&v["ink"]) { k = k.with_ink(ink(x)); }
    k
}

pub fn theme(v: &Value) -> PresentationTheme {
    let mut t = match s(&v["preset"]) {
        "" => PresentationTheme::new(s(&v["name"])),
        "office" => PresentationTheme::office(),
        "corporate" => PresentationTheme::corporate(),
        "modern" => PresentationTheme::modern(),
        "vibrant" => PresentationTheme::vibrant(),
        "dark" => PresentationTheme::dark(),
        "nature" => PresentationTheme::nature(),
        "tech" => PresentationTheme::tech(),
        "carbon" => PresentationTheme::carbon(),
        x => panic!("harness: theme preset {x}"),
    };
    if let Some(c) = opt(&v["colors"]) {
        let c: Vec<&str> = arr(c).iter().map(s).collect();
        let mut q = ThemeColorScheme::office();
        q.dk1 = c[0].into(); q.lt1 = c[1].into(); q.dk2 = c[2].into(); q.lt2 = c[3].into();
        q.accent1 = c[4].into(); q.accent2 = c[5].into(); q.accent3 = c[6].into();
        q.accent4 = c[7].into(); q.accent5 = c[8].into(); q.accent6 = c[9].into();
        q.hlink = c[10].into(); q.fol_hlink = c[11].into();
        t = t.colors(q);
    }
    if let Some(f) = opt(&v["major"]) { t = t.major_font(s(f)); }
    if let Some(f) = opt(&v["minor"]) { t = t.minor_font(s(f)); }
    t
}

pub fn settings(v: &Value) -> PresentationSettings {
    let mut k = PresentationSettings::new();
    if let Some(t) = opt(&v["theme"]) { k = k.theme(theme(t)); }
    if let Some(t) = opt(&v["show"]) {
        let mut q = SlideShowSettings::new();
        if let Some(x) = opt(&t["type"]) { let n = s(x); q = q.show_type(by_name!(ShowType, n, Speaker, Kiosk, Browsed)); }
        if let Some(x) = opt(&t["loop"]) { q = q.loop_continuously(b(x)); }
        if let Some(x) = opt(&t["nonarr"]) { q = q.without_narration(b(x)); }
        if let Some(x) = opt(&t["noanim"]) { q = q.without_animation(b(x)); }
        if let Some(x) = opt(&t["timings"]) { q = q.use_timings(b(x)); }
        if let Some(x) = opt(&t["media"]) { q = q.show_media_controls(b(x)); }
        if let Some(x) = opt(&t["pen"]) { q = q.pen_color(PenColor::new(s(x))); }
        if let Some(x) = opt(&t["range"]) {
            q = q.slide_range(match s(&x["k"]) {
                "all" => SlideRange::All,
                "range" => SlideRange::Range { start: u32v(&x["a"]), end: u32v(&x["b"]) },
                _ => SlideRange::Custom(arr(&x["ids"]).iter().map(u32v).collect()),
            });
        }
        k = k.slide_show(q);
    }
    if let Some(t) = opt(&v["print"]) {
        let mut q = PrintSettings::new();
        if let Some(x) = opt(&t["what"]) { let n = s(x); q = q.print_what(by_name!(PrintWhat, n, Slides, Handouts, Notes, Outline)); }
        if let Some(x) = opt(&t["lay"]) { let n = s(x); q = q.handout_layout(by_name!(HandoutLayout, n, SlidesPerPage1, SlidesPerPage2, SlidesPerPage3, SlidesPerPage4, SlidesPerPage6, SlidesPerPage9)); }
        if let Some(x) = opt(&t["header"]) { q = q.header(s(x)); }
        if let Some(x) = opt(&t["footer"]) { q = q.footer(s(x)); }
        if let Some(x) = opt(&t["date"]) { q = q.print_date(b(x)); }
        if let Some(x) = opt(&t["nums"]) { q = q.print_page_numbers(b(x)); }
        if let Some(x) = opt(&t["frame"]) { q = q.frame_slides(b(x)); }
        k = k.print(q);
    }
    if let Some(t) = opt(&v["fonts"]) {
        let mut l = EmbeddedFontList::new();
        for f in arr(t) {
            let (n, c) = (s(&f["style"]), s(&f["charset"]));
            let mut q = EmbeddedFont::new(s(&f["face"]), by_name!(FontStyle, n, Regular, Bold, Italic, BoldItalic), unhex(s(&f["data"])), s(&f["rid"]));
            if !c.is_empty() { q = q.charset(by_name!(FontCharset, c, Ansi, Symbol, ShiftJis, Hangul, Gb2312, ChineseBig5, Greek, Turkish, Hebrew, Arabic, Baltic, Russian, Thai, EastEurope)); }
            if let Some(x) = opt(&f["panose"]) { q = q.panose(s(x)); }
            if let Some(x) = opt(&f["pitch"]) { q = q.pitch_family(u32v(x) as u8); }
            l.add(q);
        }
        k = k.embedded_fonts(l);
    }
    if let Some(t) = opt(&v["sig"]) {
        let mut who = SignerInfo::new(s(&t["name"]));
        if let Some(x) = opt(&t["email"]) { who = who.email(s(x)); }
        if let Some(x) = opt(&t["org"]) { who = who.organization(s(x)); }
        if let Some(x) = opt(&t["stitle"]) { who = who.title(s(x)); }
        let mut q = DigitalSignature::new(who);
        if let Some(x) = opt(&t["hash"]) { let n = s(x); q = q.hash_algorithm(by_name!(HashAlgorithm, n, Sha256, Sha384, Sha512, Sha1)); }
        if let Some(x) = opt(&t["date"]) { q = q.sign_date(s(x)); }
        if let Some(x) = opt(&t["commit"]) { let n = s(x); q = q.commitment(by_name!(SignatureCommitment, n, Created, Approved, Reviewed)); }
        if let Some(x) = opt(&t["comments"]) { q = q.comments(s(x)); }
        k = k.digital_signature(q);
    }
    k
}

struct Lazy {
    slides: Vec<SlideContent>,
    own_features: bool,
    asked: std::cell::RefCell<Vec<usize>>,
}
impl LazySlideSource for Lazy {
    fn slide_count(&self) -> usize {
        self.slides.len()
    }
    fn generate_slide(&self, i: usize) -> Option<SlideContent> {
        self.asked.borrow_mut().push(i);
        self.slides.get(i).cloned()
    }
    fn slide_features(&self, i: usize) -> Option<(bool, usize)> {
        if self.own_features {
            return self.slides.get(i).map(|s| (s.notes.is_some(), s.charts.len()));
        }
        self.generate_slide(i).map(|s| (s.notes.is_some(), s.charts.len()))
    }
}

/// Takes few bytes at a time, and is full after `left` bytes.
struct Slow {
    cur: Cursor<Vec<u8>>,
    calls: usize,
    left: usize,
}

impl std::io::Write for Slow {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.left == 0 && !buf.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        let most = if self.left == usize::MAX { 1 + self.calls * 37 % 611 } else { self.left };
        let n = std::io::Write::write(&mut self.cur, &buf[..buf.len().min(most)])?;
        if self.left != usize::MAX {
            self.left -= n;
        }
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl std::io::Seek for Slow {
    fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
        self.cur.seek(pos)
    }
}

/// Whether generation into a writer that is full after so many bytes reports an error.
fn into_full(title: &str, slides: &[SlideContent], set: &Value, share: usize, lazy: bool, len: usize) -> Value {
    let left = if share == 0 { 0 } else { (len - 1) * share / 100 };
    let r = catch_unwind(AssertUnwindSafe(|| {
        let has = set.as_object().map(|o| !o.is_empty()).unwrap_or(false);
        let st = has.then(|| settings(set));
        let mut w = Slow { cur: Cursor::new(Vec::new()), calls: 0, left };
        if lazy {
            let src = Lazy { slides: slides.to_vec(), own_features: false, asked: Default::default() };
            create_pptx_lazy_to_writer(&mut w, title, Box::new(src), st).is_err()
        } else {
            create_pptx_with_content_to_writer(&mut w, title, slides, st).is_err()
        }
    }));
    json!(match r {
        Ok(true) => "err",
        Ok(false) => "ok",
        Err(_) => "panic",
    })
}

pub fn build(title: &str, slides: &[SlideContent], set: &Value, entry: &str, ctx: &Ctx) -> Result<Vec<u8>, String> {
    let has = set.as_object().map(|o| !o.is_empty()).unwrap_or(false);
    let mk = || has.then(|| settings(set));
    let own = slides.to_vec();
    let e = |x: ppt_rs::PptxError| x.to_string();
    let mut cur = Cursor::new(Vec::new());
    match entry {
        "mem" => create_pptx_with_settings(title, &own, mk()).map_err(e),
        "content" => create_pptx_with_content(title, own).map_err(e),
        "writer" => {
            create_pptx_with_content_to_writer(&mut cur, title, &own, mk()).map_err(e)?;
            Ok(cur.into_inner())
        }
        "file" => {
            let p = ctx.dir.join("stream-out.pptx");
            {
                let f = std::fs::File::create(&p).map_err(|x| x.to_string())?;
                let mut w = std::io::BufWriter::new(f);
                create_pptx_with_content_to_writer(&mut w, title, &own, mk()).map_err(e)?;
                std::io::Write::flush(&mut w).map_err(|x| x.to_string())?;
            }
            let r = std::fs::read(&p).map_err(|x| x.to_string());
            let _ = std::fs::remove_file(&p);
            r
        }
        "drip" => {
            let mut w = Slow { cur, calls: 0, left: usize::MAX };
            create_pptx_with_content_to_writer(&mut w, title, &own, mk()).map_err(e)?;
            Ok(w.cur.into_inner())
        }
        "lazydrip" => {
            let src = Lazy { slides: own, own_features: true, asked: Default::default() };
            let mut w = Slow { cur, calls: 0, left: usize::MAX };
            create_pptx_lazy_to_writer(&mut w, title, Box::new(src), mk()).map_err(e)?;
            Ok(w.cur.into_inner())
        }
        "lazy" | "lazy2" => {
            let src = Lazy { slides: own, own_features: entry == "lazy2", asked: Default::default() };
            create_pptx_lazy_to_writer(&mut cur, title, Box::new(src), mk()).map_err(e)?;
            Ok(cur.into_inner())
        }
        "api" => {
            let mut p = ppt_rs::api::Presentation::with_title(title);
            if has { p = p.with_settings(settings(set)); }
            for x in own { p = p.add_slide(x); }
            p.build().map_err(|x| x.to_string())
        }
        "plain" => create_pptx(title, own.len()).map_err(e),
        "plainw" => {
            create_pptx_to_writer(&mut cur, title, own.len()).map_err(e)?;
            Ok(cur.into_inner())
        }
        "template" => {
            // a generated deck serves as template
            let t = ctx.dir.join("template.pptx");
            std::fs::write(&t, create_pptx_with_settings("T", &[SlideContent::new("T")], opt(&set["ttheme"]).map(|x| PresentationSettings::new().theme(theme(x)))).map_err(e)?).map_err(|x| x.to_string())?;
            create_pptx_with_template(title, &own, t.to_str().unwrap(), mk()).map_err(e)
        }
        x => panic!("harness: entry {x}"),
    }
}

pub fn run(case: &Value, ctx: &Ctx) -> Value {
    let slides: Vec<SlideContent> = match catch_unwind(AssertUnwindSafe(|| arr(&case["slides"]).iter().map(|v| slide(v, &ctx.dir)).collect())) {
        Ok(x) => x,
        Err(e) => return json!({"panic": panic_text(e)}),
    };
    let mut out = Map::new();
    for en in arr(&case["entries"]) {
        let entry = s(en);
        let r = catch_unwind(AssertUnwindSafe(|| build(s(&case["title"]), &slides, &case["settings"], entry, ctx)));
        out.insert(entry.to_string(), match r {
            Ok(Ok(bytes)) => {
                let p = ctx.dir.join(format!("{}-{}.pptx", s(&case["id"]), entry));
                std::fs::write(&p, &bytes).unwrap();
                json!({"path": p.to_str().unwrap()})
            }
            Ok(Err(e)) => json!({"err": e}),
            Err(e) => json!({"panic": panic_text(e)}),
        });
    }
    if let Some(shares) = case["full"].as_array() {
        let len = out.get("mem").and_then(|m| m["path"].as_str()).and_then(|p| std::fs::metadata(p).ok()).map_or(0, |m| m.len() as usize);
        let ends: Vec<Value> = if len == 0 { vec![] } else {
            shares.iter().flat_map(|x| [false, true].map(|lazy| into_full(s(&case["title"]), &slides, &case["settings"], u(x), lazy, len))).collect()
        };
        out.insert("full".into(), json!(ends));
    }
    Value::Object(out)
}
