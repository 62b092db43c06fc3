use crate::util::*;
use crate::Ctx;
use ppt_rs::parts::{ContentTypesPart, Part, RelationshipType, Relationships};
use ppt_rs::{CellMergeState, Comment, CommentAuthorList, MergeRegion, SectionManager, SlideComments, TableMergeMap};
use serde_json::{json, Value};

// ------------------------------------------------------------------ T01
pub fn merge(case: &Value) -> Value {
    let (rows, cols) = (u(&case["rows"]), u(&case["cols"]));
    drive(TableMergeMap::new(rows, cols), arr(&case["ops"]), |m, op| {
        let (r, c, rs, cs) = (u(&op["r"]), u(&op["c"]), u(&op["rs"]), u(&op["cs"]));
        let res = if b(&op["via_region"]) {
            MergeRegion::new(r, c, rs, cs).and_then(|g| m.add_merge(g))
        } else {
            m.merge_cells(r, c, rs, cs)
        };
        let grid: Vec<Vec<Value>> = (0..rows + 1)
            .map(|r| {
                (0..cols + 1)
                    .map(|c| {
                        let s = m.cell_state(r, c);
                        let x = s.to_xml_attrs();
                        let away = s.is_merged_away();
                        match s {
                            CellMergeState::Normal => json!({"k": "plain", "rs": 0, "cs": 0, "x": x, "away": away}),
                            CellMergeState::Anchor { row_span, col_span } => json!({"k": "anchor", "rs": row_span, "cs": col_span, "x": x, "away": away}),
                            CellMergeState::HMerge => json!({"k": "hmerge", "rs": 0, "cs": 0, "x": x, "away": away}),
                            CellMergeState::VMerge => json!({"k": "vmerge", "rs": 0, "cs": 0, "x": x, "away": away}),
                        }
                    })
                    .collect()
            })
            .collect();
        let regs: Vec<Value> = m.regions().iter().map(|g| json!([g.row, g.col, g.row_span, g.col_span])).collect();
        let d = m.dimensions();
        json!({"ok": res.is_ok(), "len": m.len(), "empty": m.is_empty(), "dims": [d.0, d.1], "regions": regs, "grid": grid})
    })
}

// ------------------------------------------------------------------ S01
pub fn sections(case: &Value) -> Value {
    let probe_n = u(&case["slides"]);
    drive(SectionManager::new(), arr(&case["ops"]), |m, op| {
        let ok = match s(&op["name"]) {
            "add" => m.add_section(s(&op["sec"]), u(&op["first"]), u(&op["count"])).is_ok(),
            "remove" => m.remove_section(s(&op["sec"])),
            "rename" => m.rename_section(s(&op["sec"]), s(&op["to"])),
            "clear" => {
                m.clear();
                true
            }
            _ => true,
        };
        let v = |x: &ppt_rs::SlideSection| json!({"name": x.name, "first": x.first_slide.to_string(), "count": x.slide_count.to_string(), "last": x.last_slide().to_string()});
        let secs: Vec<Value> = m.sections().iter().map(v).collect();
        let at: Vec<Value> = (0..probe_n + 1)
            .map(|i| m.section_for_slide(i).map(v).unwrap_or(json!({"name": "-", "first": "-", "count": "-", "last": "-"})))
            .collect();
        let get: Vec<Value> = arr(&case["names"]).iter().map(|n| m.get_section(s(n)).map(v).unwrap_or(json!({"name": "-", "first": "-", "count": "-", "last": "-"}))).collect();
        json!({"ok": ok, "secs": secs, "at": at, "get": get, "len": m.len(), "empty": m.is_empty(), "xml": m.to_xml(probe_n)})
    })
}

// ------------------------------------------------------------------ N01
#[derive(Clone, Default)]
struct Comm {
    authors: CommentAuthorList,
    slides: Vec<SlideComments>,
}
pub fn comments(case: &Value) -> Value {
    let n = u(&case["slides"]);
    let st = Comm { authors: CommentAuthorList::new(), slides: vec![SlideComments::new(); n] };
    drive(st, arr(&case["ops"]), |st, op| {
        let mut ret = String::new();
        match s(&op["name"]) {
            "author" => ret = st.authors.get_or_add(s(&op["who"]), s(&op["ini"])).to_string(),
            "auto" => st.slides[u(&op["slide"])].add_comment(u32v(&op["author"]), s(&op["text"]), u32v(&op["x"]), u32v(&op["y"])),
            "explicit" => st.slides[u(&op["slide"])].add(
                Comment::new(u32v(&op["author"]), s(&op["text"])).position(u32v(&op["x"]), u32v(&op["y"])).date(s(&op["date"])).index(u32v(&op["idx"])),
            ),
            _ => {}
        }
        let au: Vec<Value> = st.authors.authors().iter().map(|a| json!({"id": a.id.to_string(), "name": a.name, "ini": a.initials})).collect();
        let by: Vec<Value> = (0..8u32).map(|i| json!(st.authors.get_by_id(i).map(|a| a.name.clone()).unwrap_or("-none-".into()))).collect();
        let sl: Vec<Value> = st
            .slides
            .iter()
            .map(|c| {
                let l: Vec<Value> = c.comments().iter().map(|c| json!({"author": c.author_id.to_string(), "text": c.text, "date": c.date, "x": c.x.to_string(), "y": c.y.to_string(), "idx": c.index.to_string()})).collect();
                json!({"list": l, "len": c.len(), "empty": c.is_empty(), "xml": c.to_xml()})
            })
            .collect();
        json!({"ret": ret, "authors": au, "by": by, "n": st.authors.len(), "empty": st.authors.is_empty(), "axml": st.authors.to_xml(), "slides": sl})
    })
}

// ------------------------------------------------------------------ P01
fn rtype(n: &str) -> RelationshipType {
    match n {
        "OfficeDocument" => RelationshipType::OfficeDocument,
        "Slide" => RelationshipType::Slide,
        "SlideLayout" => RelationshipType::SlideLayout,
        "SlideMaster" => RelationshipType::SlideMaster,
        "Theme" => RelationshipType::Theme,
        "Image" => RelationshipType::Image,
        "Chart" => RelationshipType::Chart,
        "CoreProperties" => RelationshipType::CoreProperties,
        "ExtendedProperties" => RelationshipType::ExtendedProperties,
        o => RelationshipType::Custom(o.to_string()),
    }
}
fn rname(t: &RelationshipType) -> String {
    match t {
        RelationshipType::Custom(u) => u.clone(),
        o => format!("{:?}", o),
    }
}
fn rview(m: &Relationships) -> Vec<Value> {
    m.all().iter().map(|r| json!({"id": r.id, "type": rname(&r.rel_type), "target": r.target})).collect()
}
pub fn rels(case: &Value) -> Value {
    drive(Relationships::new(), arr(&case["ops"]), |m, op| {
        let mut ret = String::new();
        match s(&op["name"]) {
            "add" => ret = m.add(rtype(s(&op["type"])), s(&op["target"])),
            "explicit" => m.add_with_id(s(&op["id"]), rtype(s(&op["type"])), s(&op["target"])),
            "reload" => match Relationships::from_xml(&m.to_xml()) {
                Ok(n) => *m = n,
                Err(e) => ret = format!("error {e}"),
            },
            "parse" => match Relationships::from_xml(s(&op["xml"])) {
                Ok(n) => *m = n,
                Err(e) => ret = format!("error {e}"),
            },
            _ => {}
        }
        let get: Vec<Value> = arr(&case["ids"]).iter().map(|i| m.get(s(i)).map(|r| json!({"id": r.id, "type": rname(&r.rel_type), "target": r.target})).unwrap_or(json!({"id": "-", "type": "-", "target": "-"}))).collect();
        let by: Vec<Value> = arr(&case["types"])
            .iter()
            .map(|t| Value::Array(m.get_by_type(&rtype(s(t))).iter().map(|r| json!(r.id)).collect()))
            .collect();
        let back = match Relationships::from_xml(&m.to_xml()) {
            Ok(n) => json!({"ok": true, "all": rview(&n)}),
            Err(_) => json!({"ok": false, "all": []}),
        };
        json!({"ret": ret, "all": rview(m), "get": get, "by": by, "len": m.len(), "empty": m.is_empty(), "xml": m.to_xml(), "back": back})
    })
}

pub fn ctypes(case: &Value) -> Value {
    drive(ContentTypesPart::new(), arr(&case["ops"]), |m, op| {
        let mut ret = String::new();
        let n = u(&op["n"]);
        match s(&op["name"]) {
            "default" => m.add_default(s(&op["key"]), s(&op["ct"])),
            "override" => m.add_override(s(&op["key"]), s(&op["ct"])),
            "presentation" => m.add_presentation(),
            "slide" => m.add_slide(n),
            "layout" => m.add_slide_layout(n),
            "master" => m.add_slide_master(n),
            "theme" => m.add_theme(n),
            "notes" => m.add_notes_slide(n),
            "chart" => m.add_chart(n),
            "core" => m.add_core_properties(),
            "app" => m.add_app_properties(),
            "reload" => match m.to_xml().and_then(|x| ContentTypesPart::from_xml(&x)) {
                Ok(n) => *m = n,
                Err(e) => ret = format!("error {e}"),
            },
            _ => {}
        }
        json!({"ret": ret, "xml": m.to_xml().unwrap_or_default()})
    })
}

// ------------------------------------------------------------------ O01
pub struct Pk(pub ppt_rs::opc::Package);
impl Clone for Pk {
    fn clone(&self) -> Self {
        let mut p = ppt_rs::opc::Package::new();
        for n in self.0.part_paths() {
            p.add_part(n.to_string(), self.0.get_part(n).unwrap().to_vec());
        }
        Pk(p)
    }
}
pub fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(t: &str) -> Vec<u8> {
    (0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn short(b: &[u8]) -> String {
    if b.len() <= 24 { hexs(b) } else { format!("{}-{:016x}", b.len(), fnv(b)) }
}
pub fn fnv(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
fn pbytes(v: &Value) -> Vec<u8> {
    // "hex" or {"gen": n, "seed": k}: n pseudo random bytes
    if let Some(n) = v["gen"].as_u64() {
        let mut x = v["seed"].as_u64().unwrap_or(1).wrapping_mul(2654435761).wrapping_add(1);
        return (0..n)
            .map(|i| {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                if v["flat"].as_bool() == Some(true) { (i / 1000) as u8 } else { x as u8 }
            })
            .collect();
    }
    unhex(s(v))
}
pub fn package(case: &Value, ctx: &Ctx) -> Value {
    use ppt_rs::opc::Package;
    let view = |m: &Package| -> Value {
        let mut l: Vec<(String, String)> = m.part_paths().iter().map(|p| (p.to_string(), m.get_part(p).map(short).unwrap_or("?".into()))).collect();
        l.sort();
        json!({"parts": l, "count": m.part_count()})
    };
    drive(Pk(Package::new()), arr(&case["ops"]), |m, op| {
        let mut ret = String::new();
        let name = s(&op["part"]);
        let mut bytes_of = String::new();
        match s(&op["name"]) {
            "add" => {
                let data = pbytes(&op["data"]);
                bytes_of = short(&data);
                m.0.add_part(name.to_string(), data)
            }
            "remove" => ret = m.0.remove_part(name).map(|d| short(&d)).unwrap_or("none".into()),
            "append" => {
                ret = match m.0.get_part_mut(name) {
                    Some(p) => {
                        p.extend(unhex(s(&op["data"])));
                        "some".into()
                    }
                    None => "none".into(),
                }
            }
            "get" => ret = m.0.get_part(name).map(short).unwrap_or("none".into()),
            "string" => ret = m.0.get_part_string(name).map(|x| short(x.as_bytes())).unwrap_or("none".into()),
            "has" => ret = m.0.has_part(name).to_string(),
            "mem" => {
                let mut c = std::io::Cursor::new(Vec::new());
                ret = match m.0.save_writer(&mut c) {
                    Err(e) => format!("save {e}"),
                    Ok(()) => {
                        c.set_position(0);
                        match Package::open_reader(c) {
                            Err(e) => format!("open {e}"),
                            Ok(p) => {
                                *m = Pk(p);
                                "ok".into()
                            }
                        }
                    }
                }
            }
            "file" => {
                let p = ctx.dir.join("pkg.zip");
                if b(&op["stale"]) {
                    // an existing, longer file is replaced
                    std::fs::write(&p, vec![7u8; 60000]).unwrap();
                }
                ret = match m.0.save(&p) {
                    Err(e) => format!("save {e}"),
                    Ok(()) => {
                        let before = std::fs::read(&p).unwrap();
                        let r = match Package::open(&p) {
                            Err(e) => format!("open {e}"),
                            Ok(q) => {
                                *m = Pk(q);
                                "ok".into()
                            }
                        };
                        if std::fs::read(&p).unwrap() != before { "file changed by open".into() } else { r }
                    }
                };
                let _ = std::fs::remove_file(&p);
            }
            _ => {}
        }
        json!({"ret": ret, "view": view(&m.0), "of": bytes_of})
    })
}

// ------------------------------------------------------------------ U01
pub fn units(case: &Value) -> Value {
    use ppt_rs::core::{Dimension, FlexPosition, FlexSize};
    use ppt_rs::prelude as p;
    let out: Vec<Value> = arr(&case["ops"])
        .iter()
        .map(|op| {
            let r = std::panic::catch_unwind(|| {
                let v: f64 = match s(&op["v"]) {
                    "inf" => f64::INFINITY,
                    "-inf" => f64::NEG_INFINITY,
                    "nan" => f64::NAN,
                    t => t.parse().unwrap(),
                };
                let rf = u32v(&op["ref"]);
                let dim = || match s(&op["unit"]) {
                    "emu" => Dimension::emu(v as u32),
                    "in" => Dimension::inches(v),
                    "cm" => Dimension::cm(v),
                    "pt" => Dimension::pt(v),
                    "ratio" => Dimension::ratio(v),
                    _ => Dimension::percent(v),
                };
                let mut vals: Vec<(String, String)> = Vec::new();
                let mut add = |k: &str, x: i128| vals.push((k.to_string(), x.to_string()));
                match s(&op["via"]) {
                    "dim" => {
                        add("ref", dim().to_emu(rf) as i128);
                        add("x", dim().to_emu_x() as i128);
                        add("y", dim().to_emu_y() as i128);
                    }
                    "flex" => {
                        let a = FlexPosition::new(dim(), dim());
                        let z = FlexSize::new(dim(), dim());
                        add("x", a.to_emu().0 as i128);
                        add("y", a.to_emu().1 as i128);
                        add("x", z.to_emu().0 as i128);
                        add("y", z.to_emu().1 as i128);
                        add("ref", a.to_emu_with(rf, 7).0 as i128);
                        add("ref", a.to_emu_with(7, rf).1 as i128);
                        add("ref", z.to_emu_with(rf, 7).0 as i128);
                        add("ref", z.to_emu_with(7, rf).1 as i128);
                    }
                    "shape" => {
                        use ppt_rs::{Shape, ShapeType};
                        let a = Shape::from_dimensions(ShapeType::Rectangle, dim(), dim(), dim(), dim());
                        add("x", a.x as i128);
                        add("y", a.y as i128);
                        add("x", a.width as i128);
                        add("y", a.height as i128);
                        let c = Shape::new(ShapeType::Rectangle, 1, 2, 3, 4).at(dim(), dim()).with_dimensions(dim(), dim());
                        add("x", c.x as i128);
                        add("y", c.y as i128);
                        add("x", c.width as i128);
                        add("y", c.height as i128);
                    }
                    "image" => {
                        use ppt_rs::Image;
                        let a = Image::new("a.png", 5, 6, "PNG").at(dim(), dim()).with_dimensions(dim(), dim());
                        add("x", a.x as i128);
                        add("y", a.y as i128);
                        add("x", a.width as i128);
                        add("y", a.height as i128);
                    }
                    "fn" => match s(&op["unit"]) {
                        "in" => {
                            add("abs", p::inches(v) as i128);
                            add("abs", ppt_rs::generator::inches_to_emu(v) as i128);
                        }
                        "cm" => {
                            add("abs", p::cm(v) as i128);
                            add("abs", ppt_rs::generator::cm_to_emu(v) as i128);
                        }
                        "pt" => add("abs", p::pt(v) as i128),
                        _ => {}
                    },
                    "pos" => {
                        use ppt_rs::{Position, Size};
                        let (a, z) = match s(&op["unit"]) {
                            "in" => (Position::from_inches(v, v), Size::from_inches(v, v)),
                            _ => (Position::from_cm(v, v), Size::from_cm(v, v)),
                        };
                        add("signed", a.x as i128);
                        add("signed", a.y as i128);
                        add("signed", z.width as i128);
                        add("signed", z.height as i128);
                        if s(&op["unit"]) == "in" && v.is_finite() && v.abs() < 1e6 {
                            let k = |f: f64| ((f - v).abs() < 1e-5) as i128;
                            add("same", k(a.x_inches()));
                            add("same", k(a.y_inches()));
                            add("same", k(z.width_inches()));
                            add("same", k(z.height_inches()));
                        }
                    }
                    "fontsize" => add("hundred", p::font_sizes::to_emu(v as u32) as i128),
                    "back" => add("same", (ppt_rs::generator::emu_to_inches(v as u32) * 914400.0 - v).abs().lt(&0.01) as i128),
                    _ => {}
                }
                json!(vals)
            });
            match r {
                Ok(v) => json!({"vals": v}),
                Err(e) => json!({"panic": panic_text(e)}),
            }
        })
        .collect();
    Value::Array(out)
}
