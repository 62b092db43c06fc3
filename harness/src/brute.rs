// Every way to read a file, on files that may hold anything.
use crate::util::{arr, panic_text, s};
use crate::Ctx;
use ppt_rs::api::Presentation;
use ppt_rs::core::validate_package_bytes;
use ppt_rs::generator::{ImageBuilder, Shape, ShapeType, SlideContent};
use ppt_rs::opc::compress::{analyze_pptx, compress_pptx, compress_pptx_in_memory, CompressionOptions};
use ppt_rs::opc::Package;
use ppt_rs::oxml::presentation::PresentationReader;
use ppt_rs::oxml::repair::PptxRepair;
use ppt_rs::oxml::slide::ParsedSlide;
use ppt_rs::oxml::PresentationEditor;
use ppt_rs::oxml::xmlchemy::{XmlElement, XmlParser};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

type R = Result<Value, String>;
fn e(x: ppt_rs::PptxError) -> String {
    x.to_string()
}

fn slide(p: Result<ParsedSlide, ppt_rs::PptxError>) -> Value {
    match p {
        Ok(p) => json!([p.title.clone().unwrap_or_default(), p.body_text, p.all_text(), p.tables.len(), p.shapes.len()]),
        Err(_) => json!("err"),
    }
}

fn call(what: &str, path: &str, out: &str) -> R {
    match what {
        "package" => {
            let p = Package::open(path).map_err(e)?;
            let names: Vec<String> = p.part_paths().iter().map(|x| x.to_string()).collect();
            for n in &names {
                let _ = p.get_part_string(n);
            }
            p.save(out).map_err(e)?;
            Ok(json!({"n": names.len()}))
        }
        "reader" => {
            let r = PresentationReader::open(path).map_err(e)?;
            let n = r.slide_count();
            let slides: Vec<Value> = (0..n.min(100)).map(|i| slide(r.get_slide(i))).collect();
            let beyond = r.get_slide(n).is_err() && r.get_slide(usize::MAX).is_err();
            let all = r.get_all_slides().is_ok();
            let text = r.extract_all_text().is_ok();
            let title = r.info().title.clone().unwrap_or_default();
            Ok(json!({"n": n, "slides": slides, "beyond": beyond, "all": all, "text": text, "title": title}))
        }
        "editor" => {
            let mut r = PresentationEditor::open(path).map_err(e)?;
            let n = r.slide_count();
            let slides: Vec<Value> = (0..n.min(100)).map(|i| slide(r.get_slide(i))).collect();
            let beyond = r.get_slide(n).is_err() && r.get_slide(usize::MAX).is_err();
            let mut ops = vec![];
            let mut note = |x: bool| ops.push(x);
            note(r.add_slide(SlideContent::new("added").add_bullet("b")).is_ok());
            note(r.duplicate_slide(0).is_ok());
            note(r.duplicate_slide(r.slide_count().saturating_sub(1)).is_ok());
            note(r.insert_slide(0, SlideContent::new("first")).is_ok());
            note(r.update_slide(1, SlideContent::new("second")).is_ok());
            note(r.reorder_slide(0, r.slide_count().saturating_sub(1)).is_ok());
            note(r.remove_slide(0).is_ok());
            note(r.remove_slide(usize::MAX).is_ok());
            note(r.save(out).is_ok());
            let again = PresentationEditor::open(out).map(|x| x.slide_count()).ok();
            Ok(json!({"n": n, "slides": slides, "beyond": beyond, "ops": ops, "left": r.slide_count(), "again": again}))
        }
        "import" => {
            let p = Presentation::from_path(path).map_err(e)?;
            let n = p.slide_count();
            let saved = p.save(out).is_ok();
            Ok(json!({"n": n, "saved": saved}))
        }
        "repair" => {
            let mut r = PptxRepair::open(path).map_err(e)?;
            let k = r.validate().len();
            let res = r.repair();
            let all: Vec<String> = res.issues_found.iter().map(|i| format!("{} {} {}", i.severity(), i.is_repairable(), i.description())).collect();
            r.save(out).map_err(e)?;
            Ok(json!({"n": k, "d": all.len()}))
        }
        "validate" => {
            let r = validate_package_bytes(&std::fs::read(path).unwrap());
            Ok(json!({"valid": r.is_valid(), "n": r.error_count() + r.warning_count()}))
        }
        "compress" => {
            let data = std::fs::read(path).unwrap();
            let o = CompressionOptions::maximum();
            let a = compress_pptx_in_memory(&data, &o);
            let b = compress_pptx(path, out, &CompressionOptions::web());
            if a.is_ok() != b.is_ok() {
                return Ok(json!({"differ": true}));
            }
            a.map_err(e)?;
            Ok(json!({"differ": false}))
        }
        "analyze" => {
            let a = analyze_pptx(path).map_err(e)?;
            let _ = (a.summary(), a.images_percentage());
            Ok(json!({}))
        }
        x => Err(format!("harness: {x}")),
    }
}

// the tree as nested arrays; deep trees are walked without recursion
fn tree(root: &XmlElement) -> Value {
    let mut a: Vec<(&String, &String)> = root.attributes.iter().collect();
    a.sort();
    json!({"n": root.tag, "l": root.local_name, "ns": root.namespace.clone().unwrap_or_default(), "a": a, "t": root.text, "c": root.children.iter().map(tree).collect::<Vec<_>>()})
}

pub fn xml(case: &Value, _ctx: &Ctx) -> Value {
    let src = s(&case["src"]).to_string();
    let probe: Vec<String> = arr(&case["find"]).iter().map(|x| s(x).to_string()).collect();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let t = XmlParser::parse_str(&src).map_err(e)?;
        let finds: Vec<Value> = probe.iter().map(|p| {
            let tag = |x: &XmlElement| x.tag.clone();
            json!({"first": t.find(p).map(tag).into_iter().collect::<Vec<_>>(), "all": t.find_all(p).len(), "desc": t.find_descendant(p).map(|x| x.text_content()).into_iter().collect::<Vec<_>>(),
                "descs": t.find_all_descendants(p).iter().map(|x| x.text_content()).collect::<Vec<_>>(), "is": t.is(p), "attr": t.attr(p).into_iter().collect::<Vec<_>>()})
        }).collect();
        Ok::<Value, String>(if case["shape"].as_bool() == Some(true) { json!({}) } else { json!({"tree": tree(&t), "text": t.text_content(), "finds": finds}) })
    }));
    match r {
        Ok(Ok(v)) => v,
        Ok(Err(x)) => json!({"err": x}),
        Err(x) => json!({"panic": panic_text(x)}),
    }
}

pub fn run(case: &Value, ctx: &Ctx) -> Value {
    let (case, dir) = (case.clone(), ctx.dir.clone());
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || calls(&case, &Ctx { dir }));
    h.unwrap().join().unwrap()
}

fn calls(case: &Value, ctx: &Ctx) -> Value {
    let path = s(&case["path"]).to_string();
    let out = ctx.dir.join(format!("{}-out.pptx", s(&case["id"]))).to_str().unwrap().to_string();
    let before = std::fs::read(&path).unwrap();
    let mut o = serde_json::Map::new();
    for w in arr(&case["calls"]) {
        let w = s(w).to_string();
        let r = catch_unwind(AssertUnwindSafe(|| call(&w, &path, &out)));
        let v = match r {
            Ok(Ok(mut v)) => {
                v["end"] = json!("ok");
                v
            }
            Ok(Err(x)) => json!({"end": "err", "text": x}),
            Err(x) => json!({"end": "panic", "text": panic_text(x)}),
        };
        let _ = std::fs::remove_file(&out);
        o.insert(w, v);
        if std::fs::read(&path).ok().as_deref() != Some(&before[..]) {
            o.insert("changed".into(), json!(true));
            break;
        }
    }
    Value::Object(o)
}

// everything that reads text (or the bytes of a picture) a user may hand over
fn feed(what: &str, src: &str) -> Result<(), String> {
    use ppt_rs::parts::{ContentTypesPart, CorePropertiesPart, Part, PresentationPart, Relationships};
    match what {
        #[cfg(feature = "md")]
        "markdown" => {
            let v = ppt_rs::cli::markdown::parse(src)?;
            if !v.is_empty() {
                ppt_rs::generator::create_pptx_with_content("t", v).map_err(|x| x.to_string())?;
            }
            Ok(())
        }
        "html" => {
            let v = ppt_rs::parse_html(src)?;
            if !v.is_empty() {
                ppt_rs::generator::create_pptx_with_content("t", v).map_err(|x| x.to_string())?;
            }
            Ok(())
        }
        "xml" => XmlParser::parse_str(src).map(|t| { t.text_content(); t.find_all_descendants("a").len(); }).map_err(e),
        "well-formed" => ppt_rs::core::validate_well_formed_xml(src).map_err(e),
        "relationships" => Relationships::from_xml(src).map(|_| ()).map_err(e),
        "types" => ContentTypesPart::from_xml(src).map(|_| ()).map_err(e),
        "properties" => CorePropertiesPart::from_xml(src).map(|_| ()).map_err(e),
        "presentation" => PresentationPart::from_xml(src).map(|_| ()).map_err(e),
        "slide" => ppt_rs::oxml::slide::SlideParser::parse(src).map(|_| ()).map_err(e),
        "slide-part" => ppt_rs::parts::slide::parse_slide(src, 1).map(|_| ()).map_err(e),
        "colour" => {
            let ok = ppt_rs::RgbColor::from_hex(src).is_some();
            let _ = ppt_rs::helpers::ColorValue::from_hex(src);
            let _ = ppt_rs::helpers::hex(src);
            let s = SlideContent::new("t").add_shape(Shape::new(ShapeType::Rectangle, 1, 1, 2, 2).with_fill(ppt_rs::generator::ShapeFill::new(src)).with_text("x"));
            ppt_rs::generator::create_pptx_with_content("t", vec![s.clone()]).map_err(|x| x.to_string())?;
            ppt_rs::render_to_pdf_bytes(&Presentation::new().add_slide(s)).map_err(|x| x.to_string())?;
            if ok { Ok(()) } else { Err("no colour".into()) }
        }
        "picture" => {
            let _ = ImageBuilder::auto(src.chars().map(|c| c as u32 as u8).collect()).build();
            Ok(())
        }
        #[cfg(feature = "web")]
        "web" => ppt_rs::web2ppt::html_to_pptx(src, "http://example.org/").map(|_| ()).map_err(|x| x.to_string()),
        x => panic!("harness: {x}"),
    }
}

pub fn text(case: &Value, _ctx: &Ctx) -> Value {
    let src = s(&case["src"]).to_string();
    let what = s(&case["what"]).to_string();
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || match catch_unwind(AssertUnwindSafe(|| feed(&what, &src))) {
        Ok(Ok(())) => json!({"end": "ok"}),
        Ok(Err(x)) => json!({"end": "err", "text": x}),
        Err(x) => json!({"end": "panic", "text": panic_text(x)}),
    });
    h.unwrap().join().unwrap()
}
