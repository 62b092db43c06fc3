// Reads generated presentations back: reader, editor and importer, through chains of import and generation.
use crate::deck;
use crate::util::{arr, panic_text, s, u};
use crate::Ctx;
use ppt_rs::api::Presentation;
use ppt_rs::oxml::presentation::PresentationReader;
use ppt_rs::oxml::slide::ParsedSlide;
use ppt_rs::oxml::PresentationEditor;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn slide(p: &ParsedSlide) -> Value {
    json!({
        "title": p.title.as_deref().unwrap_or(""),
        "body": p.body_text,
        "tables": p.tables.iter().map(|t| t.rows.iter().map(|r| r.iter().map(|c| json!({"t": c.text, "rs": c.row_span, "gs": c.col_span})).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "shapes": p.shapes.iter().filter(|x| !x.is_title && !x.is_body).map(|x| x.text()).filter(|t| !t.is_empty()).collect::<Vec<_>>(),
        "all": p.all_text(),
    })
}

type R = Result<Value, String>;

fn reader(path: &str) -> R {
    let e = |x: ppt_rs::PptxError| x.to_string();
    let r = PresentationReader::open(path).map_err(e)?;
    let n = r.slide_count();
    let mut slides = Vec::new();
    for i in 0..n {
        slides.push(slide(&r.get_slide(i).map_err(e)?));
    }
    let all: Vec<Value> = r.get_all_slides().map_err(e)?.iter().map(slide).collect();
    Ok(json!({"title": r.info().title.clone().unwrap_or_default(), "count": n, "info": r.info().slide_count,
        "core": {"creator": r.info().creator.clone().unwrap_or_default(), "by": r.info().last_modified_by.clone().unwrap_or_default(), "created": r.info().created.clone().unwrap_or_default(),
            "modified": r.info().modified.clone().unwrap_or_default(), "revision": r.info().revision.map_or(-1, |x| x as i64)},
        "slides": slides, "same": all == slides,
        "text": r.extract_all_text().map_err(e)?, "beyond": r.get_slide(n).is_err()}))
}

fn editor(path: &str) -> R {
    let e = |x: ppt_rs::PptxError| x.to_string();
    let r = PresentationEditor::open(path).map_err(e)?;
    let n = r.slide_count();
    let mut slides = Vec::new();
    for i in 0..n {
        slides.push(slide(&r.get_slide(i).map_err(e)?));
    }
    Ok(json!({"count": n, "slides": slides, "beyond": r.get_slide(n).is_err()}))
}

fn imported(p: &Presentation) -> Value {
    let slides: Vec<Value> = p.slides().iter().map(|x| {
        let body: Vec<String> = if x.bullets.is_empty() { x.content.clone() } else { x.bullets.iter().map(|b| b.text.clone()).collect() };
        json!({"title": x.title, "body": body})
    }).collect();
    json!({"title": p.get_title(), "count": p.slide_count(), "slides": slides})
}

pub fn run(case: &Value, ctx: &Ctx) -> Value {
    let path = ctx.dir.join(format!("{}-read.pptx", s(&case["id"]))).to_str().unwrap().to_string();
    let mut out = Vec::new();
    let r = catch_unwind(AssertUnwindSafe(|| {
        if case["file"].is_string() {
            std::fs::copy(s(&case["file"]), &path).unwrap();
            return Ok(());
        }
        let slides: Vec<_> = arr(&case["slides"]).iter().map(|v| deck::slide(v, &ctx.dir)).collect();
        let bytes = deck::build(s(&case["title"]), &slides, &case["settings"], "mem", ctx)?;
        std::fs::write(&path, bytes).unwrap();
        Ok::<(), String>(())
    }));
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return json!([{"name": "generate", "hop": 0, "err": e}]),
        Err(e) => return json!([{"name": "generate", "hop": 0, "panic": panic_text(e)}]),
    }
    for hop in 0..=u(&case["hops"]) {
        let mut step = |name: &str, f: &mut dyn FnMut() -> R| {
            let mut v = match catch_unwind(AssertUnwindSafe(f)) {
                Ok(Ok(v)) => v,
                Ok(Err(e)) => json!({"err": e}),
                Err(e) => json!({"panic": panic_text(e)}),
            };
            v["name"] = json!(name);
            v["hop"] = json!(hop);
            out.push(v);
        };
        step("reader", &mut || reader(&path));
        step("editor", &mut || editor(&path));
        let mut pres = None;
        step("import", &mut || {
            let p = Presentation::from_path(&path).map_err(|x| x.to_string())?;
            let v = imported(&p);
            pres = Some(p);
            Ok(v)
        });
        if let Some(p) = pres {
            if hop < u(&case["hops"]) {
                step("again", &mut || {
                    p.save(&path).map_err(|x| x.to_string())?;
                    Ok(json!({}))
                });
            }
        }
    }
    let _ = std::fs::remove_file(&path);
    Value::Array(out)
}
