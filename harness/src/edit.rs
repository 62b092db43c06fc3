// Editing sessions over a generated deck.
use crate::deck;
use crate::util::{arr, b, panic_text, s, u};
use crate::Ctx;
use ppt_rs::oxml::PresentationEditor;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn seen(ed: &PresentationEditor, path: &str) -> Value {
    let n = ed.slide_count();
    let titles: Vec<Value> = (0..n)
        .map(|i| match ed.get_slide(i) {
            Ok(x) => x.title.map(|t| json!([t])).unwrap_or(json!([])),
            Err(e) => json!([format!("error {e}")]),
        })
        .collect();
    let beyond = ed.get_slide(n).is_err() && ed.get_slide(n + 3).is_err();
    let saved = ed.save(path).map_err(|e| e.to_string());
    json!({"count": n, "titles": titles, "beyond": beyond, "path": path, "save_err": saved.err()})
}

pub fn run(case: &Value, ctx: &Ctx) -> Value {
    let id = s(&case["id"]);
    let src = ctx.dir.join(format!("{id}-src.pptx"));
    let src = src.to_str().unwrap().to_string();
    let mut out = Vec::new();
    let mut ed = PresentationEditor::new();
    for (k, op) in arr(&case["ops"]).iter().enumerate() {
        let path = ctx.dir.join(format!("{id}-{k}.pptx")).to_str().unwrap().to_string();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let content = || deck::slide(&op["content"], &ctx.dir);
            let (i, j) = (u(&op["i"]), u(&op["j"]));
            let e = |x: ppt_rs::PptxError| x.to_string();
            let r: Result<i64, String> = match s(&op["name"]) {
                "open" => (|| {
                    if !b(&case["empty"]) {
                        if case["file"].is_string() {
                            std::fs::copy(s(&case["file"]), &src).unwrap();
                        } else {
                            let slides: Vec<_> = arr(&case["slides"]).iter().map(|v| deck::slide(v, &ctx.dir)).collect();
                            let bytes = deck::build(s(&case["title"]), &slides, &case["settings"], "mem", ctx)?;
                            std::fs::write(&src, bytes).unwrap();
                        }
                        ed = PresentationEditor::open(&src).map_err(e)?;
                    }
                    Ok(-1)
                })(),
                "add" => ed.add_slide(content()).map(|x| x as i64).map_err(e),
                "insert" => ed.insert_slide(i, content()).map(|x| x as i64).map_err(e),
                "update" => ed.update_slide(i, content()).map(|_| -1).map_err(e),
                "dup" => ed.duplicate_slide(i).map(|x| x as i64).map_err(e),
                "remove" => ed.remove_slide(i).map(|_| -1).map_err(e),
                "reorder" => ed.reorder_slide(i, j).map(|_| -1).map_err(e),
                "get" => ed.get_slide(i).map(|_| -1).map_err(e),
                "reopen" => (|| {
                    ed.save(&path).map_err(e)?;
                    ed = PresentationEditor::open(&path).map_err(e)?;
                    Ok(-1)
                })(),
                x => panic!("harness: edit op {x}"),
            };
            let mut v = seen(&ed, &path);
            if s(&op["name"]) == "open" && std::path::Path::new(&src).exists() {
                v["src"] = json!(src);
            }
            v["err"] = json!(r.is_err());
            v["ret"] = json!(r.clone().unwrap_or(-1));
            v["error"] = json!(r.err());
            v
        }));
        match r {
            Ok(v) => out.push(v),
            Err(e) => {
                out.push(json!({"panic": panic_text(e)}));
                break;
            }
        }
    }
    Value::Array(out)
}
