// Drives api::Presentation: two builders x and y, one file.
use crate::deck;
use crate::util::{arr, panic_text, s};
use crate::Ctx;
use ppt_rs::api::Presentation;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn sum(p: &std::path::Path) -> String {
    use std::hash::{Hash, Hasher};
    match std::fs::read(p) {
        Ok(d) => {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            d.hash(&mut h);
            format!("{:x}", h.finish())
        }
        Err(_) => String::new(),
    }
}

pub fn run(case: &Value, ctx: &Ctx) -> Value {
    let id = s(&case["id"]);
    let file = ctx.dir.join(format!("{id}-b.pptx"));
    let mut reg: HashMap<String, Presentation> = HashMap::new();
    reg.insert("x".into(), Presentation::new());
    reg.insert("y".into(), Presentation::new());
    let mut out = Vec::new();
    for (k, o) in arr(&case["ops"]).iter().enumerate() {
        let who = s(&o["who"]).to_string();
        let before = sum(&file);
        let keep = |n: &str, bytes: &[u8]| {
            let p = ctx.dir.join(format!("{id}-{k}{n}.pptx"));
            std::fs::write(&p, bytes).unwrap();
            json!(p.to_str().unwrap())
        };
        let r = catch_unwind(AssertUnwindSafe(|| {
            let p = reg[&who].clone();
            let mut paths = Vec::new();
            let mut next = None;
            let mut err = Value::Null;
            match s(&o["name"]) {
                "new" => next = Some(if s(&o["title"]).is_empty() { Presentation::new() } else { Presentation::with_title(s(&o["title"])) }),
                "title" => next = Some(p.title(s(&o["title"]))),
                "slide" => next = Some(p.add_slide(deck::slide(&o["slide"], &ctx.dir))),
                "join" => next = Some(p.add_presentation(reg[if who == "x" { "y" } else { "x" }].clone())),
                "theme" => next = Some(p.with_theme(deck::theme(&o["set"]["theme"][0]))),
                "settings" => next = Some(p.with_settings(deck::settings(&o["set"]))),
                "build" => match (p.build(), p.build()) {
                    (Ok(a), Ok(b)) => {
                        paths.push(keep("a", &a));
                        paths.push(keep("b", &b));
                    }
                    (Err(e), Err(_)) => err = json!(e.to_string()),
                    _ => panic!("building twice differs in success"),
                },
                "bytes" => match p.into_bytes() {
                    Ok(a) => paths.push(keep("a", &a)),
                    Err(e) => err = json!(e.to_string()),
                },
                "save" => match p.save(&file) {
                    Ok(()) => paths.push(keep("a", &std::fs::read(&file).unwrap())),
                    Err(e) => err = json!(e.to_string()),
                },
                "elsewhere" => {
                    let to = ctx.dir.join("no-such-dir").join("f.pptx");
                    match p.save(&to) {
                        Ok(()) => {}
                        Err(e) => err = json!(e.to_string()),
                    }
                }
                "load" => match Presentation::from_path(&file) {
                    Ok(q) => next = Some(q),
                    Err(e) => err = json!(e.to_string()),
                },
                x => panic!("harness: {x}"),
            }
            (paths, next, err)
        }));
        match r {
            Ok((paths, next, err)) => {
                if let Some(q) = next {
                    reg.insert(who.clone(), q);
                }
                let show = |n: &str| {
                    let p = &reg[n];
                    json!({"title": p.get_title(), "count": p.slide_count(), "titles": p.slides().iter().map(|x| x.title.clone()).collect::<Vec<_>>()})
                };
                out.push(json!({"err": err, "paths": paths, "x": show("x"), "y": show("y"), "kept": sum(&file) == before, "exists": file.exists()}));
            }
            Err(e) => {
                out.push(json!({"panic": panic_text(e)}));
                break;
            }
        }
    }
    let _ = std::fs::remove_file(&file);
    Value::Array(out)
}
