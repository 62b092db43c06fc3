// Compresses packages: in memory, file to file, and several calls at once.
use crate::util::{arr, b, panic_text, s, u};
use crate::Ctx;
use ppt_rs::opc::compress::{analyze_pptx, compress_pptx, compress_pptx_in_memory, CompressionLevel, CompressionOptions, CompressionResult};
use ppt_rs::opc::Package;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn options(o: &Value) -> CompressionOptions {
    let lvl = match s(&o["level"]) {
        "light" => CompressionLevel::Light,
        "aggressive" => CompressionLevel::Aggressive,
        "custom" => CompressionLevel::Custom(40),
        _ => CompressionLevel::Medium,
    };
    CompressionOptions::new().with_level(lvl).with_unused_media_removal(b(&o["media"])).with_properties_removal(b(&o["props"])).with_notes_removal(b(&o["notes"]))
        .with_comments_removal(b(&o["comments"])).with_xml_optimization(b(&o["xml"])).with_target_size(u(&o["target"]))
}
fn numbers(r: &CompressionResult) -> Value {
    json!({"orig": r.original_size, "size": r.compressed_size, "permille": (r.reduction_percent * 10.0).round() as i64, "media": r.unused_media_removed, "achieved": r.target_achieved})
}
fn content(d: &[u8]) -> Option<Vec<(String, Vec<u8>)>> {
    let p = Package::open_reader(std::io::Cursor::new(d)).ok()?;
    let mut v: Vec<_> = p.part_paths().iter().map(|n| (n.to_string(), p.get_part(n).unwrap().to_vec())).collect();
    v.sort();
    Some(v)
}
fn entries(d: &std::path::Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(d).map(|r| r.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    v.sort();
    v
}

fn compress(c: &Value, out: &str) -> Result<Value, String> {
    let e = |x: ppt_rs::PptxError| x.to_string();
    let path = s(&c["path"]);
    let o = options(&c["o"]);
    let before = entries(&std::env::temp_dir());
    let data = std::fs::read(path).unwrap();
    let (mem, memr) = compress_pptx_in_memory(&data, &o).map_err(e)?;
    let (f1, f2) = (format!("{out}-mem.pptx"), format!("{out}-file.pptx"));
    std::fs::write(&f1, &mem).unwrap();
    let filer = compress_pptx(path, &f2, &o).map_err(e)?;
    // other inputs compressed at the same time, each several times
    let mut jobs: Vec<(Vec<u8>, CompressionOptions)> = vec![(data, o)];
    for x in arr(&c["with"]) {
        jobs.push((std::fs::read(s(&x["path"])).unwrap(), options(&x["o"])));
    }
    let mut par = Vec::new();
    if jobs.len() > 1 {
        let alone: Vec<_> = jobs.iter().map(|(d, o)| compress_pptx_in_memory(d, o).ok().map(|(v, r)| (content(&v), numbers(&r)["media"].clone()))).collect();
        let at = std::sync::Barrier::new(2 * jobs.len());
        let got: Vec<bool> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..2 * jobs.len()).map(|k| {
                let (j, al, at) = (&jobs[k % jobs.len()], &alone[k % jobs.len()], &at);
                sc.spawn(move || {
                    at.wait();
                    (0..3).all(|_| catch_unwind(AssertUnwindSafe(|| compress_pptx_in_memory(&j.0, &j.1).ok().map(|(v, r)| (content(&v), numbers(&r)["media"].clone())) == *al)).unwrap_or(false))
                })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or(false)).collect()
        });
        par = got.into_iter().map(|x| if x { "same" } else { "other" }).collect();
    }
    let after = entries(&std::env::temp_dir());
    let left: Vec<&String> = after.iter().filter(|x| !before.contains(x)).collect();
    Ok(json!({"memr": numbers(&memr), "filer": numbers(&filer), "par": par, "left": left, "files": [f1, f2]}))
}

fn analyze(path: &str) -> Result<Value, String> {
    let a = analyze_pptx(path).map_err(|x| x.to_string())?;
    Ok(json!({"a": {"total": a.total_size, "images": a.images_size, "xml": a.xml_size, "other": a.other_size, "nimages": a.image_count, "slides": a.slide_count, "nmedia": a.media_count}}))
}

pub fn run(case: &Value, ctx: &Ctx) -> Value {
    let mut o = Vec::new();
    for (k, what) in arr(&case["do"]).iter().enumerate() {
        let out = ctx.dir.join(format!("{}-{k}", s(&case["id"]))).to_str().unwrap().to_string();
        let r = catch_unwind(AssertUnwindSafe(|| match s(&what["op"]) {
            "compress" => compress(what, &out),
            _ => analyze(s(&what["path"])),
        }));
        o.push(match r {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => json!({"err": e}),
            Err(e) => json!({"panic": panic_text(e)}),
        });
    }
    Value::Array(o)
}
