// Markdown and HTML into slides, slides into Markdown and HTML.
use crate::util::{panic_text, s};
use crate::Ctx;
use ppt_rs::generator::{BulletStyle, SlideContent};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn yes(b: bool, w: &str) -> Option<String> {
    b.then(|| w.to_string())
}
fn look(parts: [&Option<String>; 7]) -> Vec<String> {
    parts.iter().map(|p| (*p).clone().unwrap_or_default()).collect()
}
pub fn slide_json(x: &SlideContent) -> Value {
    json!({"title": x.title, "tcol": x.title_color.clone().unwrap_or_default(),
        "tlook": look([&x.title_color, &x.title_size.map(|z| z.to_string()), &None, &None, &yes(x.title_italic, "italic"), &yes(x.title_underline, "underline"), &None]), "content": x.content,
        "body": x.bullets.iter().map(|b| json!({"t": b.text, "lvl": b.level, "num": b.style == BulletStyle::Number,
            "col": b.format.as_ref().and_then(|f| f.color.clone()).unwrap_or_default(),
            "look": b.format.as_ref().map(|f| look([&f.color, &f.font_size.map(|z| z.to_string()), &f.highlight, &yes(f.bold, "bold"), &yes(f.italic, "italic"), &yes(f.underline, "underline"), &f.font_family])).unwrap_or_else(|| vec![String::new(); 7])})).collect::<Vec<_>>(),
        "tables": x.table.iter().map(|t| t.rows.iter().map(|r| r.cells.iter().map(|c| c.text.clone()).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "codes": x.code_blocks.iter().map(|c| json!({"lang": c.language, "c": c.code})).collect::<Vec<_>>(),
        "notes": x.notes, "labels": x.shapes.iter().map(|q| q.text.clone().unwrap_or_default()).collect::<Vec<_>>(),
        "nshapes": x.shapes.len(), "ncxns": x.connectors.len(), "pics": x.images.len()})
}

#[cfg(feature = "md")]
pub fn markdown(case: &Value, _ctx: &Ctx) -> Value {
    let src = s(&case["src"]).to_string();
    if !std::path::Path::new("pic.png").exists() {
        std::fs::write("pic.png", b"\x89PNG\r\n\x1a\n").unwrap();
    }
    match catch_unwind(AssertUnwindSafe(|| ppt_rs::cli::parse_markdown(&src))) {
        Ok(Ok(v)) => json!({"slides": v.iter().map(slide_json).collect::<Vec<_>>()}),
        Ok(Err(e)) => json!({"err": e}),
        Err(e) => json!({"panic": panic_text(e)}),
    }
}
#[cfg(feature = "md")]
pub fn diagrams(case: &Value, _ctx: &Ctx) -> Value {
    let src = s(&case["src"]).to_string();
    match catch_unwind(AssertUnwindSafe(|| -> Result<Vec<u8>, String> {
        let slides = ppt_rs::cli::parse_markdown(&src)?;
        ppt_rs::generator::create_pptx_with_content("Diagrams", slides).map_err(|e| e.to_string())
    })) {
        Ok(Ok(b)) => json!({"pptx": b.iter().map(|x| format!("{x:02x}")).collect::<String>()}),
        Ok(Err(e)) => json!({"err": e}),
        Err(e) => json!({"panic": panic_text(e)}),
    }
}
#[cfg(not(feature = "md"))]
pub fn diagrams(_: &Value, _: &Ctx) -> Value {
    json!({"unknown": "diagrams"})
}
#[cfg(not(feature = "md"))]
pub fn markdown(_: &Value, _: &Ctx) -> Value {
    json!({"unknown": "markdown"})
}

pub fn html(case: &Value, _ctx: &Ctx) -> Value {
    let src = s(&case["src"]).to_string();
    let o = &case["o"];
    let n = |k: &str| o[k].as_u64().unwrap() as usize;
    let b = |k: &str| o[k].as_bool().unwrap();
    let opts = ppt_rs::HtmlParseOptions::new().max_slides(n("maxs")).max_bullets(n("maxb")).include_code(b("code")).include_tables(b("tables")).include_images(b("images"));
    if !std::path::Path::new("pic.png").exists() {
        std::fs::write("pic.png", b"\x89PNG\r\n\x1a\n").unwrap();
    }
    match catch_unwind(AssertUnwindSafe(|| ppt_rs::parse_html_with_options(&src, opts))) {
        Ok(Ok(v)) => json!({"slides": v.iter().map(slide_json).collect::<Vec<_>>()}),
        Ok(Err(e)) => json!({"err": e}),
        Err(e) => json!({"panic": panic_text(e)}),
    }
}
