// Decks exported as PDF: one drawn page per slide, and the document rendered from Markdown.
use crate::util::{arr, b, panic_text, s};
use crate::{deck, Ctx};
use ppt_rs::api::Presentation;
use ppt_rs::export::pdf_export::{PdfExportOptions, PdfOrientation};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn file(ctx: &Ctx, id: &str, tag: &str, f: impl FnOnce(&std::path::Path) -> Result<Vec<u8>, String>) -> Value {
    let path = ctx.dir.join(format!("{id}-{tag}.pdf"));
    let _ = std::fs::write(&path, b"before");
    match catch_unwind(AssertUnwindSafe(|| f(&path))) {
        Ok(Ok(mem)) => {
            let same = std::fs::read(&path).map(|x| x == mem).unwrap_or(false);
            json!({"file": path.to_string_lossy(), "same": same})
        }
        Ok(Err(e)) => json!({"err": e, "kept": std::fs::read(&path).map(|x| x == b"before").unwrap_or(false)}),
        Err(e) => json!({"panic": panic_text(e)}),
    }
}

pub fn run(case: &Value, ctx: &Ctx) -> Value {
    let mut p = Presentation::with_title(s(&case["title"]));
    for v in arr(&case["slides"]) {
        p = p.add_slide(deck::slide(v, &ctx.dir));
    }
    let id = s(&case["id"]);
    let drawn = file(ctx, id, "v", |path| {
        p.save_as_pdf(path).map_err(|e| e.to_string())?;
        ppt_rs::render_to_pdf_bytes(&p).map_err(|e| e.to_string())
    });
    let mut out = json!({"drawn": drawn});
    if let Some(o) = arr(&case["doc"]).first() {
        let opt = PdfExportOptions::new()
            .with_orientation(if b(&o["land"]) { PdfOrientation::Landscape } else { PdfOrientation::Portrait })
            .with_frontmatter(b(&o["front"])).with_notes(b(&o["notes"])).with_images(b(&o["images"]));
        out["doc"] = file(ctx, id, "d", |path| {
            p.save_as_pdf_via_pdfrs(path, &opt).map_err(|e| e.to_string())?;
            p.to_pdf_bytes(&opt).map_err(|e| e.to_string())
        });
    }
    out
}
