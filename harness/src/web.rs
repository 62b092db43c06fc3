// Web pages made into presentations.
use crate::util::{arr, b, panic_text, s};
use crate::Ctx;
use ppt_rs::web2ppt::{html_to_pptx, html_to_pptx_with_options, ConversionOptions, Web2PptConfig};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn run(case: &Value, ctx: &Ctx) -> Value {
    let (html, url, o) = (s(&case["html"]), s(&case["url"]), &case["o"]);
    let n = |k: &str| o[k].as_u64().unwrap_or(0) as usize;
    let made = catch_unwind(AssertUnwindSafe(|| {
        if b(&case["default"]) {
            return html_to_pptx(html, url);
        }
        let c = Web2PptConfig::new().max_slides(n("maxs")).max_bullets(n("maxb")).with_images(b(&o["images"])).with_tables(b(&o["tables"]))
            .with_code(b(&o["code"])).group_by_headings(b(&o["grouped"]));
        let mut p = ConversionOptions::new().with_source_url(b(&o["source"]));
        if let Some(t) = arr(&o["title"]).first() {
            p = p.title(s(t));
        }
        html_to_pptx_with_options(html, url, c, p)
    }));
    match made {
        Ok(Ok(x)) => {
            let path = ctx.dir.join(format!("{}-w.pptx", s(&case["id"])));
            std::fs::write(&path, x).unwrap();
            json!({"file": path.to_string_lossy()})
        }
        Ok(Err(e)) => json!({"err": e.to_string()}),
        Err(e) => json!({"panic": panic_text(e)}),
    }
}
