// Decks exported as HTML and Markdown; the Markdown is read by pulldown-cmark.
use crate::util::{arr, b, panic_text, s};
use crate::{deck, Ctx};
use ppt_rs::api::Presentation;
use ppt_rs::export::html::{export_to_html, export_to_html_with_options, HtmlExportOptions};
use ppt_rs::export::md::{export_to_markdown, export_to_markdown_with_options, MarkdownOptions};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[cfg(feature = "md")]
fn events(md: &str) -> Value {
    use pulldown_cmark::{CodeBlockKind, Event, Options, Parser, Tag, TagEnd};
    let open = |t: Tag| match t {
        Tag::Paragraph => json!(["(", "p"]),
        Tag::Heading { level, .. } => json!(["(", "h", level as u32]),
        Tag::BlockQuote => json!(["(", "quote"]),
        Tag::CodeBlock(CodeBlockKind::Fenced(i)) => json!(["(", "code", i.to_string()]),
        Tag::List(None) => json!(["(", "list"]),
        Tag::Item => json!(["(", "item"]),
        Tag::Table(_) => json!(["(", "table"]),
        Tag::TableHead | Tag::TableRow => json!(["(", "row"]),
        Tag::TableCell => json!(["(", "cell"]),
        Tag::Strong => json!(["(", "strong"]),
        Tag::Image { dest_url, .. } => json!(["(", "img", dest_url.to_string()]),
        Tag::HtmlBlock => json!(["(", "html"]),
        other => json!(["(", "x", format!("{other:?}")]),
    };
    let _ = |t: TagEnd| t;
    let mut out = vec![];
    for e in Parser::new_ext(md, Options::ENABLE_TABLES | Options::ENABLE_STRIKETHROUGH) {
        out.push(match e {
            Event::Start(t) => open(t),
            Event::End(_) => json!([")"]),
            Event::Text(t) => json!(["t", t.to_string()]),
            Event::SoftBreak | Event::HardBreak => json!(["t", "\n"]),
            Event::InlineHtml(t) if t.to_string() == "<br>" => json!(["t", "\n"]),
            Event::Rule => json!(["rule"]),
            Event::Html(t) => json!(["htm", t.to_string()]),
            other => json!(["x", format!("{other:?}")]),
        });
    }
    Value::Array(out)
}
#[cfg(not(feature = "md"))]
fn events(_: &str) -> Value {
    Value::Null
}

fn get<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, Value> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(json!({"err": e})),
        Err(e) => Err(json!({"panic": panic_text(e)})),
    }
}

pub fn run(case: &Value, ctx: &Ctx) -> Value {
    let mut p = Presentation::with_title(s(&case["title"]));
    for v in arr(&case["slides"]) {
        p = p.add_slide(deck::slide(v, &ctx.dir));
    }
    let (h, m) = (&case["html"], &case["md"]);
    let ho = HtmlExportOptions::new().with_notes(b(&h["notes"])).with_navigation(b(&h["nav"])).with_syntax_highlight(b(&h["light"])).with_image_files(b(&h["files"]), h["dir"].as_str());
    let mo = MarkdownOptions::new().with_slide_numbers(b(&m["numbers"])).with_separator(s(&m["septext"])).with_notes(b(&m["notes"])).with_gfm_tables(b(&m["tables"])).with_images(b(&m["images"])).with_frontmatter(b(&m["front"]));
    let (hf, mf) = (ctx.dir.join("x.html"), ctx.dir.join("x.md"));
    let (hd, md) = (b(&h["default"]), b(&m["default"]));
    let html = get(|| {
        let a = if hd { export_to_html(&p) } else { export_to_html_with_options(&p, &ho) }.map_err(|e| e.to_string())?;
        if hd {
            p.save_as_html(&hf).map_err(|e| e.to_string())?;
            if std::fs::read_to_string(&hf).map_err(|e| e.to_string())? != a {
                return Err("file differs".into());
            }
        }
        Ok(a)
    });
    let mark = get(|| {
        let a = if md { export_to_markdown(&p) } else { export_to_markdown_with_options(&p, &mo) }.map_err(|e| e.to_string())?;
        if md { p.save_as_markdown(&mf) } else { p.save_as_markdown_with_options(&mf, &mo) }.map_err(|e| e.to_string())?;
        if std::fs::read_to_string(&mf).map_err(|e| e.to_string())? != a {
            return Err("file differs".into());
        }
        Ok(a)
    });
    // the frontmatter is not Markdown: it ends at the second line of dashes
    let split = |t: String, front: bool| {
        if !front {
            return (String::new(), t);
        }
        match t.strip_prefix("---\n").and_then(|r| r.split_once("\n---\n")) {
            Some((a, z)) => (a.to_string(), z.to_string()),
            None => ("?".into(), t),
        }
    };
    json!({
        "html": match html { Ok(t) => json!({"text": t}), Err(e) => e },
        "md": match mark { Ok(t) => { let (f, body) = split(t, b(&m["front"])); json!({"front": f, "text": body, "events": events(&body)}) } Err(e) => e },
    })
}
