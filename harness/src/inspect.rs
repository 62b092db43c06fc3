// Validates and repairs packages on disk.
use crate::util::{arr, panic_text, s};
use crate::Ctx;
use ppt_rs::core::validate_package_bytes;
use ppt_rs::oxml::repair::{PptxRepair, RepairIssue};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn issue(i: &RepairIssue) -> Value {
    let (k, a, b) = match i {
        RepairIssue::MissingPart { path, .. } => ("part", path.clone(), String::new()),
        RepairIssue::InvalidXml { path, .. } => ("xml", path.clone(), String::new()),
        RepairIssue::BrokenRelationship { source, rel_id, .. } => ("rel", source.clone(), rel_id.clone()),
        RepairIssue::MissingSlideReference { slide_path } => ("unlisted", slide_path.clone(), String::new()),
        RepairIssue::OrphanSlide { slide_path } => ("orphan", slide_path.clone(), String::new()),
        RepairIssue::InvalidContentType { path } => ("type", path.clone(), String::new()),
        RepairIssue::CorruptedEntry { path, .. } => ("entry", path.clone(), String::new()),
        RepairIssue::MissingNamespace { path, .. } => ("ns", path.clone(), String::new()),
        RepairIssue::EmptyRequiredElement { path, .. } => ("empty", path.clone(), String::new()),
    };
    json!([k, a, b])
}
fn issues(v: &[RepairIssue]) -> Value {
    Value::Array(v.iter().map(issue).collect())
}

fn validate(path: &str) -> Value {
    let data = std::fs::read(path).unwrap();
    let r = validate_package_bytes(&data);
    json!({"valid": r.is_valid(), "issues": r.issues.iter().map(|i| json!([format!("{:?}", i.severity), format!("{:?}", i.category), i.path.clone().unwrap_or_default()])).collect::<Vec<_>>()})
}

fn repair(path: &str, out: &str) -> Value {
    let step = |from: &str, to: &str, bytes: bool| -> Result<Value, String> {
        let e = |x: ppt_rs::PptxError| x.to_string();
        let mut r = if bytes { PptxRepair::from_bytes(&std::fs::read(from).unwrap()) } else { PptxRepair::open(from) }.map_err(e)?;
        let seen = issues(&r.validate());
        let res = r.repair();
        if bytes {
            std::fs::write(to, r.to_bytes().map_err(e)?).unwrap();
        } else {
            r.save(to).map_err(e)?;
        }
        Ok(json!({"seen": seen, "found": issues(&res.issues_found), "repaired": issues(&res.issues_repaired), "unrepaired": issues(&res.issues_unrepaired),
            "valid": res.is_valid, "total": res.total_issues(), "critical": res.critical_issues(), "full": res.fully_repaired(), "after": issues(&r.validate())}))
    };
    let once = format!("{out}-1.pptx");
    let twice = format!("{out}-2.pptx");
    match step(path, &once, false).and_then(|a| step(&once, &twice, true).map(|b| (a, b))) {
        Ok((a, b)) => json!({"once": a, "twice": b, "files": [once, twice]}),
        Err(e) => json!({"err": e}),
    }
}

pub fn run(case: &Value, ctx: &Ctx) -> Value {
    let mut o = Vec::new();
    for (k, what) in arr(&case["do"]).iter().enumerate() {
        let path = s(&what["path"]).to_string();
        let out = ctx.dir.join(format!("{}-{k}", s(&case["id"]))).to_str().unwrap().to_string();
        let r = catch_unwind(AssertUnwindSafe(|| match s(&what["op"]) {
            "validate" => validate(&path),
            _ => repair(&path, &out),
        }));
        o.push(r.unwrap_or_else(|e| json!({"panic": panic_text(e)})));
    }
    Value::Array(o)
}
