use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".to_string()
    }
}

pub fn u(v: &Value) -> usize {
    if let Some(s) = v.as_str() {
        return match s {
            "max" => usize::MAX,
            "half" => usize::MAX / 2,
            "max32" => u32::MAX as usize,
            _ => s.parse().unwrap(),
        };
    }
    v.as_u64().unwrap_or(0) as usize
}
pub fn u32v(v: &Value) -> u32 {
    if let Some(s) = v.as_str() {
        return if s == "max" { u32::MAX } else { s.parse().unwrap() };
    }
    v.as_u64().unwrap_or(0) as u32
}
pub fn s(v: &Value) -> &str {
    v.as_str().unwrap_or("")
}
pub fn b(v: &Value) -> bool {
    v.as_bool().unwrap_or(false)
}
pub fn arr(v: &Value) -> &[Value] {
    v.as_array().map(|a| a.as_slice()).unwrap_or(&[])
}

/// Applies the operations one by one.  An operation marked "probe" is applied to a clone.
/// A panic ends the sequence with {"panic": text}.
pub fn drive<S: Clone>(mut st: S, ops: &[Value], f: impl Fn(&mut S, &Value) -> Value) -> Value {
    let mut out = Vec::new();
    for op in ops {
        let r = if b(&op["probe"]) {
            let mut c = st.clone();
            catch_unwind(AssertUnwindSafe(|| f(&mut c, op)))
        } else {
            catch_unwind(AssertUnwindSafe(|| f(&mut st, op)))
        };
        match r {
            Ok(v) => out.push(v),
            Err(e) => {
                out.push(json!({"panic": panic_text(e)}));
                if !b(&op["probe"]) {
                    break;
                }
            }
        }
    }
    Value::Array(out)
}
