//! C24: every function returns normally for arbitrary bit patterns.
use crate::calls::*;
use crate::core::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// functions whose arguments reach the preconditions (non-zero, finite or unit directions, ordered limits, a parameter
/// equal to itself) asserted by a function they call
const PRE: &[&str] = &["XMVector2ClampLength", "XMVector3ClampLength", "XMVector4ClampLength", "XMMatrixLookAtLH", "XMMatrixLookAtRH", "XMMatrixLookToLH", "XMMatrixLookToRH",
    "XMQuaternionBaryCentric", "XMQuaternionSlerp", "XMQuaternionSquad"];

pub fn run(m: &mut Mon) {
    for &(name, pre, f) in CALLS.iter().chain(EXTRA) {
        m.run(name, 400, |c| {
            let r = catch_unwind(AssertUnwindSafe(|| { let mut g = G::new(c); f(&mut g) }));
            match r {
                Ok(o) => { let n = o.len(); c.check(true, || String::new()); bb(n); }
                Err(e) => {
                    let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    // a debug precondition refusing the argument is not an abnormal end
                    if (pre || PRE.contains(&name) || name.starts_with("Bounding")) && cfg!(debug_assertions) && s.starts_with("assertion") { c.skip(); return; }
                    c.check(false, || format!("panicked: {}", s));
                }
            }
        });
    }
}
