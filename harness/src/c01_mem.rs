//! C01: every function with its by-reference arguments placed against inaccessible memory (or in exact heap blocks under
//! Miri / AddressSanitizer). The verdict is the absence of a fault or report; values are only looked at to keep them alive.
use crate::calls::*;
use crate::core::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn run(m: &mut Mon) {
    for &(name, _, f) in CALLS.iter().chain(EXTRA) {
        m.run(name, 1000, |c| {
            let salt = c.r.u64();
            let r = catch_unwind(AssertUnwindSafe(|| { let mut g = G::new(c); g.out = Rng::new(salt); f(&mut g) }));
            match r {
                // a bool or enum with an invalid representation is as undefined as a stray access
                Ok(o) => { let x = o.iter().fold(0u32, |a, b| a ^ b); if x == 0x5EED_1234 { bb(x); } c.check(true, String::new); }
                Err(_) => c.skip(), // refused by a precondition in debug builds, see C24
            }
        });
    }
}
