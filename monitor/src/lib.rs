//! Runtime monitor for code generated by the `bitfield` macros.
//!
//! A harness (generated by /verif/vlib) wraps every generated bitfield in a
//! `Subject`, which forwards operations to the real generated functions. The
//! driver records each operation and its result and checks it online against a
//! bit-level reference model that is written from the documentation and knows
//! nothing about how the macro generates its code.

pub mod alloc;
pub mod driver;
pub mod flags;
pub mod model;
pub mod ops;
pub mod report;
pub mod rng;

pub use ops::*;

/// Calls generated code, measuring only the call itself.
#[macro_export]
macro_rules! call {
    ($ret:expr, $e:expr) => {{
        let before = $crate::alloc::count();
        let value = $e;
        let after = $crate::alloc::count();
        $ret.allocs += after - before;
        $ret.put(value);
    }};
}

/// Like `call`, for results that aren't recorded as they are.
#[macro_export]
macro_rules! callv {
    ($ret:expr, $e:expr) => {{
        let before = $crate::alloc::count();
        let value = $e;
        let after = $crate::alloc::count();
        $ret.allocs += after - before;
        value
    }};
}
