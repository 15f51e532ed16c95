//! Monitors, reference models and workload generators shared by the
//! per-property binaries.
#![allow(future_incompatible)]
pub mod ctx;
pub mod elem;
pub mod guard;
pub mod heap;
pub mod model;
pub mod ops;
pub mod rng;

pub use ctx::*;
pub use elem::*;
pub use model::*;
pub use rng::Rng;

pub use matreex::{Error, Index, Matrix, Order, Shape, WrappingIndex};

/// Returns an error from the enclosing function unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond { return Err(format!($($arg)*)); }
    };
}

/// Returns an error from the enclosing function unless both sides are equal.
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b)); }
    }};
}

pub const ORDERS: [Order; 2] = [Order::RowMajor, Order::ColMajor];

pub fn oname(o: Order) -> &'static str {
    match o { Order::RowMajor => "R", Order::ColMajor => "C" }
}

/// Extents beyond 255 on both axes, and beyond 65 535 on one.
pub const VAST: [(usize, usize); 10] = [(257, 256), (256, 300), (301, 300), (290, 290), (1, 66_000), (66_000, 1), (2, 33_100), (33_100, 2), (3, 66_000), (66_000, 3)];

/// The checking allocator, in the builds that have no sanitizer of their own.
#[macro_export]
macro_rules! checked_heap {
    () => {
        #[cfg(feature = "heap")]
        #[global_allocator]
        static HEAP: $crate::heap::Checked = $crate::heap::Checked;
    };
}
