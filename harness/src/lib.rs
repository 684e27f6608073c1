#![allow(dead_code, unused_imports, unused_macros, clippy::all)]
/// Defines harnesses and the table through which the replay binary finds them.
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $($(#[$m])* #[unsafe(no_mangle)] pub extern "C" fn $n() $b)*
        pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n),)*];
    };
}
pub(crate) use harnesses;

/// Like `assert!(a == b)`, without formatting code.
macro_rules! same {
    ($a:expr, $b:expr) => {
        if !($a == $b) {
            $crate::differ(concat!(stringify!($a), " differs from ", stringify!($b)))
        }
    };
}
pub(crate) use same;
#[track_caller]
#[cold]
pub fn differ(s: &'static str) -> ! {
    panic!("{s}")
}

/// True in the thorough tier.
pub const DEEP: bool = cfg!(feature = "thorough");
/// Picks a bound by tier.
pub const fn tier(quick: usize, thorough: usize) -> usize {
    if DEEP {
        thorough
    } else {
        quick
    }
}

pub mod cx;
pub mod fmts;
pub mod jsn;
pub mod model;
pub mod rt;
pub mod sym;
pub mod zc;

macro_rules! modules {
    ($($m:ident $f:literal),* $(,)?) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn find(n: &str) -> Option<extern "C" fn()> {
            $(#[cfg(feature = $f)]
            for (k, f) in $m::TABLE {
                if *k == n { return Some(*f); }
            })*
            None
        }
    };
}
include!("modules.rs");
