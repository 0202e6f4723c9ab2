//! Logging stand-in: the arguments are evaluated (as `format_args!` does), nothing is formatted.
#[doc(hidden)]
pub use core::format_args as __fa;
#[macro_export] macro_rules! log {
    (target: $t:expr, $lvl:expr, $($a:tt)+) => {{ let _ = &$t; let _ = $crate::__fa!($($a)+); }};
    ($lvl:expr, $($a:tt)+) => {{ let _ = $crate::__fa!($($a)+); }};
}
#[macro_export] macro_rules! trace { (target: $t:expr, $($a:tt)+) => {{ let _ = $crate::__fa!($($a)+); }}; ($($a:tt)+) => {{ let _ = $crate::__fa!($($a)+); }} }
#[macro_export] macro_rules! debug { (target: $t:expr, $($a:tt)+) => {{ let _ = $crate::__fa!($($a)+); }}; ($($a:tt)+) => {{ let _ = $crate::__fa!($($a)+); }} }
#[macro_export] macro_rules! info { (target: $t:expr, $($a:tt)+) => {{ let _ = $crate::__fa!($($a)+); }}; ($($a:tt)+) => {{ let _ = $crate::__fa!($($a)+); }} }
#[macro_export] macro_rules! warn { (target: $t:expr, $($a:tt)+) => {{ let _ = $crate::__fa!($($a)+); }}; ($($a:tt)+) => {{ let _ = $crate::__fa!($($a)+); }} }
#[macro_export] macro_rules! error { (target: $t:expr, $($a:tt)+) => {{ let _ = $crate::__fa!($($a)+); }}; ($($a:tt)+) => {{ let _ = $crate::__fa!($($a)+); }} }
#[macro_export] macro_rules! log_enabled { ($($a:tt)*) => { false } }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Level { Error = 1, Warn, Info, Debug, Trace }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum LevelFilter { Off, Error, Warn, Info, Debug, Trace }
pub fn max_level() -> LevelFilter { LevelFilter::Off }
