//! Tracing stand-in: attributes and events expand to nothing observable.
pub use tracing_attr_shim::instrument;
#[doc(hidden)]
pub use core::format_args as __fa;
#[macro_export] macro_rules! trace { ($f:literal $($a:tt)*) => {{ let _ = $crate::__fa!($f $($a)*); }}; ($($a:tt)*) => { () } }
#[macro_export] macro_rules! debug { ($f:literal $($a:tt)*) => {{ let _ = $crate::__fa!($f $($a)*); }}; ($($a:tt)*) => { () } }
#[macro_export] macro_rules! info { ($f:literal $($a:tt)*) => {{ let _ = $crate::__fa!($f $($a)*); }}; ($($a:tt)*) => { () } }
#[macro_export] macro_rules! warn { ($f:literal $($a:tt)*) => {{ let _ = $crate::__fa!($f $($a)*); }}; ($($a:tt)*) => { () } }
#[macro_export] macro_rules! error { ($f:literal $($a:tt)*) => {{ let _ = $crate::__fa!($f $($a)*); }}; ($($a:tt)*) => { () } }
