//! Stand-in for the logging crate `tracing`, used only when the MIR of bromine is produced for the
//! verifier: `#[instrument]` is the identity; a logging macro evaluates what it logs if logging is
//! enabled, which the contract of `enabled` leaves open, and evaluates nothing otherwise.
//! Fields that are only names or paths of fields have nothing to evaluate.
pub use vp_tracing_attributes::instrument;

#[inline(never)]
pub fn enabled() -> bool {
    std::env::args().count() > 3
}

#[doc(hidden)]
#[macro_export]
macro_rules! __eval {
    () => { () };
    (target: $e:expr $(, $($r:tt)*)?) => { $crate::__eval!($($($r)*)?) };
    (parent: $e:expr $(, $($r:tt)*)?) => { $crate::__eval!($($($r)*)?) };
    (name: $e:expr $(, $($r:tt)*)?) => { $crate::__eval!($($($r)*)?) };
    ({ $($f:tt)* } $(, $($r:tt)*)?) => {{ $crate::__eval!($($f)*); $crate::__eval!($($($r)*)?) }};
    // a name or a field
    ($($n:ident).+ $(, $($r:tt)*)?) => { $crate::__eval!($($($r)*)?) };
    (? $($n:ident).+ $(, $($r:tt)*)?) => { $crate::__eval!($($($r)*)?) };
    (% $($n:ident).+ $(, $($r:tt)*)?) => { $crate::__eval!($($($r)*)?) };
    ($($n:ident).+ = $($m:ident).+ $(, $($r:tt)*)?) => { $crate::__eval!($($($r)*)?) };
    ($($n:ident).+ = ? $($m:ident).+ $(, $($r:tt)*)?) => { $crate::__eval!($($($r)*)?) };
    ($($n:ident).+ = % $($m:ident).+ $(, $($r:tt)*)?) => { $crate::__eval!($($($r)*)?) };
    ($($n:ident).+ = $m:literal $(, $($r:tt)*)?) => { $crate::__eval!($($($r)*)?) };
    ($m:literal $(, $($r:tt)*)?) => { $crate::__eval!($($($r)*)?) };
    // something to evaluate
    ($($n:ident).+ = ? $e:expr $(, $($r:tt)*)?) => { $crate::__eval!(@ $e $(, $($r)*)?) };
    ($($n:ident).+ = % $e:expr $(, $($r:tt)*)?) => { $crate::__eval!(@ $e $(, $($r)*)?) };
    ($($n:ident).+ = $e:expr $(, $($r:tt)*)?) => { $crate::__eval!(@ $e $(, $($r)*)?) };
    ($n:literal = ? $e:expr $(, $($r:tt)*)?) => { $crate::__eval!(@ $e $(, $($r)*)?) };
    ($n:literal = % $e:expr $(, $($r:tt)*)?) => { $crate::__eval!(@ $e $(, $($r)*)?) };
    ($n:literal = $e:expr $(, $($r:tt)*)?) => { $crate::__eval!(@ $e $(, $($r)*)?) };
    (? $e:expr $(, $($r:tt)*)?) => { $crate::__eval!(@ $e $(, $($r)*)?) };
    (% $e:expr $(, $($r:tt)*)?) => { $crate::__eval!(@ $e $(, $($r)*)?) };
    (@ $e:expr $(, $($r:tt)*)?) => {{
        if $crate::enabled() {
            let _ = &$e;
        }
        $crate::__eval!($($($r)*)?)
    }};
    ($e:expr $(, $($r:tt)*)?) => { $crate::__eval!(@ $e $(, $($r)*)?) };
}
#[macro_export]
macro_rules! trace { ($($t:tt)*) => { $crate::__eval!($($t)*) }; }
#[macro_export]
macro_rules! debug { ($($t:tt)*) => { $crate::__eval!($($t)*) }; }
#[macro_export]
macro_rules! info { ($($t:tt)*) => { $crate::__eval!($($t)*) }; }
#[macro_export]
macro_rules! warn { ($($t:tt)*) => { $crate::__eval!($($t)*) }; }
#[macro_export]
macro_rules! error { ($($t:tt)*) => { $crate::__eval!($($t)*) }; }
#[macro_export]
macro_rules! event {
    (target: $e:expr, $l:expr $(, $($t:tt)*)?) => { $crate::__eval!($($($t)*)?) };
    ($l:expr $(, $($t:tt)*)?) => { $crate::__eval!($($($t)*)?) };
}
#[derive(Clone, Copy, Debug)]
pub struct Level;
impl Level {
    pub const TRACE: Level = Level;
    pub const DEBUG: Level = Level;
    pub const INFO: Level = Level;
    pub const WARN: Level = Level;
    pub const ERROR: Level = Level;
}
