//! hands the macros on, those of stylish and the same with std's

#[doc(hidden)]
pub use stylish as inner_stylish;

pub mod again {
    pub use stylish::plain::format;
    pub use stylish::{format_args, write, writeln};
    pub use stylish::Write;
}
pub mod std_again {
    pub use std::fmt::Write;
    pub use std::{format, format_args, write, writeln};
}

#[macro_export]
macro_rules! sty_say {
    ($($t:tt)*) => { $crate::inner_stylish::plain::format!($($t)*) };
}
#[macro_export]
macro_rules! std_say {
    ($($t:tt)*) => { ::std::format!($($t)*) };
}
#[macro_export]
macro_rules! sty_labelled {
    ($label:literal, $value:expr) => {{
        let width = 3;
        let _ = width;
        $crate::inner_stylish::plain::format!(concat!($label, "={}"), $value)
    }};
    ($label:literal, $fmt:literal, $($args:tt)*) => {
        $crate::inner_stylish::plain::format!("{}: {:s}", $label, $crate::inner_stylish::format_args!($fmt, $($args)*))
    };
}
#[macro_export]
macro_rules! std_labelled {
    ($label:literal, $value:expr) => {{
        let width = 3;
        let _ = width;
        ::std::format!(concat!($label, "={}"), $value)
    }};
    ($label:literal, $fmt:literal, $($args:tt)*) => {
        ::std::format!("{}: {}", $label, ::std::format_args!($fmt, $($args)*))
    };
}
#[macro_export]
macro_rules! sty_local {
    ($value:expr) => {{
        let value = $value;
        let inner = 7;
        $crate::inner_stylish::plain::format!("{value}/{inner}/{value:?}")
    }};
}
#[macro_export]
macro_rules! std_local {
    ($value:expr) => {{
        let value = $value;
        let inner = 7;
        ::std::format!("{value}/{inner}/{value:?}")
    }};
}
#[macro_export]
macro_rules! sty_to {
    ($w:expr, $($t:tt)*) => { $crate::inner_stylish::write!($w, $($t)*) };
}
#[macro_export]
macro_rules! std_to {
    ($w:expr, $($t:tt)*) => { ::std::write!($w, $($t)*) };
}
