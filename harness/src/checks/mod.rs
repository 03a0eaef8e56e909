pub mod algebra;
pub mod end;
pub mod fidelity;
pub mod markup;
pub mod nesting;
pub mod text;
pub mod io;
pub mod replay;
pub mod fail;
pub mod minimal;
pub mod alloc;
pub mod entry;
pub mod isolation;
pub mod forward;
pub mod panics;
pub mod view;
pub mod cost;
