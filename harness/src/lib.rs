pub mod dict;
pub mod engine;
pub mod gen;
pub mod lang;
pub mod model;
pub mod real;
pub mod shrink;
pub mod syntax;
pub mod util;
pub mod all;
pub mod front;
pub mod batch;
pub mod emitted;
pub mod run;
pub mod cli;
pub mod rt;
