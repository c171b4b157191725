//! The benchmark crate: three arithmetic evaluators, three JSON parsers.

mod arith;
mod json;

fn main() {
    let mut v = arith::props();
    v.extend(json::props());
    vh::engine::main(Box::leak(v.into_boxed_slice()))
}
