//! Model checking of the interval plugin: its search tree and its dates.
mod big;
mod dates;
mod trees;

use engine::Prop;

const IV: &[&str] = &[
    "executions within the bounds listed per suite",
    "intervals whose lower bound does not exceed the upper one",
    "the plugin's crate is compiled as it is, with a stand-in for the trait `property::Extractor` that the library lacks",
];

fn main() {
    let p = |id, suites| Prop { id, suites, assumptions: IV, level: "model_checking" };
    engine::main(&[p("C20", |t| [trees::c20(t), big::c20(t)].into_iter().flatten().collect()), p("C21", |t| [trees::c21(t), big::c21(t)].into_iter().flatten().collect()), p("C22", dates::c22)])
}
