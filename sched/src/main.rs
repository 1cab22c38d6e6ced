//! Model checking of plotline under all thread interleavings up to a preemption bound.
mod docs;
mod res;
mod sched;
mod schema;

use engine::Prop;

const SCHED: &[&str] = &[
    "interleavings of sequentially consistent atomic operations; the weaker orderings of real processors are not explored",
    "switches happen at atomic operations of the code and of inlined parts of std, at blocking calls and in the harness's callbacks, with the number of preemptions bounded as listed per suite",
    "the non-inlined slow paths of std's locks are trusted up to their futex calls",
];

fn main() {
    let p = |id, suites| Prop { id, suites, assumptions: SCHED, level: "model_checking" };
    engine::main(&[p("C04", schema::c04), p("C10", res::c10), p("C11", res::c11), p("C14", docs::c14)])
}
