//! Model checking of plotline's in-memory core.
mod big;
mod gen;
mod graphs;
mod joint;
mod lazy;
mod model;
mod open;
mod ops;
mod prog;
mod real;
mod res;
mod several;
mod trig;
mod tx;

use engine::{Prop, Suite, Tier};

const SEQ: &[&str] = &["single-threaded executions (concurrency is C04 and C14)", "executions within the bounds listed per suite"];

fn main() {
    let p = |id, suites| Prop { id, suites, assumptions: SEQ, level: "model_checking" };
    macro_rules! with_sizes {
        ($m:ident::$f:ident $(, $unwinding:literal)*) => {{
            fn f(t: Tier) -> Vec<Box<dyn Suite>> {
                let mut v = engine::also_unwinding(&[$($unwinding),*], $m::$f, t);
                v.extend(big::$f(t));
                v
            }
            f
        }};
    }
    engine::main(&[
        p("C01", |t| {
            let f = with_sizes!(tx::c01);
            let mut v = f(t);
            v.extend(engine::also_unwinding(&["any-order"], open::outcomes, t));
            v.extend(engine::also_unwinding(&["two-schemas"], several::outcomes, t));
            v
        }),
        p("C02", |t| {
            let f = with_sizes!(tx::c02, "types-of-ids", "deep");
            let mut v = f(t);
            v.extend(engine::also_unwinding(&["two-schemas"], several::looks, t));
            v
        }),
        p("C03", |t| {
            let f = with_sizes!(tx::c03, "siblings", "deep");
            let mut v = f(t);
            v.extend(engine::also_unwinding(&["any-order"], open::c03, t));
            v
        }),
        p("C05", |t| {
            let f = with_sizes!(tx::c05);
            let mut v = f(t);
            v.extend(engine::also_unwinding(&["any-order"], open::outcomes, t));
            v.extend(engine::also_unwinding(&["two-schemas"], several::outcomes, t));
            v
        }),
        p("C06", with_sizes!(ops::c06, "many-triggers")),
        p("C07", with_sizes!(ops::c07, "many-triggers")),
        p("C08", with_sizes!(trig::c08, "registration-orders", "executions")),
        p("C09", with_sizes!(ops::c09, "chains", "failing-late")),
        p("C10", with_sizes!(res::c10, "histories")),
        p("C11", |t| {
            let mut v = res::c11(t);
            v.extend(engine::also_unwinding(&["mixed-groups"], joint::c11, t));
            v
        }),
        p("C12", with_sizes!(graphs::c12, "operation-sequences", "lists")),
        p("C13", with_sizes!(graphs::c13, "types-of-ids", "in-transactions", "snapshots")),
        p("C15", with_sizes!(lazy::c15, "histories", "nested")),
    ])
}
