#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
//! Model checking of plotline's command line and its local repository.
mod cmd;
mod faults;
mod ignored;
mod inter;
mod scratch;
mod tree;

use engine::{Prop, Tier};

const FS: &[&str] = &[
    "Linux file semantics on the scratch file system (tmpfs), running as the current user",
    "no ignore files above the explored trees, nor in them unless a suite says so; names may be hidden",
    "the ignore, regex and clap crates are part of what runs, not modelled",
];

fn main() {
    // The environment the walker looks at.
    if let Some(s) = std::env::var_os("MC_SCRATCH") {
        unsafe {
            std::env::set_var("HOME", &s);
            std::env::set_var("XDG_CONFIG_HOME", &s);
        }
    }
    // As the command does, except that nobody reads what is logged.
    let _ = tracing_subscriber::fmt().with_max_level(tracing::Level::INFO).with_writer(std::io::sink).try_init();
    inter::selftest(&scratch::root());
    let p = |id, suites| Prop { id, suites, assumptions: FS, level: "model_checking" };
    engine::main(&[
        p("C16", |t: Tier| {
            // The large ones go last.
            let mut s = vec![tree::odd_bases(), ignored::c16(t)];
            s.extend(tree::c16(t));
            s
        }),
        p("C17", tree::c17),
        p("C18", cmd::c18),
        p("C19", faults::c19),
    ])
}
