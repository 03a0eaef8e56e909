//! Monitors, reference models, fault-injecting sinks and workload generators
//! for the runtime monitoring of stylish-rs. Nothing in here looks at how the
//! code under test is written, only at what crosses its public API.
mod checks;
mod doc;
mod drive;
mod gen;
mod html;
mod model;
mod mon;
mod rng;
mod sink;
mod vt;
#[global_allocator]
static ALLOC: checks::alloc::Counting = checks::alloc::Counting;

use drive::Back;
use mon::Mon;

fn main() {
    let id = std::env::args().nth(1).expect("which property");
    let m = |p, rule| Mon::new(p, rule);
    match id.as_str() {
        "cost" => checks::cost::main(&std::env::args().skip(2).collect::<Vec<_>>()),
        "C01" => checks::fidelity::run(m("C01", "sequences of styled writes: every pair of styles, walks over all transitions of attribute pairs, every Unicode scalar value, random scripts and nested values, through both ANSI writers by seven ways of writing; non-trivial if text appears in more than one style"), &[Back::Ansi, Back::IoAnsi]),
        "C03" => checks::fidelity::run(m("C03", "sequences of styled writes: every pair of styles, walks over all transitions of attribute pairs, every Unicode scalar value, random scripts and nested values, through the HTML writer by seven ways of writing; non-trivial if text appears in more than one style"), &[Back::Html]),
        "C02" => checks::end::run(m("C02", "sequences of styled writes into a sink that has text before and gets text after: every last style after several predecessors, random scripts, concatenations; non-trivial if there is styled text")),
        "C04" => checks::markup::run(m("C04", "texts for the HTML writer: every character, every short string over a hostile alphabet, special characters at every offset, random hostile scripts and nested values; non-trivial if the text has special characters")),
        "C05" => checks::text::run(m("C05", "styled texts and nested values through all five writers, styling removed from the output; non-trivial if there is styled text")),
        "C06" => checks::algebra::run(m("C06", "pairs of styles, differences and random compositions of restyles; non-trivial if the styles differ, the difference names something, or the restyle is composite")),
        "C07" => checks::nesting::run(m("C07", "nested user-defined values written into a recording writer through several routes; non-trivial if nested")),
        "C12" => checks::replay::run(m("C12", "histories of writes, clones, appends, nestings and renderings over four styled strings, all pairs of styles, all short write sequences; non-trivial if more than two operations")),
        "C13" => checks::io::c13(m("C13", "a work (script or nested value) rendered through an IO writer with short writes and interruptions injected at chosen sink calls, compared with the bytes of the fault-free run; each fault placement is a case")),
        "C14" => checks::io::c14(m("C14", "single writes, write_all and flush calls over sinks with a chosen outcome at each call, each result checked against the log of sink calls; each placement or history is a case")),
        "C15" => checks::fail::c15(m("C15", "a work with a failure injected at one sink call, or with one leaf value failing; every placement is a case")),
        "C16" => checks::fail::c16(m("C16", "histories on one writer in which values fail and the sink refuses marked texts, checked after each step and after finishing")),
        "C17" => checks::minimal::run(m("C17", "styled characters cut into writes in two ways and compared, escape sequences and elements counted against changes of style; non-trivial if there are at least two writes")),
        "C18" => checks::entry::run(m("C18", "random values rendered by every entry point of a backend, outputs compared; non-trivial if there is styled text")),
        "C19" => checks::alloc::run(m("C19", "scripts, values using all formatting traits and deep nestings rendered into fixed buffers under a counting allocator; non-trivial if there is more than one text")),
        "C21" => checks::isolation::run(m("C21", "several writers interleaved on one thread against each alone, threads sharing styled strings and handing writers on, everything at once under sanitizers; each seeded workload is a case")),
        "C22" => checks::forward::run(m("C22", "operations on user-defined writers through every way to hand them on, checked against the log of calls they received; user-defined values, restyles, sinks and other types with a write_fmt; each history or value is a case")),
        "C23" => checks::panics::run(m("C23", "works in which a value, a restyle or the sink panics at a chosen point, with the writer used again, dropped or finished afterwards; every placement is a case")),
        "C24" => checks::view::run(m("C24", "histories in which writers over sinks that are told apart are made, written to, cloned, taken, swapped, dropped and finished, every sink looked at after every step and within renderings; non-trivial if there are more than two operations")),
        _ => {
            eprintln!("no such property: {id}");
            std::process::exit(2);
        }
    }
}
