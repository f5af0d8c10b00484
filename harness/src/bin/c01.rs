//! C01: histories of safe operations stay inside the container.
#[path = "../conts.rs"]
mod conts;
#[path = "../hist.rs"]
mod hist;
use hist::*;
use vh::*;

fn history(c: &Case, st: &mut Stats) -> Res {
    run(Prop::InBounds, c.ty, &setup(c), Plan::History(&c.ops), st)
}
fn one(s: &Step, st: &mut Stats) -> Res {
    run_step(Prop::InBounds, s, st)
}

fn main() {
    vh::main(vec![
        exhaustive("steps", "every operation on every combination of particles of containers of every kind up to length 4 (6 thorough), boundary integers; non-trivial: a particle was handed out or an element accessed", steps, one),
        group("histories", "operation sequences over every kind of container; non-trivial: at least 6 particles from 3 different operations and an element access", 60000, histories, history),
        group("large", "the same on containers of up to some thousand elements; non-trivial as above", 15000, large_histories, history),
        group("huge", "the same on containers of any length up to the maximum; non-trivial as above", 30000, huge_histories, history),
    ]);
}
