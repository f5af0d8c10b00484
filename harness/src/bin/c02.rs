//! C02: what is typed as non-empty is not empty.
#[path = "../conts.rs"]
mod conts;
#[path = "../hist.rs"]
mod hist;
use hist::*;
use vh::*;

/// Histories broken in other ways than by a false proof are not judged here.
fn only_proofs(st: &mut Stats, f: impl FnOnce(&mut Stats) -> Res) -> Res {
    match catch_msg(|| f(st)) {
        Ok(Err(m)) if m == ABANDON => {
            st.label("abandoned");
            Ok(())
        }
        Err(_) => {
            st.label("abandoned: panic");
            Ok(())
        }
        Ok(r) => r,
    }
}
fn history(c: &Case, st: &mut Stats) -> Res {
    only_proofs(st, |st| run(Prop::Truthful, c.ty, &setup(c), Plan::History(&c.ops), st))
}
fn one(s: &Step, st: &mut Stats) -> Res {
    only_proofs(st, |st| run_step(Prop::Truthful, s, st))
}

fn main() {
    vh::main(vec![
        exhaustive("steps", "every operation on every combination of particles of containers of every kind up to length 4 (6 thorough), boundary integers; non-trivial: a particle was handed out or an element accessed", steps, one),
        group("histories", "operation sequences over every kind of container; non-trivial: at least 3 proven values and 3 different operations handing out particles", 60000, histories, history),
        group("large", "the same on containers of up to some thousand elements; non-trivial as above", 15000, large_histories, history),
        group("huge", "the same on containers of any length up to the maximum; non-trivial as above", 30000, huge_histories, history),
    ]);
}
