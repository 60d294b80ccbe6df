use vmon::*;
fn main() {
    drive(
        "C03",
        "random DAO with a ranked-choice module, 1-4 options plus none-of-the-above, 1-7 voters, random and correlated ballots, malformed ballots, membership \
         and config changes, clock moves to the boundary blocks; after every step status, outstanding power and payee balances are compared with pairwise counts \
         recomputed from the raw ballots. Non-trivial: a proposal was decided; distinct: the sequence of operations and outcomes differs",
        &["the cw4-group contract and cw-multi-test execute as on chain"],
        &["mon.on_the_line", "mon.huge_powers", "mon.early_passed", "mon.early_rejected", "mon.executed", "mon.execution_failed", "condorcet.vote.err"],
        vec![fam("ranked", 8000, 80000, ranked::run)],
    )
}
