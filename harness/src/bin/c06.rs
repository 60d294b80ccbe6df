use vmon::*;
fn main() {
    drive(
        "C06",
        "random DAOs with veto configurations (delay 0-8 units, early execution and veto-before-pass on and off); veto and execute by the vetoer, members and \
         outsiders before, inside and after the time lock, at the exact boundary blocks. \
         Non-trivial: a proposal reached an outcome; distinct: the sequence of operations and outcomes differs",
        &["the cw4-group contract and cw-multi-test execute as on chain"],
        &["mon.vetoed", "mon.timelock_seen", "mon.early_executed", "single.veto.err", "multi.veto.err"],
        vec![fam("single", 5000, 50000, gov::single_veto), fam("multi", 5000, 50000, gov::multi_veto)],
    )
}
