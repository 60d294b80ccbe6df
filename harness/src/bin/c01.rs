use vmon::*;
fn main() {
    drive(
        "C01",
        "random DAO (1-6 voters, weights from 0/1 to 2^127, often exactly on the line or one short of it, every threshold kind incl. exact k/n percentages, \
         majority, 100%, zero quorum), random histories of proposals, ballots, membership changes, config changes and clock \
         moves incl. the block before/at/after each deadline; after every step the status and terms of every proposal are \
         compared with a reference computed from the ballots. Non-trivial: some proposal was seen passed or rejected, or was executed or closed; \
         distinct: the sequence of operations and their outcomes differs",
        &["the cw4-group contract and cw-multi-test execute as on chain"],
        &["mon.on_the_line", "mon.huge_powers", "mon.passed", "mon.rejected", "mon.early_passed", "mon.early_rejected", "mon.early_confirmed_at_expiry"],
        vec![fam("votes", 6000, 60000, gov::single_votes), fam("mixed", 3000, 30000, gov::single_mixed)],
    )
}
