use vmon::*;
fn main() {
    drive(
        "C02",
        "random DAO, multiple-choice proposals of 2-4 (sometimes 20) options plus none-of-the-above, every quorum kind; \
         after every step the status, tally and terms of every proposal are compared with a reference computed from the ballots. \
         Non-trivial: some proposal was seen passed or rejected, or was executed or closed; distinct: the sequence of operations and outcomes differs",
        &["the cw4-group contract and cw-multi-test execute as on chain"],
        &["mon.on_the_line", "mon.huge_powers", "mon.passed", "mon.rejected", "mon.early_passed", "mon.early_rejected", "mon.early_confirmed_at_expiry"],
        vec![fam("votes", 6000, 60000, gov::multi_votes), fam("mixed", 3000, 30000, gov::multi_mixed)],
    )
}
