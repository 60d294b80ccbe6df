use vmon::*;
fn main() {
    drive(
        "C04",
        "random DAOs with membership changes before, in and after the block a proposal is created in; ballots by members, former members and outsiders, \
         repeats and re-votes; after every step tallies = sum of ballots, ballots = model, acceptance = model. \
         Non-trivial: a proposal reached an outcome; distinct: the sequence of operations and outcomes differs",
        &["the cw4-group contract and cw-multi-test execute as on chain"],
        &["single.vote.ok", "single.vote.err", "multi.vote.ok", "multi.vote.err", "condorcet.vote.ok", "condorcet.vote.err", "mon.huge_powers", "cw4.update_members.ok"],
        vec![fam("single", 5000, 50000, gov::single_votes), fam("multi", 5000, 50000, gov::multi_votes), fam("ranked", 3000, 30000, ranked::run)],
    )
}
