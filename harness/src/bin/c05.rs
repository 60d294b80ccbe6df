use vmon::*;
fn main() {
    drive(
        "C05",
        "random DAOs holding a treasury; proposals pay unique payees, some with failing or re-entrant messages; execute/close/veto by members and outsiders at every \
         stage; after every step each payee holds exactly what executed proposals owe and every proposal shows the model's status. \
         Non-trivial: a proposal reached an outcome; distinct: the sequence of operations and outcomes differs",
        &["the cw4-group contract and cw-multi-test execute as on chain"],
        &["mon.executed", "mon.gated", "mon.handover", "mon.many_proposals", "mon.crowd", "mon.execution_failed", "single.close.ok", "multi.close.ok", "single.execute.err", "multi.execute.err", "condorcet.execute.ok", "condorcet.execute.err", "condorcet.close.ok"],
        vec![fam("single", 5000, 50000, gov::single_life), fam("multi", 5000, 50000, gov::multi_life), fam("single-long", 60, 1200, gov::single_long), fam("multi-long", 60, 1200, gov::multi_long), fam("ranked", 3000, 30000, ranked::run)],
    )
}
