use vmon::*;
fn main() {
    drive(
        "C12",
        "a DAO behind the approval pre-propose module, with a person or a whole approver DAO as approver: submissions, decisions by the approver and by others, repeated decisions, \
         approver changes and resets, ballots, executions, closures and vetoes in both DAOs; after every step every pre-proposal, its listings, the proposals of both DAOs and every balance are compared with a model. \
         Non-trivial: a pre-proposal was accepted; distinct: the sequence of operations and outcomes differs",
        &["cw20-base, cw4-group and cw-multi-test are the environment", "whether and when a proposal completes is taken from its module (decided by C01, C05, C06)", "no decision is attempted that the approval module must refuse (deposit withdrawn, automatic ballot of a non-member)"],
        &["approved", "rejected", "approver.executed", "approver.closed", "approver.vetoed", "approver.reset", "mon.submission_told", "refused.receiver"],
        vec![fam("approval", 2200, 30000, prepro::approval)],
    )
}
