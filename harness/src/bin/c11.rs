use vmon::*;
fn main() {
    drive(
        "C11",
        "real DAOs (cw4, token-staked or cw20-staked voting) whose single- or multiple-choice module takes proposals through its pre-propose module, and the approval variant: \
         proposals with exact, short, excess, missing and foreign payments, ballots, executions, closures, vetoes, configuration and policy changes, withdrawals and forged completions; \
         after every step every balance is compared with a ledger and every deposit record, the configuration and can_propose with a model. \
         Non-trivial: a proposal was accepted; distinct: the sequence of operations and outcomes differs",
        &["cw20-base, cw4-group and cw-multi-test are the environment", "whether and when a proposal completes is taken from its module (decided by C01, C02, C05, C06)", "no completion is attempted while the DAO has withdrawn its deposit"],
        &["deposit.native", "deposit.cw20", "refused.policy", "refused.payment", "refused.autovote", "refused.receiver", "mon.submission_told", "mon.not_completed", "completed.executed", "completed.execution_failed", "completed.closed", "completed.vetoed",
          "resolved.always.executed", "resolved.always.not-executed", "resolved.only_passed.executed", "resolved.only_passed.not-executed", "resolved.never.executed", "resolved.never.not-executed", "withdrawn"],
        vec![fam("single", 900, 12000, prepro::single), fam("multi", 700, 9000, prepro::multi), fam("approval", 700, 9000, prepro::approval)],
    )
}
