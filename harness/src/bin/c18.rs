use vmon::*;
fn main() {
    drive(
        "C18",
        "a two-party swap of two native and two cw20 tokens (also both sides the same one): fundings with right, wrong, too small, too large and mixed tokens by parties and outsiders, withdrawals at every stage, forged notices and unannounced transfers; \
         after every step the status and everyone's holdings of every token are compared with a ledger. Non-trivial: the swap completed; distinct: the sequence of operations and outcomes differs",
        &["cw20-base and cw-multi-test are the environment", "the promised cw20 tokens are honest ones"],
        &["funded.native", "funded.cw20", "completed", "withdrawn", "withdraw.refused-done", "refused.amount", "forged", "stray", "init.refused", "same-asset"],
        vec![fam("swap", 4000, 60000, swap::swap)],
    )
}
