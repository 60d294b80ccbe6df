use vmon::*;
fn main() {
    drive(
        "C14",
        "a real cw20-stake pool with one or two external-rewards contracts (native, foreign cw20 or the staked token itself) hooked to it and a reward distributor feeding it: stakes, unstakes, fundings inside and after a period, \
         duration changes, claims, distributions, reconfigurations, withdrawals, forged hooks, ownership changes and unannounced transfers, at arbitrary and boundary blocks; after every step everyone's pending and claimed rewards, \
         the schedule, the holdings and what is still to be emitted are compared with exact integrals. Non-trivial: a reward period was funded; distinct: the sequence of operations and outcomes differs",
        &["cw20-base and cw-multi-test are the environment", "stakes are read from cw20-stake (decided by C10)"],
        &["funded.first", "funded.again", "claimed", "stake.changed", "stake.none", "distributed", "distributed.short", "rd.configured", "rd.withdrawn"],
        vec![fam("pool", 1500, 20000, extrew::pool)],
    )
}
