use vmon::*;
fn main() {
    drive(
        "C13",
        "a rewards distributor fed by real voting modules (cw4, token, cw20 and NFT staking, one or two of them) with up to four distributions of a native and a cw20 token, paused, immediate, linear by blocks and by seconds, \
         continuous or not: funding, power changes, claims, withdrawals, emission changes, forged hooks and unannounced transfers at arbitrary and boundary times; after every step every address's pending and claimed rewards, \
         the undistributed amounts, configurations, listings and balances are compared with exact (512-bit) integrals of the emission. Non-trivial: a distribution was funded; distinct: the sequence of operations and outcomes differs",
        &["cw20-base, cw4-group, cw721-base and cw-multi-test are the environment", "voting power is as monitored by C08", "the source of a distribution's voting power is not replaced once it was funded (documented as the owner's responsibility)"],
        &["fund.start", "fund.restart", "fund.restart-leftover", "fund.extend", "fund.backfill", "fund.immediate", "withdrawn", "claimed", "update.linear", "update.immediate", "update.paused", "power.changed", "power.none", "mon.redirected", "mon.source_dropped", "mon.refused_coins"],
        vec![
            fam("members", 500, 8000, rewards::members),
            fam("stakers", 700, 10000, rewards::stakers),
            fam("mixed", 500, 8000, rewards::mixed),
            fam("same-block", 200, 2000, rewards::same_block),
        ],
    )
}
