use vmon::*;
fn main() {
    drive(
        "C10",
        "stake, unstake, claim, fund, stray transfers, configuration and hook changes on cw20-stake behind its voting module in random order with time moving around claim \
         releases; after every step the pool value, every staker's shares and value, every claim and every wallet are compared with exact 512-bit share arithmetic. \
         Non-trivial: something was staked; distinct: the sequence of operations and outcomes differs",
        &["the cw20 token is cw20-base", "amounts up to 2^122"],
        &["token.send:stake.ok", "stake.unstake.ok", "share-value-not-one", "claimed", "drained"],
        vec![fam("funded", 3000, 60000, stake::cw20_funded), fam("cw20", 1000, 20000, stake::cw20)],
    )
}
