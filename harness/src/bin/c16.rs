use vmon::*;
fn main() {
    drive(
        "C16",
        "one vesting payment of a native or cw20 token, linear or piecewise, of 1 to 2^126 units over seconds to years, starting before, at or after its creation: (mis)funding, distributions of parts and all, cancellation, withdrawals, ownership changes, \
         staking attempts and stray transfers at arbitrary and boundary times; after every step the schedule, the status, what can be paid and what is held are compared with an exact model, in the end everything must be payable. \
         Non-trivial: something was paid out; distinct: the sequence of operations and outcomes differs",
        &["cw20-base and cw-multi-test are the environment"],
        &["distributed", "distributed.part", "canceled", "canceled.both", "canceled.unfunded", "funded.cw20", "owner.changed", "owner.renounced", "paid-out", "delegated", "canceled.staked", "withdrawn", "unwound"],
        vec![fam("schedule", 9000, 150000, vest::schedule_fam), fam("staked", 2500, 40000, vest::staked_fam)],
    )
}
