use vmon::*;
fn main() {
    drive(
        "C17",
        "a vesting payment of the chain's staking token over three validators: delegations, undelegations, redelegations, rewards and their destination, slashes of bonded and unbonding tokens registered at once or later, cancellation, withdrawals and ownership changes, \
         with the chain paying out unbonded tokens at the end of a block; after every step the recorded history of stake (past, present, future), what can be paid and what is held are compared with an exact model and the chain; in the end everything is unwound. \
         Non-trivial: something was delegated; distinct: the sequence of operations and outcomes differs",
        &["the chain's staking module is a stand-in that follows the rules of the Cosmos SDK", "the owner registers slashes truthfully; unbonding slashes that overlap other recorded changes are a recorded finding"],
        &["delegated", "delegated.while-unbonding", "undelegated", "undelegated.after-cancel", "redelegated", "rewards", "rewards.after-cancel", "withdraw-address", "slashed.bonded", "slashed.unbonding", "registered", "registered.late", "registered.canceled", "registered.canceled.spill", "canceled.staked", "withdrawn", "renounce.refused", "unwound", "overlap.yes", "overlap.no", "delegated.stray", "canceled.stray-staked"],
        vec![fam("staking", 9000, 150000, vest::staking_fam), fam("overlap", 60, 2000, vest::overlap_fam)],
    )
}
