use vmon::*;
fn main() {
    drive(
        "C08",
        "stake-changing operations on the voting modules and their staking contracts in random order with several operations per block; after every step the power of users and \
         the total are queried at the current, past and future heights (biased to the heights around changes) and compared with the model's start-of-block snapshots. \
         Non-trivial: something was staked or a member changed; distinct: the sequence of operations and outcomes differs",
        &["cw4-group, cw20-base, cw721-base and the x/onft and x/tokenfactory stand-ins behave as their originals"],
        &["token.send:stake.ok", "stake.stake.ok", "stake.unstake.ok", "vm.confirm_stake.ok", "roles.mint.ok", "group.update_members.ok"],
        vec![
            fam("cw20", 1200, 24000, stake::cw20),
            fam("token", 1200, 24000, stake::token),
            fam("cw721", 1200, 24000, nft::cw721),
            fam("onft", 1200, 24000, nft::onft),
            fam("roles", 1500, 30000, members::roles),
            fam("cw4", 1000, 20000, members::cw4),
        ],
    )
}
