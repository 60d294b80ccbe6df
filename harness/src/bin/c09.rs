use vmon::*;
fn main() {
    drive(
        "C09",
        "staking, unstaking, claiming, configuration changes, stray transfers, hook failures and foreign assets in random order, with time moved to one tick before, at and after claim \
         releases; after every step every wallet, NFT owner, claim queue and the contract's holdings are compared with the model, and at the end everyone withdraws everything. \
         Non-trivial: something was staked; distinct: the sequence of operations and outcomes differs",
        &["token and NFT contracts are the real cw20-base and cw721-base; x/onft and x/tokenfactory are stand-ins", "the DAO's documented power to move ONFTs out of the contract is not exercised on staked ones"],
        &["claimed", "claimed.out-of-order", "claim-queue-filled", "drained", "stake.unstake.ok", "vm.confirm_stake.ok", "token.send:stake.ok"],
        vec![
            fam("cw20", 1000, 20000, stake::cw20),
            fam("token", 1500, 30000, stake::token),
            fam("cw721", 1500, 30000, nft::cw721),
            fam("onft", 1500, 30000, nft::onft),
        ],
    )
}
