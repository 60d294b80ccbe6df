use vmon::*;
fn main() {
    drive(
        "C21",
        "proposal modules: one history on two modules of a DAO, one with hook receivers that fail now and then and one whose receivers never fail; both must accept the same \
         actions and hold the same proposals and ballots, and each receiver must get exactly the events due to it. Staking, NFT and role contracts: receivers registered, removed and \
         made to fail between stake changes; a failing one must block the change and leave nothing behind. \
         Non-trivial: receivers were registered and something happened; distinct: the sequence of operations and outcomes differs",
        &["receivers are test contracts that record or refuse; they do not re-enter"],
        &["hook-failed", "hook-delivered", "pre-propose-hook-failed", "stake.add_hook.ok"],
        vec![
            fam("single", 1200, 20000, hooks::single),
            fam("multi", 1200, 20000, hooks::multi),
            fam("cw20", 500, 10000, stake::cw20),
            fam("token", 500, 10000, stake::token),
            fam("cw721", 500, 10000, nft::cw721),
            fam("onft", 500, 10000, nft::onft),
            fam("roles", 700, 14000, members::roles),
        ],
    )
}
