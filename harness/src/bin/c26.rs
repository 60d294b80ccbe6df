use vmon::*;
fn main() {
    drive(
        "C26",
        "two worlds run one history (propose, vote, veto, execute, close, deposits, approvals, admin messages, staking, claims, reward funding); world A starts on an earlier release (v0.1.0 core + single, v0.2.6 cw20-stake with rewards and distributor, \
         v2.4.1 DAOs with single, multiple and approval pre-propose) and is migrated at a random step, world B runs the current code throughout. Right after the migration every answer A gave must still be given; from there on every query, message outcome, hook notice \
         and balance must be the same in both. The p-* families run the histories of the other monitors with contracts migrated to their own code in between; what their models expect must not change. Non-trivial: a migration took place; distinct: the sequence of operations and outcomes differs",
        &["the earlier releases are the published crates in the cargo cache (cw-core 0.1.0, cw20-stake 0.2.6, dao-* 2.4.1, ...)", "histories on which the releases themselves disagree before the migration end there"],
        &["mig.migrated", "mig.never", "mig.pending-deposit", "mig.pre-dropped", "mig.reconfigured", "mig.plain.cw-token-swap.ok", "mig.plain.cw-tokenfactory-issuer.ok", "mig.plain.cw20-stake.refused", "mig.plain.cw20-stake-external-rewards.refused",
          "mig.plain.cw20-stake-reward-distributor.refused", "mig.plain.dao-dao-core.ok", "mig.plain.dao-dao-core.refused", "mig.plain.dao-pre-propose-single.refused", "mig.plain.dao-pre-propose-approver.refused", "mig.plain.dao-proposal-multiple.ok",
          "mig.plain.dao-proposal-single.ok", "mig.plain.dao-proposal-single.refused", "mig.plain.dao-rewards-distributor.ok", "mig.plain.dao-rewards-distributor.refused", "mig.plain.dao-voting-cw20-staked.ok", "mig.plain.dao-voting-cw4.ok",
          "mig.plain.dao-voting-cw721-staked.ok", "mig.plain.dao-voting-onft-staked.ok", "mig.plain.dao-voting-token-staked.ok"],
        vec![
            fam("v1-dao", 1500, 20000, migrate::v1_dao),
            fam("v241-single", 800, 10000, migrate::v241_single),
            fam("v241-multi", 800, 10000, migrate::v241_multi),
            fam("v241-approval", 800, 10000, migrate::v241_approval),
            fam("v1-staking", 1500, 20000, migrate::v1_staking),
            fam("p-core", 300, 4000, migrate::p_core),
            fam("p-single", 200, 4000, migrate::p_single),
            fam("p-multi", 200, 4000, migrate::p_multi),
            fam("p-pre", 150, 3000, migrate::p_pre),
            fam("p-approval", 150, 3000, migrate::p_approval),
            fam("p-cw20", 200, 3000, migrate::p_cw20),
            fam("p-token", 200, 3000, migrate::p_token),
            fam("p-cw721", 200, 3000, migrate::p_cw721),
            fam("p-onft", 200, 3000, migrate::p_onft),
            fam("p-cw4", 200, 3000, migrate::p_cw4),
            fam("p-rewards", 200, 3000, migrate::p_rewards),
            fam("p-swap", 100, 1000, migrate::p_swap),
            fam("p-issuer", 200, 3000, migrate::p_issuer),
            fam("p-ext", 200, 3000, migrate::p_ext),
        ],
    )
}
