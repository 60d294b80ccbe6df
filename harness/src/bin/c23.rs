use vmon::*;
fn main() {
    drive(
        "C23",
        "active thresholds (absolute and percentage, set at creation and changed later, valid and not) on the cw20, token, cw721 and ONFT voting modules while stake and supply \
         change; after every step is_active is compared with exact arithmetic over the model's stake and supply. \
         Non-trivial: something was staked; distinct: the sequence of operations and outcomes differs",
        &["x/onft and x/tokenfactory are stand-ins", "percentages between two billionths of the supply may go either way, as the contracts compute with nine extra digits"],
        &["active", "proposed-while-active", "refused-while-inactive", "refused-while-inactive.module", "proposed-while-active.module", "inactive", "vm.update_active_threshold.ok", "vm.update_active_threshold.err"],
        vec![
            fam("cw20", 1500, 30000, stake::cw20),
            fam("token", 1500, 30000, stake::token),
            fam("cw721", 1500, 30000, nft::cw721),
            fam("onft", 1500, 30000, nft::onft),
            fam("gate", 1500, 30000, gate::run),
        ],
    )
}
