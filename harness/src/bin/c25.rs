use vmon::*;
fn main() {
    drive(
        "C25",
        "creation of every voting module with new and existing assets, valid and invalid settings and distributions; what was created is compared with what was asked for, then the \
         module is used. Non-trivial: the module was created and used; distinct: the sequence of operations and outcomes differs",
        &["x/onft and x/tokenfactory are stand-ins", "a factory is trusted to hand out an asset that suits the announced threshold"],
        &["vm.instantiate.ok", "vm.instantiate.err", "mon.factory", "mon.metadata", "mon.no_metadata", "mon.empty_distribution"],
        vec![
            fam("cw20", 1200, 20000, stake::cw20),
            fam("token", 1200, 20000, stake::token),
            fam("cw721", 1200, 20000, nft::cw721),
            fam("onft", 600, 10000, nft::onft),
            fam("roles", 1200, 20000, members::roles),
            fam("cw4", 1200, 20000, members::cw4),
        ],
    )
}
