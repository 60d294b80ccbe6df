use vmon::*;
fn main() {
    drive(
        "C22",
        "registries of the core contract (items, token lists and balances, subDAOs, modules) and proposal and ballot listings are changed at random and then \
         enumerated without limit and page by page with random page sizes, and compared with the reference contents. Non-trivial: the DAO was driven; distinct: \
         the sequence of operations and outcomes differs",
        &["cw-multi-test's ordered storage iterates as the chain's does"],
        &["core.set_item.ok", "core.update_cw20_list.ok", "core.update_sub_daos.ok", "mon.receive"],
        vec![
            fam("core", 10000, 100000, core::run),
            fam("single", 1000, 10000, gov::single_mixed),
            fam("multi", 1000, 10000, gov::multi_mixed),
        ],
    )
}
