use vmon::*;
fn main() {
    drive(
        "C15",
        "a fund distributor over a real cw4 or token-staking voting module whose power changes before, in and after the distribution height: fundings in several native and cw20 tokens before and after the deadline, \
         single, repeated and collective claims, redistributions to other heights and unannounced transfers; after every step every entitlement, listing, total and holding is compared with an exact model. \
         Non-trivial: something was claimed; distinct: the sequence of operations and outcomes differs",
        &["cw20-base, cw4-group and cw-multi-test are the environment", "voting power is as monitored by C08", "the distribution height is not in the future (its power is not yet known)"],
        &["height.current", "height.past", "height.other-total", "funded", "fund.late", "claimed", "claimed.nothing-left", "redistributed"],
        vec![fam("distributor", 1500, 20000, fund::distributor)],
    )
}
