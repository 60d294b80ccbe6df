use vmon::*;
fn main() {
    drive(
        "C24",
        "payroll factories (owned and open) asked for native and cw20 payments, right and wrong in denom, amount, funds, sender or schedule, with strays lying at the factory, forged notices, code and ownership changes; self-administered contracts created \
         plainly and at predicted addresses, with right, wrong and no expectation, nested inside each other and failing; fantokens issued for DAOs and others. After every step what exists, who administers and owns it, what was paid and every listing is compared with a model. \
         Non-trivial: something was created; distinct: the sequence of operations and outcomes differs",
        &["cw20-base, x/fantoken (a stand-in) and cw-multi-test are the environment", "a contract address at instantiate2 depends on the salt only"],
        &["payroll.native", "payroll.cw20", "payroll.unauthorized", "payroll.refused1", "payroll.refused2", "payroll.refused3", "payroll.refused4", "payroll.refused5", "payroll.stray", "payroll.over50", "payroll.code", "payroll.owner",
          "payroll.renounced", "selfadmin.one", "selfadmin.nested", "selfadmin.nested-expect", "selfadmin.unauthorized", "selfadmin.unexpected", "selfadmin.migrated", "fantoken.dao", "fantoken.direct", "fantoken.stranger", "fantoken.refused", "fantoken.staked"],
        vec![fam("payroll", 900, 15000, factory::payroll), fam("selfadmin", 2500, 40000, factory::selfadmin), fam("fantoken", 600, 10000, factory::fantoken)],
    )
}
