//! An inactive DAO accepts no proposals: a real DAO over token staking whose stake moves around
//! its active threshold while proposals are attempted.
use crate::gov::*;
use crate::model::*;
use crate::*;

pub fn run(sc: &mut Sc) -> R {
    const T: &[&str] = &["C23"];
    let cc = sc.code(core_code());
    let vc = sc.code(wrap!(dao_voting_token_staked::contract; reply, migrate));
    let (c1, c2) = (sc.code(single_code()), sc.code(multi_code()));
    let users = ["ann", "bob", "cat"];
    let mut supply = 0u128;
    for x in users {
        let a = sc.r(1, 40) as u128;
        sc.mint(x, a, "utok");
        supply += a;
    }
    let mut th = {
        let t = Th::random(sc, supply / 2, supply);
        if t.valid(supply) { Some(t) } else { None }
    };
    // proposals are made directly, or only through a module in charge of them
    let pc = sc.code(crate::puppet::puppet_code());
    let gated = [sc.chance(40), sc.chance(40)];
    let pre = |g: bool| if g { json!({"module_may_propose":{"info":{"code_id":pc,"msg":b64(&json!({})),"admin":null,"funds":[],"label":"pre"}}}) } else { json!({"anyone_may_propose":{}}) };
    let cfg = |sc: &mut Sc, k: Kind| {
        let mut c = World::rand_cfg(sc, k, supply);
        c.max = c.max.max(5);
        c.min = None;
        let mut m = c.json(k);
        m["pre_propose_info"] = pre(gated[(k == Kind::Multi) as usize]);
        m
    };
    let (m1, m2) = (cfg(sc, Kind::Single), cfg(sc, Kind::Multi));
    let vm = json!({"token_info":{"existing":{"denom":"utok"}},"unstaking_duration":null,"active_threshold":th.as_ref().map(|t| t.json())});
    let core = sc.must_init(cc, "x", &dao_init(vc, &vm, &[(c1, m1), (c2, m2)], json!({})), &[], "core")?;
    let vmod = s(&sc.qm(T, &core, &json!({"voting_module":{}}))?);
    let ms = sc.qm(T, &core, &json!({"proposal_modules":{}}))?;
    let (single, multi) = (s(&ms[0]["address"]), s(&ms[1]["address"]));
    sc.label(&single, "single");
    sc.label(&multi, "multi");
    sc.label(&vmod, "vm");
    let mut by = vec![];
    for (m, g) in [(&single, gated[0]), (&multi, gated[1])] {
        let p = sc.qm(T, m, &json!({"proposal_creation_policy":{}}))?;
        by.push(if g { Some(s(&p["module"]["addr"])) } else { None });
    }
    let mut staked = 0u128;
    for _ in 0..sc.r(10, 30) {
        match sc.weighted(&[25, 20, 10, 10, 5, 30]) {
            0 => {
                let who = sc.pick(&users);
                let have = sc.bank(who, "utok");
                if have > 0 {
                    let a = sc.r(1, have as u64) as u128;
                    let r = sc.exec(who, &vmod, &json!({"stake":{}}), &[cosmwasm_std::coin(a, "utok")]);
                    ensure!(r.is_ok(), &["C09"], "stake", "{r:?}");
                    staked += a;
                    sc.nontrivial = true;
                }
            }
            1 => {
                let who = sc.pick(&users);
                let p = u(&sc.qm(T, &vmod, &json!({"voting_power_at_height":{"address":who,"height":sc.height()+1}}))?["power"]);
                if p > 0 {
                    let a = sc.r(1, p as u64) as u128;
                    let r = sc.exec(who, &vmod, &json!({"unstake":{"amount":a.to_string()}}), &[]);
                    ensure!(r.is_ok(), &["C09"], "unstake", "{r:?}");
                    staked -= a;
                }
            }
            2 => {
                let t = if sc.chance(20) { None } else { Some(Th::random(sc, staked, supply)) };
                let by = if sc.chance(85) { core.clone() } else { "ann".into() };
                let ok = by == core && t.as_ref().map(|t| t.valid(supply)).unwrap_or(true);
                let r = sc.exec(&by, &vmod, &json!({"update_active_threshold":{"new_threshold":t.as_ref().map(|t| t.json())}}), &[]);
                ensure!(r.is_ok() == ok, T, "threshold-update", "threshold {t:?} by {by}: expected ok={ok}, got {r:?}");
                if ok {
                    th = t;
                }
            }
            3 => sc.advance(1, 5),
            4 => {
                let a = sc.r(1, 50) as u128;
                sc.mint("whale", a, "utok");
                supply += a;
            }
            _ => {
                let who = sc.pick(&["ann", "bob", "zed"]);
                let (lo, hi) = th.as_ref().map(|t| t.need(supply)).unwrap_or((0, 0));
                let one = sc.chance(50);
                let pre = by[!one as usize].clone();
                let named = if pre.is_some() { json!(who) } else { Value::Null };
                let sender = pre.clone().unwrap_or(who.to_string());
                let r = if one {
                    sc.exec(&sender, &single, &json!({"propose":{"title":"t","description":"d","msgs":[],"proposer":named,"vote":null}}), &[])
                } else {
                    sc.exec(&sender, &multi, &json!({"propose":{"title":"t","description":"d","choices":{"options":[{"title":"a","description":"a","msgs":[]},{"title":"b","description":"b","msgs":[]}]},"proposer":named,"vote":null}}), &[])
                };
                if staked >= hi {
                    ensure!(r.is_ok(), T, "active-refused", "stake {staked} of {supply}, threshold {th:?}: active, but proposing failed: {r:?}");
                    sc.tick(if pre.is_some() { "proposed-while-active.module" } else { "proposed-while-active" });
                } else if staked < lo {
                    ensure!(r.is_err(), T, "inactive-accepted", "stake {staked} of {supply}, threshold {th:?}: inactive, but a proposal was accepted");
                    sc.tick(if pre.is_some() { "refused-while-inactive.module" } else { "refused-while-inactive" });
                }
                sc.checked(1);
            }
        }
    }
    Ok(())
}
