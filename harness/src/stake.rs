//! Fungible staking: cw20-stake behind dao-voting-cw20-staked, and dao-voting-token-staked.
use crate::model::*;
use crate::*;
use cosmwasm_std::{coin, BankMsg, CosmosMsg};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Cw20,
    Token,
}

const USERS: [&str; 5] = ["ann", "bob", "cat", "dan", "eve"];
/// The DAO may stake what its treasury holds like everybody else.
const STAKERS: [&str; 6] = ["ann", "bob", "cat", "dan", "eve", "dao"];
/// power, total
const POW: &[&str] = &["C08"];
const CUST: &[&str] = &["C09"];
const SHARE: &[&str] = &["C10", "C09"];
const HOOK: &[&str] = &["C21"];
const ACT: &[&str] = &["C23"];
const SETUP: &[&str] = &["C25"];

struct W {
    k: Kind,
    vm: String,
    st: String,
    token: String,
    fake: String,
    owner: Option<String>,
    pending: Option<String>,
    snap: Snap,
    claims: BTreeMap<String, Vec<(u128, Rel)>>,
    dur: Option<Dur>,
    balance: u128,
    stray: u128,
    wallet: BTreeMap<String, u128>,
    supply: u128,
    th: Option<Th>,
    hooks: HookBook,
    start: u64,
}

fn pow_tags(k: Kind) -> &'static [&'static str] {
    if k == Kind::Cw20 {
        &["C08", "C10"]
    } else {
        POW
    }
}

impl W {
    fn wal(&self, sc: &Sc, who: &str) -> u128 {
        match self.k {
            Kind::Cw20 => sc.cw20_bal(&self.token, who),
            Kind::Token => sc.bank(who, &self.token),
        }
    }
    fn total_claims(&self) -> u128 {
        self.claims.values().flatten().map(|c| c.0).sum()
    }
    fn rels(&self) -> Vec<Rel> {
        self.claims.values().flatten().map(|c| c.1).collect()
    }

    fn setup(sc: &mut Sc, k: Kind) -> R<W> {

        let hooks = HookBook::new(sc, 3)?;
        let mut wallet: BTreeMap<String, u128> = BTreeMap::new();
        let big = sc.chance(30);
        for uu in USERS {
            if sc.chance(85) {
                let a = if big { sc.rng.gen_range(1..1u128 << 120) } else { sc.amount() };
                wallet.insert(uu.to_string(), a);
            }
        }
        if wallet.is_empty() {
            wallet.insert("ann".into(), 1000);
        }
        let users_supply: u128 = wallet.values().sum();
        let dao_bal = if sc.chance(50) { sc.amount() } else { 0 };
        let existing = sc.chance(50);
        let dur = any_dur(sc);
        let bad_dur = dur.map(|d| d.zero()).unwrap_or(false);
        let th = if sc.chance(40) { Some(Th::random(sc, users_supply / 2, users_supply)) } else { None };
        let supply = users_supply + dao_bal;
        let mut init_bal: Vec<Value> = wallet.iter().map(|(a, b)| json!({"address":a,"amount":b.to_string()})).collect();
        let mut with_dao = init_bal.clone();
        if k == Kind::Token && sc.chance(40) {
            // a holder named several times in the announced distribution holds the sum
            let parts = sc.r(1, 3);
            for _ in 0..parts {
                let i = sc.rng.gen_range(0..init_bal.len());
                let a = u(&init_bal[i]["amount"]);
                if a > 1 {
                    let part = sc.rng.gen_range(1..a);
                    let who = init_bal[i]["address"].clone();
                    init_bal[i]["amount"] = json!((a - part).to_string());
                    let at = sc.rng.gen_range(0..=init_bal.len());
                    init_bal.insert(at, json!({"address":who,"amount":part.to_string()}));
                }
            }
            sc.tick("mon.repeated_holder");
        }
        if dao_bal > 0 {
            with_dao.push(json!({"address":"dao","amount":dao_bal.to_string()}));
        }
        let (vm, st, token, fake);
        let made = k == Kind::Token && !existing && sc.chance(25);
        let mut answer = Value::Null;
        let fac = if made {
            let c = sc.code(puppet::puppet_code());
            sc.must_init(c, "x", &json!({}), &[], "factory")?
        } else {
            String::new()
        };
        // New-token modules validate an absolute count against the stakers' (token) or the whole (cw20) supply
        let th_supply = match (k, existing) {
            (Kind::Token, false) => users_supply,
            _ => supply,
        };
        let th_ok = th.as_ref().map(|t| t.valid(th_supply)).unwrap_or(true);
        match k {
            Kind::Cw20 => {
                let cw20 = sc.code(cw20_code());
                let stc = sc.code(wrap!(cw20_stake::contract; migrate));
                let vmc = sc.code(wrap!(dao_voting_cw20_staked::contract; reply, migrate));
                let mk = |n: &str, b: &Vec<Value>| json!({"name":n,"symbol":"TOK","decimals":6,"initial_balances":b,"mint":{"minter":"dao"}});
                fake = sc.must_init(cw20, "x", &mk("fake token", &with_dao), &[], "faketoken")?;
                let info = if existing {
                    let t = sc.must_init(cw20, "x", &mk("real token", &with_dao), &[], "token")?;
                    if sc.chance(40) {
                        let r = sc.init(stc, "x", &json!({"owner":"dao","token_address":t,"unstaking_duration":dur_json(&dur)}), &[], "stake", None);
                        ensure!(r.is_ok() == !bad_dur, CUST, "init-duration", "staking contract with duration {dur:?}: {r:?}");
                        let Ok(s1) = r else { return Err(Viol::new(&[], "skip", "")) };
                        // a staking contract of another token must not be accepted
                        let s2 = sc.must_init(stc, "x", &json!({"owner":"dao","token_address":fake,"unstaking_duration":null}), &[], "stake2")?;
                        let r = sc.init(vmc, "dao", &json!({"token_info":{"existing":{"address":t,"staking_contract":{"existing":{"staking_contract_address":s2}}}},"active_threshold":null}), &[], "vm", None);
                        ensure!(r.is_err(), &["C25", "C08"], "foreign-staking", "a staking contract of a different token was accepted");
                        json!({"existing":{"address":t,"staking_contract":{"existing":{"staking_contract_address":s1}}}})
                    } else {
                        json!({"existing":{"address":t,"staking_contract":{"new":{"staking_code_id":stc,"unstaking_duration":dur_json(&dur)}}}})
                    }
                } else {
                    json!({"new":{"code_id":cw20,"label":"token","name":"real token","symbol":"TOK","decimals":6,"initial_balances":init_bal,"marketing":null,
                        "staking_code_id":stc,"unstaking_duration":dur_json(&dur),"initial_dao_balance": if dao_bal>0 {json!(dao_bal.to_string())} else {Value::Null}}})
                };
                if !existing && sc.chance(8) {
                    // nobody who could ever stake
                    let mut e = info.clone();
                    e["new"]["initial_balances"] = if sc.chance(50) { json!([]) } else { json!([{"address":"ann","amount":"0"}]) };
                    let r = sc.init(vmc, "dao", &json!({"token_info":e,"active_threshold":null}), &[], "vm", None);
                    ensure!(r.is_err(), SETUP, "empty-distribution", "a DAO over a token that no member holds was created");
                    sc.tick("mon.empty_distribution");
                }
                let r = sc.init_module(vmc, "dao", &json!({"token_info":info,"active_threshold":th.as_ref().map(|t| t.json())}), "vm").map(|r| r.0);
                let pre_made = info["existing"]["staking_contract"].get("existing").is_some();
                let ok = th_ok && (!bad_dur || pre_made);
                ensure!(r.is_ok() == ok, &["C23", "C25", "C09"], "init", "voting module: threshold {th:?} supply {supply} duration {dur:?}: expected ok={ok}, got {r:?}");
                let Ok(a) = r else { return Err(Viol::new(&[], "skip", "")) };
                vm = a;
                st = s(&sc.qm(SETUP, &vm, &json!({"staking_contract":{}}))?);
                token = s(&sc.qm(SETUP, &vm, &json!({"token_contract":{}}))?);
                if !existing {
                    ensure!(sc.wasm_admin(&token) == Some("dao".into()), SETUP, "new-admin", "the token's admin is {:?}", sc.wasm_admin(&token));
                    let ti = sc.qm(SETUP, &token, &json!({"token_info":{}}))?;
                    let want = json!({"name":"real token","symbol":"TOK","decimals":6,"total_supply":supply.to_string()});
                    ensure!(ti == want, SETUP, "new-token", "the new token is {ti}, announced {want}");
                    let mi = sc.qm(SETUP, &token, &json!({"minter":{}}))?;
                    ensure!(mi["minter"] == "dao" && mi["cap"].is_null(), SETUP, "new-minter", "the new token's minter is {mi}");
                    sc.checked(2);
                }
                let sc_cfg = sc.qm(SETUP, &st, &json!({"get_config":{}}))?;
                let want = json!({"token_address":token,"unstaking_duration":dur_json(&dur)});
                ensure!(sc_cfg == want, SETUP, "new-staking", "the staking contract's settings are {sc_cfg}, announced {want}");
                let so = sc.qm(SETUP, &st, &json!({"ownership":{}}))?;
                ensure!(so["owner"] == "dao" && so["pending_owner"].is_null(), SETUP, "new-staking", "the staking contract's ownership is {so}");
                sc.checked(2);
                if !pre_made {
                    ensure!(sc.wasm_admin(&st) == Some("dao".into()), SETUP, "new-admin", "the staking contract's admin is {:?}", sc.wasm_admin(&st));
                }
                sc.label(&st, "stake");
                sc.label(&token, "token");
            }
            Kind::Token => {
                fake = "ufake".to_string();
                let vmc = sc.code(wrap!(dao_voting_token_staked::contract; reply, migrate));
                for uu in USERS {
                    sc.mint(uu, 1000, "ufake");
                }
                let iss_code = sc.code(tf::issuer_code());
                let info = if existing || made {
                    for (a, b) in &wallet {
                        sc.mint(a, *b, "utok");
                    }
                    if dao_bal > 0 {
                        sc.mint("dao", dao_bal, "utok");
                    }
                    if made {
                        // a factory that hands out a token made beforehand
                        let tc = if sc.chance(50) { json!(fac) } else { Value::Null };
                        let cb = if sc.chance(50) {
                            {
                            let n = sc.r(0, 3);
                            let ms: Vec<Value> = (0..n).map(|i| json!({"wasm":{"execute":{"contract_addr":fac,"msg":b64(&json!({"greet":i})),"funds":[]}}})).collect();
                            json!({"msgs":ms})
                        }
                        } else {
                            Value::Null
                        };
                        answer = json!({"denom":"utok","token_contract":tc,"module_instantiate_callback":cb});
                        let call = |a: &Value| json!({"factory":b64(&json!({"execute":{"contract_addr":fac,"msg":b64(&json!({"answer":a})),"funds":[]}}))});
                        if sc.chance(15) {
                            sc.mint("dao", 50, "udao");
                            for a in [json!({}), json!({"data":b64(&json!({"denom":"udao","token_contract":null,"module_instantiate_callback":null}))})] {
                                let r = sc.init(vmc, "dao", &json!({"token_info":call(&a),"unstaking_duration":null,"active_threshold":null}), &[], "vm", None);
                                ensure!(r.is_err(), SETUP, "factory-refused", "a DAO was created though its token factory answered {a}");
                                sc.tick("mon.empty_distribution");
                            }
                        }
                        call(&json!({"data":b64(&answer)}))
                    } else {
                        json!({"existing":{"denom":"utok"}})
                    }
                } else {
                    // further units of the denom, announced in any order
                    let mut units: Vec<(String, u64)> = vec![("ktok".into(), 3)];
                    for e in [6u64, 9, 12] {
                        if sc.chance(35) {
                            let at = sc.rng.gen_range(0..=units.len());
                            units.insert(at, (format!("e{e}tok"), e));
                        }
                    }
                    let units: Vec<Value> = units.iter().map(|(d, e)| json!({"denom":d,"exponent":e.to_string(),"aliases":[]})).collect();
                    json!({"new":{"token_issuer_code_id":iss_code,"subdenom":"tok","metadata": if sc.chance(50) {Value::Null} else {json!({
                        "description":"d","additional_denom_units":units,"display":"ktok","name":"Tok","symbol":"TOK"})},
                        "initial_balances":init_bal,"initial_dao_balance": if dao_bal>0 || sc.chance(20) {json!(dao_bal.to_string())} else {Value::Null}}})
                };
                if !existing && !made && sc.chance(8) {
                    let mut e = info.clone();
                    e["new"]["initial_balances"] = if sc.chance(50) { json!([]) } else { json!([{"address":"ann","amount":"0"}]) };
                    let r = sc.init(vmc, "dao", &json!({"token_info":e,"unstaking_duration":null,"active_threshold":null}), &[], "vm", None);
                    ensure!(r.is_err(), SETUP, "empty-distribution", "a DAO over a token that no member holds was created");
                    sc.tick("mon.empty_distribution");
                }
                if sc.chance(6) {
                    // nobody can ever stake enough of a coin that does not exist
                    let r = sc.init(vmc, "dao", &json!({"token_info":{"existing":{"denom":"unone"}},"unstaking_duration":null,"active_threshold":{"absolute_count":{"count":"1"}}}), &[], "vm", None);
                    ensure!(r.is_err(), SETUP, "absent-coin", "a threshold beyond the supply of a coin was accepted");
                    sc.tick("mon.absent_coin");
                }
                let r = sc.init_module(vmc, "dao", &json!({"token_info":info,"unstaking_duration":dur_json(&dur),"active_threshold":th.as_ref().map(|t| t.json())}), "vm");
                let ok = th_ok && !bad_dur;
                ensure!(r.is_ok() == ok, &["C23", "C25", "C09"], "init", "voting module: threshold {th:?} supply {th_supply} duration {dur:?}: expected ok={ok}, got {r:?}");
                let Ok((a, callbacks)) = r else { return Err(Viol::new(&[], "skip", "")) };
                st = a.clone();
                vm = a;
                if made {
                    let tc = sc.qm(SETUP, &vm, &json!({"token_contract":{}}))?;
                    ensure!(tc == answer["token_contract"], SETUP, "factory-answer", "the factory answered {answer}, the module's token contract is {tc}");
                    let want = answer["module_instantiate_callback"]["msgs"].as_array().map(|m| m.len()).unwrap_or(0);
                    let log = sc.puppet_log(&fac);
                    ensure!(callbacks == want && log == (0..want).map(|i| ("dao".to_string(), json!({"greet":i}))).collect::<Vec<_>>(), SETUP, "factory-answer",
                        "the factory answered {answer}, {callbacks} callbacks came back to the DAO: {log:?}");
                    sc.checked(2);
                    sc.tick("mon.factory");
                }
                token = s(&sc.qm(SETUP, &vm, &json!({"denom":{}}))?["denom"]);
                sc.label(&st, "stake");
                if !existing && !made {
                    let iss = s(&sc.qm(SETUP, &vm, &json!({"token_contract":{}}))?);
                    ensure!(token == format!("factory/{iss}/tok"), SETUP, "new-denom", "denom {token} of issuer {iss}");
                    let o = sc.qm(SETUP, &iss, &json!({"ownership":{}}))?;
                    // the callback, executed by the DAO, has accepted the ownership
                    ensure!(o["owner"] == "dao" && o["pending_owner"].is_null() && callbacks == 1, SETUP, "new-owner", "the DAO does not own the issuer: {o}");
                    let st = sc.tf_state(&token);
                    ensure!(st["admin"] == json!(iss), SETUP, "new-owner", "the new denom's admin is {}, not its issuer", st["admin"]);
                    let asked = &info["new"]["metadata"];
                    if asked.is_null() {
                        sc.tick("mon.no_metadata");
                    } else {
                        let mut units: Vec<(u64, Value)> = asked["additional_denom_units"].as_array().unwrap().iter().map(|x| (u(&x["exponent"]) as u64, x["denom"].clone())).collect();
                        units.sort_by_key(|x| x.0);
                        let mut list = vec![json!([token, 0, ["tok"]])];
                        list.extend(units.iter().map(|(e, d)| json!([d, e, []])));
                        let want = json!({"description":"d","display":"ktok","name":"Tok","symbol":"TOK","units":list});
                        ensure!(st["meta"] == want, SETUP, "new-metadata", "the new denom's metadata is {}, announced {asked}", st["meta"]);
                        sc.checked(2);
                        sc.tick("mon.metadata");
                    }
                    let al = sc.qm(SETUP, &iss, &json!({"mint_allowance":{"address":vm}}))?;
                    ensure!(u(&al["allowance"]) == 0, SETUP, "new-allowance", "the voting module keeps a mint allowance of {al}");
                    ensure!(sc.wasm_admin(&iss) == Some("dao".into()), SETUP, "new-admin", "the issuer's admin is {:?}", sc.wasm_admin(&iss));
                    sc.label(&iss, "issuer");
                }
            }
        }
        if dao_bal > 0 {
            wallet.insert("dao".into(), dao_bal);
        }
        let w = W {
            k,
            vm,
            st,
            token,
            fake,
            owner: Some("dao".into()),
            pending: None,
            snap: Snap::default(),
            claims: BTreeMap::new(),
            dur,
            balance: 0,
            stray: 0,
            wallet,
            supply,
            th,
            hooks,
            start: sc.height(),
        };
        // a new token's whole supply is exactly the announced distribution
        for who in USERS.iter().chain(&["dao"]) {
            let have = w.wal(sc, who);
            let want = w.wallet.get(*who).copied().unwrap_or(0);
            ensure!(have == want, SETUP, "distribution", "{who} starts with {have}, announced {want}");
        }
        ensure!(w.chain_supply(sc) == supply, SETUP, "distribution", "supply {} after setup, announced {supply}", w.chain_supply(sc));
        let dao = s(&sc.qm(SETUP, &w.vm, &json!({"dao":{}}))?);
        ensure!(dao == "dao", SETUP, "dao", "the voting module's DAO is {dao}");
        if k == Kind::Cw20 {
            let m = sc.qm(SETUP, &w.token, &json!({"minter":{}}))?;
            ensure!(m["minter"] == "dao", SETUP, "minter", "token minter {m}");
            let c = sc.qm(SETUP, &w.st, &json!({"get_config":{}}))?;
            ensure!(c["token_address"] == json!(w.token), SETUP, "staking-token", "{c}");
            let o = sc.qm(SETUP, &w.st, &json!({"ownership":{}}))?;
            ensure!(o["owner"] == "dao", SETUP, "staking-owner", "{o}");
        }
        sc.checked(12);
        Ok(w)
    }
    fn chain_supply(&self, sc: &Sc) -> u128 {
        match self.k {
            Kind::Cw20 => u(&sc.q(&self.token, &json!({"token_info":{}})).unwrap()["total_supply"]),
            Kind::Token => sc.app.wrap().query_supply(&self.token).unwrap().amount.u128(),
        }
    }

    fn stake(&mut self, sc: &mut Sc) -> R {
        let who = sc.pick(&STAKERS);
        let have = self.wallet.get(who).copied().unwrap_or(0);
        let amt = match sc.r(0, 9) {
            0 => have,
            1 => have.saturating_add(1),
            2 => 0,
            3..=5 if have > 0 => sc.rng.gen_range(1..=have),
            _ => sc.amount().min(have.max(1)),
        };
        self.stake_as(sc, who, amt)
    }
    fn stake_as(&mut self, sc: &mut Sc, who: &str, amt: u128) -> R {
        let have = self.wallet.get(who).copied().unwrap_or(0);
        let total = self.snap.total();
        let shares = match self.k {
            Kind::Token => amt,
            Kind::Cw20 if total == 0 || self.balance == 0 => amt,
            Kind::Cw20 => big::mul_div_u128(total, amt, self.balance),
        };
        let r = match self.k {
            Kind::Cw20 => sc.exec(who, &self.token.clone(), &json!({"send":{"contract":self.st,"amount":amt.to_string(),"msg":b64(&json!({"stake":{}}))}}), &[]),
            Kind::Token => {
                if amt == 0 {
                    sc.exec(who, &self.st.clone(), &json!({"stake":{}}), &[])
                } else {
                    sc.exec(who, &self.st.clone(), &json!({"stake":{}}), &[coin(amt, &self.token)])
                }
            }
        };
        let affordable = amt <= have;
        let can = affordable && !self.hooks.blocked();
        if amt == 0 && self.k == Kind::Cw20 && can {
            // whether the token moves nothing or refuses is the token's business
            sc.tick("zero-stake");
        } else {
            let can = can && amt > 0;
            ensure!(r.is_ok() == can, &["C08", "C09", "C10", "C21"], "stake-outcome", "staking {amt} of {have} by {who} (hooks failing: {}): expected ok={can}, got {r:?}", self.hooks.blocked());
        }
        if r.is_ok() {
            sc.nontrivial = true;
            let h = sc.height();
            let cur = self.snap.get(who);
            self.snap.set(h, who, cur + shares);
            if self.k == Kind::Cw20 || amt > 0 {
                self.hooks.emit(json!({"stake_change_hook":{"stake":{"addr":who,"amount":shares.to_string()}}}));
            }
            self.balance += amt;
            self.wallet.insert(who.to_string(), have - amt);
        }
        Ok(())
    }
    fn bad_stake(&mut self, sc: &mut Sc) -> R {
        let who = sc.pick(&STAKERS);
        let r = match self.k {
            Kind::Cw20 => {
                if sc.chance(50) {
                    sc.exec(who, &self.fake.clone(), &json!({"send":{"contract":self.st,"amount":"1","msg":b64(&json!({"stake":{}}))}}), &[])
                } else {
                    sc.exec(who, &self.st.clone(), &json!({"receive":{"sender":who,"amount":"5","msg":b64(&json!({"stake":{}}))}}), &[])
                }
            }
            Kind::Token => {
                let have = self.wallet.get(who).copied().unwrap_or(0);
                let f = match sc.r(0, 2) {
                    0 => vec![coin(5, "ufake")],
                    1 if have > 0 => {
                        let mut v = vec![coin(5, "ufake"), coin(1, &self.token)];
                        v.sort_by(|a, b| a.denom.cmp(&b.denom));
                        v
                    }
                    _ => vec![],
                };
                sc.exec(who, &self.st.clone(), &json!({"stake":{}}), &f)
            }
        };
        ensure!(r.is_err(), &["C08", "C09", "C10"], "foreign-token-staked", "staking without the staking token was accepted");
        Ok(())
    }
    fn unstake(&mut self, sc: &mut Sc) -> R {
        let who = sc.pick(&STAKERS);
        let st = self.snap.get(who);
        let amt = match sc.r(0, 9) {
            0 | 1 => st,
            2 => st.saturating_add(1),
            3 => 0,
            4 => 1,
            5..=7 if st > 0 => sc.rng.gen_range(1..=st),
            _ => sc.amount().min(st.max(1)),
        };
        self.unstake_as(sc, who, amt)
    }
    fn unstake_as(&mut self, sc: &mut Sc, who: &str, amt: u128) -> R {
        let st = self.snap.get(who);
        let total = self.snap.total();
        let r = sc.exec(who, &self.st.clone(), &json!({"unstake":{"amount":amt.to_string()}}), &[]);
        let full = self.dur.is_some() && self.claims.get(who).map(|c| c.len()).unwrap_or(0) >= 100;
        let can = amt <= st && total > 0 && !self.hooks.blocked() && !full;
        let pays = if amt <= total && total > 0 {
            if self.k == Kind::Cw20 {
                big::mul_div_u128(self.balance, amt, total)
            } else {
                amt
            }
        } else {
            0
        };
        if amt == 0 && self.k == Kind::Cw20 {
            sc.tick("zero-unstake");
            ensure!(r.is_err() || can, &["C09"], "unstake-outcome", "zero unstake by {who} accepted though it cannot be");
        } else {
            let can = can && amt > 0;
            ensure!(r.is_ok() == can, &["C08", "C09", "C10", "C21"], "unstake-outcome", "unstaking {amt} of {st} by {who} (hooks failing {}, claims full {full}): expected ok={can}, got {r:?}", self.hooks.blocked());
        }
        if r.is_ok() {
            let h = sc.height();
            self.snap.set(h, who, st - amt);
            self.balance -= pays;
            self.hooks.emit(json!({"stake_change_hook":{"unstake":{"addr":who,"amount":amt.to_string()}}}));
            match self.dur {
                None => *self.wallet.entry(who.to_string()).or_insert(0) += pays,
                Some(d) => {
                    let rel = d.after(sc);
                    self.claims.entry(who.to_string()).or_default().push((pays, rel));
                }
            }
            if self.k == Kind::Cw20 && pays != amt {
                sc.tick("share-value-not-one");
            }
        }
        Ok(())
    }
    fn claim(&mut self, sc: &mut Sc) -> R {
        let mut who = sc.pick(&STAKERS).to_string();
        let with: Vec<String> = self.claims.iter().filter(|c| !c.1.is_empty()).map(|c| c.0.clone()).collect();
        if !with.is_empty() && sc.chance(80) {
            who = sc.pick(&with);
        }
        let who = who.as_str();
        let due: u128 = self.claims.get(who).map(|v| v.iter().filter(|c| c.1.expired(sc)).map(|c| c.0).sum()).unwrap_or(0);
        let r = sc.exec(who, &self.st.clone(), &json!({"claim":{}}), &[]);
        ensure!(r.is_ok() == (due > 0), CUST, "claim-outcome", "claim by {who} with {due} due: got {r:?}");
        if r.is_ok() {
            sc.tick("claimed");
            let now = &*sc;
            self.claims.get_mut(who).unwrap().retain(|c| !c.1.expired(now));
            *self.wallet.entry(who.to_string()).or_insert(0) += due;
        }
        Ok(())
    }
    fn fund(&mut self, sc: &mut Sc) -> R {
        let who = sc.pick(&STAKERS);
        let have = self.wallet.get(who).copied().unwrap_or(0);
        if have == 0 {
            return Ok(());
        }
        let amt = sc.amount().min(have);
        if self.k == Kind::Cw20 && sc.chance(75) {
            let r = sc.exec(who, &self.token.clone(), &json!({"send":{"contract":self.st,"amount":amt.to_string(),"msg":b64(&json!({"fund":{}}))}}), &[]);
            ensure!(r.is_ok(), &["C10"], "fund-outcome", "funding refused: {r:?}");
            self.balance += amt;
        } else {
            // tokens sent without a message belong to nobody and must not be handed out
            let r = match self.k {
                Kind::Cw20 => sc.exec(who, &self.token.clone(), &json!({"transfer":{"recipient":self.st,"amount":amt.to_string()}}), &[]),
                Kind::Token => sc.cosmos(who, CosmosMsg::Bank(BankMsg::Send { to_address: self.st.clone(), amount: vec![coin(amt, &self.token)] })),
            };
            if r.is_err() {
                return Ok(());
            }
            self.stray += amt;
        }
        self.wallet.insert(who.to_string(), have - amt);
        Ok(())
    }
    fn config(&mut self, sc: &mut Sc) -> R {
        let who = if sc.chance(80) { self.owner.clone().unwrap_or("dao".into()) } else { sc.pick(&["mallory", "ann", "dao"]).to_string() };
        let d = any_dur(sc);
        let bad = d.map(|d| d.zero()).unwrap_or(false);
        let ok = Some(&who) == self.owner.as_ref() && !bad;
        let r = sc.exec(&who, &self.st.clone(), &json!({"update_config":{"duration":dur_json(&d)}}), &[]);
        ensure!(r.is_ok() == ok, &["C09", "C10"], "config-outcome", "update_config {d:?} by {who} (owner {:?}): expected ok={ok}, got {r:?}", self.owner);
        if ok {
            self.dur = d;
        }
        Ok(())
    }
    fn threshold(&mut self, sc: &mut Sc) -> R {
        let who = if sc.chance(85) { "dao" } else { "mallory" };
        let t = if sc.chance(15) { None } else { Some(Th::random(sc, self.snap.total(), self.supply)) };
        let ok = who == "dao" && t.as_ref().map(|t| t.valid(self.supply)).unwrap_or(true);
        let r = sc.exec(who, &self.vm.clone(), &json!({"update_active_threshold":{"new_threshold":t.as_ref().map(|t| t.json())}}), &[]);
        ensure!(r.is_ok() == ok, ACT, "threshold-outcome", "threshold {t:?} with supply {} by {who}: expected ok={ok}, got {r:?}", self.supply);
        if ok {
            self.th = t;
        }
        Ok(())
    }
    fn supply_change(&mut self, sc: &mut Sc) -> R {
        let who = sc.pick(&STAKERS);
        let have = self.wallet.get(who).copied().unwrap_or(0);
        let up = sc.chance(60);
        let amt = if up { sc.amount() } else { sc.amount().min(have) };
        if amt == 0 {
            return Ok(());
        }
        match (self.k, up) {
            (Kind::Cw20, true) => {
                let _ = sc.exec("dao", &self.token.clone(), &json!({"mint":{"recipient":who,"amount":amt.to_string()}}), &[]);
            }
            (Kind::Cw20, false) => {
                let _ = sc.exec(who, &self.token.clone(), &json!({"burn":{"amount":amt.to_string()}}), &[]);
            }
            (Kind::Token, true) => sc.mint(who, amt, &self.token.clone()),
            (Kind::Token, false) => {
                let _ = sc.cosmos(who, CosmosMsg::Bank(BankMsg::Burn { amount: vec![coin(amt, &self.token)] }));
            }
        }
        self.wallet.insert(who.to_string(), if up { have + amt } else { have - amt });
        self.supply = if up { self.supply + amt } else { self.supply - amt };
        Ok(())
    }
    fn ownership(&mut self, sc: &mut Sc) -> R {
        if self.k != Kind::Cw20 {
            return Ok(());
        }
        let (who, msg, ok) = if self.pending.is_some() && sc.chance(70) {
            let who = if sc.chance(70) { self.pending.clone().unwrap() } else { "mallory".into() };
            let ok = Some(&who) == self.pending.as_ref();
            (who, json!({"update_ownership":"accept_ownership"}), ok)
        } else {
            let who = if sc.chance(70) { self.owner.clone().unwrap_or("dao".into()) } else { "mallory".into() };
            let ok = Some(&who) == self.owner.as_ref();
            let to = sc.pick(&["dao", "ann", "dao"]);
            (who, json!({"update_ownership":{"transfer_ownership":{"new_owner":to,"expiry":null}}}), ok)
        };
        let r = sc.exec(&who, &self.st.clone(), &msg, &[]);
        ensure!(r.is_ok() == ok, &["C09", "C10"], "owner-outcome", "{msg} by {who}: owner {:?} pending {:?}, got {r:?}", self.owner, self.pending);
        if ok {
            if msg["update_ownership"] == "accept_ownership" {
                self.owner = self.pending.take();
            } else {
                self.pending = Some(s(&msg["update_ownership"]["transfer_ownership"]["new_owner"]));
            }
        }
        Ok(())
    }

    fn check(&mut self, sc: &mut Sc) -> R {
        let h = sc.height();
        let k = self.k;
        // wallets and custody
        for who in USERS.iter().chain(&["dao", "mallory"]) {
            let have = self.wal(sc, who);
            let want = self.wallet.get(*who).copied().unwrap_or(0);
            ensure!(have == want, if k == Kind::Cw20 { SHARE } else { CUST }, "wallet", "{who} holds {have}, accounted for {want}");
        }
        let held = self.wal(sc, &self.st);
        let owed = self.total_claims() + self.balance + self.stray;
        ensure!(held == owed, if k == Kind::Cw20 { SHARE } else { CUST }, "custody", "the contract holds {held}, owes {owed} (stake {}, claims {}, stray {})", self.balance, self.total_claims(), self.stray);
        for who in STAKERS {
            let c = sc.qm(CUST, &self.st, &json!({"claims":{"address":who}}))?;
            let want: Vec<Value> = self.claims.get(who).into_iter().flatten().map(|(a, r)| json!({"amount":a.to_string(),"release_at":r.json()})).collect();
            ensure!(c["claims"] == json!(want), if k == Kind::Cw20 { SHARE } else { CUST }, "claims", "claims of {who}: expected {want:?}, got {c}");
        }
        let c = sc.qm(CUST, &self.st, &json!({"get_config":{}}))?;
        ensure!(c["unstaking_duration"] == dur_json(&self.dur), CUST, "config", "config {c}, expected duration {:?}", self.dur);
        sc.checked(14);
        // powers: now, and at a few past and future heights
        let tags = pow_tags(k);
        let mut hs: Vec<Option<u64>> = vec![None, Some(h), Some(h + 1)];
        let int = self.snap.interesting();
        for _ in 0..3 {
            if !int.is_empty() && sc.chance(70) {
                hs.push(Some(sc.pick(&int)));
            } else {
                let lo = self.start.saturating_sub(2);
                hs.push(Some(sc.r(lo, h + 3)));
            }
        }
        for hh in hs {
            let at = hh.unwrap_or(h);
            let who = sc.pick(&STAKERS);
            let p = sc.qm(tags, &self.vm, &json!({"voting_power_at_height":{"address":who,"height":hh}}))?;
            ensure!(u(&p["power"]) == self.snap.at(at, who) && p["height"] == json!(at), tags, "power", "power of {who} at {hh:?} (block {h}): expected {}, got {p}", self.snap.at(at, who));
            let t = sc.qm(tags, &self.vm, &json!({"total_power_at_height":{"height":hh}}))?;
            ensure!(u(&t["power"]) == self.snap.total_at(at) && t["height"] == json!(at), tags, "total", "total power at {hh:?} (block {h}): expected {}, got {t}", self.snap.total_at(at));
            if k == Kind::Cw20 {
                let b = sc.qm(tags, &self.st, &json!({"staked_balance_at_height":{"address":who,"height":hh}}))?;
                ensure!(u(&b["balance"]) == self.snap.at(at, who), tags, "staked-balance", "staked balance of {who} at {hh:?}: expected {}, got {b}", self.snap.at(at, who));
                let b = sc.qm(tags, &self.st, &json!({"total_staked_at_height":{"height":hh}}))?;
                ensure!(u(&b["total"]) == self.snap.total_at(at), tags, "staked-total", "total staked at {hh:?}: expected {}, got {b}", self.snap.total_at(at));
            }
            sc.checked(2);
        }
        // share values
        if k == Kind::Cw20 {
            let t = sc.qm(&["C10"], &self.st, &json!({"total_value":{}}))?;
            ensure!(u(&t["total"]) == self.balance, &["C10"], "total-value", "total value {t}, expected {}", self.balance);
            let total = self.snap.total();
            ensure!(self.balance >= total, &["C10"], "value-below-shares", "pool {} is worth less than its {} shares", self.balance, total);
            for who in STAKERS {
                let v = sc.qm(&["C10"], &self.st, &json!({"staked_value":{"address":who}}))?;
                let mine = self.snap.get(who);
                let want = if total == 0 || mine == 0 { 0 } else { big::mul_div_u128(self.balance, mine, total) };
                ensure!(u(&v["value"]) == want, &["C10"], "staked-value", "value of {who}: expected {want}, got {v}");
            }
            sc.checked(7);
        }
        // activity
        let staked = match k {
            Kind::Cw20 => self.snap.total_at(h),
            Kind::Token => self.snap.total(),
        };
        let a = sc.qm(ACT, &self.vm, &json!({"is_active":{}}))?["active"] == json!(true);
        let (lo, hi) = self.th.as_ref().map(|t| t.need(self.supply)).unwrap_or((0, 0));
        ensure!(if a { staked >= lo } else { staked < hi }, ACT, "is-active", "active={a} with {staked} staked of {} and threshold {:?} (needs {lo}..{hi})", self.supply, self.th);
        let q = sc.qm(ACT, &self.vm, &json!({"active_threshold":{}}))?;
        ensure!(q["active_threshold"] == self.th.as_ref().map(|t| t.json()).unwrap_or(Value::Null), ACT, "active-threshold", "{q} instead of {:?}", self.th);
        sc.tick(if self.th.is_some() { if a { "active" } else { "inactive" } } else { "no-threshold" });
        sc.checked(2);
        // hooks
        let hk = sc.qm(HOOK, &self.st, &json!({"get_hooks":{}}))?;
        ensure!(hk["hooks"] == json!(self.hooks.list), HOOK, "hook-list", "hooks {hk}, expected {:?}", self.hooks.list);
        if sc.chance(25) {
            self.hooks.check(sc, HOOK, &self.st)?;
        }
        if sc.chance(10) {
            self.listing(sc)?;
        }
        Ok(())
    }
    fn listing(&mut self, sc: &mut Sc) -> R {
        let mut want: Vec<Value> = self.snap.cur.iter().map(|(a, b)| json!({"address":a,"balance":b.to_string()})).collect();
        want.sort_by_key(|v| s(&v["address"]));
        let st = self.st.clone();
        pages(sc, &["C08", "C22"], &st, "list_stakers", json!({}), &want, want.len() <= 10, &|v| v["address"].clone(), &|r| r["stakers"].clone())
    }
}

fn run(sc: &mut Sc, k: Kind, fundy: bool) -> R {
    let mut w = match W::setup(sc, k) {
        Ok(w) => w,
        Err(v) if v.sig == "skip" => return Ok(()),
        Err(v) => return Err(v),
    };
    w.check(sc).map_err(|v| v.also("C25"))?;
    if sc.chance(4) {
        let (st, o) = (w.st.clone(), w.owner.clone().unwrap());
        w.hooks.crowd(sc, HOOK, &st, &o, &|_, h| json!({"add_hook":{"addr":h}}))?;
    }
    if sc.chance(2) {
        // fill somebody's claim queue
        w.dur = Some(Dur::H(5));
        let o = w.owner.clone().unwrap();
        let r = sc.exec(&o, &w.st.clone(), &json!({"update_config":{"duration":{"height":5}}}), &[]);
        ensure!(r.is_ok(), CUST, "config-outcome", "{r:?}");
        w.wallet.entry("ann".into()).or_insert(0);
        if w.wallet["ann"] >= 200 {
            w.stake_as(sc, "ann", 200)?;
            for i in 0..103 {
                w.unstake_as(sc, "ann", 1)?;
                if i % 40 == 0 {
                    sc.advance(1, 5);
                    w.check(sc)?;
                }
            }
            sc.tick("claim-queue-filled");
        }
    }
    let n = sc.r(20, if sc.thorough { 90 } else { 50 });
    for _ in 0..n {
        let f = if fundy { 12 } else { 3 };
        match sc.weighted(&[24, 20, 10, f, 3, 4, 5, 3, 5, 3, 2, 26]) {
            0 => w.stake(sc)?,
            1 => w.unstake(sc)?,
            2 => w.claim(sc)?,
            3 => w.fund(sc)?,
            4 => w.bad_stake(sc)?,
            5 => w.config(sc)?,
            6 => {
                let st = w.st.clone();
                let o = w.owner.clone();
                w.hooks.change(sc, HOOK, &st, &o, &|add, h| if add { json!({"add_hook":{"addr":h}}) } else { json!({"remove_hook":{"addr":h}}) })?;
            }
            7 => {
                w.hooks.toggle(sc);
            }
            8 => w.threshold(sc)?,
            9 => w.supply_change(sc)?,
            10 => w.ownership(sc)?,
            _ => {
                let r = w.rels();
                sc.advance_around(&r);
                if sc.chance(40) && !r.is_empty() {
                    w.claim(sc)?;
                }
            }
        }
        w.check(sc)?;
    }
    // everything can be taken out again: no stake or claim is ever stranded
    let st = w.st.clone();
    let Some(o) = w.owner.clone() else { return Ok(()) };
    for h in w.hooks.list.clone() {
        let r = sc.exec(&o, &st, &json!({"remove_hook":{"addr":h}}), &[]);
        ensure!(r.is_ok(), HOOK, "hook-register", "removing hook {h}: {r:?}");
    }
    w.hooks.list.clear();
    sc.advance(100, 100_000);
    for who in STAKERS {
        if w.claims.get(who).map(|c| c.iter().any(|x| x.0 > 0)).unwrap_or(false) {
            let due: u128 = w.claims[who].iter().map(|c| c.0).sum();
            let r = sc.exec(who, &st, &json!({"claim":{}}), &[]);
            ensure!(r.is_ok(), CUST, "exit-claim", "{who} cannot claim {due} at the end: {r:?}");
            *w.wallet.entry(who.to_string()).or_insert(0) += due;
            w.claims.remove(who);
        }
        if w.snap.get(who) > 0 {
            w.unstake_as(sc, who, w.snap.get(who))?;
        }
    }
    sc.advance(100, 100_000);
    for who in STAKERS {
        let due: u128 = w.claims.get(who).map(|c| c.iter().map(|c| c.0).sum()).unwrap_or(0);
        if due > 0 {
            let r = sc.exec(who, &st, &json!({"claim":{}}), &[]);
            ensure!(r.is_ok(), CUST, "exit-claim", "{who} cannot claim {due} at the end: {r:?}");
            *w.wallet.entry(who.to_string()).or_insert(0) += due;
            w.claims.remove(who);
        }
    }
    w.check(sc)?;
    w.hooks.check(sc, HOOK, &st)?;
    w.listing(sc)?;
    sc.tick("drained");
    Ok(())
}

pub fn cw20(sc: &mut Sc) -> R {
    run(sc, Kind::Cw20, false)
}
pub fn cw20_funded(sc: &mut Sc) -> R {
    run(sc, Kind::Cw20, true)
}
pub fn token(sc: &mut Sc) -> R {
    run(sc, Kind::Token, false)
}
