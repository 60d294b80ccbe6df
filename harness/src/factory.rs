//! The factories: payroll (cw-payroll-factory), self-administered contracts (cw-admin-factory)
//! and fantokens (btsg-ft-factory).
use crate::*;
use cosmwasm_std::{coin, Coin};
use std::collections::BTreeMap;

const T: &[&str] = &["C24"];

// ---------------------------------------------------------------- payroll

const WHO: [&str; 6] = ["boss", "ann", "bob", "cat", "dan", "eve"];

struct Pay {
    addr: String,
    inst: String,
    rec: String,
    admin: Option<String>,
    code: u64,
    /// native denom, or cw20 address
    den: (bool, String),
    total: u128,
    paid: bool,
    title: String,
}

struct PW {
    f: String,
    codes: Vec<u64>,
    code: u64,
    owner: Option<String>,
    offered: Option<String>,
    cw20s: Vec<String>,
    pays: Vec<Pay>,
    /// (holder, token) -> amount, for everybody but the vests
    bal: BTreeMap<(String, String), u128>,
}

impl PW {
    fn moved(&mut self, from: &str, to: Option<&str>, tok: &str, a: u128) {
        *self.bal.get_mut(&(from.to_string(), tok.to_string())).unwrap() -= a;
        if let Some(to) = to {
            *self.bal.entry((to.to_string(), tok.to_string())).or_default() += a;
        }
    }
    fn check(&self, sc: &mut Sc) -> R {
        let own = sc.qm(T, &self.f, &json!({"ownership":{}}))?;
        ensure!(
            own["owner"] == json!(self.owner) && own["pending_owner"] == json!(self.offered),
            T, "payroll-owner", "ownership {own}, expected {:?} offered {:?}", self.owner, self.offered
        );
        let c = sc.qm(T, &self.f, &json!({"code_id":{}}))?;
        ensure!(c == json!(self.code), T, "payroll-code", "code id {c}, expected {}", self.code);
        for ((who, tok), a) in &self.bal {
            let have = if tok.starts_with("contract") { sc.cw20_bal(tok, who) } else { sc.bank(who, tok) };
            ensure!(have == *a, T, "payroll-funds", "{who} holds {have} of {tok}, expected {a}");
        }
        sc.checked(self.bal.len() as u64 + 2);
        Ok(())
    }
    fn lists(&self, sc: &mut Sc) -> R {
        let mut sorted: Vec<&Pay> = self.pays.iter().collect();
        sorted.sort_by(|a, b| a.addr.cmp(&b.addr));
        let js = |p: &Pay| json!({"contract":p.addr,"instantiator":p.inst,"recipient":p.rec});
        let who = sc.pick(&WHO).to_string();
        for (q, key) in [("list_vesting_contracts", ""), ("list_vesting_contracts_by_instantiator", "instantiator"), ("list_vesting_contracts_by_recipient", "recipient")] {
            let all: Vec<Value> = sorted
                .iter()
                .filter(|p| match key {
                    "instantiator" => p.inst == who,
                    "recipient" => p.rec == who,
                    _ => true,
                })
                .map(|p| js(p))
                .collect();
            for rev in [false, true] {
                let name = format!("{q}{}", if rev { "_reverse" } else { "" });
                let cur = if rev { "start_before" } else { "start_after" };
                let mut want = all.clone();
                if rev {
                    want.reverse();
                }
                // one call with a random limit and start
                let lim = match sc.r(0, 3) {
                    0 => None,
                    1 => Some(sc.r(0, 4)),
                    2 => Some(sc.r(10, 60)),
                    _ => Some(u32::MAX as u64),
                };
                let start = if sc.chance(50) && !sorted.is_empty() {
                    let i = sc.r(0, sorted.len() as u64 - 1) as usize;
                    Some(sorted[i].addr.clone())
                } else if sc.chance(20) {
                    Some("contract2zz".to_string())
                } else {
                    None
                };
                let mut a = json!({"limit": lim, cur: start});
                if !key.is_empty() {
                    a[key] = json!(who);
                }
                let got = sc.qm(T, &self.f, &json!({name.clone(): a}))?;
                let n = lim.unwrap_or(10).min(50) as usize;
                let exp: Vec<Value> = want
                    .iter()
                    .filter(|v| match &start {
                        None => true,
                        Some(st) if rev => v["contract"].as_str().unwrap() < st.as_str(),
                        Some(st) => v["contract"].as_str().unwrap() > st.as_str(),
                    })
                    .take(n)
                    .cloned()
                    .collect();
                ensure!(got == json!(exp), T, "payroll-list", "{name} {a}: {got}, expected {exp:?}");
                // the whole listing, page by page
                let page = sc.r(1, 12);
                let mut seen: Vec<Value> = vec![];
                let mut at: Value = Value::Null;
                loop {
                    let mut a = json!({"limit": page, cur: at});
                    if !key.is_empty() {
                        a[key] = json!(who);
                    }
                    let got = sc.qm(T, &self.f, &json!({name.clone(): a}))?;
                    let got = got.as_array().unwrap().clone();
                    let Some(l) = got.last() else { break };
                    at = l["contract"].clone();
                    seen.extend(got);
                    if seen.len() > want.len() {
                        break;
                    }
                }
                ensure!(seen == want, T, "payroll-pages", "{name} for {who} in pages of {page}: {seen:?}, expected {want:?}");
                sc.checked(2);
            }
        }
        Ok(())
    }
    fn check_pay(&self, sc: &mut Sc, p: &Pay) -> R {
        let info = sc.app.wrap().query_wasm_contract_info(&p.addr).map_err(|e| Viol::new(T, "payroll-vest", e.to_string()))?;
        ensure!(
            info.admin == p.admin && info.code_id == p.code && info.creator == self.f,
            T, "payroll-vest-admin", "{} has admin {:?} code {} creator {}, expected {:?} {}", p.addr, info.admin, info.code_id, info.creator, p.admin, p.code
        );
        let v = sc.qm(T, &p.addr, &json!({"info":{}}))?;
        let own = sc.qm(T, &p.addr, &json!({"ownership":{}}))?;
        let den = if p.den.0 { json!({"native": p.den.1}) } else { json!({"cw20": p.den.1}) };
        ensure!(
            v["recipient"] == json!(p.rec) && v["denom"] == den && v["title"] == json!(p.title) && own["owner"] == json!(p.admin),
            T, "payroll-vest-info", "{}: {v} owner {own}", p.addr
        );
        let have = if p.den.0 { sc.bank(&p.addr, &p.den.1) } else { sc.cw20_bal(&p.den.1, &p.addr) };
        let st = if p.paid { "funded" } else { "unfunded" };
        ensure!(v["status"] == json!(st), T, "payroll-vest-status", "{} is {}, expected {st}", p.addr, v["status"]);
        ensure!(have == if p.paid { p.total } else { 0 }, T, "payroll-vest-funds", "{} holds {have} of its {}", p.addr, p.total);
        let tot = sc.qm(T, &p.addr, &json!({"total_to_vest":{}}))?;
        ensure!(u(&tot) == p.total, T, "payroll-vest-total", "{} vests {tot}, expected {}", p.addr, p.total);
        sc.checked(6);
        Ok(())
    }
}

pub fn payroll(sc: &mut Sc) -> R {
    let fc = sc.code(wrap!(cw_payroll_factory::contract; reply));
    let mk_vest = || wrap!(cw_vesting::contract);
    let (v1, v2) = (sc.code(mk_vest()), sc.code(mk_vest()));
    let c20 = sc.code(cw20_code());
    let codes = vec![v1, v2];
    let mut bal = BTreeMap::new();
    let mut cw20s = vec![];
    for n in ["cone", "ctwo"] {
        let init: Vec<Value> = WHO.iter().map(|w| json!({"address":w,"amount":"1000000"})).collect();
        let a = sc.must_init(c20, "mint", &json!({"name":n,"symbol":"TOK","decimals":6,"initial_balances":init}), &[], n)?;
        for w in WHO {
            bal.insert((w.to_string(), a.clone()), 1_000_000);
        }
        cw20s.push(a);
    }
    for w in WHO {
        for d in ["ujuno", "uusd"] {
            sc.mint(w, 1_000_000, d);
            bal.insert((w.to_string(), d.to_string()), 1_000_000);
        }
    }
    let owner = if sc.chance(60) { Some("boss".to_string()) } else { None };
    let code = sc.pick(&codes);
    let f = sc.must_init(fc, "mint", &json!({"owner":owner,"vesting_code_id":code}), &[], "factory")?;
    for tok in cw20s.iter().cloned().chain(["ujuno".to_string(), "uusd".to_string()]) {
        bal.insert((f.clone(), tok), 0);
    }
    let mut w = PW { f: f.clone(), codes, code, owner, offered: None, cw20s, pays: vec![], bal };
    let many = sc.chance(4);
    let steps = if many { 90 } else { sc.r(8, 30) };
    for i in 0..steps {
        let who = sc.pick(&WHO).to_string();
        let who = match (&w.owner, sc.chance(60)) {
            (Some(o), true) => o.clone(),
            _ => who,
        };
        match sc.weighted(&[if many { 90 } else { 40 }, 6, 6, 8, 6, 6, 12]) {
            0 => {
                // a payment, possibly wrong in one way
                let nat = sc.chance(45);
                let rec = sc.pick(&WHO).to_string();
                let own = if sc.chance(65) { Some(sc.pick(&WHO).to_string()) } else { None };
                let total = sc.r(1, 300) as u128;
                let tok = if nat { sc.pick(&["ujuno", "uusd"]).to_string() } else { sc.pick(&w.cw20s) };
                let now = sc.now();
                let mut start: Option<u64> = match sc.r(0, 2) {
                    0 => None,
                    1 => Some(now + sc.r(0, 1000)),
                    _ => Some(now - sc.r(0, 50)),
                };
                let dur = sc.r(60, 5000);
                let flaw = if sc.chance(35) { sc.r(1, 9) } else { 0 };
                let title = format!("pay{i}");
                let mut den = if nat { json!({"native":tok}) } else { json!({"cw20":tok}) };
                let mut ask = total;
                let mut ok = true;
                match flaw {
                    1 => {
                        // more or less than the vest
                        ask = if sc.chance(50) { total + 1 } else { total - 1 };
                        ok = false;
                    }
                    2 => {
                        // another denom than the one sent
                        den = match sc.r(0, 2) {
                            0 => json!({"native": if tok == "ujuno" { "uusd" } else { "ujuno" }}),
                            1 => json!({"cw20": if tok == w.cw20s[0] { w.cw20s[1].clone() } else { w.cw20s[0].clone() }}),
                            _ if nat => json!({"cw20": w.f}),
                            _ => json!({"native": tok}),
                        };
                        ok = false;
                    }
                    3 => {
                        start = Some(now - 6000);
                        ok = false;
                    }
                    _ => {}
                }
                let im = json!({"owner":own,"recipient":rec,"title":title,"description":null,"total":ask.to_string(),"denom":den,"schedule":"saturating_linear",
                    "start_time":start.map(|t| (t * NS).to_string()),"vesting_duration_seconds":dur,"unbonding_duration_seconds":100});
                let auth = w.owner.as_deref().map_or(true, |o| o == who);
                ok &= auth;
                let poor = *w.bal.get(&(who.clone(), tok.clone())).unwrap_or(&0) < total;
                ok &= !poor;
                let r = if nat {
                    let mut funds = vec![coin(total, &tok)];
                    if flaw == 4 {
                        funds = vec![coin(total, "ujuno"), coin(1, "uusd")];
                        ok = false;
                    } else if flaw == 5 {
                        funds = vec![];
                        ok = false;
                    }
                    sc.exec(&who, &w.f, &json!({"instantiate_native_payroll_contract":{"instantiate_msg":im,"label":title}}), &funds)
                } else {
                    let inner = json!({"instantiate_payroll_contract":{"instantiate_msg":im,"label":title}});
                    match flaw {
                        4 => {
                            // told of tokens that nobody sent
                            ok = false;
                            let a = sc.pick(&["mint", who.as_str()]).to_string();
                            let (a, n) = (a, who.clone());
                            sc.exec(&a, &w.f, &json!({"receive":{"sender":n,"amount":total.to_string(),"msg":b64(&inner)}}), &[])
                        }
                        5 => {
                            // a cw20 payment asked for without sending any
                            ok = false;
                            let funds: Vec<Coin> = if sc.chance(30) { vec![coin(1, "ujuno")] } else { vec![] };
                            sc.exec(&who, &w.f, &json!({"instantiate_native_payroll_contract":{"instantiate_msg":im,"label":title}}), &funds)
                        }
                        _ => sc.exec(&who, &tok, &json!({"send":{"contract":w.f,"amount":total.to_string(),"msg":b64(&inner)}}), &[]),
                    }
                };
                ensure!(
                    r.is_ok() == ok,
                    T, "payroll-create", "payment of {total} of {tok} (flaw {flaw}, owner {:?}) by {who}: expected {}, got {:?}", w.owner, if ok { "success" } else { "refusal" }, r.as_ref().map(|_| ())
                );
                if !auth {
                    sc.tick("payroll.unauthorized");
                }
                match r {
                    Ok(res) => {
                        let addr = res
                            .events
                            .iter()
                            .flat_map(|e| &e.attributes)
                            .find(|a| a.key == "new_payroll_contract")
                            .map(|a| a.value.clone())
                            .ok_or_else(|| Viol::new(T, "payroll-attr", "no new_payroll_contract attribute"))?;
                        ensure!(w.pays.iter().all(|p| p.addr != addr), T, "payroll-attr", "{addr} reported twice");
                        w.moved(&who, None, &tok, total);
                        let p = Pay { addr, inst: who.clone(), rec, admin: own, code: w.code, den: (nat, tok), total, paid: true, title };
                        w.check_pay(sc, &p)?;
                        sc.tick(if nat { "payroll.native" } else { "payroll.cw20" });
                        w.pays.push(p);
                        sc.nontrivial = true;
                    }
                    Err(_) => sc.tick(&format!("payroll.refused{flaw}")),
                }
            }
            1 => {
                let c = sc.pick(&w.codes);
                let r = sc.exec(&who, &w.f, &json!({"update_code_id":{"vesting_code_id":c}}), &[]);
                let ok = w.owner.as_deref() == Some(who.as_str());
                ensure!(r.is_ok() == ok, T, "payroll-code-auth", "code change by {who} (owner {:?}): {:?}", w.owner, r.map(|_| ()));
                if ok {
                    w.code = c;
                    sc.tick("payroll.code");
                }
            }
            2 => {
                let to = sc.pick(&WHO).to_string();
                let ok = w.owner.as_deref() == Some(who.as_str());
                let renounce = sc.chance(15);
                let m = if renounce { json!({"update_ownership":"renounce_ownership"}) } else { json!({"update_ownership":{"transfer_ownership":{"new_owner":to,"expiry":null}}}) };
                let r = sc.exec(&who, &w.f, &m, &[]);
                ensure!(r.is_ok() == ok, T, "payroll-transfer", "{m} by {who} (owner {:?}): {:?}", w.owner, r.map(|_| ()));
                if ok && renounce {
                    w.owner = None;
                    w.offered = None;
                    sc.tick("payroll.renounced");
                } else if ok {
                    w.offered = Some(to);
                }
            }
            3 => {
                let who = if sc.chance(70) { w.offered.clone().unwrap_or(who) } else { who };
                let r = sc.exec(&who, &w.f, &json!({"update_ownership":"accept_ownership"}), &[]);
                let ok = w.offered.as_deref() == Some(who.as_str());
                ensure!(r.is_ok() == ok, T, "payroll-accept", "acceptance by {who} (offered {:?}): {:?}", w.offered, r.map(|_| ()));
                if ok {
                    w.owner = w.offered.take();
                    sc.tick("payroll.owner");
                }
            }
            4 => {
                // tokens that end up at the factory unasked stay there
                let tok = if sc.chance(50) { sc.pick(&w.cw20s) } else { sc.pick(&["ujuno", "uusd"]).to_string() };
                let a = sc.r(1, 500) as u128;
                let who = sc.pick(&WHO).to_string();
                if *w.bal.get(&(who.clone(), tok.clone())).unwrap_or(&0) >= a {
                    let fa = w.f.clone();
                    let r = if tok.starts_with("contract") {
                        sc.exec(&who, &tok, &json!({"transfer":{"recipient":fa,"amount":a.to_string()}}), &[])
                    } else {
                        sc.cosmos(&who, cosmwasm_std::BankMsg::Send { to_address: fa.clone(), amount: vec![coin(a, &tok)] }.into())
                    };
                    if r.is_ok() {
                        w.moved(&who, Some(&fa), &tok, a);
                        sc.tick("payroll.stray");
                    }
                }
            }
            5 => {
                let d = sc.r(1, 500);
                sc.advance(1, d);
            }
            _ => w.lists(sc)?,
        }
        w.check(sc)?;
    }
    w.lists(sc)?;
    let ps = std::mem::take(&mut w.pays);
    for p in &ps {
        w.check_pay(sc, p)?;
    }
    if ps.len() > 50 {
        sc.tick("payroll.over50");
    }
    Ok(())
}

// ---------------------------------------------------------------- self-administered contracts

#[derive(Clone, Debug)]
struct Node {
    salt: Option<u8>,
    expect: Option<String>,
    admin_factory_code: u64,
    funds: u128,
    fail: bool,
    label: String,
    /// (child, failures of it are swallowed)
    kids: Vec<(Node, bool)>,
}

#[derive(Clone)]
struct SimSt {
    count: u64,
    made: Vec<(String, u64, u128)>,
    taken: std::collections::BTreeSet<String>,
}

fn salted(b: u8) -> String {
    format!("contract{b:02x}")
}

fn node(sc: &mut Sc, code: u64, depth: u32, n: &mut u32) -> Node {
    *n += 1;
    let salt = if sc.chance(65) { Some(0xa0 + sc.r(0, 11) as u8) } else { None };
    let expect = match (salt, sc.r(0, 9)) {
        (Some(b), 0..=4) => Some(salted(b)),
        (Some(_), 5) => Some(salted(0xa0 + sc.r(0, 11) as u8)),
        (Some(_), 6) => Some("contract1".to_string()),
        _ => None,
    };
    let mut kids = vec![];
    if depth < 3 {
        for _ in 0..[0, 0, 1, 1, 2][sc.r(0, 4) as usize] {
            let k = node(sc, code, depth + 1, n);
            let sw = sc.chance(35);
            kids.push((k, sw));
        }
        // messages that must succeed come first
        kids.sort_by_key(|k| k.1);
    }
    Node { salt, expect, admin_factory_code: code, funds: 0, fail: sc.chance(8), label: format!("node{n}"), kids }
}

/// How much of the other coin comes with `f` of the first.
fn other(f: u128) -> u128 {
    f.saturating_sub(60)
}
fn node_msg(n: &Node, f: &str) -> Value {
    let kid = |k: &Node| json!({"wasm":{"execute":{"contract_addr":f,"msg":b64(&node_msg(k, f)),"funds":[]}}});
    let inst = json!({
        "fail": n.fail,
        "msgs": n.kids.iter().filter(|k| !k.1).map(|k| kid(&k.0)).collect::<Vec<_>>(),
        "try": n.kids.iter().filter(|k| k.1).map(|k| kid(&k.0)).collect::<Vec<_>>(),
    });
    match n.salt {
        None => json!({"instantiate_contract_with_self_admin":{"instantiate_msg":b64(&inst),"code_id":n.admin_factory_code,"label":n.label}}),
        Some(b) => json!({"instantiate2_contract_with_self_admin":{"instantiate_msg":b64(&inst),"code_id":n.admin_factory_code,"label":n.label,
            "salt":cosmwasm_std::Binary::from(vec![b]),"expect":n.expect}}),
    }
}

fn sim(n: &Node, allowed: bool, open: bool, st: &mut SimSt) -> bool {
    if !allowed {
        return false;
    }
    let addr = match n.salt {
        Some(b) => salted(b),
        None => format!("contract{}", st.count),
    };
    if !st.taken.insert(addr.clone()) || n.fail {
        return false;
    }
    st.count += 1;
    st.made.push((addr.clone(), n.admin_factory_code, n.funds));
    for (k, swallow) in &n.kids {
        let save = st.clone();
        if !sim(k, open, open, st) {
            if !swallow {
                return false;
            }
            *st = save;
        }
    }
    match (&n.expect, n.salt) {
        (Some(e), Some(_)) => *e == addr,
        _ => true,
    }
}

fn nests(n: &Node) -> bool {
    n.salt.is_some() && n.expect.is_some() && n.kids.iter().any(|k| k.0.salt.is_some())
}

pub fn selfadmin(sc: &mut Sc) -> R {
    let fc = sc.code(wrap!(cw_admin_factory::contract; reply, migrate));
    let pc = sc.code(puppet_code());
    let pc2 = sc.code(puppet_code());
    let admin = if sc.chance(40) { Some("boss".to_string()) } else { None };
    sc.mint("boss", 1_000_000, "ujuno");
    sc.mint("ann", 1_000_000, "ujuno");
    let wa = if sc.chance(50) { Some("sudo") } else { None };
    let f = sc
        .init(fc, "boss", &json!({"admin":admin}), &[], "factory", wa)
        .map_err(|e| Viol::new(T, "factory-init", e))?;
    let mut st = SimSt { count: 1, made: vec![], taken: [f.clone()].into() };
    let steps = sc.r(3, 10);
    for _ in 0..steps {
        let who = sc.pick(&["boss", "boss", "ann"]).to_string();
        match sc.r(0, 9) {
            0 => {
                let r = sc.migrate(if wa.is_some() { "sudo" } else { "boss" }, &f, &json!({}), fc);
                ensure!(r.is_ok() == wa.is_some(), T, "factory-migrate", "migration of the factory: {r:?}");
            }
            1 if !st.made.is_empty() => {
                // only the contract itself can migrate it
                let (a, _, _) = sc.pick(&st.made);
                let by = sc.pick(&["boss", "ann", f.as_str()]).to_string();
                let r = sc.migrate(&by, &a, &json!({}), pc2);
                ensure!(r.is_err(), T, "factory-power", "{by} migrated {a}, which should be its own admin");
                let m = json!({"wasm":{"migrate":{"contract_addr":a,"new_code_id":pc2,"msg":b64(&json!({}))}}});
                let r = sc.exec("ann", &a, &json!({"relay":{"msgs":[m]}}), &[]);
                ensure!(r.is_ok(), T, "factory-self-migrate", "{a} cannot migrate itself: {r:?}");
                for x in st.made.iter_mut().filter(|x| x.0 == a) {
                    x.1 = pc2;
                }
                sc.tick("selfadmin.migrated");
            }
            _ => {
                let mut n = 0;
                let code = sc.pick(&[pc, pc2]);
                let mut nd = node(sc, code, 0, &mut n);
                nd.funds = if sc.chance(30) { sc.r(1, 100) as u128 } else { 0 };
                let allowed = admin.as_deref().map_or(true, |a| a == who);
                let save = st.clone();
                let ok = sim(&nd, allowed, admin.is_none(), &mut st);
                let mut funds: Vec<Coin> = if nd.funds > 0 { vec![coin(nd.funds, "ujuno")] } else { vec![] };
                // some creations are given two kinds of coin
                if other(nd.funds) > 0 {
                    sc.mint(&who, other(nd.funds), "uzusd");
                    funds.push(coin(other(nd.funds), "uzusd"));
                }
                let before = sc.bank(&who, "ujuno");
                let r = sc.exec(&who, &f, &node_msg(&nd, &f), &funds);
                if ok != r.is_ok() {
                    let sig = if nests(&nd) { "nested-expect" } else { "selfadmin" };
                    return Err(Viol::new(T, sig, format!("{nd:?} by {who} (admin {admin:?}): expected {}, got {:?}", if ok { "success" } else { "failure" }, r.map(|_| ()))));
                }
                if ok {
                    sc.nontrivial = true;
                    sc.tick(if n > 1 { "selfadmin.nested" } else { "selfadmin.one" });
                    if nests(&nd) {
                        sc.tick("selfadmin.nested-expect");
                    }
                    ensure!(sc.bank(&who, "ujuno") == before - nd.funds, T, "factory-funds", "{who} did not pay {}", nd.funds);
                } else {
                    st = save;
                    if !allowed {
                        sc.tick("selfadmin.unauthorized");
                    } else if nd.expect.is_some() && nd.kids.is_empty() && !nd.fail {
                        sc.tick("selfadmin.unexpected");
                    }
                }
            }
        }
        // what exists is what was asked for, and each contract is its own admin
        for (a, code, funds) in &st.made {
            let i = sc.app.wrap().query_wasm_contract_info(a).map_err(|e| Viol::new(T, "factory-made", format!("{a}: {e}")))?;
            ensure!(i.admin.as_deref() == Some(a), T, "factory-admin", "{a} has admin {:?}, not itself", i.admin);
            ensure!(i.code_id == *code && i.creator == f, T, "factory-made", "{a}: code {} creator {}, expected {code} {f}", i.code_id, i.creator);
            ensure!(sc.bank(a, "ujuno") == *funds, T, "factory-funds", "{a} holds {}, expected {funds}", sc.bank(a, "ujuno"));
            ensure!(sc.bank(a, "uzusd") == other(*funds), T, "factory-funds", "{a} holds {}uzusd, expected {}", sc.bank(a, "uzusd"), other(*funds));
        }
        for b in 0xa0..0xacu8 {
            let there = sc.app.wrap().query_wasm_contract_info(salted(b)).is_ok();
            ensure!(there == st.taken.contains(&salted(b)), T, "factory-made", "{} exists: {there}", salted(b));
        }
        let next = format!("contract{}", st.count);
        ensure!(sc.app.wrap().query_wasm_contract_info(&next).is_err(), T, "factory-made", "{next} exists");
        let adm = sc.qm(T, &f, &json!({"admin":{}}))?;
        ensure!(adm["admin"] == json!(admin), T, "factory-gate", "admin {adm}, expected {admin:?}");
        sc.checked(st.made.len() as u64 * 3 + 14);
    }
    Ok(())
}

// ---------------------------------------------------------------- fantokens

pub fn fantoken(sc: &mut Sc) -> R {
    let fc = sc.code(wrap!(btsg_ft_factory::contract; reply, migrate));
    let vc = sc.code(wrap!(dao_voting_token_staked::contract; reply, migrate));
    let pc = sc.code(puppet_code());
    let f = sc.must_init(fc, "boss", &json!({}), &[], "factory")?;
    let mut n = 0usize;
    let mut supply: Vec<(String, Value, BTreeMap<String, u128>)> = vec![];
    let steps = sc.r(2, 8);
    for i in 0..steps {
        let mut bals: Vec<(String, u128)> = vec![];
        for w in ["ann", "bob", "cat", "dan"] {
            if sc.chance(60) {
                let a = if sc.chance(6) { 0 } else { sc.r(1, 1_000_000) as u128 };
                bals.push((w.to_string(), a));
            }
        }
        if sc.chance(15) && !bals.is_empty() {
            // the same address twice
            let b = sc.pick(&bals);
            bals.push(b);
        }
        let dao_bal = match sc.r(0, 3) {
            0 => None,
            1 => Some(0u128),
            _ => Some(sc.r(1, 1_000_000) as u128),
        };
        let sum: u128 = bals.iter().map(|b| b.1).sum::<u128>() + dao_bal.unwrap_or(0);
        let max = match sc.r(0, 5) {
            0 => sum,
            1 => sum.saturating_sub(1),
            2 => u128::MAX,
            _ => sum + sc.r(0, 100) as u128,
        };
        let sym = format!("SYM{i}");
        let tok = json!({"symbol":sym,"name":format!("name{i}"),"max_supply":max.to_string(),"uri":format!("ipfs{i}"),
            "initial_balances":bals.iter().map(|(a,b)| json!({"address":a,"amount":b.to_string()})).collect::<Vec<_>>(),"initial_dao_balance":dao_bal.map(|x| x.to_string())});
        let dao = format!("dao{i}");
        let mut ok = sum <= max && bals.iter().all(|b| b.1 > 0);
        let direct = sc.chance(25);
        let r: Result<Option<String>, String>;
        let owner;
        if direct {
            // whoever is not a contract with a DAO has no token to issue
            let (by, o) = if sc.chance(50) {
                let p = sc.must_init(pc, "ann", &json!({}), &[], "caller")?;
                (p.clone(), p)
            } else {
                ok = false;
                ("ann".to_string(), String::new())
            };
            owner = o;
            r = sc.exec(&by, &f, &json!({"issue":tok}), &[]).map(|_| None);
        } else {
            owner = dao.clone();
            let inner = json!({"wasm":{"execute":{"contract_addr":f,"msg":b64(&json!({"issue":tok})),"funds":[]}}});
            let inner = inner["wasm"].clone();
            // somebody else than the DAO must hold tokens, enough of them to make it active
            let held: u128 = bals.iter().map(|b| b.1).sum();
            let count = if sc.chance(40) { Some(sc.r(held.saturating_sub(1) as u64, held as u64 + 1) as u128) } else { None };
            ok &= held > 0 && count.map_or(true, |c| c > 0 && c <= held);
            let th = count.map(|c| json!({"absolute_count":{"count":c.to_string()}}));
            if count.is_some() {
                sc.tick("fantoken.threshold");
            }
            let im = json!({"token_info":{"factory":b64(&inner)},"unstaking_duration":null,"active_threshold":th});
            r = sc.init(vc, &dao, &im, &[], "vm", None).map(Some);
        }
        ensure!(r.is_ok() == ok, T, "fantoken-issue", "issue of {tok} (direct {direct}): expected {}, got {r:?}", if ok { "success" } else { "failure" });
        let denom = format!("ft{n}x");
        if let Ok(vm) = r {
            sc.nontrivial = true;
            sc.tick(if direct { "fantoken.direct" } else { "fantoken.dao" });
            n += 1;
            let mut held: BTreeMap<String, u128> = BTreeMap::new();
            for (a, b) in bals.iter().cloned().chain([(owner.clone(), dao_bal.unwrap_or(0))]) {
                *held.entry(a).or_default() += b;
            }
            let st = json!({"symbol":tok["symbol"],"name":tok["name"],"max":tok["max_supply"],"uri":tok["uri"],"authority":owner,"minter":owner,"supply":sum.to_string()});
            supply.push((denom.clone(), st, held));
            if let Some(vm) = vm {
                let d = sc.qm(T, &vm, &json!({"denom":{}}))?;
                ensure!(d["denom"] == json!(denom), T, "fantoken-denom", "the module's token is {d}, expected {denom}");
                let tc = sc.qm(T, &vm, &json!({"token_contract":{}}))?;
                ensure!(tc.is_null(), T, "fantoken-denom", "a fantoken has no token contract, got {tc}");
                // it is what the DAO votes with
                if let Some((a, b)) = bals.first().cloned() {
                    let r = sc.exec(&a, &vm, &json!({"stake":{}}), &[coin(b, &denom)]);
                    ensure!(r.is_ok(), T, "fantoken-stake", "{a} cannot stake {b}{denom}: {r:?}");
                    sc.advance(1, 5);
                    let p = sc.qm(T, &vm, &json!({"voting_power_at_height":{"address":a}}))?;
                    ensure!(u(&p["power"]) == b, T, "fantoken-stake", "{a} staked {b}, power {p}");
                    let h = &mut supply.last_mut().unwrap().2;
                    *h.get_mut(&a).unwrap() -= b;
                    *h.entry(vm).or_default() += b;
                    sc.tick("fantoken.staked");
                }
            }
        } else {
            sc.tick(if direct { "fantoken.stranger" } else { "fantoken.refused" });
        }
        ensure!(sc.ft_state(&format!("ft{n}x")).is_null(), T, "fantoken-extra", "an unasked fantoken exists");
        for (d, st, held) in &supply {
            let got = sc.ft_state(d);
            ensure!(got == *st, T, "fantoken-state", "{d} is {got}, expected {st}");
            for a in ["ann", "bob", "cat", "dan", f.as_str()].iter().map(|s| s.to_string()).chain(held.keys().cloned()) {
                let want = held.get(&a).copied().unwrap_or(0);
                let h = sc.bank(&a, d);
                ensure!(h == want, T, "fantoken-balance", "{a} holds {h} of {d}, expected {want}");
            }
            sc.checked(6);
        }
    }
    Ok(())
}
