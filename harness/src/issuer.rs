//! cw-tokenfactory-issuer: allowances, freezing, allow- and denylists, ownership (C19).
use crate::*;
use cosmwasm_std::coin;
use std::collections::{BTreeMap, BTreeSet};

const T: &[&str] = &["C19"];
const WHO: [&str; 4] = ["own", "ann", "bob", "cat"];

struct W {
    me: String,
    other: String,
    side: bool,
    denom: String,
    admin: String,
    owner: Option<String>,
    offered: Option<String>,
    mint: BTreeMap<String, u128>,
    burn: BTreeMap<String, u128>,
    frozen: bool,
    allow: BTreeSet<String>,
    deny: BTreeSet<String>,
    advanced: bool,
    told: Option<String>,
    hook: Option<String>,
    bal: BTreeMap<String, u128>,
    /// does the other issuer veto?
    other_deny: BTreeSet<String>,
    meta: Option<String>,
}
impl W {
    /// a token of somebody else that asks this issuer before each transfer: not its token, so not frozen with it
    fn foreign(&mut self, sc: &mut Sc) -> R {
        use prost11::Message as _;
        use osmosis_std::types::{cosmos::base::v1beta1::Coin as C, osmosis::tokenfactory::v1beta1 as m};
        let d = "factory/dan/side".to_string();
        let mut msgs = vec![];
        if !self.side {
            msgs.push(("MsgCreateDenom", m::MsgCreateDenom { sender: "dan".into(), subdenom: "side".into() }.encode_to_vec()));
            for who in WHO {
                msgs.push(("MsgMint", m::MsgMint { sender: "dan".into(), amount: Some(C { denom: d.clone(), amount: "1000".into() }), mint_to_address: who.into() }.encode_to_vec()));
            }
            msgs.push(("MsgSetBeforeSendHook", m::MsgSetBeforeSendHook { sender: "dan".into(), denom: d.clone(), cosmwasm_address: self.me.clone() }.encode_to_vec()));
            self.side = true;
        }
        for (k, v) in msgs {
            let r = sc.cosmos("dan", cosmwasm_std::CosmosMsg::Stargate { type_url: format!("/osmosis.tokenfactory.v1beta1.{k}"), value: v.into() });
            assert!(r.is_ok(), "{k}: {r:?}");
        }
        let (from, to) = (sc.pick(&WHO).to_string(), sc.pick(&WHO).to_string());
        if sc.bank(&from, &d) == 0 {
            return Ok(());
        }
        let ok = !self.deny.contains(&from) && !self.deny.contains(&to);
        let r = sc.cosmos(&from, cosmwasm_std::BankMsg::Send { to_address: to.clone(), amount: vec![coin(1, &d)] }.into());
        ensure!(r.is_ok() == ok, T, "foreign-transfer", "{from} sends another's token to {to} (frozen {}, allowed {:?}, denied {:?}): expected ok={ok}, got {r:?}", self.frozen, self.allow, self.deny);
        sc.tick(if self.frozen { "foreign.frozen" } else { "foreign" });
        Ok(())
    }
    fn can_pass(&self, from: &str, to: &str) -> bool {
        !self.frozen || self.allow.contains(from) || self.allow.contains(to)
    }
    /// would the chain let this transfer happen?
    fn send_ok(&self, from: &str, to: &str, x: u128) -> bool {
        let veto = match &self.hook {
            None => false,
            Some(h) if *h == self.me => !self.can_pass(from, to) || self.deny.contains(from) || self.deny.contains(to),
            Some(_) => self.other_deny.contains(from) || self.other_deny.contains(to),
        };
        x > 0 && self.bal[from] >= x && !veto
    }
    fn mv(&mut self, from: &str, to: &str, x: u128) {
        *self.bal.get_mut(from).unwrap() -= x;
        *self.bal.get_mut(to).unwrap() += x;
    }
    fn actor(&self, sc: &mut Sc) -> String {
        let mut v: Vec<String> = WHO.iter().map(|s| s.to_string()).collect();
        v.push(self.me.clone());
        sc.pick(&v)
    }
    fn as_owner(&self, sc: &mut Sc) -> String {
        if sc.chance(85) {
            self.owner.clone().unwrap_or("own".into())
        } else {
            sc.pick(&WHO).to_string()
        }
    }
    fn is_owner(&self, by: &str) -> bool {
        self.owner.as_deref() == Some(by)
    }
    fn exec(&self, sc: &mut Sc, by: &str, m: Value, ok: bool, sig: &str) -> R {
        let r = sc.exec(by, &self.me, &m, &[]);
        ensure!(
            r.is_ok() == ok,
            T,
            sig,
            "{by}: {m} (owner {:?}, admin of the token {}, frozen {}, advanced {}, hook {:?}, mint {:?}, burn {:?}, allowed {:?}, denied {:?}, balances {:?}): expected ok={ok}, got {r:?}",
            self.owner,
            self.admin,
            self.frozen,
            self.advanced,
            self.hook,
            self.mint,
            self.burn,
            self.allow,
            self.deny,
            self.bal
        );
        if !ok && sig != "mint" && sig != "burn" && !self.is_owner(by) {
            sc.tick("owner-gate");
        }
        Ok(())
    }
    fn op(&mut self, sc: &mut Sc) -> R {
        match sc.weighted(&[26, 16, 22, 10, 8, 10, 8, 10, 8, 8, 5, 3, 6, 5]) {
            0 => {
                let some: Vec<String> = self.mint.keys().cloned().collect();
                let by = if !some.is_empty() && sc.chance(85) { sc.pick(&some) } else { sc.pick(&WHO).to_string() };
                let to = self.actor(sc);
                let al = self.mint.get(&by).copied().unwrap_or(0);
                let x = match sc.r(0, 6) {
                    0 => 0,
                    1 => al,
                    2 => al.saturating_add(1),
                    3 => al / 2,
                    _ => sc.amount(),
                };
                let fr = self.can_pass(&by, &to);
                *self.bal.get_mut(&self.me).unwrap() += x;
                let sent = self.send_ok(&self.me, &to, x);
                *self.bal.get_mut(&self.me).unwrap() -= x;
                let ok = x > 0 && x <= al && self.admin == self.me && fr && sent;
                self.exec(sc, &by, json!({"mint": {"to_address": to, "amount": x.to_string()}}), ok, "mint")?;
                if ok {
                    *self.bal.get_mut(&to).unwrap() += x;
                    self.mint.insert(by.clone(), al - x);
                    self.mint.retain(|_, x| *x > 0);
                    sc.tick(if self.frozen { "minted.frozen" } else { "minted" });
                    sc.nontrivial = true;
                } else if x > al && x > 0 {
                    sc.tick("mint.over-allowance");
                } else if x > 0 && !fr {
                    sc.tick("mint.frozen");
                }
            }
            1 => {
                let some: Vec<String> = self.burn.keys().cloned().collect();
                let by = if !some.is_empty() && sc.chance(85) { sc.pick(&some) } else { sc.pick(&WHO).to_string() };
                let from = self.actor(sc);
                let al = self.burn.get(&by).copied().unwrap_or(0);
                let have = self.bal[&from];
                let x = match sc.r(0, 7) {
                    0 => 0,
                    1 => al,
                    2 => al.saturating_add(1),
                    3 => have,
                    4 => have.saturating_add(1),
                    5 => al.min(have),
                    _ => sc.amount(),
                };
                let ok = x > 0 && x <= al && self.admin == self.me && x <= have;
                self.exec(sc, &by, json!({"burn": {"from_address": from, "amount": x.to_string()}}), ok, "burn")?;
                if ok {
                    *self.bal.get_mut(&from).unwrap() -= x;
                    self.burn.insert(by.clone(), al - x);
                    self.burn.retain(|_, x| *x > 0);
                    sc.tick("burned");
                } else if x > al && x <= have && x > 0 {
                    sc.tick("burn.over-allowance");
                }
            }
            2 => {
                // somebody sends tokens
                if sc.chance(12) {
                    return self.foreign(sc);
                }
                let from = self.actor(sc);
                let to = self.actor(sc);
                let have = self.bal[&from];
                if have == 0 {
                    return Ok(());
                }
                let x = if sc.chance(50) { have } else { sc.rng.gen_range(1..=have) };
                let ok = self.send_ok(&from, &to, x);
                let r = sc.cosmos(&from, cosmwasm_std::BankMsg::Send { to_address: to.clone(), amount: vec![coin(x, &self.denom)] }.into());
                ensure!(r.is_ok() == ok, T, "transfer", "{from} sends {x} to {to} (hook {:?}, frozen {}, allowed {:?}, denied {:?}): expected ok={ok}, got {r:?}", self.hook, self.frozen, self.allow, self.deny);
                if ok {
                    self.mv(&from, &to, x);
                    sc.tick(if self.frozen && self.hook.as_ref() == Some(&self.me) { "sent.allowed" } else { "sent" });
                } else if self.frozen && !self.can_pass(&from, &to) {
                    sc.tick("send.frozen");
                } else {
                    sc.tick("send.denied");
                }
            }
            3 | 4 => {
                let which = if sc.chance(60) { "mint" } else { "burn" };
                let by = self.as_owner(sc);
                let who = self.actor(sc);
                let x = if sc.chance(20) { 0 } else { sc.amount() };
                let ok = self.is_owner(&by);
                self.exec(sc, &by, json!({ format!("set_{which}er_allowance").replace("mint", "mint"): {"address": who, "allowance": x.to_string()}}), ok, "set-allowance")?;
                if ok {
                    let m = if which == "mint" { &mut self.mint } else { &mut self.burn };
                    m.insert(who, x);
                    m.retain(|_, x| *x > 0);
                    sc.tick("allowance");
                }
            }
            5 => {
                let by = self.as_owner(sc);
                let st = sc.chance(60);
                let ok = self.advanced && self.is_owner(&by);
                self.exec(sc, &by, json!({"freeze": {"status": st}}), ok, "freeze")?;
                if ok {
                    self.frozen = st;
                    if st {
                        self.allow.insert(self.me.clone());
                    } else {
                        self.allow.remove(&self.me);
                    }
                    sc.tick(if st { "frozen" } else { "unfrozen" });
                }
            }
            6 | 7 => {
                let deny = sc.chance(50);
                let by = self.as_owner(sc);
                let who = self.actor(sc);
                let st = sc.chance(65);
                let ok = self.advanced && self.is_owner(&by) && !(deny && who == self.me);
                self.exec(sc, &by, json!({ if deny { "deny" } else { "allow" }: {"address": who, "status": st}}), ok, "lists")?;
                if ok {
                    let l = if deny { &mut self.deny } else { &mut self.allow };
                    if st {
                        l.insert(who);
                    } else {
                        l.remove(&who);
                    }
                    sc.tick(if deny { "denied" } else { "allowed" });
                }
            }
            8 => {
                let by = self.as_owner(sc);
                let h = match sc.r(0, 4) {
                    0 => "".to_string(),
                    1 => self.other.clone(),
                    _ => self.me.clone(),
                };
                let ok = self.is_owner(&by) && self.admin == self.me;
                self.exec(sc, &by, json!({"set_before_send_hook": {"cosmwasm_address": h}}), ok, "set-hook")?;
                if ok {
                    self.hook = Some(h.clone()).filter(|h| !h.is_empty());
                    self.told = self.hook.clone();
                    self.advanced = h == self.me;
                    sc.tick(if h.is_empty() { "hook.off" } else if h == self.me { "hook.self" } else { "hook.other" });
                }
            }
            9 => {
                let by = self.as_owner(sc);
                let (f, t) = (self.actor(sc), self.actor(sc));
                let x = if sc.chance(70) { self.bal[&f] } else { sc.amount() };
                let ok = self.is_owner(&by) && self.admin == self.me && self.send_ok(&f, &t, x);
                self.exec(sc, &by, json!({"force_transfer": {"amount": x.to_string(), "from_address": f, "to_address": t}}), ok, "force-transfer")?;
                if ok {
                    self.mv(&f, &t, x);
                    sc.tick("forced");
                }
            }
            10 => {
                let by = self.as_owner(sc);
                let (m, ok) = match sc.r(0, 9) {
                    0..=4 => {
                        let to = sc.pick(&WHO);
                        let ok = self.is_owner(&by);
                        if ok {
                            self.offered = Some(to.into());
                        }
                        (json!({"transfer_ownership": {"new_owner": to, "expiry": null}}), ok)
                    }
                    5..=8 => {
                        let by2 = if sc.chance(70) { self.offered.clone().unwrap_or(by.clone()) } else { by.clone() };
                        let ok = self.offered.as_deref() == Some(by2.as_str());
                        let r = sc.exec(&by2, &self.me, &json!({"update_ownership": "accept_ownership"}), &[]);
                        ensure!(r.is_ok() == ok, T, "ownership", "{by2} accepts an ownership offered to {:?}: {r:?}", self.offered);
                        if ok {
                            self.owner = self.offered.take();
                            sc.tick("owner.changed");
                        }
                        return Ok(());
                    }
                    _ => {
                        if sc.chance(70) {
                            return Ok(());
                        }
                        let ok = self.is_owner(&by);
                        if ok {
                            self.owner = None;
                            self.offered = None;
                        }
                        (json!("renounce_ownership"), ok)
                    }
                };
                let r = sc.exec(&by, &self.me, &json!({"update_ownership": m}), &[]);
                ensure!(r.is_ok() == ok, T, "ownership", "{m} by {by}: expected ok={ok}, got {r:?}");
            }
            11 => {
                let by = self.as_owner(sc);
                let to = sc.pick(&[self.other.clone(), "ann".to_string(), self.me.clone()]);
                let ok = self.is_owner(&by) && self.admin == self.me;
                self.exec(sc, &by, json!({"update_token_factory_admin": {"new_admin": to}}), ok, "token-admin")?;
                if ok {
                    self.admin = to;
                    sc.tick("admin.changed");
                }
            }
            12 => {
                let by = self.as_owner(sc);
                let n = format!("name{}", sc.r(0, 9));
                let ok = self.is_owner(&by) && self.admin == self.me;
                self.exec(
                    sc,
                    &by,
                    json!({"set_denom_metadata": {"metadata": {"description": "d", "denom_units": [{"denom": self.denom, "exponent": "0", "aliases": []}, {"denom": "big", "exponent": "6", "aliases": ["x"]}],
                        "base": self.denom, "display": "big", "name": n, "symbol": "SYM"}}}),
                    ok,
                    "metadata",
                )?;
                if ok {
                    self.meta = Some(n);
                    sc.tick("metadata");
                }
            }
            _ => {
                // nobody but the chain reports transfers
                let by = self.as_owner(sc);
                let m = json!({"block_before_send": {"from": "ann", "to": "bob", "amount": {"denom": self.denom, "amount": "1"}}});
                self.exec(sc, &by, m, false, "forged")?;
                if self.admin == "ann" {
                    // the token comes back
                    let m = osmosis_std::types::osmosis::tokenfactory::v1beta1::MsgChangeAdmin { sender: "ann".into(), denom: self.denom.clone(), new_admin: self.me.clone() };
                    use prost11::Message as _;
                    let r = sc.cosmos("ann", cosmwasm_std::CosmosMsg::Stargate { type_url: "/osmosis.tokenfactory.v1beta1.MsgChangeAdmin".into(), value: m.encode_to_vec().into() });
                    assert!(r.is_ok(), "{r:?}");
                    self.admin = self.me.clone();
                }
            }
        }
        Ok(())
    }
    fn check(&self, sc: &mut Sc) -> R {
        let me = self.me.clone();
        let q = |sc: &Sc, m: Value| sc.qm(T, &me, &m);
        ensure!(q(sc, json!({"denom": {}}))?["denom"] == json!(self.denom), T, "denom", "denom");
        ensure!(q(sc, json!({"is_frozen": {}}))?["is_frozen"] == json!(self.frozen), T, "is-frozen", "frozen should be {}", self.frozen);
        let o = q(sc, json!({"ownership": {}}))?;
        ensure!(o["owner"] == json!(self.owner) && o["pending_owner"] == json!(self.offered), T, "ownership", "{o}, should be {:?}, {:?}", self.owner, self.offered);
        let h = q(sc, json!({"before_send_hook_info": {}}))?;
        ensure!(h == json!({"advanced_features_enabled": self.advanced, "hook_contract_address": self.told}), T, "hook-info", "{h}, should be {} {:?}", self.advanced, self.told);
        let c = sc.tf_state(&self.denom);
        ensure!(c["hook"] == json!(self.hook) && c["admin"] == json!(self.admin), T, "chain-hook", "the chain says {c}, should be {:?} {}", self.hook, self.admin);
        ensure!(c["meta"]["name"] == json!(self.meta), T, "metadata", "metadata {c}, should be {:?}", self.meta);
        let mut total = 0;
        for (w, x) in &self.bal {
            let g = sc.bank(w, &self.denom);
            ensure!(g == *x, T, "balance", "{w} holds {g}, should hold {x}");
            total += x;
            for (k, m) in [("mint_allowance", &self.mint), ("burn_allowance", &self.burn)] {
                let g = u(&q(sc, json!({k: {"address": w}}))?["allowance"]);
                let want = m.get(w).copied().unwrap_or(0);
                ensure!(g == want, T, "allowance", "{k} of {w} is {g}, should be {want}");
            }
            for (k, l) in [("is_denied", &self.deny), ("is_allowed", &self.allow)] {
                let g = q(sc, json!({k: {"address": w}}))?["status"] == json!(true);
                ensure!(g == l.contains(w), T, "listed", "{k} of {w} is {g}");
            }
        }
        let sup = sc.app.wrap().query_supply(&self.denom).map(|c| c.amount.u128()).unwrap_or(0);
        ensure!(sup == total, T, "supply", "supply {sup}, {total} held");
        if sc.chance(35) {
            for (k, m) in [("mint_allowances", &self.mint), ("burn_allowances", &self.burn)] {
                let want: Vec<Value> = m.iter().map(|(a, x)| json!({"address": a, "allowance": x.to_string()})).collect();
                pages(sc, T, &me, k, json!({}), &want, true, &|v| v["address"].clone(), &|v| v["allowances"].clone())?;
            }
            for (k, l) in [("denylist", &self.deny), ("allowlist", &self.allow)] {
                let want: Vec<Value> = l.iter().map(|a| json!({"address": a, "status": true})).collect();
                pages(sc, T, &me, k, json!({}), &want, true, &|v| v["address"].clone(), &|v| v[k].clone())?;
            }
        }
        sc.checked(6 + 5 * self.bal.len() as u64);
        Ok(())
    }
}

pub fn issuer(sc: &mut Sc) -> R {
    let code = sc.code(tf::issuer_code());
    let other = sc.must_init(code, "deployer", &json!({"new_token": {"subdenom": "uother"}}), &[], "other")?;
    let existing = sc.chance(25);
    let (me, denom, admin) = if existing {
        let d = format!("factory/{other}/uother");
        let me = sc.must_init(code, "own", &json!({"existing_token": {"denom": d}}), &[], "issuer")?;
        if sc.chance(85) {
            let r = sc.exec("deployer", &other, &json!({"update_token_factory_admin": {"new_admin": me}}), &[]);
            ensure!(r.is_ok(), T, "setup", "{r:?}");
            (me.clone(), d, me)
        } else {
            (me, d, other.clone())
        }
    } else {
        let me = sc.must_init(code, "own", &json!({"new_token": {"subdenom": "utok"}}), &[], "issuer")?;
        let d = format!("factory/{me}/utok");
        (me.clone(), d, me)
    };
    let mut w = W {
        side: false,
        other,
        denom,
        admin,
        owner: Some("own".into()),
        offered: None,
        mint: BTreeMap::new(),
        burn: BTreeMap::new(),
        frozen: false,
        allow: BTreeSet::new(),
        deny: BTreeSet::new(),
        advanced: false,
        told: None,
        hook: None,
        bal: WHO.iter().map(|w| (w.to_string(), 0)).chain([(me.clone(), 0)]).collect(),
        other_deny: BTreeSet::new(),
        meta: None,
        me,
    };
    w.check(sc)?;
    let n = sc.r(12, 45);
    // start with something in hand
    if sc.chance(85) {
        for who in ["ann", "bob"] {
            let x = sc.amount();
            w.exec(sc, "own", json!({"set_minter_allowance": {"address": who, "allowance": (x * 3).to_string()}}), true, "set-allowance")?;
            w.mint.insert(who.into(), x * 3);
        }
        if sc.chance(80) && w.admin == w.me {
            w.exec(sc, "own", json!({"set_before_send_hook": {"cosmwasm_address": w.me}}), true, "set-hook")?;
            w.hook = Some(w.me.clone());
            w.told = w.hook.clone();
            w.advanced = true;
        }
    }
    for _ in 0..n {
        w.op(sc)?;
        if sc.chance(10) {
            sc.advance(1, 6);
        }
        w.check(sc)?;
    }
    Ok(())
}
