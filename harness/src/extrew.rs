//! cw20-stake-external-rewards and cw20-stake-reward-distributor around a real cw20-stake pool.
use crate::big::*;
use crate::model::Rel;
use crate::*;
use cosmwasm_std::{coin, BankMsg, CosmosMsg, Uint512};
use std::collections::BTreeMap;

const T: &[&str] = &["C14"];
const USERS: [&str; 5] = ["ann", "bob", "cat", "dan", "eve"];
const ALL: [&str; 7] = ["ann", "bob", "cat", "dan", "eve", "owner", "boss"];

fn scale() -> Uint512 {
    let e30 = u512(1_000_000_000_000_000_000_000_000_000_000);
    e30 * e30
}

/// which token an external-rewards contract pays
#[derive(Clone, PartialEq, Debug)]
enum Asset {
    Native,
    Cw20(String),
}
struct Ext {
    addr: String,
    asset: Asset,
    owner: Option<String>,
    offered: Option<String>,
    rate: u128,
    finish: u64,
    dur: u64,
    last: u64,
    acc: BTreeMap<String, Uint512>,
    claimed: BTreeMap<String, u128>,
    upd: BTreeMap<String, u64>,
    net: u128,
    stray: u128,
}
impl Ext {
    fn sync(&mut self, shares: &BTreeMap<String, u128>, now: u64) {
        let to = now.min(self.finish);
        if to > self.last {
            let total: u128 = shares.values().sum();
            if total > 0 {
                let x = u512(self.rate) * u512((to - self.last) as u128) * scale();
                for (w, p) in shares {
                    *self.acc.entry(w.clone()).or_default() += x * u512(*p) / u512(total);
                }
            }
            self.last = to;
        }
    }
}
/// the reward distributor
struct Rd {
    addr: String,
    owner: String,
    offered: Option<String>,
    staking: String,
    token: String,
    rate: u128,
    last: u64,
}
struct W {
    tok: String,
    other: String,
    stake: String,
    stake2: String,
    shares: BTreeMap<String, u128>,
    exts: Vec<Ext>,
    rd: Rd,
}

impl W {
    fn setup(sc: &mut Sc) -> R<W> {
        let cc = sc.code(cw20_code());
        let stc = sc.code(wrap!(cw20_stake::contract; migrate));
        let bal: Vec<Value> = ALL.iter().map(|a| json!({"address":a,"amount":(1u128 << 110).to_string()})).collect();
        let tok = sc.must_init(cc, "x", &json!({"name":"stake","symbol":"STK","decimals":6,"initial_balances":bal}), &[], "token")?;
        let other = sc.must_init(cc, "x", &json!({"name":"other","symbol":"OTH","decimals":6,"initial_balances":bal}), &[], "other")?;
        let stake = sc.must_init(stc, "x", &json!({"owner":"dao","token_address":tok,"unstaking_duration":null}), &[], "stake")?;
        let stake2 = sc.must_init(stc, "x", &json!({"owner":"dao","token_address":other,"unstaking_duration":null}), &[], "stake2")?;
        for w in ALL {
            sc.mint(w, 1 << 110, "urew");
            sc.mint(w, 1 << 60, "ufake");
        }
        let ec = sc.code(wrap!(cw20_stake_external_rewards::contract; migrate));
        let mut exts = vec![];
        for _ in 0..sc.r(1, 2) {
            let asset = match sc.r(0, 3) {
                0 | 1 => Asset::Native,
                2 => Asset::Cw20(other.clone()),
                _ => Asset::Cw20(tok.clone()),
            };
            let rt = match &asset {
                Asset::Native => json!({"native":"urew"}),
                Asset::Cw20(a) => json!({ "cw20": a }),
            };
            let dur = sc.pick(&[1, 2, 3, 7, 10, 100, 1000]);
            let owner = if sc.chance(95) { Some("owner".to_string()) } else { None };
            if sc.chance(10) {
                let r = sc.init(ec, "x", &json!({"owner":owner,"staking_contract":stake,"reward_token":rt,"reward_duration":0}), &[], "ext", None);
                ensure!(r.is_err(), T, "init", "external rewards with a zero duration accepted");
                let r = sc.init(ec, "x", &json!({"owner":owner,"staking_contract":tok,"reward_token":rt,"reward_duration":5}), &[], "ext", None);
                ensure!(r.is_err(), T, "init", "external rewards on something that is no staking contract accepted");
            }
            let addr = sc.must_init(ec, "x", &json!({"owner":owner,"staking_contract":stake,"reward_token":rt,"reward_duration":dur}), &[], "ext")?;
            let r = sc.exec("dao", &stake, &json!({"add_hook":{"addr":addr}}), &[]);
            ensure!(r.is_ok(), T, "add-hook", "{r:?}");
            exts.push(Ext {
                addr,
                asset,
                owner,
                offered: None,
                rate: 0,
                finish: 0,
                dur,
                last: 0,
                acc: BTreeMap::new(),
                claimed: BTreeMap::new(),
                upd: BTreeMap::new(),
                net: 0,
                stray: 0,
            });
        }
        let rc = sc.code(wrap!(cw20_stake_reward_distributor::contract; migrate));
        let rate = sc.amount();
        if sc.chance(10) {
            let r = sc.init(rc, "x", &json!({"owner":"owner","staking_addr":tok,"reward_rate":"5","reward_token":tok}), &[], "rd", None);
            ensure!(r.is_err(), T, "init", "a reward distributor for something that is no staking contract accepted");
            let r = sc.init(rc, "x", &json!({"owner":"owner","staking_addr":stake,"reward_rate":"5","reward_token":stake}), &[], "rd", None);
            ensure!(r.is_err(), T, "init", "a reward distributor paying something that is no token accepted");
        }
        let rd = sc.must_init(rc, "x", &json!({"owner":"owner","staking_addr":stake,"reward_rate":rate.to_string(),"reward_token":tok}), &[], "rd")?;
        let last = sc.height();
        Ok(W {
            rd: Rd { addr: rd, owner: "owner".into(), offered: None, staking: stake.clone(), token: tok.clone(), rate, last },
            tok,
            other,
            stake,
            stake2,
            shares: BTreeMap::new(),
            exts,
        })
    }
    fn hold(&self, sc: &Sc, a: &Asset, who: &str) -> u128 {
        match a {
            Asset::Native => sc.bank(who, "urew"),
            Asset::Cw20(t) => sc.cw20_bal(t, who),
        }
    }
    fn sync(&mut self, sc: &Sc) {
        for e in &mut self.exts {
            e.sync(&self.shares, sc.height());
        }
    }
    fn power(&mut self, sc: &mut Sc) -> R {
        self.sync(sc);
        let who = sc.pick(&USERS);
        let have = self.shares.get(who).copied().unwrap_or(0);
        if have > 0 && sc.chance(45) {
            let x = match sc.r(0, 3) {
                0 => have,
                1 => 1,
                _ => sc.rng.gen_range(1..=have),
            };
            let r = sc.exec(who, &self.stake.clone(), &json!({"unstake":{"amount":x.to_string()}}), &[]);
            ensure!(r.is_ok(), T, "blocked", "unstaking {x} of {have} was blocked: {r:?}");
        } else {
            let x = sc.amount();
            let r = sc.exec(who, &self.tok.clone(), &json!({"send":{"contract":self.stake,"amount":x.to_string(),"msg":b64(&json!({"stake":{}}))}}), &[]);
            // a deposit worth less than one share is refused by the pool itself
            if r.is_err() {
                let total: u128 = self.shares.values().sum();
                let v = u(&sc.qm(T, &self.stake, &json!({"total_value":{}}))?["total"]);
                let zero_share = total > 0 && v > 0 && mul_div(total, x, v).is_zero();
                ensure!(zero_share || total == 0, T, "blocked", "staking was blocked: {r:?}");
                return Ok(());
            }
        }
        // shares as of the end of this block so far
        let h = sc.height() + 1;
        let now = u(&sc.qm(T, &self.stake, &json!({"staked_balance_at_height":{"address":who,"height":h}}))?["balance"]);
        self.shares.insert(who.into(), now);
        for e in &mut self.exts {
            *e.upd.entry(who.into()).or_default() += 1;
        }
        sc.tick(if self.shares.values().all(|x| *x == 0) { "stake.none" } else { "stake.changed" });
        Ok(())
    }
    fn fund(&mut self, sc: &mut Sc) -> R {
        self.sync(sc);
        let i = sc.r(0, self.exts.len() as u64 - 1) as usize;
        let e = &self.exts[i];
        let by = if sc.chance(85) { e.owner.clone().unwrap_or("owner".into()) } else { sc.pick(&["ann", "boss", "owner"]).to_string() };
        let amt = match sc.r(0, 5) {
            0 => e.dur as u128,
            1 => (e.dur - 1).max(1) as u128,
            2 => e.dur as u128 * sc.r(1, 1000) as u128,
            _ => sc.amount(),
        };
        let bad = sc.r(0, 19);
        let (r, right);
        match (&e.asset, bad) {
            (Asset::Native, 0) => {
                right = false;
                r = sc.exec(&by, &self.tok.clone(), &json!({"send":{"contract":e.addr,"amount":amt.to_string(),"msg":b64(&json!({"fund":{}}))}}), &[]);
            }
            (Asset::Native, _) => {
                let funds = match bad {
                    1 => vec![],
                    2 => vec![coin(5000, "ufake")],
                    3 => vec![coin(5000, "ufake"), coin(amt, "urew")],
                    _ => vec![coin(amt, "urew")],
                };
                right = bad > 3;
                r = sc.exec(&by, &e.addr.clone(), &json!({"fund":{}}), &funds);
            }
            (Asset::Cw20(_), 0) => {
                right = false;
                r = sc.exec(&by, &e.addr.clone(), &json!({"fund":{}}), &[coin(amt, "urew")]);
            }
            (Asset::Cw20(t), _) => {
                let wrong = if *t == self.tok { self.other.clone() } else { self.tok.clone() };
                right = bad > 1;
                let t = if right { t.clone() } else { wrong };
                r = sc.exec(&by, &t, &json!({"send":{"contract":e.addr,"amount":amt.to_string(),"msg":b64(&json!({"fund":{}}))}}), &[]);
            }
        }
        let e = &mut self.exts[i];
        let h = sc.height();
        let over = e.finish <= h;
        let ok = right && e.owner.as_deref() == Some(by.as_str()) && over && amt >= e.dur as u128;
        ensure!(r.is_ok() == ok, T, "fund", "funding {amt} (asset right: {right}) by {by} (owner {:?}) over {} blocks, period finishing at {} (now {h}): expected ok={ok}, got {r:?}", e.owner, e.dur, e.finish);
        sc.checked(1);
        if ok {
            sc.tick(if e.rate == 0 { "funded.first" } else { "funded.again" });
            e.rate = amt / e.dur as u128;
            e.finish = h + e.dur;
            e.last = h;
            e.net += amt;
            *e.upd.entry(by).or_default() += 1;
            sc.nontrivial = true;
        }
        Ok(())
    }
    fn pending(&self, sc: &mut Sc, i: usize, who: &str) -> R<u128> {
        Ok(u(&sc.qm(T, &self.exts[i].addr, &json!({"get_pending_rewards":{"address":who}}))?["pending_rewards"]))
    }
    fn claim(&mut self, sc: &mut Sc, i: usize, who: &str) -> R {
        self.sync(sc);
        let p = self.pending(sc, i, who)?;
        let a = self.exts[i].asset.clone();
        let before = self.hold(sc, &a, who);
        let r = sc.exec(who, &self.exts[i].addr.clone(), &json!({"claim":{}}), &[]);
        ensure!(r.is_ok() == (p > 0), T, "claim", "claim by {who} with {p} pending: {r:?}");
        let paid = self.hold(sc, &a, who) - before;
        ensure!(paid == p, T, "claim-amount", "claim by {who} with {p} pending paid {paid}");
        sc.checked(2);
        if p > 0 {
            sc.tick("claimed");
            let e = &mut self.exts[i];
            *e.claimed.entry(who.into()).or_default() += p;
            *e.upd.entry(who.into()).or_default() += 1;
            ensure!(e.net >= p, T, "insolvent", "rewards claimed exceed the funds ({} left before paying {p})", e.net);
            e.net -= p;
        }
        Ok(())
    }
    fn duration(&mut self, sc: &mut Sc) -> R {
        self.sync(sc);
        let i = sc.r(0, self.exts.len() as u64 - 1) as usize;
        let n = if sc.chance(15) { 0 } else { sc.pick(&[1u64, 2, 5, 10, 100, 1000]) };
        let e = &mut self.exts[i];
        let by = if sc.chance(80) { e.owner.clone().unwrap_or("owner".into()) } else { "mallory".to_string() };
        let r = sc.exec(&by, &e.addr.clone(), &json!({"update_reward_duration":{"new_duration":n}}), &[]);
        let ok = e.owner.as_deref() == Some(by.as_str()) && e.finish <= sc.height() && n > 0;
        ensure!(r.is_ok() == ok, T, "duration", "reward duration {n} by {by} (owner {:?}, finish {}, now {}): expected ok={ok}, got {r:?}", e.owner, e.finish, sc.height());
        if ok {
            e.dur = n;
        }
        sc.checked(1);
        Ok(())
    }
    fn forge(&mut self, sc: &mut Sc) -> R {
        let e = self.exts[0].addr.clone();
        let who = sc.pick(&["mallory", "ann", "owner", "dao"]);
        let m = if sc.chance(50) { json!({"stake":{"addr":"ann","amount":"5"}}) } else { json!({"unstake":{"addr":"ann","amount":"5"}}) };
        let r = sc.exec(who, &e, &json!({ "stake_change_hook": m }), &[]);
        ensure!(r.is_err(), T, "forged-hook", "a stake change announced by {who} was accepted");
        sc.checked(1);
        Ok(())
    }
    fn ownership(&mut self, sc: &mut Sc) -> R {
        let n = self.exts.len();
        let k = sc.r(0, n as u64) as usize;
        let (addr, owner, offered) = if k == n {
            (self.rd.addr.clone(), Some(self.rd.owner.clone()), self.rd.offered.clone())
        } else {
            (self.exts[k].addr.clone(), self.exts[k].owner.clone(), self.exts[k].offered.clone())
        };
        let (mut owner2, mut offered2) = (owner.clone(), offered.clone());
        let (by, m, ok);
        match offered {
            Some(x) if sc.chance(70) => {
                by = if sc.chance(80) { x.clone() } else { "mallory".to_string() };
                m = json!({"update_ownership":"accept_ownership"});
                ok = by == x;
                if ok {
                    owner2 = Some(by.clone());
                    offered2 = None;
                }
            }
            _ => {
                by = if sc.chance(80) { owner.clone().unwrap_or("owner".into()) } else { "mallory".to_string() };
                let x = sc.pick(&["boss", "owner"]);
                m = json!({"update_ownership":{"transfer_ownership":{"new_owner":x,"expiry":null}}});
                ok = Some(by.clone()) == owner;
                if ok {
                    offered2 = Some(x.into());
                }
            }
        }
        let r = sc.exec(&by, &addr, &m, &[]);
        ensure!(r.is_ok() == ok, T, "ownership", "{m} by {by} (owner {owner:?}): {r:?}");
        if k == n {
            self.rd.owner = owner2.unwrap();
            self.rd.offered = offered2;
        } else {
            self.exts[k].owner = owner2;
            self.exts[k].offered = offered2;
        }
        sc.checked(1);
        Ok(())
    }
    fn pool(&self, sc: &mut Sc, st: &str) -> R<u128> {
        Ok(u(&sc.qm(T, st, &json!({"total_value":{}}))?["total"]))
    }
    fn rd_op(&mut self, sc: &mut Sc) -> R {
        self.sync(sc);
        let h = sc.height();
        let rd = self.rd.addr.clone();
        match sc.r(0, 9) {
            0..=2 => {
                let who = sc.pick(&["owner", "ann", "boss"]);
                let x = sc.amount();
                let t = if sc.chance(90) { self.rd.token.clone() } else { self.other.clone() };
                let _ = sc.exec(who, &t, &json!({"transfer":{"recipient":rd,"amount":x.to_string()}}), &[]);
            }
            3..=6 => {
                let who = sc.pick(&USERS);
                let have = sc.cw20_bal(&self.rd.token, &rd);
                let due = u512(self.rd.rate) * u512((h - self.rd.last) as u128);
                let amt = if due > u512(have) { have } else { due.to_string().parse().unwrap() };
                let native = (self.rd.staking == self.stake && self.rd.token == self.tok) || (self.rd.staking == self.stake2 && self.rd.token == self.other);
                let before = self.pool(sc, &self.rd.staking.clone())?;
                let r = sc.exec(who, &rd, &json!({"distribute":{}}), &[]);
                let ok = h > self.rd.last && amt > 0 && native;
                ensure!(r.is_ok() == ok, T, "distribute", "distributing {amt} ({} due, {have} held, last paid {}, now {h}): expected ok={ok}, got {r:?}", due, self.rd.last);
                let after = self.pool(sc, &self.rd.staking.clone())?;
                ensure!(after - before == if ok { amt } else { 0 }, T, "distributed", "the pool grew from {before} to {after}, {amt} was due");
                if ok {
                    let left = sc.cw20_bal(&self.rd.token, &rd);
                    ensure!(left + amt == have, T, "distributed", "the distributor held {have}, owed {amt} and is left with {left}");
                    self.rd.last = h;
                    sc.tick(if u512(amt) < due { "distributed.short" } else { "distributed" });
                }
                sc.checked(3);
            }
            7 | 8 => {
                let by = if sc.chance(75) { self.rd.owner.clone() } else { "mallory".to_string() };
                let rate = if sc.chance(15) { 0 } else { sc.amount() };
                let st = sc.pick(&[self.stake.clone(), self.stake.clone(), self.stake2.clone(), self.tok.clone()]);
                let t = sc.pick(&[self.tok.clone(), self.tok.clone(), self.other.clone(), self.stake.clone()]);
                let ok = by == self.rd.owner && (st == self.stake || st == self.stake2) && (t == self.tok || t == self.other);
                let have = sc.cw20_bal(&self.rd.token, &rd);
                let r = sc.exec(&by, &rd, &json!({"update_config":{"staking_addr":st,"reward_rate":rate.to_string(),"reward_token":t}}), &[]);
                ensure!(r.is_ok() == ok, T, "rd-config", "reconfiguration by {by} (owner {}): expected ok={ok}, got {r:?}", self.rd.owner);
                let left = sc.cw20_bal(&self.rd.token, &rd);
                ensure!(left == have, T, "rd-config", "a reconfiguration moved funds: {have} before, {left} after");
                if ok {
                    self.rd.staking = st;
                    self.rd.token = t;
                    self.rd.rate = rate;
                    self.rd.last = h;
                    sc.tick("rd.configured");
                }
                sc.checked(2);
            }
            _ => {
                let by = if sc.chance(60) { self.rd.owner.clone() } else { sc.pick(&["mallory", "ann"]).to_string() };
                let have = sc.cw20_bal(&self.rd.token, &rd);
                let before = sc.cw20_bal(&self.rd.token, &by);
                let r = sc.exec(&by, &rd, &json!({"withdraw":{}}), &[]);
                if by != self.rd.owner {
                    ensure!(r.is_err(), T, "rd-withdraw", "{by} withdrew the reward distributor's funds");
                } else if have > 0 {
                    ensure!(r.is_ok() && sc.cw20_bal(&self.rd.token, &by) == before + have, T, "rd-withdraw", "the owner withdrawing {have}: {r:?}");
                    sc.tick("rd.withdrawn");
                }
                sc.checked(1);
            }
        }
        let v = sc.qm(T, &rd, &json!({"info":{}}))?;
        let have = sc.cw20_bal(&self.rd.token, &rd);
        ensure!(v["config"]["staking_addr"] == json!(self.rd.staking) && u(&v["config"]["reward_rate"]) == self.rd.rate && v["config"]["reward_token"] == json!(self.rd.token) && u(&v["last_payment_block"]) as u64 == self.rd.last && u(&v["balance"]) == have,
            T, "rd-info", "the reward distributor reports {v}; rate {}, last paid {}, holding {have}", self.rd.rate, self.rd.last);
        sc.checked(1);
        Ok(())
    }
    fn check(&mut self, sc: &mut Sc) -> R {
        self.sync(sc);
        let h = sc.height();
        for i in 0..self.exts.len() {
            let mut owed = Uint512::zero();
            for who in ALL {
                let p = self.pending(sc, i, who)?;
                let e = &self.exts[i];
                let exact = e.acc.get(who).copied().unwrap_or_default();
                let got = u512(p) + u512(e.claimed.get(who).copied().unwrap_or(0));
                ensure!(got <= (exact + scale() / u512(1_000_000)) / scale(), T, "over-earned", "{who} has {got} ({p} pending), earned {exact} (10^-60)");
                let n = e.upd.get(who).copied().unwrap_or(0);
                ensure!(got * scale() + scale() * u512(n as u128 + 1) + scale() / u512(1_000_000) >= exact, T, "under-earned", "{who} has {got} ({p} pending), earned {exact} (10^-60) over {n} updates");
                owed += u512(p);
                sc.checked(2);
            }
            let v = sc.qm(T, &self.exts[i].addr, &json!({"info":{}}))?;
            let e = &self.exts[i];
            ensure!(u(&v["reward"]["period_finish"]) as u64 == e.finish && u(&v["reward"]["reward_rate"]) == e.rate && u(&v["reward"]["reward_duration"]) as u64 == e.dur && v["config"]["staking_contract"] == json!(self.stake),
                T, "info", "the rewards contract reports {v}; rate {} until {} duration {}", e.rate, e.finish, e.dur);
            let ahead = u512(e.rate) * u512(e.finish.saturating_sub(h) as u128);
            ensure!(owed + ahead <= u512(e.net), T, "insolvent", "{owed} owed and {ahead} still to come, but only {} left of the funds", e.net);
            let have = self.hold(sc, &e.asset, &e.addr);
            ensure!(have == e.net + e.stray, T, "balance", "the rewards contract holds {have}; {} left of its funds and {} stray", e.net, e.stray);
            sc.checked(3);
        }
        Ok(())
    }
}

pub fn pool(sc: &mut Sc) -> R {
    let mut w = W::setup(sc)?;
    let steps = sc.r(25, if sc.thorough { 90 } else { 50 });
    for _ in 0..steps {
        match sc.weighted(&[14, 22, 14, 3, 1, 1, 12, 24, 2]) {
            0 => w.fund(sc)?,
            1 => w.power(sc)?,
            2 => {
                let i = sc.r(0, w.exts.len() as u64 - 1) as usize;
                let who = sc.pick(&USERS);
                w.claim(sc, i, who)?
            }
            3 => w.duration(sc)?,
            4 => w.forge(sc)?,
            5 => w.ownership(sc)?,
            6 => w.rd_op(sc)?,
            7 => {
                w.sync(sc);
                let rels: Vec<Rel> = w.exts.iter().map(|e| Rel::H(e.finish)).collect();
                sc.advance_around(&rels)
            }
            _ => {
                let who = sc.pick(&USERS);
                let x = sc.r(1, 1000) as u128;
                let i = sc.r(0, w.exts.len() as u64 - 1) as usize;
                let e = &mut w.exts[i];
                match &e.asset {
                    Asset::Native => {
                        let _ = sc.cosmos(who, CosmosMsg::Bank(BankMsg::Send { to_address: e.addr.clone(), amount: vec![coin(x, "urew")] }));
                    }
                    Asset::Cw20(t) => {
                        let _ = sc.exec(who, &t.clone(), &json!({"transfer":{"recipient":e.addr,"amount":x.to_string()}}), &[]);
                    }
                }
                e.stray += x;
            }
        }
        w.check(sc)?;
    }
    for i in 0..w.exts.len() {
        for who in ALL {
            w.claim(sc, i, who)?;
        }
    }
    w.check(sc)
}
