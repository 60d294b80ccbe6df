//! dao-rewards-distributor over the real voting modules and staking contracts, against an exact model.
use crate::big::*;
use crate::model::*;
use crate::*;
use cosmwasm_std::{coin, BankMsg, CosmosMsg, Uint512};
use std::collections::BTreeMap;

const T: &[&str] = &["C13"];
const USERS: [&str; 5] = ["ann", "bob", "cat", "dan", "eve"];
const EXTRA: [&str; 3] = ["owner", "boss", "sink"];

/// 10^60: model rewards are kept in these fractions of a token
fn scale() -> Uint512 {
    let e30 = u512(1_000_000_000_000_000_000_000_000_000_000);
    e30 * e30
}
fn to128(x: Uint512) -> u128 {
    x.to_string().parse().expect("fits u128")
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Cw4,
    Token,
    Cw20,
    Nft,
}
/// a source of voting power
struct Src {
    k: Kind,
    vm: String,
    caller: String,
    token: String,
    pow: BTreeMap<String, u128>,
    nfts: BTreeMap<String, Vec<String>>, // staked
    free: BTreeMap<String, Vec<String>>,
    hooked: bool,
    changed: u64,
}
impl Src {
    fn total(&self) -> u128 {
        self.pow.values().sum()
    }
    fn new(sc: &mut Sc, k: Kind, n: usize) -> R<Src> {
        let mut pow = BTreeMap::new();
        let mut free: BTreeMap<String, Vec<String>> = BTreeMap::new();
        let (vm, caller, token);
        match k {
            Kind::Cw4 => {
                let gc = sc.code(cw4_code());
                let vmc = sc.code(wrap!(dao_voting_cw4::contract; reply, migrate));
                let mut ms = vec![];
                for w in USERS {
                    if sc.chance(70) {
                        let p = sc.r(0, 9) * sc.r(1, 1000);
                        ms.push(json!({"addr":w,"weight":p}));
                        pow.insert(w.to_string(), p as u128);
                    }
                }
                if ms.iter().all(|m| m["weight"] == 0) {
                    ms.retain(|m| m["addr"] != "ann");
                    ms.push(json!({"addr":"ann","weight":5}));
                    pow.insert("ann".into(), 5);
                }
                let g = sc.must_init(gc, "x", &json!({"admin":"dao","members":ms}), &[], "group")?;
                vm = sc.must_init(vmc, "dao", &json!({"group_contract":{"existing":{"address":g}}}), &[], "vm")?;
                caller = g;
                token = String::new();
            }
            Kind::Token => {
                let vmc = sc.code(wrap!(dao_voting_token_staked::contract; reply, migrate));
                let d = format!("utok{n}");
                for w in USERS {
                    sc.mint(w, 1 << 100, &d);
                }
                vm = sc.must_init(vmc, "dao", &json!({"token_info":{"existing":{"denom":d}},"unstaking_duration":null,"active_threshold":null}), &[], "vm")?;
                caller = vm.clone();
                token = d;
            }
            Kind::Cw20 => {
                let cc = sc.code(cw20_code());
                let stc = sc.code(wrap!(cw20_stake::contract; migrate));
                let vmc = sc.code(wrap!(dao_voting_cw20_staked::contract; reply, migrate));
                let bal: Vec<Value> = USERS.iter().map(|a| json!({"address":a,"amount":(1u128 << 100).to_string()})).collect();
                token = sc.must_init(cc, "x", &json!({"name":"stake","symbol":"STK","decimals":6,"initial_balances":bal}), &[], "token")?;
                vm = sc.must_init(vmc, "dao", &json!({"token_info":{"existing":{"address":token,"staking_contract":{"new":{"staking_code_id":stc,"unstaking_duration":null}}}},"active_threshold":null}), &[], "vm")?;
                caller = s(&sc.qm(T, &vm, &json!({"staking_contract":{}}))?);
                sc.label(&caller, "stake");
            }
            Kind::Nft => {
                let nc = sc.code(cw721_code());
                let vmc = sc.code(wrap!(dao_voting_cw721_staked::contract; reply, migrate));
                token = sc.must_init(nc, "x", &json!({"name":"n","symbol":"N","minter":"minter"}), &[], "nft")?;
                let mut id = 0;
                for w in USERS {
                    for _ in 0..sc.r(0, 4) {
                        id += 1;
                        let t = format!("t{id}");
                        let _ = sc.exec("minter", &token.clone(), &json!({"mint":{"token_id":t,"owner":w,"token_uri":null,"extension":null}}), &[]);
                        free.entry(w.to_string()).or_default().push(t);
                    }
                }
                vm = sc.must_init(vmc, "dao", &json!({"nft_contract":{"existing":{"address":token}},"unstaking_duration":null,"active_threshold":null}), &[], "vm")?;
                caller = vm.clone();
            }
        }
        Ok(Src { k, vm, caller, token, pow, nfts: BTreeMap::new(), free, hooked: false, changed: sc.height() })
    }
    fn hook(&mut self, sc: &mut Sc, dist: &str) -> R {
        let r = sc.exec("dao", &self.caller.clone(), &json!({"add_hook":{"addr":dist}}), &[]);
        ensure!(r.is_ok(), T, "add-hook", "the distributor cannot be registered for power changes: {r:?}");
        self.hooked = true;
        Ok(())
    }
}

#[derive(Clone, PartialEq, Debug)]
enum Em {
    Paused,
    Immediate,
    Linear { amount: u128, dur: Dur, cont: bool },
}
impl Em {
    fn json(&self) -> Value {
        match self {
            Em::Paused => json!({"paused":{}}),
            Em::Immediate => json!({"immediate":{}}),
            Em::Linear { amount, dur, cont } => json!({"linear":{"amount":amount.to_string(),"duration":dur.json(),"continuous":cont}}),
        }
    }
    fn random(sc: &mut Sc) -> Em {
        match sc.r(0, 9) {
            0 => Em::Paused,
            1 | 2 => Em::Immediate,
            _ => {
                let dur = if sc.chance(50) { Dur::H(sc.pick(&[1, 1, 2, 3, 7, 10, 100])) } else { Dur::T(sc.pick(&[1, 5, 6, 10, 60, 3600, 86_400])) };
                let amount = match sc.r(0, 4) {
                    0 => sc.r(1, 3) as u128,
                    1 => sc.pick(&[10u128, 100, 1000, 1_000_000]),
                    2 => sc.r(1, 1000) as u128,
                    3 => sc.r(1, 1_000_000_007) as u128,
                    _ => sc.rng.gen_range(1..=1_000_000_000_000_000_000_000u128),
                };
                Em::Linear { amount, dur, cont: sc.chance(50) }
            }
        }
    }
    fn valid(&self) -> bool {
        match self {
            Em::Linear { amount, dur, .. } => *amount > 0 && !dur.zero(),
            _ => true,
        }
    }
    fn unit(&self, sc: &Sc) -> u64 {
        match self {
            Em::Linear { dur: Dur::T(_), .. } => sc.now(),
            _ => sc.height(),
        }
    }
    fn raw(&self, sc: &Sc) -> u64 {
        match self {
            Em::Linear { dur: Dur::T(_), .. } => sc.block().time.nanos(),
            _ => sc.height(),
        }
    }
    fn parts(&self) -> Option<(u128, u64, bool)> {
        match self {
            Em::Linear { amount, dur: Dur::H(n) | Dur::T(n), cont } => Some((*amount, *n, *cont)),
            _ => None,
        }
    }
}

struct D {
    id: u64,
    cw20: bool,
    src: usize,
    em: Em,
    funded: u128,
    span: Option<(u64, u64)>,
    end_raw: u64, // height or nanoseconds
    last: u64,
    open: bool,
    dest: String,
    acc: BTreeMap<String, Uint512>,
    claimed: BTreeMap<String, u128>,
    upd: BTreeMap<String, u64>,
    net: u128, // funded − claimed − withdrawn, over its whole life
    tainted: bool,
}
impl D {
    fn earned_scaled(&self, who: &str) -> Uint512 {
        self.acc.get(who).copied().unwrap_or_default()
    }
    fn give(&mut self, src: &Src, amount: Uint512) {
        let t = src.total();
        if t == 0 {
            return;
        }
        for (w, p) in &src.pow {
            if *p > 0 {
                *self.acc.entry(w.clone()).or_default() += amount * u512(*p) / u512(t);
            }
        }
    }
    fn sync(&mut self, src: &Src, now: u64) {
        let (Some((amount, dur, _)), Some((_, end))) = (self.em.parts(), self.span) else { return };
        let to = now.min(end);
        if to > self.last {
            let x = u512(amount) * u512((to - self.last) as u128) * scale() / u512(dur as u128);
            self.last = to;
            self.give(src, x);
        }
    }
    /// (rounded down, rounded up) amount emitted in the active epoch until now
    fn emitted(&self, now: u64) -> (u128, u128) {
        match (&self.em, self.span) {
            (Em::Immediate, _) => (self.funded, self.funded),
            (Em::Paused, _) | (_, None) => (0, 0),
            (em, Some((st, end))) => {
                let (amount, dur, _) = em.parts().unwrap();
                let x = u512(amount) * u512((now.min(end) - st) as u128);
                let d = u512(dur as u128);
                (to128(x / d), to128((x + d - u512(1)) / d))
            }
        }
    }
    fn exact_len(&self) -> u64 {
        let (amount, dur, _) = self.em.parts().unwrap();
        to128(u512(self.funded) * u512(dur as u128) / u512(amount)) as u64
    }
    fn expired(&self, sc: &Sc) -> bool {
        self.span.is_some() && self.em.raw(sc) >= self.end_raw
    }
}

struct W {
    dist: String,
    cw20: String,
    owner: String,
    offered: Option<String>,
    srcs: Vec<Src>,
    ds: Vec<D>,
    bank: [u128; 2],
    stray: [u128; 2],
}
fn wallets() -> Vec<&'static str> {
    USERS.iter().chain(&EXTRA).copied().collect()
}

impl W {
    fn setup(sc: &mut Sc, kinds: &[Kind]) -> R<W> {
        let mut srcs = vec![];
        let n = if sc.chance(35) { 2 } else { 1 };
        for i in 0..n {
            let k = sc.pick(kinds);
            srcs.push(Src::new(sc, k, i)?);
        }
        let cc = sc.code(cw20_code());
        let bal: Vec<Value> = wallets().iter().map(|a| json!({"address":a,"amount":(1u128 << 110).to_string()})).collect();
        let cw20 = sc.must_init(cc, "x", &json!({"name":"reward","symbol":"REW","decimals":6,"initial_balances":bal}), &[], "reward")?;
        for w in wallets() {
            sc.mint(w, 1 << 110, "urew");
            sc.mint(w, 1 << 60, "ufake");
        }
        let dc = sc.code(wrap!(dao_rewards_distributor::contract; migrate));
        let by_default = sc.chance(30);
        let dist = sc.must_init(dc, "owner", &if by_default { json!({"owner":null}) } else { json!({"owner":"owner"}) }, &[], "dist")?;
        let o = sc.qm(T, &dist, &json!({"ownership":{}}))?;
        ensure!(o["owner"] == "owner", T, "owner", "{o}");
        Ok(W { dist, cw20, owner: "owner".into(), offered: None, srcs, ds: vec![], bank: [0, 0], stray: [0, 0] })
    }
    fn hold(&self, sc: &Sc, cw20: bool, who: &str) -> u128 {
        if cw20 {
            sc.cw20_bal(&self.cw20, who)
        } else {
            sc.bank(who, "urew")
        }
    }
    fn state(&self, sc: &mut Sc, id: u64) -> R<Value> {
        sc.qm(T, &self.dist, &json!({"distribution":{"id":id}}))
    }
    fn sync(&mut self, sc: &Sc) {
        for d in &mut self.ds {
            let now = d.em.unit(sc);
            d.sync(&self.srcs[d.src], now);
        }
    }
    /// takes the end of the active epoch from the contract once it lies where the funds reach
    fn adopt_end(&mut self, sc: &mut Sc, i: usize) -> R {
        let st = self.state(sc, self.ds[i].id)?;
        let d = &mut self.ds[i];
        let Some((start, _)) = d.span else { return Ok(()) };
        let ep = &st["active_epoch"]["ends_at"];
        let (end, raw) = match d.em.parts() {
            Some(_) => match (&d.em, ep) {
                (Em::Linear { dur: Dur::H(_), .. }, v) if v.get("at_height").is_some() => (u(&v["at_height"]) as u64, u(&v["at_height"]) as u64),
                (Em::Linear { dur: Dur::T(_), .. }, v) if v.get("at_time").is_some() => ((u(&v["at_time"]) / NS as u128) as u64, u(&v["at_time"]) as u64),
                _ => return Err(Viol::new(T, "end-unit", format!("distribution {} in {:?} ends {ep}", d.id, d.em))),
            },
            None => return Ok(()),
        };
        let want = start + d.exact_len();
        ensure!(end == want || end + 1 == want, T, "end", "distribution {} starting at {start} with {} funded at {:?} ends at {end}, expected {want}", d.id, d.funded, d.em);
        d.span = Some((start, end));
        d.end_raw = raw;
        sc.checked(1);
        Ok(())
    }

    fn create(&mut self, sc: &mut Sc, valid: bool) -> R {
        let src = sc.r(0, self.srcs.len() as u64 - 1) as usize;
        let cw20 = sc.chance(40);
        let mut em = Em::random(sc);
        if !valid && sc.chance(50) {
            em = if sc.chance(50) { Em::Linear { amount: 0, dur: Dur::H(3), cont: false } } else { Em::Linear { amount: 5, dur: Dur::T(0), cont: true } };
        }
        let by = if !valid && sc.chance(40) { sc.pick(&["mallory", "ann"]).to_string() } else { self.owner.clone() };
        let open = sc.pick(&[None, Some(true), Some(false)]);
        let dest = sc.pick(&[None, Some("sink"), Some("boss")]);
        let mut funds = vec![];
        let mut amt = 0;
        if sc.chance(35) && USERS.iter().chain(&EXTRA).any(|x| *x == by) {
            amt = self.some_amount(sc, &em);
            let denom = if !valid && sc.chance(50) { "ufake" } else { "urew" };
            funds.push(coin(amt.min(1 << 60), denom));
            amt = amt.min(1 << 60);
        }
        if matches!(em, Em::Immediate) && amt > 0 && self.srcs[src].changed == sc.height() {
            sc.advance(1, 5);
            self.sync(sc);
        }
        let fund_ok = funds.is_empty() || (!cw20 && funds[0].denom == "urew" && (em != Em::Immediate || self.srcs[src].total() > 0));
        let id = self.ds.len() as u64 + 1;
        let vp = if !valid && sc.chance(20) { self.dist.clone() } else { self.srcs[src].vm.clone() };
        let m = json!({"create":{"denom": if cw20 {json!({"cw20":self.cw20})} else {json!({"native":"urew"})},"emission_rate":em.json(),"vp_contract":vp,
            "hook_caller":self.srcs[src].caller,"open_funding":open,"withdraw_destination":dest}});
        let ok = by == self.owner && em.valid() && fund_ok && vp != self.dist;
        let r = sc.exec(&by, &self.dist.clone(), &m, &funds);
        ensure!(r.is_ok() == ok, T, "create", "creating a distribution by {by} (owner {}), {em:?}, funds {funds:?}: expected ok={ok}, got {r:?}", self.owner);
        sc.checked(1);
        if !ok {
            return Ok(());
        }
        self.ds.push(D {
            id,
            cw20,
            src,
            em,
            funded: 0,
            span: None,
            end_raw: 0,
            last: 0,
            open: open.unwrap_or(true),
            dest: dest.map(|x| x.to_string()).unwrap_or(by),
            acc: BTreeMap::new(),
            claimed: BTreeMap::new(),
            upd: BTreeMap::new(),
            net: 0,
            tainted: false,
        });
        if amt > 0 {
            sc.tick("funded-at-creation");
            self.funded(sc, id as usize - 1, amt)?;
        }
        if !self.srcs[src].hooked {
            let dist = self.dist.clone();
            self.srcs[src].hook(sc, &dist)?;
        }
        Ok(())
    }
    fn some_amount(&self, sc: &mut Sc, em: &Em) -> u128 {
        match em.parts() {
            Some((a, _, _)) if a > 0 => match sc.r(0, 5) {
                0 => a,
                1 => a * sc.r(1, 20) as u128,
                2 => (a / 2).max(1),
                3 => (a * sc.r(1, 30) as u128) / 7 + 1,
                4 => sc.rng.gen_range(1..=a.saturating_mul(10)),
                _ => sc.rng.gen_range(1..=a),
            },
            _ => sc.amount(),
        }
    }
    /// owner moves a distribution that never held anything to another source of voting power
    fn redirect(&mut self, sc: &mut Sc) -> R {
        let Some(i) = (0..self.ds.len()).find(|i| self.ds[*i].net == 0 && self.ds[*i].funded == 0 && self.ds[*i].span.is_none() && self.ds[*i].claimed.is_empty() && self.ds[*i].acc.is_empty()) else { return Ok(()) };
        self.sync(sc);
        let to = sc.r(0, self.srcs.len() as u64 - 1) as usize;
        let by = if sc.chance(85) { self.owner.clone() } else { "mallory".to_string() };
        let wrong = match sc.r(0, 9) {
            0 => Some(self.dist.clone()),
            1 => Some(self.cw20.clone()),
            2 => Some("ann".into()),
            _ => None,
        };
        let vp = wrong.clone().unwrap_or(self.srcs[to].vm.clone());
        let m = json!({"update":{"id":i as u64 + 1,"emission_rate":null,"vp_contract":vp,"hook_caller":self.srcs[to].caller,"open_funding":null,"withdraw_destination":null}});
        let ok = by == self.owner && wrong.is_none();
        let mut m = m;
        if ok && sc.chance(30) {
            // the source of the reports first
            let mut h = m.clone();
            h["update"]["vp_contract"] = Value::Null;
            let r = sc.exec(&by, &self.dist.clone(), &h, &[]);
            ensure!(r.is_ok(), T, "redirect", "changing the source of reports of distribution {} by {by}: {r:?}", i + 1);
            m["update"]["hook_caller"] = Value::Null;
        }
        let r = sc.exec(&by, &self.dist.clone(), &m, &[]);
        ensure!(r.is_ok() == ok, T, "redirect", "pointing distribution {} at {vp} by {by}: expected ok={ok}, got {r:?}", i + 1);
        sc.checked(1);
        if !ok {
            return Ok(());
        }
        let old = self.ds[i].src;
        self.ds[i].src = to;
        self.ds[i].upd.clear();
        if !self.srcs[to].hooked {
            let dist = self.dist.clone();
            self.srcs[to].hook(sc, &dist)?;
        }
        if old != to && !self.ds.iter().any(|d| d.src == old) {
            let r = sc.exec("dao", &self.srcs[old].caller.clone(), &json!({"remove_hook":{"addr":self.dist}}), &[]);
            ensure!(r.is_ok(), T, "remove-hook", "the distributor cannot be unregistered from {}: {r:?}", self.srcs[old].caller);
            self.srcs[old].hooked = false;
            sc.tick("mon.source_dropped");
        }
        if old != to {
            sc.tick("mon.redirected");
            self.forge(sc)?;
        }
        Ok(())
    }
    /// owner moves a running distribution to another source of voting power; what was earned before stays earned
    fn live_redirect(&mut self, sc: &mut Sc) -> R<bool> {
        self.sync(sc);
        let live: Vec<usize> = (0..self.ds.len()).filter(|i| !self.ds[*i].tainted && matches!(self.ds[*i].em, Em::Linear { .. }) && !self.ds[*i].acc.is_empty()).collect();
        if live.is_empty() {
            return Ok(false);
        }
        let i = sc.pick(&live);
        let old = self.srcs[self.ds[i].src].pow.clone();
        let gone = self.srcs[self.ds[i].src].changed == sc.height();
        if gone {
            return Ok(false);
        }
        let mut new: BTreeMap<String, u128> = BTreeMap::new();
        for w in USERS {
            let p = old.get(w).copied().unwrap_or(0);
            let keep = p < 1 << 60 && sc.chance(75);
            new.insert(w.into(), if keep { p } else { sc.r(0, 100_000) as u128 });
        }
        if new.values().sum::<u128>() == 0 {
            return Ok(false);
        }
        let vmc = sc.code(wrap!(dao_voting_cw4::contract; reply, migrate));
        let g4 = sc.code(wrap!(cw4_group::contract));
        let ms: Vec<Value> = new.iter().map(|(a, w)| json!({"addr":a,"weight":*w as u64})).collect();
        let vm = sc.must_init(vmc, "dao", &json!({"group_contract":{"new":{"cw4_group_code_id":g4,"initial_members":ms}}}), &[], "newvm")?;
        let caller = s(&sc.qm(T, &vm, &json!({"group_contract":{}}))?);
        sc.advance(1, 5);
        let r = sc.exec("dao", &caller, &json!({"add_hook":{"addr":self.dist}}), &[]);
        ensure!(r.is_ok(), T, "add-hook", "{r:?}");
        self.sync(sc);
        let em = match sc.r(0, 3) {
            0 => Some(Em::Paused),
            1 | 2 => Some(Em::random(sc)).filter(|e| *e != Em::Immediate && self.ds[i].funded < 1 << 70),
            _ => None,
        };
        let mut before = vec![];
        for w in USERS {
            before.push(self.pendings(sc, w)?[i]);
        }
        let st = self.state(sc, i as u64 + 1)?;
        let by = self.owner.clone();
        let m = json!({"update":{"id":i as u64 + 1,"emission_rate":em.as_ref().map(|e| e.json()),"vp_contract":vm,"hook_caller":caller,"open_funding":null,"withdraw_destination":null}});
        let r = sc.exec(&by, &self.dist.clone(), &m, &[]);
        if r.is_err() && em.is_some() {
            return Ok(false); // a period too long to express
        }
        ensure!(r.is_ok(), T, "redirect", "pointing distribution {} of {st} at {vm} by its owner: {r:?}", i + 1);
        sc.tick("mon.live_redirect");
        let stale = em.is_none() || em.as_ref() == Some(&self.ds[i].em);
        for strict in [true, false] {
            for (k, w) in USERS.iter().enumerate() {
                let same = old.get(*w).copied().unwrap_or(0) == new[*w] && !stale;
                if same != strict {
                    continue;
                }
                let now = self.pendings(sc, w)?[i];
                let sig = if same { "redirect-earned" } else { "live-source-change" };
                ensure!(now == before[k], T, sig, "{w} had {} pending in distribution {} (power {:?} of {}); after a change of its source of power (now {} of {}) it is {now}",
                    before[k], i + 1, old.get(*w), old.values().sum::<u128>(), new[*w], new.values().sum::<u128>());
                sc.checked(1);
            }
        }
        Ok(true)
    }
    /// coins sent along with a call that takes none would be lost
    fn stray_coins(&mut self, sc: &mut Sc) -> R {
        let id = sc.r(1, self.ds.len() as u64);
        let m = match sc.r(0, 3) {
            0 => json!({"update":{"id":id,"emission_rate":null,"vp_contract":null,"hook_caller":null,"open_funding":null,"withdraw_destination":null}}),
            1 => json!({"claim":{"id":id}}),
            2 => json!({"withdraw":{"id":id}}),
            _ => json!({"update_ownership":{"transfer_ownership":{"new_owner":"boss","expiry":null}}}),
        };
        let by = if m.get("claim").is_some() { sc.pick(&USERS).to_string() } else { self.owner.clone() };
        let r = sc.exec(&by, &self.dist.clone(), &m, &[coin(7, "urew")]);
        ensure!(r.is_err(), T, "lost-coins", "{m} by {by} took 7 urew that belong to no distribution");
        sc.tick("mon.refused_coins");
        sc.checked(1);
        Ok(())
    }
    /// accepted funding
    fn funded(&mut self, sc: &mut Sc, i: usize, amt: u128) -> R {
        let now = self.ds[i].em.unit(sc);
        let src = &self.srcs[self.ds[i].src];
        let fresh_power = src.changed == sc.height();
        let d = &mut self.ds[i];
        d.net += amt;
        self.bank[d.cw20 as usize] += amt;
        d.sync(src, now);
        match d.em.clone() {
            Em::Paused => d.funded += amt,
            Em::Immediate => {
                d.funded += amt;
                d.tainted |= fresh_power;
                d.give(src, u512(amt) * scale());
                sc.tick("fund.immediate");
            }
            Em::Linear { cont, .. } => {
                let exp = d.expired(sc);
                if d.funded == 0 || (!cont && exp) {
                    sc.tick(if d.funded == 0 { "fund.start" } else { "fund.restart" });
                    let left = d.funded - d.emitted(now).1;
                    if left > 0 {
                        sc.tick("fund.restart-leftover");
                    }
                    d.funded = left + amt;
                    d.span = Some((now, now));
                    d.last = now;
                } else {
                    d.funded += amt;
                    sc.tick(if exp { "fund.backfill" } else { "fund.extend" });
                    d.tainted |= exp && fresh_power;
                }
                self.adopt_end(sc, i)?;
                let src = &self.srcs[self.ds[i].src];
                self.ds[i].sync(src, now);
            }
        }
        sc.nontrivial = true;
        Ok(())
    }
    fn fund(&mut self, sc: &mut Sc, same_block: bool) -> R {
        let i = sc.r(0, self.ds.len() as u64 - 1) as usize;
        let latest = i + 1 == self.ds.len() && sc.chance(40);
        let d = &self.ds[i];
        let instant = match d.em {
            Em::Immediate => true,
            Em::Linear { cont, .. } => cont,
            _ => false,
        };
        if !same_block && instant && self.srcs[d.src].changed == sc.height() {
            sc.advance(1, 5);
            self.sync(sc);
        }
        let d = &self.ds[i];
        let by = if sc.chance(60) { self.owner.clone() } else { sc.pick(&["ann", "bob", "boss"]).to_string() };
        let amt = self.some_amount(sc, &d.em.clone()).min(1 << 100);
        let d = &self.ds[i];
        let auth = d.open || by == self.owner;
        let immediate_ok = d.em != Em::Immediate || self.srcs[d.src].total() > 0;
        let bad = sc.r(0, 19);
        let (r, ok, asset);
        let d_cw20 = d.cw20;
        let as_cw20 = if bad == 0 { !d_cw20 } else { d_cw20 };
        if as_cw20 {
            let inner = if latest { json!({"fund_latest":{}}) } else { json!({"fund":{"id":i as u64 + 1}}) };
            let tok = if bad == 1 && !self.srcs[0].token.is_empty() && self.srcs[0].k == Kind::Cw20 { self.srcs[0].token.clone() } else { self.cw20.clone() };
            let right = tok == self.cw20;
            let amt0 = if right { amt } else { 5 };
            r = sc.exec(&by, &tok, &json!({"send":{"contract":self.dist,"amount":amt0.to_string(),"msg":b64(&inner)}}), &[]);
            ok = auth && immediate_ok && d_cw20 && right;
            asset = 1;
        } else {
            let m = if latest { json!({"fund_latest":{}}) } else { json!({"fund":{"id":i as u64 + 1}}) };
            let funds = match bad {
                1 => vec![],
                2 => vec![coin(1, "ufake")],
                3 => vec![coin(7, "ufake"), coin(amt, "urew")],
                _ => vec![coin(amt, "urew")],
            };
            let right = !(1..=3).contains(&bad);
            r = sc.exec(&by, &self.dist.clone(), &m, &funds);
            ok = auth && immediate_ok && !d_cw20 && right;
            asset = 0;
        }
        // the power that counts is that of the start of the block
        let ok = if self.ds[i].em == Em::Immediate && self.srcs[self.ds[i].src].changed == sc.height() { r.is_ok() } else { ok };
        ensure!(r.is_ok() == ok, T, "fund", "funding distribution {} ({:?}, open {}) with {amt} of asset {asset} by {by}: expected ok={ok}, got {r:?}", i + 1, self.ds[i].em, self.ds[i].open);
        sc.checked(1);
        if ok {
            self.funded(sc, i, amt)?;
        }
        Ok(())
    }
    fn withdraw(&mut self, sc: &mut Sc) -> R {
        let i = sc.r(0, self.ds.len() as u64 - 1) as usize;
        let by = if sc.chance(80) { self.owner.clone() } else { sc.pick(&["ann", "mallory", "boss"]).to_string() };
        let now = self.ds[i].em.unit(sc);
        self.sync(sc);
        let (lo, hi) = self.ds[i].emitted(now);
        let d = &self.ds[i];
        let auth = by == self.owner;
        let exp = d.expired(sc);
        let left = d.funded - lo;
        let before = self.hold(sc, d.cw20, &d.dest);
        let r = sc.exec(&by, &self.dist.clone(), &json!({"withdraw":{"id":i as u64 + 1}}), &[]);
        sc.checked(1);
        let d = &self.ds[i];
        if !auth || exp {
            ensure!(r.is_err(), T, "withdraw-auth", "withdrawal by {by} (owner {}) from distribution {} (over: {exp}) accepted", self.owner, i + 1);
            return Ok(());
        }
        if matches!(d.em, Em::Linear { .. }) && d.funded > hi {
            ensure!(r.is_ok(), T, "withdraw", "the owner cannot withdraw the {left} left in distribution {}: {r:?}", i + 1);
        }
        if r.is_err() {
            return Ok(());
        }
        let paid = self.hold(sc, d.cw20, &d.dest) - before;
        ensure!(paid <= d.funded - lo && paid >= d.funded - hi, T, "withdraw-amount", "withdrawal from distribution {} paid {paid} of {} funded, {lo}..{hi} emitted", i + 1, d.funded);
        sc.tick(if d.em == Em::Paused { "withdrawn.paused" } else { "withdrawn" });
        let d = &mut self.ds[i];
        d.funded -= paid;
        d.net -= paid;
        self.bank[d.cw20 as usize] -= paid;
        if let Some((st, end)) = d.span {
            d.span = Some((st, end.min(now)));
            d.end_raw = d.em.raw(sc);
        }
        Ok(())
    }
    fn update(&mut self, sc: &mut Sc, same_block: bool) -> R {
        let i = sc.r(0, self.ds.len() as u64 - 1) as usize;
        let em = match sc.r(0, 9) {
            0 | 1 => None,
            2 => Some(self.ds[i].em.clone()),
            3 => Some(match sc.r(0, 2) {
                0 => Em::Linear { amount: 0, dur: Dur::H(1), cont: false },
                1 => Em::Linear { amount: 9, dur: Dur::H(0), cont: false },
                _ => Em::Linear { amount: 9, dur: Dur::T(0), cont: true },
            }),
            _ => Some(Em::random(sc)),
        };
        if !same_block && em == Some(Em::Immediate) && self.srcs[self.ds[i].src].changed == sc.height() {
            sc.advance(1, 5);
        }
        // keep the funded period within reason
        let em = match em {
            Some(Em::Linear { amount, dur, cont }) if amount > 0 => {
                let mut a = amount;
                while self.ds[i].funded / a > 10_000 {
                    a = a.saturating_mul(1_000_000);
                }
                Some(Em::Linear { amount: a, dur, cont })
            }
            x => x,
        };
        self.sync(sc);
        let by = if sc.chance(85) { self.owner.clone() } else { sc.pick(&["ann", "mallory", "boss"]).to_string() };
        let open = sc.pick(&[None, None, Some(true), Some(false)]);
        let dest = sc.pick(&[None, None, None, Some("sink"), Some("boss")]);
        let d = &self.ds[i];
        let src = &self.srcs[d.src];
        let vp = if sc.chance(10) { Some(src.vm.clone()) } else { None };
        let hc = if sc.chance(10) { Some(src.caller.clone()) } else { None };
        let same = em.as_ref() == Some(&d.em);
        let to_imm = em == Some(Em::Immediate) && !same;
        let ok = by == self.owner && em.as_ref().map(|e| e.valid()).unwrap_or(true) && !(to_imm && src.total() == 0);
        let r = sc.exec(&by, &self.dist.clone(), &json!({"update":{"id":i as u64 + 1,"emission_rate":em.as_ref().map(|e| e.json()),"vp_contract":vp,"hook_caller":hc,"open_funding":open,"withdraw_destination":dest}}), &[]);
        let ok = if to_imm && src.changed == sc.height() { r.is_ok() } else { ok };
        ensure!(r.is_ok() == ok, T, "update", "update of distribution {} by {by} to {em:?}: expected ok={ok}, got {r:?}", i + 1);
        sc.checked(1);
        if !ok {
            return Ok(());
        }
        let st = self.state(sc, i as u64 + 1)?;
        let fresh = self.srcs[self.ds[i].src].changed == sc.height();
        let d = &mut self.ds[i];
        if let Some(o) = open {
            d.open = o;
        }
        if let Some(x) = dest {
            d.dest = x.to_string();
        }
        if let Some(em) = em {
            if same {
                sc.tick("update.same");
                return Ok(());
            }
            let now = d.em.unit(sc);
            let (lo, hi) = d.emitted(now);
            let left = u(&st["funded_amount"]);
            ensure!(left <= d.funded - lo && left >= d.funded - hi, T, "transition-funds", "distribution {} had {} funded and {lo}..{hi} emitted; the new epoch has {left}", i + 1, d.funded);
            sc.tick(match em { Em::Paused => "update.paused", Em::Immediate => "update.immediate", _ => "update.linear" });
            d.funded = left;
            d.em = em.clone();
            match em {
                Em::Linear { .. } => {
                    let now = d.em.unit(sc);
                    d.span = Some((now, now));
                    d.last = now;
                    self.adopt_end(sc, i)?;
                }
                Em::Immediate => {
                    d.span = None;
                    d.tainted |= fresh && left > 0;
                    d.give(&self.srcs[d.src], u512(left) * scale());
                }
                Em::Paused => d.span = None,
            }
        }
        Ok(())
    }
    fn pendings(&self, sc: &mut Sc, who: &str) -> R<Vec<u128>> {
        // by pages of a random size
        let mut out: Vec<u128> = vec![];
        loop {
            let lim = sc.r(1, 4);
            let after = out.len() as u64;
            let v = sc.qm(T, &self.dist, &json!({"pending_rewards":{"address":who,"start_after": if after == 0 {Value::Null} else {json!(after)},"limit":lim}}))?;
            let page = v["pending_rewards"].as_array().cloned().unwrap_or_default();
            if page.is_empty() {
                break;
            }
            for x in page {
                ensure!(u(&x["id"]) as usize == out.len() + 1, T, "pending-listing", "pending rewards of {who} list {} after {}", x["id"], out.len());
                out.push(u(&x["pending_rewards"]));
            }
        }
        ensure!(out.len() == self.ds.len(), T, "pending-listing", "pending rewards of {who} list {} of {} distributions", out.len(), self.ds.len());
        Ok(out)
    }
    fn claim(&mut self, sc: &mut Sc) -> R {
        let who = sc.pick(&USERS);
        self.claim_as(sc, who, None)
    }
    fn claim_as(&mut self, sc: &mut Sc, who: &str, which: Option<usize>) -> R {
        self.sync(sc);
        let i = which.unwrap_or_else(|| sc.r(0, self.ds.len() as u64 - 1) as usize);
        let p = self.pendings(sc, who)?[i];
        let cw20 = self.ds[i].cw20;
        let before = self.hold(sc, cw20, who);
        let r = sc.exec(who, &self.dist.clone(), &json!({"claim":{"id":i as u64 + 1}}), &[]);
        let sig = if self.ds.iter().any(|d| d.tainted) { "immediate-same-block" } else { "claim" };
        ensure!(r.is_ok() == (p > 0), T, sig, "claim by {who} with {p} pending in distribution {}: {r:?}", i + 1);
        let paid = self.hold(sc, cw20, who) - before;
        ensure!(paid == p, T, "claim-amount", "claim by {who} with {p} pending in distribution {} paid {paid}", i + 1);
        sc.checked(2);
        if p > 0 {
            sc.tick("claimed");
            let d = &mut self.ds[i];
            *d.claimed.entry(who.into()).or_default() += paid;
            *d.upd.entry(who.into()).or_default() += 1;
            d.net = d.net.wrapping_sub(paid);
            self.bank[cw20 as usize] -= paid;
        }
        Ok(())
    }
    /// one voting-power change at one source
    fn power(&mut self, sc: &mut Sc) -> R {
        self.sync(sc);
        let k = sc.r(0, self.srcs.len() as u64 - 1) as usize;
        let src = &mut self.srcs[k];
        let mut touched: Vec<String> = vec![];
        match src.k {
            Kind::Cw4 => {
                let mut add = vec![];
                let mut rem = vec![];
                for w in USERS {
                    match sc.r(0, 9) {
                        0..=2 => {
                            let p = if sc.chance(15) { 0 } else { sc.r(0, 9) * sc.r(1, 1000) + 1 };
                            add.push((w, p));
                        }
                        3 => rem.push(w),
                        _ => {}
                    }
                }
                let r = sc.exec("dao", &src.caller.clone(), &json!({"update_members":{"add":add.iter().map(|(a, p)| json!({"addr":a,"weight":p})).collect::<Vec<_>>(),"remove":rem}}), &[]);
                ensure!(r.is_ok(), T, "blocked", "a membership change was blocked by the distributor: {r:?}");
                for (a, p) in add {
                    src.pow.insert(a.into(), p as u128);
                    touched.push(a.into());
                }
                for a in rem {
                    src.pow.remove(a);
                    touched.push(a.into());
                }
            }
            Kind::Token | Kind::Cw20 => {
                let who = sc.pick(&USERS);
                let have = src.pow.get(who).copied().unwrap_or(0);
                if have > 0 && sc.chance(45) {
                    let x = match sc.r(0, 2) {
                        0 => have,
                        1 => have.min(1),
                        _ => sc.rng.gen_range(1..=have),
                    };
                    let r = sc.exec(who, &src.caller.clone(), &json!({"unstake":{"amount":x.to_string()}}), &[]);
                    ensure!(r.is_ok(), T, "blocked", "unstaking was blocked by the distributor: {r:?}");
                    src.pow.insert(who.into(), have - x);
                } else {
                    let x = sc.amount();
                    let r = if src.k == Kind::Token {
                        sc.exec(who, &src.vm.clone(), &json!({"stake":{}}), &[coin(x, &src.token)])
                    } else {
                        sc.exec(who, &src.token.clone(), &json!({"send":{"contract":src.caller,"amount":x.to_string(),"msg":b64(&json!({"stake":{}}))}}), &[])
                    };
                    ensure!(r.is_ok(), T, "blocked", "staking was blocked by the distributor: {r:?}");
                    src.pow.insert(who.into(), have + x);
                }
                touched.push(who.into());
            }
            Kind::Nft => {
                let who = sc.pick(&USERS);
                let (f, st) = (src.free.entry(who.into()).or_default().clone(), src.nfts.entry(who.into()).or_default().clone());
                if !st.is_empty() && (f.is_empty() || sc.chance(45)) {
                    let n = sc.r(1, st.len() as u64) as usize;
                    let ids: Vec<String> = st[..n].to_vec();
                    let r = sc.exec(who, &src.vm.clone(), &json!({"unstake":{"token_ids":ids}}), &[]);
                    ensure!(r.is_ok(), T, "blocked", "unstaking was blocked by the distributor: {r:?}");
                    src.nfts.get_mut(who).unwrap().drain(..n);
                    src.free.get_mut(who).unwrap().extend(ids);
                } else if let Some(t) = f.first() {
                    let r = sc.exec(who, &src.token.clone(), &json!({"send_nft":{"contract":src.vm,"token_id":t,"msg":""}}), &[]);
                    ensure!(r.is_ok(), T, "blocked", "staking was blocked by the distributor: {r:?}");
                    src.nfts.get_mut(who).unwrap().push(t.clone());
                    src.free.get_mut(who).unwrap().remove(0);
                } else {
                    return Ok(());
                }
                let p = src.nfts[who].len() as u128;
                src.pow.insert(who.into(), p);
                touched.push(who.into());
            }
        }
        if !touched.is_empty() {
            src.changed = sc.height();
            sc.tick(if src.total() == 0 { "power.none" } else { "power.changed" });
        }
        for d in self.ds.iter_mut().filter(|d| d.src == k) {
            for t in &touched {
                *d.upd.entry(t.clone()).or_default() += 1;
            }
        }
        Ok(())
    }
    fn forge(&mut self, sc: &mut Sc) -> R {
        // a contract that is not, or no longer, the announced source of power changes is a stranger too
        let mut who = vec!["mallory".to_string(), "ann".into(), "owner".into()];
        for (k, x) in self.srcs.iter().enumerate() {
            if !self.ds.iter().any(|d| d.src == k) {
                who.push(x.caller.clone());
            }
            if x.vm != x.caller {
                who.push(x.vm.clone());
            }
        }
        let who = sc.pick(&who);
        let m = match sc.r(0, 3) {
            0 => json!({"stake_change_hook":{"stake":{"addr":"ann","amount":"5"}}}),
            1 => json!({"stake_change_hook":{"unstake":{"addr":"ann","amount":"5"}}}),
            2 => json!({"nft_stake_change_hook":{"stake":{"addr":"ann","token_id":"1"}}}),
            _ => json!({"member_changed_hook":{"diffs":[{"key":"ann","old":1,"new":2}]}}),
        };
        let r = sc.exec(&who, &self.dist.clone(), &m, &[]);
        ensure!(r.is_err(), T, "forged-hook", "a power change announced by {who} was accepted: {m}");
        sc.checked(1);
        Ok(())
    }
    fn ownership(&mut self, sc: &mut Sc) -> R {
        let (by, m, ok);
        match self.offered.clone() {
            Some(n) if sc.chance(70) => {
                by = if sc.chance(80) { n.clone() } else { "mallory".to_string() };
                m = json!({"update_ownership":"accept_ownership"});
                ok = by == n;
            }
            _ => {
                by = if sc.chance(80) { self.owner.clone() } else { "mallory".to_string() };
                let n = sc.pick(&["boss", "owner"]);
                m = json!({"update_ownership":{"transfer_ownership":{"new_owner":n,"expiry":null}}});
                ok = by == self.owner;
                if ok {
                    self.offered = Some(n.into());
                }
            }
        }
        let r = sc.exec(&by, &self.dist.clone(), &m, &[]);
        ensure!(r.is_ok() == ok, T, "ownership", "{m} by {by} (owner {}): {r:?}", self.owner);
        if ok && m["update_ownership"] == "accept_ownership" {
            self.owner = by;
            self.offered = None;
        }
        sc.checked(1);
        Ok(())
    }
    fn check(&mut self, sc: &mut Sc) -> R {
        self.sync(sc);
        let mut owed = [Uint512::zero(); 2];
        let mut life: Vec<Uint512> = vec![Uint512::zero(); self.ds.len()];
        let sigof = |d: &D, sig: &'static str| if d.tainted { "immediate-same-block" } else { sig };
        for who in wallets() {
            let ps = self.pendings(sc, who)?;
            for (i, p) in ps.iter().enumerate() {
                let d = &self.ds[i];
                let got = u512(*p) + u512(d.claimed.get(who).copied().unwrap_or(0));
                let exact = d.earned_scaled(who);
                // never more than earned; the contract rounds each update down by less than a token
                let hi = (exact + scale() / u512(1_000_000)) / scale();
                ensure!(got <= hi, T, sigof(d, "over-earned"), "{who} has {got} of distribution {} ({p} of it pending), earned {} (10^-60)", d.id, exact);
                let slack = scale() * u512(d.upd.get(who).copied().unwrap_or(0) as u128 + 1) + scale() / u512(1_000_000);
                ensure!(got * scale() + slack >= exact, T, sigof(d, "under-earned"), "{who} has {got} of distribution {} ({p} of it pending), earned {} (10^-60) over {} updates", d.id, exact, d.upd.get(who).copied().unwrap_or(0));
                owed[d.cw20 as usize] += u512(*p);
                life[i] += u512(*p);
                sc.checked(2);
            }
        }
        for i in 0..self.ds.len() {
            let now = self.ds[i].em.unit(sc);
            let (lo, hi) = self.ds[i].emitted(now);
            let un = u(&sc.qm(T, &self.dist, &json!({"undistributed_rewards":{"id":i as u64 + 1}}))?);
            let st = self.state(sc, i as u64 + 1)?;
            let d = &self.ds[i];
            ensure!(un <= d.funded - lo && un >= d.funded - hi, T, "undistributed", "distribution {} reports {un} undistributed; {} funded, {lo}..{hi} emitted", d.id, d.funded);
            ensure!(u(&st["funded_amount"]) == d.funded, T, "funded-amount", "distribution {} has {} on record, {} funded", d.id, st["funded_amount"], d.funded);
            ensure!(st["open_funding"] == json!(d.open) && st["withdraw_destination"] == json!(d.dest) && st["active_epoch"]["emission_rate"] == d.em.json() && st["vp_contract"] == json!(self.srcs[d.src].vm),
                T, "config", "distribution {} reads {st}, set {:?} open {} destination {}", d.id, d.em, d.open, d.dest);
            life[i] += u512(un);
            // what it still owes and keeps never exceeds what was paid in and not out
            ensure!(life[i] <= u512(d.net), T, sigof(d, "insolvent"), "distribution {} owes {} and keeps {un}, but only {} of its funds are left", d.id, life[i] - u512(un), d.net);
            sc.checked(4);
        }
        for a in 0..2 {
            let have = self.hold(sc, a == 1, &self.dist.clone());
            ensure!(have == self.bank[a] + self.stray[a], T, "balance", "the distributor holds {have} of asset {a}, its books say {} and {} stray", self.bank[a], self.stray[a]);
            sc.checked(1);
        }
        let mut n = 0u64;
        loop {
            let lim = sc.r(1, 5);
            let v = sc.qm(T, &self.dist, &json!({"distributions":{"start_after": if n == 0 {Value::Null} else {json!(n)},"limit":lim}}))?;
            let page = v["distributions"].as_array().cloned().unwrap_or_default();
            if page.is_empty() {
                break;
            }
            for x in page {
                n += 1;
                ensure!(u(&x["id"]) as u64 == n, T, "listing", "distribution listing: {} at position {n}", x["id"]);
            }
        }
        ensure!(n == self.ds.len() as u64, T, "listing", "{n} of {} distributions listed", self.ds.len());
        Ok(())
    }
    fn rels(&self) -> Vec<Rel> {
        self.ds
            .iter()
            .filter_map(|d| match (&d.em, d.span) {
                (Em::Linear { dur: Dur::H(_), .. }, Some(_)) => Some(Rel::H(d.end_raw)),
                (Em::Linear { dur: Dur::T(_), .. }, Some(_)) => Some(Rel::T(d.end_raw)),
                _ => None,
            })
            .collect()
    }
    fn run(sc: &mut Sc, kinds: &[Kind]) -> R {
        let mut w = W::setup(sc, kinds)?;
        for _ in 0..sc.r(0, 4) {
            w.power(sc)?;
        }
        sc.advance(1, 5);
        while w.ds.is_empty() {
            w.create(sc, true)?;
        }
        if sc.chance(2) {
            while w.ds.len() < 12 {
                w.create(sc, true)?;
            }
        }
        let steps = sc.r(20, if sc.thorough { 80 } else { 45 });
        for _ in 0..steps {
            match sc.weighted(&[18, 22, 14, 3, 5, 3, 2, 1, 24, 1, 2, 1]) {
                0 => w.fund(sc, false)?,
                1 => w.power(sc)?,
                2 => w.claim(sc)?,
                3 => w.withdraw(sc)?,
                4 => w.update(sc, false)?,
                5 if w.ds.len() < 4 => {
                    let v = sc.chance(60);
                    w.create(sc, v)?
                }
                6 => w.forge(sc)?,
                7 => w.ownership(sc)?,
                8 => {
                    w.sync(sc);
                    let rels: Vec<Rel> = w.rels().into_iter().filter(|r| match r { Rel::H(h) => *h < sc.height() + 5_000_000, Rel::T(t) => *t < sc.block().time.nanos() + 50_000_000 * NS }).collect();
                    sc.advance_around(&rels)
                }
                10 => w.redirect(sc)?,
                11 => w.stray_coins(sc)?,
                _ => {
                    // an unannounced transfer
                    let who = sc.pick(&USERS);
                    let x = sc.r(1, 1000) as u128;
                    if sc.chance(50) {
                        let _ = sc.cosmos(who, CosmosMsg::Bank(BankMsg::Send { to_address: w.dist.clone(), amount: vec![coin(x, "urew")] }));
                        w.stray[0] += x;
                    } else {
                        let _ = sc.exec(who, &w.cw20.clone(), &json!({"transfer":{"recipient":w.dist,"amount":x.to_string()}}), &[]);
                        w.stray[1] += x;
                    }
                }
            }
            w.check(sc)?;
        }
        if sc.chance(6) && w.live_redirect(sc)? {
            return Ok(());
        }
        // everyone can collect everything
        for i in 0..w.ds.len() {
            for who in USERS {
                w.claim_as(sc, who, Some(i))?;
            }
        }
        w.check(sc)
    }
}

pub fn members(sc: &mut Sc) -> R {
    W::run(sc, &[Kind::Cw4])
}
pub fn stakers(sc: &mut Sc) -> R {
    W::run(sc, &[Kind::Token, Kind::Cw20, Kind::Nft])
}
pub fn mixed(sc: &mut Sc) -> R {
    W::run(sc, &[Kind::Cw4, Kind::Token, Kind::Cw20, Kind::Nft])
}
/// instant distribution in the block of a power change
pub fn same_block(sc: &mut Sc) -> R {
    let mut w = W::setup(sc, &[Kind::Cw4, Kind::Token, Kind::Cw20])?;
    sc.advance(1, 5);
    while w.ds.is_empty() {
        w.create(sc, true)?;
    }
    for _ in 0..12 {
        match sc.r(0, 5) {
            0 | 1 => w.power(sc)?,
            2 | 3 => w.fund(sc, true)?,
            4 => w.update(sc, true)?,
            _ => {
                w.sync(sc);
                sc.advance(1, 5)
            }
        }
        w.check(sc)?;
    }
    Ok(())
}
