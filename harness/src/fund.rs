//! cw-fund-distributor: one-off distribution of a pool by the voting power at a height.
use crate::big::*;
use crate::model::*;
use crate::*;
use cosmwasm_std::coin;
use std::collections::BTreeMap;

const T: &[&str] = &["C15"];
const USERS: [&str; 6] = ["ann", "bob", "cat", "dan", "eve", "fay"];

struct W {
    fd: String,
    code: u64,
    vm: String,
    src: String, // group, or the voting module itself
    token_staked: bool,
    snap: Snap,
    start: u64,
    height: u64,
    until: Rel,
    cw20s: Vec<String>,
    denoms: Vec<String>,
    native: BTreeMap<String, u128>,
    cw20: BTreeMap<String, u128>,
    claimed: BTreeMap<(String, bool, String), u128>,
    held: BTreeMap<(bool, String), u128>,
    stray: BTreeMap<(bool, String), u128>,
}

fn key(is20: bool, t: &str) -> (bool, String) {
    (is20, t.to_string())
}

impl W {
    fn power(&mut self, sc: &mut Sc) -> R {
        let who = sc.pick(&USERS);
        let h = sc.height();
        if self.token_staked {
            let have = self.snap.get(who);
            if have > 0 && sc.chance(40) {
                let x = sc.rng.gen_range(1..=have);
                let r = sc.exec(who, &self.src.clone(), &json!({"unstake":{"amount":x.to_string()}}), &[]);
                ensure!(r.is_ok(), &["C09"], "unstake", "{r:?}");
                self.snap.set(h, who, have - x);
            } else {
                let x = sc.amount();
                let r = sc.exec(who, &self.src.clone(), &json!({"stake":{}}), &[coin(x, "utok")]);
                ensure!(r.is_ok(), &["C09"], "stake", "{r:?}");
                self.snap.set(h, who, have + x);
            }
        } else {
            let p = if sc.chance(20) { 0 } else { sc.r(1, 1_000_000) };
            let m = if sc.chance(20) { json!({"add":[],"remove":[who]}) } else { json!({"add":[{"addr":who,"weight":p}],"remove":[]}) };
            let rem = m["add"].as_array().unwrap().is_empty();
            let r = sc.exec("dao", &self.src.clone(), &json!({ "update_members": m }), &[]);
            ensure!(r.is_ok(), &["C08"], "members", "{r:?}");
            self.snap.set(h, who, if rem { 0 } else { p as u128 });
        }
        Ok(())
    }
    /// a height up to the current one, often near a change
    fn some_height(&self, sc: &mut Sc) -> u64 {
        let mut v: Vec<u64> = self.snap.interesting().into_iter().filter(|h| *h > self.start && *h <= sc.height()).collect();
        v.push(sc.height());
        v.push(sc.height());
        sc.pick(&v)
    }
    fn bounds(&self, pool: u128, who: &str) -> (u128, u128) {
        let p = self.snap.at(self.height, who);
        let t = self.snap.total_at(self.height);
        if t == 0 {
            return (0, 0);
        }
        let share = mul_div(p, ONE, t);
        let lo = u512(pool) * share / u512(ONE);
        (lo.to_string().parse().unwrap(), mul_div_u128(pool, p, t))
    }
    fn setup(sc: &mut Sc) -> R<W> {
        let token_staked = sc.chance(50);
        let cc = sc.code(cw20_code());
        let fcode = sc.code(wrap!(cw_fund_distributor::contract; migrate));
        let bal: Vec<Value> = USERS.iter().map(|a| json!({"address":a,"amount":(1u128 << 110).to_string()})).collect();
        let mut cw20s = vec![];
        let wide = sc.chance(5);
        let denoms: Vec<String> = if wide { (0..sc.r(11, 35)).map(|i| format!("ua{i:02}")).collect() } else { ["uaa", "ubb", "ucc"].map(String::from).to_vec() };
        for _ in 0..if wide { sc.r(3, 34) } else { sc.r(1, 3) } {
            cw20s.push(sc.must_init(cc, "x", &json!({"name":"pool token","symbol":"POO","decimals":6,"initial_balances":bal}), &[], "cw20")?);
        }
        for w in USERS {
            for d in &denoms {
                sc.mint(w, 1 << 110, d);
            }
            sc.mint(w, 1 << 110, "utok");
        }
        let (vm, src);
        if token_staked {
            let vmc = sc.code(wrap!(dao_voting_token_staked::contract; reply, migrate));
            vm = sc.must_init(vmc, "dao", &json!({"token_info":{"existing":{"denom":"utok"}},"unstaking_duration":null,"active_threshold":null}), &[], "vm")?;
            src = vm.clone();
        } else {
            let gc = sc.code(cw4_code());
            let vmc = sc.code(wrap!(dao_voting_cw4::contract; reply, migrate));
            src = sc.must_init(gc, "x", &json!({"admin":"dao","members":[{"addr":"ann","weight":1}]}), &[], "group")?;
            vm = sc.must_init(vmc, "dao", &json!({"group_contract":{"existing":{"address":src}}}), &[], "vm")?;
        }
        let mut w = W {
            fd: String::new(),
            code: fcode,
            vm: vm.clone(),
            src,
            token_staked,
            snap: Snap::default(),
            start: sc.height(),
            height: 0,
            until: Rel::H(0),
            cw20s,
            denoms,
            native: BTreeMap::new(),
            cw20: BTreeMap::new(),
            claimed: BTreeMap::new(),
            held: BTreeMap::new(),
            stray: BTreeMap::new(),
        };
        if !token_staked {
            let h = sc.height();
            w.snap.set(h, "ann", 1);
        }
        if sc.chance(90) {
            for _ in 0..sc.r(0, 10) {
                if sc.chance(50) {
                    sc.advance(1, 5);
                }
                w.power(sc)?;
            }
        }
        if sc.chance(70) {
            sc.advance(1, 5);
        }
        let dur = if sc.chance(50) { Dur::H(sc.pick(&[0, 1, 5, 10])) } else { Dur::T(sc.pick(&[0, 1, 5, 30, 1000])) };
        w.height = w.some_height(sc);
        let total = w.snap.total_at(w.height);
        let r = sc.init(fcode, "x", &json!({"voting_contract":vm,"funding_period":dur.json(),"distribution_height":w.height}), &[], "fd", Some("dao"));
        sc.checked(1);
        ensure!(r.is_ok() == (total > 0), T, "init", "a distribution at height {} with total power {total}: {r:?}", w.height);
        let Ok(a) = r else { return Err(Viol::new(&[], "skip", "")) };
        w.fd = a;
        w.until = dur.after(sc);
        sc.tick(if w.height == sc.height() { "height.current" } else { "height.past" });
        if w.snap.total_at(w.height) != w.snap.total_at(sc.height()) {
            sc.tick("height.other-total");
        }
        Ok(w)
    }
    fn fund(&mut self, sc: &mut Sc) -> R {
        let who = sc.pick(&USERS);
        let ok = !self.until.expired(sc);
        let fd = self.fd.clone();
        if sc.chance(50) {
            let mut ds = self.denoms.clone();
            ds.shuffle(&mut sc.rng);
            let most = if ds.len() > 3 { ds.len() as u64 } else { 3 };
            ds.truncate(sc.r(1, most) as usize);
            ds.sort();
            let funds: Vec<_> = ds.iter().map(|d| coin(sc.amount(), d)).collect();
            let r = sc.exec(who, &fd, &json!({"fund_native":{}}), &funds);
            ensure!(r.is_ok() == ok, T, "fund", "funding with {funds:?}, period until {:?}: expected ok={ok}, got {r:?}", self.until);
            if ok {
                for c in funds {
                    *self.native.entry(c.denom.clone()).or_default() += c.amount.u128();
                    *self.held.entry(key(false, &c.denom)).or_default() += c.amount.u128();
                }
            }
        } else {
            let t = sc.pick(&self.cw20s);
            let x = sc.amount();
            let r = sc.exec(who, &t, &json!({"send":{"contract":fd,"amount":x.to_string(),"msg":b64(&json!({}))}}), &[]);
            ensure!(r.is_ok() == ok, T, "fund", "funding with {x} of {t}, period until {:?}: expected ok={ok}, got {r:?}", self.until);
            if ok {
                *self.cw20.entry(t.clone()).or_default() += x;
                *self.held.entry(key(true, &t)).or_default() += x;
            }
        }
        sc.checked(1);
        sc.tick(if ok { "funded" } else { "fund.late" });
        Ok(())
    }
    fn hold(&self, sc: &Sc, is20: bool, t: &str, who: &str) -> u128 {
        if is20 {
            sc.cw20_bal(t, who)
        } else {
            sc.bank(who, t)
        }
    }
    fn assets(&self) -> Vec<(bool, String, u128)> {
        let mut v: Vec<_> = self.native.iter().map(|(d, x)| (false, d.clone(), *x)).collect();
        v.extend(self.cw20.iter().map(|(d, x)| (true, d.clone(), *x)));
        v
    }
    fn claim(&mut self, sc: &mut Sc, who: &str, all: bool) -> R {
        let open = self.until.expired(sc);
        let assets = self.assets();
        let before: Vec<u128> = assets.iter().map(|(b, t, _)| self.hold(sc, *b, t, who)).collect();
        let mode = if all { 0 } else { sc.r(0, 2) };
        let mut asked: Vec<(bool, String)> = vec![];
        let (m, known) = match mode {
            0 => {
                asked = assets.iter().map(|(b, t, _)| (*b, t.clone())).collect();
                (json!({"claim_all":{}}), true)
            }
            _ => {
                let is20 = mode == 1;
                let pool: Vec<String> = if is20 { self.cw20s.clone() } else { self.denoms.clone() };
                let mut list = vec![];
                for _ in 0..sc.r(0, 3) {
                    let t = sc.pick(&pool);
                    list.push(t.clone());
                    if !asked.contains(&(is20, t.clone())) {
                        asked.push((is20, t));
                    }
                }
                let known = !list.is_empty() && list.iter().all(|t| if is20 { self.cw20.contains_key(t) } else { self.native.contains_key(t) });
                (if is20 { json!({"claim_c_w20":{"tokens":list}}) } else { json!({"claim_natives":{"denoms":list}}) }, known)
            }
        };
        let r = sc.exec(who, &self.fd.clone(), &m, &[]);
        let ok = open && known;
        ensure!(r.is_ok() == ok, T, "claim", "{m} by {who} (funding until {:?}): expected ok={ok}, got {r:?}", self.until);
        for ((b, t, pool), had) in assets.iter().zip(before) {
            let got = self.hold(sc, *b, t, who) - had;
            let prev = self.claimed.get(&(who.to_string(), *b, t.clone())).copied().unwrap_or(0);
            if ok && asked.contains(&(*b, t.clone())) {
                let (lo, hi) = self.bounds(*pool, who);
                ensure!(got + prev >= lo && got + prev <= hi, T, "claim-amount", "{who} with {} of {} power at {} got {got} of {t} after {prev}; entitled to {lo}..{hi} of {pool}", self.snap.at(self.height, who), self.snap.total_at(self.height), self.height);
                *self.claimed.entry((who.to_string(), *b, t.clone())).or_default() += got;
                let h = self.held.entry(key(*b, t)).or_default();
                ensure!(*h >= got, T, "overpaid", "{who} was paid {got} of {t}, only {h} was left");
                *h -= got;
                if got > 0 {
                    sc.tick("claimed");
                    sc.nontrivial = true;
                } else if hi > 0 {
                    sc.tick("claimed.nothing-left");
                }
            } else {
                ensure!(got == 0, T, "claim-amount", "{m} by {who} (ok {ok}) paid {got} of {t}");
            }
            sc.checked(1);
        }
        Ok(())
    }
    fn redistribute(&mut self, sc: &mut Sc) -> R {
        let by = if sc.chance(80) { "dao" } else { "mallory" };
        let h = self.some_height(sc);
        let total = self.snap.total_at(h);
        let r = sc.migrate(by, &self.fd.clone(), &json!({"redistribute_unclaimed_funds":{"distribution_height":h}}), self.code);
        sc.checked(1);
        if by != "dao" {
            ensure!(r.is_err(), T, "redistribute-auth", "{by} redistributed the funds");
            return Ok(());
        }
        if total == 0 {
            ensure!(r.is_err(), T, "redistribute-zero", "the funds were put to a height without voting power");
            return Ok(());
        }
        ensure!(r.is_ok(), T, "redistribute", "redistributing at height {h}: {r:?}");
        sc.tick("redistributed");
        self.height = h;
        for ((_, b, t), x) in std::mem::take(&mut self.claimed) {
            let p = if b { self.cw20.get_mut(&t) } else { self.native.get_mut(&t) }.unwrap();
            *p -= x;
        }
        Ok(())
    }
    fn check(&mut self, sc: &mut Sc) -> R {
        let tp = u(&sc.qm(T, &self.fd, &json!({"total_power":{}}))?["total_power"]);
        ensure!(tp == self.snap.total_at(self.height), T, "total-power", "the distributor divides by {tp}; total power at height {} is {}", self.height, self.snap.total_at(self.height));
        let v = sc.qm(T, &self.fd, &json!({"voting_contract":{}}))?;
        ensure!(v["contract"] == json!(self.vm) && v["distribution_height"] == json!(self.height), T, "voting-contract", "{v}");
        let nd = sc.qm(T, &self.fd, &json!({"native_denoms":{}}))?;
        let want: Vec<Value> = self.native.iter().map(|(d, x)| json!({"contract_balance":x.to_string(),"denom":d})).collect();
        ensure!(nd == json!(want), T, "native-denoms", "{nd} reported, {want:?} funded");
        let nt = sc.qm(T, &self.fd, &json!({"c_w20_tokens":{}}))?;
        let want: Vec<Value> = self.cw20.iter().map(|(d, x)| json!({"contract_balance":x.to_string(),"token":d})).collect();
        ensure!(nt == json!(want), T, "cw20-tokens", "{nt} reported, {want:?} funded");
        sc.checked(4);
        let assets = self.assets();
        for who in USERS {
            let mut listed: BTreeMap<(bool, String), u128> = BTreeMap::new();
            for is20 in [false, true] {
                let (q, f, cap) = if is20 { ("c_w20_entitlements", "token_contract", self.cw20.len()) } else { ("native_entitlements", "denom", self.native.len()) };
                let mut cur = Value::Null;
                let mut n = 0;
                loop {
                    let lim = if sc.chance(30) { Value::Null } else { json!(if self.denoms.len() > 3 { sc.r(1, 40) } else { sc.r(1, 3) }) };
                    let v = sc.qm(T, &self.fd, &json!({q:{"sender":who,"start_at":cur,"limit":lim}}))?;
                    let page = v.as_array().cloned().unwrap_or_default();
                    if page.is_empty() {
                        break;
                    }
                    for e in page {
                        cur = e[f].clone();
                        n += 1;
                        listed.insert((is20, s(&e[f])), u(&e["amount"]));
                    }
                    ensure!(n <= cap, T, "entitlements", "{q} of {who} lists more entries than there are");
                }
            }
            ensure!(listed.len() == assets.len(), T, "entitlements", "{} entitlements of {who} listed, {} assets", listed.len(), assets.len());
            for (b, t, pool) in &assets {
                let (lo, hi) = self.bounds(*pool, who);
                let prev = self.claimed.get(&(who.to_string(), *b, t.clone())).copied().unwrap_or(0);
                let q = if *b { json!({"c_w20_entitlement":{"sender":who,"token":t}}) } else { json!({"native_entitlement":{"sender":who,"denom":t}}) };
                let e = u(&sc.qm(T, &self.fd, &q)?["amount"]);
                ensure!(e + prev >= lo && e + prev <= hi, T, "entitlement", "{who} with {} of {} power at {} is told {e} of {t} after {prev}; entitled to {lo}..{hi} of {pool}", self.snap.at(self.height, who), self.snap.total_at(self.height), self.height);
                ensure!(listed.get(&(*b, t.clone())) == Some(&e), T, "entitlements", "entitlement of {who} to {t}: {e}, listed {listed:?}");
                sc.checked(2);
            }
        }
        for t in &self.denoms {
            let have = sc.bank(&self.fd, t);
            let want = self.held.get(&key(false, t)).copied().unwrap_or(0) + self.stray.get(&key(false, t)).copied().unwrap_or(0);
            ensure!(have == want, T, "holdings", "the distributor holds {have} of {t}, funded and unclaimed {want}");
        }
        for t in &self.cw20s.clone() {
            let have = sc.cw20_bal(t, &self.fd);
            let want = self.held.get(&key(true, t)).copied().unwrap_or(0) + self.stray.get(&key(true, t)).copied().unwrap_or(0);
            ensure!(have == want, T, "holdings", "the distributor holds {have} of {t}, funded and unclaimed {want}");
            sc.checked(1);
        }
        Ok(())
    }
}

pub fn distributor(sc: &mut Sc) -> R {
    let mut w = W::setup(sc)?;
    w.check(sc)?;
    if w.denoms.len() > 3 {
        for _ in 0..sc.r(8, 40) {
            w.fund(sc)?;
        }
        w.check(sc)?;
    }
    let steps = sc.r(12, if sc.thorough { 50 } else { 30 });
    for _ in 0..steps {
        match sc.weighted(&[20, 12, 28, 4, 20, 2]) {
            0 => w.fund(sc)?,
            1 => w.power(sc)?,
            2 => {
                let who = sc.pick(&USERS);
                w.claim(sc, who, false)?
            }
            3 => w.redistribute(sc)?,
            4 => {
                let rels = [w.until];
                sc.advance_around(&rels)
            }
            _ => {
                let who = sc.pick(&USERS);
                let t = sc.pick(&w.cw20s);
                let x = sc.r(1, 1000) as u128;
                let _ = sc.exec(who, &t, &json!({"transfer":{"recipient":w.fd,"amount":x.to_string()}}), &[]);
                *w.stray.entry(key(true, &t)).or_default() += x;
            }
        }
        w.check(sc)?;
    }
    if !w.until.expired(sc) {
        sc.advance(10_000, 1_000_000);
    }
    for who in USERS {
        w.claim(sc, who, true)?;
    }
    w.check(sc)
}
