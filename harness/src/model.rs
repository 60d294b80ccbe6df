//! Reference-model pieces shared by several worlds.
use crate::*;
use std::collections::{BTreeMap, BTreeSet};

/// A map whose past values are remembered per block, with the semantics "the value at height h
/// is the value at the start of block h".
#[derive(Default, Clone)]
pub struct Snap {
    pub cur: BTreeMap<String, u128>,
    hist: Vec<(u64, BTreeMap<String, u128>)>,
}
impl Snap {
    pub fn set(&mut self, h: u64, who: &str, v: u128) {
        if self.hist.last().map(|x| x.0) != Some(h) {
            self.hist.push((h, self.cur.clone()));
        }
        self.cur.insert(who.to_string(), v);
    }
    pub fn remove(&mut self, h: u64, who: &str) {
        self.set(h, who, 0);
        self.cur.remove(who);
    }
    pub fn get(&self, who: &str) -> u128 {
        self.cur.get(who).copied().unwrap_or(0)
    }
    pub fn total(&self) -> u128 {
        self.cur.values().sum()
    }
    pub fn map_at(&self, h: u64) -> &BTreeMap<String, u128> {
        // hist holds (block, map before the first change of that block)
        for (b, m) in &self.hist {
            if *b >= h {
                return m;
            }
        }
        &self.cur
    }
    pub fn at(&self, h: u64, who: &str) -> u128 {
        self.map_at(h).get(who).copied().unwrap_or(0)
    }
    pub fn total_at(&self, h: u64) -> u128 {
        self.map_at(h).values().sum()
    }
    /// heights around which something changed
    pub fn interesting(&self) -> Vec<u64> {
        let mut v: Vec<u64> = self.hist.iter().flat_map(|(b, _)| [b.saturating_sub(1), *b, b + 1]).collect();
        v.dedup();
        v
    }
}

/// Hook receivers (puppets) of one contract and what each must have received.
#[derive(Default, Clone)]
pub struct HookBook {
    pub list: Vec<String>,
    pub puppets: Vec<String>,
    pub failing: BTreeSet<String>,
    expected: BTreeMap<String, Vec<Value>>,
    /// treat null as zero in what receivers got
    pub norm: bool,
}
fn norm(v: &Value) -> Value {
    match v {
        Value::Null => json!(0),
        Value::Array(a) => Value::Array(a.iter().map(norm).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), norm(v))).collect()),
        x => x.clone(),
    }
}
impl HookBook {
    pub fn new(sc: &mut Sc, n: usize) -> Result<Self, Viol> {
        let code = sc.code(puppet_code());
        let mut b = HookBook::default();
        for i in 0..n {
            let p = sc.must_init(code, "x", &json!({}), &[], &format!("hook{i}"))?;
            b.puppets.push(p);
        }
        // an address with no contract behind it always fails
        b.failing.insert("ghost".into());
        Ok(b)
    }
    /// many healthy receivers besides the usual ones, registered by `admin`
    pub fn crowd(&mut self, sc: &mut Sc, tags: &[&str], contract: &str, admin: &str, msg: &dyn Fn(bool, &str) -> Value) -> R {
        let code = sc.code(puppet_code());
        for k in 0..sc.r(8, 14) {
            let p = sc.must_init(code, "x", &json!({}), &[], &format!("many{k}"))?;
            let r = sc.exec(admin, contract, &msg(true, &p), &[]);
            ensure!(r.is_ok(), tags, "hook-register", "adding hook {p} by {admin}: {r:?}");
            self.list.push(p.clone());
            self.puppets.push(p);
        }
        sc.tick("crowd-of-receivers");
        Ok(())
    }
    pub fn blocked(&self) -> bool {
        self.list.iter().any(|h| self.failing.contains(h))
    }
    pub fn emit(&mut self, m: Value) {
        for h in &self.list {
            self.expected.entry(h.clone()).or_default().push(m.clone());
        }
    }
    pub fn check(&self, sc: &mut Sc, tags: &[&str], from: &str) -> R {
        for p in &self.puppets {
            let mut got = sc.puppet_log(p);
            if self.norm {
                got = got.into_iter().map(|(f, m)| (f, norm(&m))).collect();
            }
            let want = self.expected.get(p).cloned().unwrap_or_default();
            ensure!(
                got.len() == want.len() && got.iter().zip(&want).all(|((f, m), w)| f == from && m == w),
                tags,
                "hook-log",
                "hook receiver {p}: expected {} calls {want:?} from {from}, got {got:?}",
                want.len()
            );
            sc.checked(1);
        }
        Ok(())
    }
    /// toggles the mode of one puppet
    pub fn toggle(&mut self, sc: &mut Sc) {
        let p = sc.pick(&self.puppets);
        let fail = !self.failing.contains(&p);
        let _ = sc.exec("x", &p, &json!({"set_mode": if fail { "fail" } else { "ok" }}), &[]);
        if fail {
            self.failing.insert(p);
        } else {
            self.failing.remove(&p);
        }
    }
    /// adds or removes a hook through `contract`, by the authorised or another sender
    pub fn change(&mut self, sc: &mut Sc, tags: &[&str], contract: &str, admin: &Option<String>, msg: &dyn Fn(bool, &str) -> Value) -> R {
        let mut cand = self.puppets.clone();
        if sc.chance(8) {
            cand = vec!["ghost".to_string()];
        }
        let add = sc.chance(60);
        let h = if !add && !self.list.is_empty() && sc.chance(80) { sc.pick(&self.list) } else { sc.pick(&cand) };
        let who = if sc.chance(80) { admin.clone().unwrap_or("dao".into()) } else { "mallory".to_string() };
        let ok = Some(&who) == admin.as_ref() && (add != self.list.contains(&h));
        let r = sc.exec(&who, contract, &msg(add, &h), &[]);
        ensure!(r.is_ok() == ok, tags, "hook-register", "{} hook {h} by {who} (admin {admin:?}, registered {:?}): expected {}, got {r:?}",
            if add {"adding"} else {"removing"}, self.list, if ok {"acceptance"} else {"refusal"});
        if ok {
            if add {
                self.list.push(h);
            } else {
                self.list.retain(|x| *x != h);
            }
        }
        sc.checked(1);
        Ok(())
    }
}

/// A duration as the contracts know it: blocks or seconds.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dur {
    H(u64),
    T(u64),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rel {
    H(u64),
    T(u64), // nanoseconds
}
impl Dur {
    pub fn json(&self) -> Value {
        match self {
            Dur::H(n) => json!({ "height": n }),
            Dur::T(n) => json!({ "time": n }),
        }
    }
    pub fn zero(&self) -> bool {
        matches!(self, Dur::H(0) | Dur::T(0))
    }
    pub fn after(&self, sc: &Sc) -> Rel {
        let b = sc.block();
        match self {
            Dur::H(n) => Rel::H(b.height + n),
            Dur::T(n) => Rel::T(b.time.nanos() + n * NS),
        }
    }
}
impl Rel {
    pub fn json(&self) -> Value {
        match self {
            Rel::H(n) => json!({ "at_height": n }),
            Rel::T(n) => json!({ "at_time": n.to_string() }),
        }
    }
    pub fn expired(&self, sc: &Sc) -> bool {
        let b = sc.block();
        match self {
            Rel::H(n) => b.height >= *n,
            Rel::T(n) => b.time.nanos() >= *n,
        }
    }
}
pub fn some_dur(sc: &mut Sc) -> Option<Dur> {
    match sc.r(0, 9) {
        0..=3 => None,
        4..=6 => Some(Dur::H(sc.pick(&[1, 2, 3, 7, 20]))),
        _ => Some(Dur::T(sc.pick(&[1, 5, 6, 30, 100, 86_400]))),
    }
}
/// like `some_dur`, sometimes invalid
pub fn any_dur(sc: &mut Sc) -> Option<Dur> {
    if sc.chance(10) {
        return Some(if sc.chance(50) { Dur::H(0) } else { Dur::T(0) });
    }
    some_dur(sc)
}
pub fn dur_json(d: &Option<Dur>) -> Value {
    d.as_ref().map(|d| d.json()).unwrap_or(Value::Null)
}

impl Sc {
    /// Moves time on: usually by a block, sometimes to just around one of `rels`, sometimes not at all.
    pub fn advance_around(&mut self, rels: &[Rel]) {
        let b = self.block();
        match self.r(0, 99) {
            0..=54 => self.advance(1, 5),
            55..=79 if !rels.is_empty() => {
                let r = self.pick(rels);
                match r {
                    Rel::H(h) => {
                        let target = (h + self.r(0, 2)).saturating_sub(1);
                        if target > b.height {
                            let n = target - b.height;
                            self.advance(n, n * 5);
                        } else {
                            self.advance(1, 5);
                        }
                    }
                    Rel::T(t) => {
                        // one ns before, at, or one ns after
                        let target = (t + self.r(0, 2)).saturating_sub(1);
                        if target > b.time.nanos() {
                            self.app.update_block(|b| {
                                b.height += 1;
                                b.time = cosmwasm_std::Timestamp::from_nanos(target);
                            });
                            self.note(format!("-- next block at {target}ns, height {}", self.height()));
                            self.step("blk");
                        } else {
                            self.advance(1, 5);
                        }
                    }
                }
            }
            _ => {
                let n = self.r(1, 20);
                let t = self.pick(&[1u64, 50, 1000, 100_000]);
                self.advance(n, n * 5 + t);
            }
        }
    }
}

/// When a DAO counts as active.
#[derive(Clone, Debug)]
pub enum Th {
    Count(u128),
    Pct(u128), // atomics
}
impl Th {
    pub fn json(&self) -> Value {
        match self {
            Th::Count(c) => json!({"absolute_count":{"count":c.to_string()}}),
            Th::Pct(p) => json!({"percentage":{"percent":dec(*p)}}),
        }
    }
    pub fn valid(&self, supply: u128) -> bool {
        match self {
            Th::Count(c) => *c > 0 && *c <= supply,
            Th::Pct(p) => *p > 0 && *p <= ONE,
        }
    }
    /// (smallest stake that may be called active, smallest that must be)
    pub fn need(&self, supply: u128) -> (u128, u128) {
        match self {
            Th::Count(c) => (*c, *c),
            Th::Pct(p) => {
                use big::*;
                let e18 = u512(ONE);
                let x = u512(supply) * u512(*p);
                let hi = (x + e18 - u512(1)) / e18;
                let lo9 = u512(supply) * u512(NS as u128) * u512(*p) / e18;
                let lo = (lo9 + u512(NS as u128) - u512(1)) / u512(NS as u128);
                (lo.to_string().parse().unwrap(), hi.to_string().parse().unwrap())
            }
        }
    }
    pub fn random(sc: &mut Sc, staked: u128, supply: u128) -> Th {
        if sc.chance(50) {
            let c = match sc.r(0, 6) {
                0 => staked,
                1 => staked + 1,
                2 => staked.saturating_sub(1),
                3 => supply,
                4 => supply.saturating_add(1),
                5 => 0,
                _ => sc.amount(),
            };
            Th::Count(c)
        } else {
            let p = match sc.r(0, 8) {
                0 => ONE,
                1 => 1,
                2 => ONE / 2,
                3 => ONE / 3,
                4 => 0,
                5 => ONE + 1,
                6 if supply > 0 && staked <= supply => {
                    // the percentage the current stake is of the supply, and a hair around it
                    let p: u128 = big::mul_div(staked, ONE, supply).to_string().parse().unwrap();
                    (p + sc.r(0, 2) as u128).saturating_sub(1)
                }
                _ => sc.rng.gen_range(1..=ONE),
            };
            Th::Pct(p)
        }
    }
}
