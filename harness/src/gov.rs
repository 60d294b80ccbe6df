//! Governance world: a real DAO (core + cw4 voting + one proposal module) under a random
//! history of proposals, ballots, membership changes, vetoes, executions and clock moves,
//! with a reference model that predicts every observable after every step.
use crate::*;
use cosmwasm_std::Uint512;
use std::collections::BTreeMap;

pub const VOTE: &[&str] = &["C04", "C01", "C02"];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Single,
    Multi,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pct {
    Maj,
    P(u128),
}
impl Pct {
    pub fn json(&self) -> Value {
        match self {
            Pct::Maj => json!({"majority":{}}),
            Pct::P(a) => json!({"percent": dec(*a)}),
        }
    }
    /// does `v` of `o` reach this percentage (specification: at least `o * pct`, floored to a
    /// billionth of a vote; a majority is strictly more than half; nothing of nothing never does)
    pub fn pass(&self, v: u128, o: u128) -> bool {
        if o == 0 {
            return false;
        }
        match self {
            Pct::Maj => big::u512(v) * big::u512(2) > big::u512(o),
            Pct::P(a) => scaled(v) >= need(o, *a),
        }
    }
    /// can the yes side no longer reach it, given `no` of `o` against
    pub fn fail(&self, no: u128, o: u128) -> bool {
        if o == 0 {
            return true;
        }
        match self {
            Pct::Maj => big::u512(no) * big::u512(2) >= big::u512(o),
            Pct::P(a) if *a == ONE => no > 0,
            Pct::P(a) => scaled(no) > need(o, ONE - *a),
        }
    }
}
fn scaled(v: u128) -> Uint512 {
    big::u512(v) * big::u512(1_000_000_000)
}
fn need(o: u128, pct: u128) -> Uint512 {
    scaled(o) * big::u512(pct) / big::u512(ONE)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Thr {
    Abs(Pct),
    Quorum(Pct, Pct),
    Count(u128),
    Strategy(Pct),
}
impl Thr {
    pub fn json(&self) -> Value {
        match self {
            Thr::Abs(p) => json!({"absolute_percentage":{"percentage":p.json()}}),
            Thr::Quorum(t, q) => json!({"threshold_quorum":{"threshold":t.json(),"quorum":q.json()}}),
            Thr::Count(c) => json!({"absolute_count":{"threshold":c.to_string()}}),
            Thr::Strategy(q) => json!({"single_choice":{"quorum":q.json()}}),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Exp {
    H(u64),
    T(u64), // nanoseconds
}
impl Exp {
    pub fn add(self, d: u64) -> Exp {
        match self {
            Exp::H(h) => Exp::H(h + d),
            Exp::T(t) => Exp::T(t + d * NS),
        }
    }
    pub fn hit(&self, sc: &Sc) -> bool {
        match self {
            Exp::H(h) => sc.block().height >= *h,
            Exp::T(t) => sc.block().time.nanos() >= *t,
        }
    }
    pub fn json(&self) -> Value {
        match self {
            Exp::H(h) => json!({"at_height": h}),
            Exp::T(t) => json!({"at_time": t.to_string()}),
        }
    }
}
pub fn dur(time: bool, n: u64) -> Value {
    if time {
        json!({ "time": n })
    } else {
        json!({ "height": n })
    }
}

#[derive(Clone, Debug)]
pub struct Veto {
    pub delay: u64,
    pub vetoer: String,
    pub early: bool,
    pub before: bool,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub thr: Thr,
    pub time: bool,
    pub max: u64,
    pub min: Option<u64>,
    pub members_only: bool,
    pub revote: bool,
    pub close_fail: bool,
    pub veto: Option<Veto>,
}
impl Cfg {
    pub fn json(&self, kind: Kind) -> Value {
        let mut m = json!({
            "max_voting_period": dur(self.time, self.max),
            "min_voting_period": self.min.map(|m| dur(self.time, m)),
            "only_members_execute": self.members_only,
            "allow_revoting": self.revote,
            "close_proposal_on_execution_failure": self.close_fail,
            "veto": self.veto.as_ref().map(|v| json!({
                "timelock_duration": dur(self.time, v.delay),
                "vetoer": v.vetoer,
                "early_execute": v.early,
                "veto_before_passed": v.before,
            })),
        });
        match kind {
            Kind::Single => m["threshold"] = self.thr.json(),
            Kind::Multi => m["voting_strategy"] = self.thr.json(),
        }
        m
    }
}

#[derive(Clone, Debug)]
pub struct OptMsgs {
    pub to: String,
    pub amount: u128,
    pub fails: bool,
    pub empty: bool,
}

#[derive(Clone, Debug)]
pub struct Prop {
    pub id: u64,
    pub proposer: String,
    pub start: u64,
    pub total: u128,
    pub exp: Exp,
    pub min: Option<Exp>,
    pub thr: Thr,
    pub revote: bool,
    pub veto: Option<Veto>,
    pub nopts: usize, // including none of the above; 3 for single (yes/no/abstain)
    pub opts: Vec<OptMsgs>,
    pub ballots: BTreeMap<String, (usize, u128, Option<String>)>,
    pub terminal: Option<&'static str>,
    pub paid: Option<usize>,
    pub title: String,
    pub early: Option<String>,
}
impl Prop {
    pub fn tally(&self) -> Vec<u128> {
        let mut t = vec![0u128; self.nopts];
        for (o, p, _) in self.ballots.values() {
            t[*o] += *p;
        }
        t
    }
    /// index of the single option with most weight
    pub fn winner(&self) -> Option<usize> {
        let t = self.tally();
        let m = *t.iter().max().unwrap();
        let w: Vec<usize> = (0..t.len()).filter(|i| t[*i] == m).collect();
        if w.len() == 1 {
            Some(w[0])
        } else {
            None
        }
    }
    fn decided(&self, expired: bool, min_over: bool) -> (bool, bool) {
        let t = self.tally();
        let cast: u128 = t.iter().sum();
        let left = self.total - cast;
        if self.revote && !expired {
            return (false, false);
        }
        match self.thr {
            Thr::Abs(p) => {
                let o = self.total - t[2];
                (min_over && p.pass(t[0], o), expired || p.fail(t[1], o))
            }
            Thr::Quorum(p, q) => {
                let met = q.pass(cast, self.total);
                let o = if expired { cast - t[2] } else { self.total - t[2] };
                let passed = min_over && met && p.pass(t[0], o);
                (passed, expired || p.fail(t[1], o))
            }
            Thr::Count(c) => (min_over && t[0] >= c, expired || t[0] + left < c),
            Thr::Strategy(q) => {
                let met = q.pass(cast, self.total);
                let none = self.nopts - 1;
                let win = self.winner();
                let second = |w: usize| {
                    (0..t.len()).filter(|i| *i != w).map(|i| t[i]).max().unwrap_or(0)
                };
                let passed = min_over
                    && met
                    && win
                        .map(|w| w != none && (expired || t[w] > second(w) + left))
                        .unwrap_or(false);
                let rejected = expired
                    || match win {
                        None => left == 0,
                        Some(w) if w == none => t[w] >= second(w) + left,
                        _ => false,
                    };
                (passed, rejected)
            }
        }
    }
    pub fn status(&self, sc: &Sc) -> String {
        if let Some(t) = self.terminal {
            return t.to_string();
        }
        let expired = self.exp.hit(sc);
        let min_over = self.min.map(|m| m.hit(sc)).unwrap_or(true);
        let (p, r) = self.decided(expired, min_over);
        if p {
            if let Some(v) = &self.veto {
                if !self.exp.add(v.delay).hit(sc) {
                    return "veto_timelock".into();
                }
            }
            "passed".into()
        } else if r {
            "rejected".into()
        } else {
            "open".into()
        }
    }
}

pub fn status_name(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Object(m) => m.keys().next().unwrap().clone(),
        _ => "?".into(),
    }
}

pub struct World {
    pub kind: Kind,
    pub core: String,
    pub group: String,
    pub voting: String,
    pub module: String,
    pub cfg: Cfg,
    pub people: Vec<String>,
    /// weight history: value that holds from the *next* block on
        /// (height at which the last entry of `weights` was made)
        pub cur: BTreeMap<String, u128>,
    pub hist: Vec<(u64, BTreeMap<String, u128>)>,
    pub props: Vec<Prop>,
    pub treasury: u128,
    /// the only address that may propose, if there is one
    gate: Option<String>,
    puppet: u64,
    pub uniq: u64,
}

pub const DENOM: &str = "ugov";

pub fn dao_init(voting_code: u64, voting_msg: &Value, modules: &[(u64, Value)], extra: Value) -> Value {
    let mut m = json!({
        "admin": null,
        "name": "DAO",
        "description": "d",
        "image_url": null,
        "automatically_add_cw20s": true,
        "automatically_add_cw721s": true,
        "voting_module_instantiate_info": {
            "code_id": voting_code, "msg": b64(voting_msg), "admin": {"core_module":{}},
            "funds": [], "label": "voting"
        },
        "proposal_modules_instantiate_info": modules.iter().map(|(c,m)| json!({
            "code_id": c, "msg": b64(m), "admin": {"core_module":{}}, "funds": [], "label": "module"
        })).collect::<Vec<_>>(),
        "initial_items": null,
        "dao_uri": null,
    });
    if let Value::Object(o) = extra {
        for (k, v) in o {
            m[k] = v;
        }
    }
    m
}
pub fn core_code() -> Box<dyn cw_mt::Contract<cw_std::Empty>> {
    wrap!(dao_dao_core::contract; reply, migrate)
}
pub fn single_code() -> Box<dyn cw_mt::Contract<cw_std::Empty>> {
    wrap!(dao_proposal_single::contract; reply, migrate)
}
pub fn multi_code() -> Box<dyn cw_mt::Contract<cw_std::Empty>> {
    wrap!(dao_proposal_multiple::contract; reply, migrate)
}
pub fn vcw4_code() -> Box<dyn cw_mt::Contract<cw_std::Empty>> {
    wrap!(dao_voting_cw4::contract; reply, migrate)
}

pub fn rand_pct(sc: &mut Sc, total: u128, zero_ok: bool) -> Pct {
    match sc.r(0, 9) {
        0 | 1 => Pct::Maj,
        2 => Pct::P(ONE),
        3 => Pct::P(ONE / 2),
        4 if zero_ok => Pct::P(0),
        5 => {
            let a = sc.r(1, 1000) as u128;
            Pct::P(ONE / 1000 * a)
        }
        6 => Pct::P(*[ONE / 3, ONE / 3 * 2, ONE / 100 * 51, ONE / 100 * 15, ONE / 1_000_000].choose(&mut sc.rng).unwrap()),
        _ => {
            // exactly k of n votes
            let n = total.clamp(1, 1000);
            let k = sc.r(1, n as u64) as u128;
            Pct::P(ONE / n * k + (ONE % n) * k / n)
        }
    }
}

impl World {
    pub fn rand_cfg(sc: &mut Sc, kind: Kind, total: u128) -> Cfg {
        let time = sc.chance(50);
        let unit = if time { 5 } else { 1 };
        let max = match sc.r(0, 19) {
            0 => 0,
            1..=3 => sc.r(1, 3) * unit,
            _ => sc.r(4, 14) * unit,
        };
        let min = if sc.chance(25) { Some(sc.r(0, max)) } else { None };
        let thr = match kind {
            Kind::Multi => Thr::Strategy(rand_pct(sc, total, true)),
            Kind::Single => match sc.r(0, 5) {
                0 | 1 => Thr::Abs(rand_pct(sc, total, false)),
                2 => {
                    Thr::Count(sc.rng.gen_range(1..=total + total / 10 + 1))
                }
                _ => {
                    let t = rand_pct(sc, total, false);
                    let q = rand_pct(sc, total, true);
                    Thr::Quorum(t, q)
                }
            },
        };
        let veto = if sc.chance(35) {
            Some(Veto {
                delay: sc.r(0, 8) * unit,
                vetoer: "vetoer".into(),
                early: sc.chance(50),
                before: sc.chance(50),
            })
        } else {
            None
        };
        Cfg {
            thr,
            time,
            max,
            min,
            members_only: sc.chance(50),
            revote: sc.chance(35),
            close_fail: sc.chance(50),
            veto,
        }
    }

    pub fn new(sc: &mut Sc, kind: Kind, force_veto: bool) -> R<World> {
        let n = sc.r(1, 6) as usize;
        World::sized(sc, kind, force_veto, n)
    }
    pub fn sized(sc: &mut Sc, kind: Kind, force_veto: bool, n: usize) -> R<World> {
        let style = sc.r(0, 5);
        let mut cur = BTreeMap::new();
        let mut people = vec![];
        for i in 0..n {
            let p = format!("voter{i}");
            let w: u128 = match style {
                0 => 1,
                1 => sc.r(0, 5).into(),
                2 => sc.r(1, 100).into(),
                3 => sc.r(1, 1_000_000_000_000_000).into(),
                4 => *[1u128, 1, 10, 1000].choose(&mut sc.rng).unwrap(),
                // together no more than 2^127
                _ => {
                    let b = sc.r(60, 120);
                    sc.rng.gen_range(0..=1u128 << b)
                }
            };
            people.push(p.clone());
            cur.insert(p, w);
        }
        people.push("outsider".into());
        let total: u128 = cur.values().sum();
        let mut cfg = World::rand_cfg(sc, kind, total);
        // the first member's weight decides it, or misses by one
        if n > 1 && sc.chance(30) {
            let p = match &cfg.thr {
                Thr::Abs(Pct::P(p)) | Thr::Strategy(Pct::P(p)) => Some(*p),
                Thr::Quorum(Pct::P(p), Pct::P(q)) => Some(if sc.chance(50) { *p } else { *q }),
                Thr::Quorum(_, Pct::P(q)) => Some(*q),
                _ => None,
            };
            if let Some(p) = p {
                let line = crate::big::mul_div_u128(total, p, ONE) + if crate::big::mul_div_u128(total, p, ONE) < total { sc.r(0, 1) as u128 } else { 0 };
                let mut rest = total - line;
                cur.insert("voter0".into(), line);
                for i in 1..n {
                    let x = if i + 1 == n { rest } else { sc.rng.gen_range(0..=rest) };
                    rest -= x;
                    cur.insert(format!("voter{i}"), x);
                }
                sc.tick("mon.on_the_line");
            }
        }
        let huge = style == 5 || cur.values().any(|x| *x > 1 << 60);
        if huge {
            sc.tick("mon.huge_powers");
        }
        if force_veto && cfg.veto.is_none() {
            cfg.veto = Some(Veto {
                delay: sc.r(0, 8) * if cfg.time { 5 } else { 1 },
                vetoer: "vetoer".into(),
                early: sc.chance(50),
                before: sc.chance(50),
            });
        }
        let cc = sc.code(core_code());
        let vc = sc.code(vcw4_code());
        let gc = sc.code(cw4_code());
        let pc = match kind {
            Kind::Single => sc.code(single_code()),
            Kind::Multi => sc.code(multi_code()),
        };
        let mut pm = cfg.json(kind);
        pm["pre_propose_info"] = json!({"anyone_may_propose":{}});
        let (group, vc, vm) = if huge {
            let vc = sc.code(crate::electorate::electorate_code());
            (String::new(), vc, json!({"members": cur.iter().map(|(a, w)| json!([a, w.to_string()])).collect::<Vec<_>>()}))
        } else {
            let group = sc.must_init(
                gc,
                "creator",
                &json!({"admin":"groupadmin","members": cur.iter().map(|(a,w)| json!({"addr":a,"weight":*w as u64})).collect::<Vec<_>>()}),
                &[],
                "cw4",
            )?;
            let vm = json!({"group_contract":{"existing":{"address":group}}});
            (group, vc, vm)
        };
        if sc.chance(8) {
            // a module with impossible terms is not created in the first place
            let mut other = World::rand_cfg(sc, kind, total);
            let bad = sc.r(0, 4);
            let (mut m, valid) = World::spoil(sc, kind, &mut other, bad);
            m["pre_propose_info"] = json!({"anyone_may_propose":{}});
            let r = sc.init(cc, "creator", &dao_init(vc, &vm, &[(pc, m.clone())], json!({})), &[], "core", None);
            ensure!(r.is_ok() == valid, &["C05", "C01", "C02", "C06"], "impossible-terms", "creating a module with {m} (possible: {valid}): {r:?}");
            sc.tick(if valid { "mon.terms_possible" } else { "mon.terms_impossible" });
        }
        let core = sc.must_init(cc, "creator", &dao_init(vc, &vm, &[(pc, pm)], json!({})), &[], "core")?;
        let voting = s(&sc.qm(&["*"], &core, &json!({"voting_module":{}}))?);
        let module = s(&sc.qm(&["*"], &core, &json!({"proposal_modules":{}}))?[0]["address"]);
        let l = match kind {
            Kind::Single => "single",
            Kind::Multi => "multi",
        };
        sc.label(&module, l);
        sc.label(&voting, "voting");
        let treasury = 1_000_000_000u128;
        sc.mint(&core, treasury, DENOM);
        let h = sc.height();
        let w = World {
            kind,
            core,
            group,
            voting,
            module,
            cfg,
            people,
            cur: cur.clone(),
            hist: vec![(h, cur)],
            props: vec![],
            treasury,
            uniq: 0,
            gate: None,
            puppet: sc.code(crate::puppet::puppet_code()),
        };
        sc.advance(1, 5);
        Ok(w)
    }

    /// weights in force at `height`: those set in blocks before it
    pub fn at(&self, height: u64) -> BTreeMap<String, u128> {
        let mut r = BTreeMap::new();
        for (h, m) in &self.hist {
            if *h < height {
                r = m.clone();
            }
        }
        r
    }
    pub fn power(&self, who: &str, height: u64) -> u128 {
        self.at(height).get(who).copied().unwrap_or(0)
    }

    pub fn set_weight(&mut self, sc: &mut Sc) -> R {
        let who = format!("voter{}", sc.r(0, 6));
        if !self.people.contains(&who) {
            self.people.push(who.clone());
        }
        let remove = sc.chance(30);
        let huge = self.group.is_empty();
        let mut w = sc.r(0, 30) as u128;
        if huge && sc.chance(30) {
            let b = sc.r(60, 123);
            w = sc.rng.gen_range(0..=1u128 << b);
        }
        let others: u128 = self.cur.iter().filter(|x| *x.0 != who).map(|x| *x.1).sum();
        w = w.min((1u128 << 127) - others.min(1 << 127));
        let msg = if huge {
            json!({"set":{"addr":who,"power":if remove { Value::Null } else { json!(w.to_string()) }}})
        } else if remove {
            json!({"update_members":{"remove":[who],"add":[]}})
        } else {
            json!({"update_members":{"remove":[],"add":[{"addr":who,"weight":w as u64}]}})
        };
        let g = if huge { self.voting.clone() } else { self.group.clone() };
        if sc.exec("groupadmin", &g, &msg, &[]).is_ok() {
            if remove {
                self.cur.remove(&who);
            } else {
                self.cur.insert(who, w);
            }
            let h = sc.height();
            self.hist.push((h, self.cur.clone()));
        }
        Ok(())
    }

    fn vote_json(&self, o: usize) -> Value {
        match self.kind {
            Kind::Single => json!(["yes", "no", "abstain"].get(o).unwrap_or(&"maybe")),
            Kind::Multi => json!({ "option_id": o }),
        }
    }

    pub fn rand_msgs(&mut self, sc: &mut Sc, prop_id: u64) -> (Vec<Value>, OptMsgs) {
        self.uniq += 1;
        let to = format!("payee{}", self.uniq);
        let amount = 1000 + self.uniq as u128;
        let pay = |to: &str, a: u128| json!({"bank":{"send":{"to_address":to,"amount":[{"denom":DENOM,"amount":a.to_string()}]}}});
        let mut fails = false;
        let mut empty = false;
        let msgs = match sc.r(0, 9) {
            0 => {
                empty = true;
                vec![]
            }
            1 | 2 => {
                fails = true;
                vec![pay(&to, amount), pay("nobody", 10_000_000_000_000)]
            }
            3 => {
                // re-enter: execute the very same proposal from inside its own execution
                fails = true;
                vec![
                    pay(&to, amount),
                    json!({"wasm":{"execute":{"contract_addr":self.module,"msg":b64(&json!({"execute":{"proposal_id":prop_id}})),"funds":[]}}}),
                ]
            }
            4 if sc.chance(40) => {
                let n = sc.r(17, 40) as usize;
                let mut v = vec![pay(&to, 1); n - 1];
                v.push(pay(&to, amount - (n as u128 - 1)));
                v
            }
            4 => vec![pay(&to, amount - 1), pay(&to, 1)],
            _ => vec![pay(&to, amount)],
        };
        let amount = if empty { 0 } else { amount };
        (msgs, OptMsgs { to, amount, fails, empty })
    }

    pub fn propose(&mut self, sc: &mut Sc) -> R {
        let id = self.props.len() as u64 + 1;
        let proposer = self.people.choose(&mut sc.rng).unwrap().clone();
        let h = sc.height();
        let w = self.at(h);
        let total: u128 = w.values().map(|x| *x as u128).sum();
        let mut opts = vec![];
        let mut choices = vec![];
        let nreal = match self.kind {
            Kind::Single => 1,
            Kind::Multi => {
                if sc.chance(5) {
                    *[0usize, 1, 21].choose(&mut sc.rng).unwrap()
                } else if sc.chance(5) {
                    20
                } else {
                    sc.r(2, 4) as usize
                }
            }
        };
        for i in 0..nreal {
            let (m, o) = self.rand_msgs(sc, id);
            choices.push(json!({"title":format!("o{i}"),"description":"d","msgs":m}));
            opts.push(o);
        }
        let nopts = match self.kind {
            Kind::Single => 3,
            Kind::Multi => nreal + 1,
        };
        let auto = if sc.chance(25) {
            Some((sc.r(0, nopts as u64 - 1) as usize, format!("why{id}")))
        } else {
            None
        };
        let title = format!("p{id}");
        // through the module in charge of proposing, past it, or with a proposer made up
        let (sender, named) = match &self.gate {
            Some(g) if sc.chance(92) => (g.clone(), if sc.chance(96) { Some(proposer.clone()) } else { None }),
            _ => (proposer.clone(), if sc.chance(4) { Some("voter0".to_string()) } else { None }),
        };
        let allowed = self.gate.is_some() == named.is_some() && self.gate.as_ref().map(|g| *g == sender).unwrap_or(true);
        let mut m = json!({
            "title": title, "description": "d",
            "proposer": named,
            "vote": auto.as_ref().map(|(o, r)| json!({"vote": self.vote_json(*o), "rationale": r})),
        });
        match self.kind {
            Kind::Single => m["msgs"] = choices[0]["msgs"].clone(),
            Kind::Multi => m["choices"] = json!({ "options": choices }),
        }
        let now = if self.cfg.time { Exp::T(sc.block().time.nanos()) } else { Exp::H(h) };
        let mut p = Prop {
            id,
            proposer: proposer.clone(),
            start: h,
            total,
            exp: now.add(self.cfg.max),
            min: self.cfg.min.map(|x| now.add(x)),
            thr: self.cfg.thr,
            revote: self.cfg.revote,
            veto: self.cfg.veto.clone(),
            nopts,
            opts,
            ballots: BTreeMap::new(),
            terminal: None,
            paid: None,
            title,
            early: None,
        };
        let mut expect = allowed && !(self.kind == Kind::Multi && !(2..=20).contains(&nreal));
        if let Some((o, r)) = &auto {
            let pw = self.power(&proposer, h);
            if pw == 0 || p.exp.hit(sc) {
                expect = false;
            } else {
                p.ballots.insert(proposer.clone(), (*o, pw, Some(r.clone())));
            }
        }
        let module = self.module.clone();
        let r = sc.exec(&sender, &module, &json!({ "propose": m }), &[]);
        ensure!(
            r.is_ok() == expect,
            &["C05", "C04"],
            "propose-accept",
            "propose by {sender} for {named:?} (in charge {:?}) expected ok={expect} got {r:?}",
            self.gate
        );
        if expect && self.gate.is_some() {
            sc.tick("mon.gated");
        }
        if expect {
            self.props.push(p);
        }
        Ok(())
    }

    fn some_prop(&self, sc: &mut Sc) -> Option<usize> {
        if self.props.is_empty() {
            return None;
        }
        // prefer recent ones
        let n = self.props.len();
        let i = if sc.chance(70) { n - 1 - (sc.r(0, 2) as usize).min(n - 1) } else { sc.r(0, n as u64 - 1) as usize };
        Some(i)
    }

    pub fn vote(&mut self, sc: &mut Sc) -> R {
        let Some(i) = self.some_prop(sc) else { return Ok(()) };
        let who = self.people.choose(&mut sc.rng).unwrap().clone();
        let p = self.props[i].clone();
        // biased so that decisions happen
        let mut o = if sc.chance(50) { (p.id as usize) % p.nopts } else { sc.r(0, p.nopts as u64 - 1) as usize };
        if sc.chance(2) {
            o = p.nopts + sc.r(0, 3) as usize;
        }
        let power = self.power(&who, p.start);
        let rationale = if sc.chance(50) {
            self.uniq += 1;
            Some(format!("because{}", self.uniq))
        } else {
            None
        };
        let prev = p.ballots.get(&who);
        let expect = o < p.nopts
            && !p.exp.hit(sc)
            && power > 0
            && match prev {
                None => true,
                Some((po, _, _)) => p.revote && *po != o,
            };
        let module = self.module.clone();
        let r = sc.exec(
            &who,
            &module,
            &json!({"vote":{"proposal_id":p.id,"vote":self.vote_json(o),"rationale":rationale}}),
            &[],
        );
        ensure!(
            r.is_ok() == expect,
            VOTE,
            "vote-accept",
            "vote by {who} on {} for option {o}: expected ok={expect} (power {power}, previous {prev:?}, revote {}, expired {}), got {}",
            p.id,
            p.revote,
            p.exp.hit(sc),
            r.map(|_| "ok".into()).unwrap_or_else(|e| e)
        );
        if expect {
            self.props[i].ballots.insert(who, (o, power, rationale));
        }
        Ok(())
    }

    pub fn rationale(&mut self, sc: &mut Sc) -> R {
        let Some(i) = self.some_prop(sc) else { return Ok(()) };
        let who = self.people.choose(&mut sc.rng).unwrap().clone();
        self.uniq += 1;
        let new = if sc.chance(80) { Some(format!("edit{}", self.uniq)) } else { None };
        let id = self.props[i].id;
        let expect = self.props[i].ballots.contains_key(&who);
        let module = self.module.clone();
        let r = sc.exec(&who, &module, &json!({"update_rationale":{"proposal_id":id,"rationale":new}}), &[]);
        ensure!(r.is_ok() == expect, &["C04"], "rationale-accept", "update_rationale by {who} on {id}: expected ok={expect} got {r:?}");
        if expect {
            self.props[i].ballots.get_mut(&who).unwrap().2 = new;
        }
        Ok(())
    }

    pub fn execute(&mut self, sc: &mut Sc) -> R {
        let Some(i) = self.some_prop(sc) else { return Ok(()) };
        let who = if sc.chance(15) { "vetoer".to_string() } else { self.people.choose(&mut sc.rng).unwrap().clone() };
        let p = self.props[i].clone();
        let st = p.status(sc);
        let can = !self.cfg.members_only || self.power(&who, p.start) > 0;
        let mut expect = match st.as_str() {
            "passed" => can,
            "veto_timelock" => {
                let v = p.veto.as_ref().unwrap();
                v.vetoer == who && v.early
            }
            _ => false,
        };
        let win = match self.kind {
            Kind::Single => 0,
            Kind::Multi => p.winner().unwrap_or(0),
        };
        let fails = expect && p.opts[win.min(p.opts.len() - 1)].fails;
        if fails && !self.cfg.close_fail {
            expect = false;
        }
        let module = self.module.clone();
        let r = sc.exec(&who, &module, &json!({"execute":{"proposal_id":p.id}}), &[]);
        ensure!(
            r.is_ok() == expect,
            &["C05", "C06"],
            "execute-accept",
            "execute of {} by {who}: status {st}, allowed sender {can}, messages fail {fails}, expected ok={expect}, got {}",
            p.id,
            r.map(|_| "ok".into()).unwrap_or_else(|e| e)
        );
        if expect {
            if fails {
                self.props[i].terminal = Some("execution_failed");
                sc.tick("mon.execution_failed");
            } else {
                self.props[i].terminal = Some("executed");
                self.props[i].paid = Some(win);
                self.treasury -= p.opts[win].amount;
                sc.tick("mon.executed");
                if st == "veto_timelock" {
                    sc.tick("mon.early_executed");
                }
            }
            sc.nontrivial = true;
        }
        Ok(())
    }

    pub fn close(&mut self, sc: &mut Sc) -> R {
        let Some(i) = self.some_prop(sc) else { return Ok(()) };
        let who = self.people.choose(&mut sc.rng).unwrap().clone();
        let p = self.props[i].clone();
        let st = p.status(sc);
        let expect = st == "rejected";
        let module = self.module.clone();
        let r = sc.exec(&who, &module, &json!({"close":{"proposal_id":p.id}}), &[]);
        ensure!(
            r.is_ok() == expect,
            &["C05"],
            "close-accept",
            "close of {} in status {st}: expected ok={expect}, got {}",
            p.id,
            r.map(|_| "ok".into()).unwrap_or_else(|e| e)
        );
        if expect {
            self.props[i].terminal = Some("closed");
            sc.nontrivial = true;
        }
        Ok(())
    }

    pub fn veto(&mut self, sc: &mut Sc) -> R {
        let Some(i) = self.some_prop(sc) else { return Ok(()) };
        let who = if sc.chance(75) { "vetoer".to_string() } else { self.people.choose(&mut sc.rng).unwrap().clone() };
        let p = self.props[i].clone();
        let st = p.status(sc);
        let expect = match &p.veto {
            None => false,
            Some(v) => {
                v.vetoer == who && (st == "veto_timelock" || (st == "open" && v.before))
            }
        };
        let module = self.module.clone();
        let r = sc.exec(&who, &module, &json!({"veto":{"proposal_id":p.id}}), &[]);
        ensure!(
            r.is_ok() == expect,
            &["C06", "C05"],
            "veto-accept",
            "veto of {} by {who} in status {st} with {:?}: expected ok={expect}, got {}",
            p.id,
            p.veto,
            r.map(|_| "ok".into()).unwrap_or_else(|e| e)
        );
        if expect {
            self.props[i].terminal = Some("vetoed");
            sc.tick("mon.vetoed");
        }
        Ok(())
    }

    /// who may propose
    fn creation(&mut self, sc: &mut Sc) -> R {
        const T: &[&str] = &["C05"];
        let who = if sc.chance(65) { self.core.clone() } else { sc.pick(&[self.people[0].clone(), "vetoer".into(), self.module.clone(), self.gate.clone().unwrap_or("nobody".into())]) };
        let (info, ok, gated) = match sc.r(0, 5) {
            0..=2 => (json!({"anyone_may_propose":{}}), true, false),
            k => {
                let msg = if k == 5 { json!({"fail":true}) } else { json!({}) };
                (json!({"module_may_propose":{"info":{"code_id":self.puppet,"msg":b64(&msg),"admin":null,"funds":[],"label":"pre"}}}), k != 5, true)
            }
        };
        let ok = ok && who == self.core;
        let module = self.module.clone();
        let r = sc.exec(&who, &module, &json!({"update_pre_propose_info":{"info":info}}), &[]);
        ensure!(r.is_ok() == ok, T, "creation-accept", "who may propose set to {info} by {who}: expected ok={ok}, got {r:?}");
        let p = sc.qm(T, &module, &json!({"proposal_creation_policy":{}}))?;
        if ok {
            self.gate = None;
            if gated {
                let a = s(&p["module"]["addr"]);
                let c = sc.wasm_creator(&a);
                ensure!(c.as_deref() == Some(module.as_str()), T, "creation-policy", "{p}, but {a} was created by {c:?}");
                self.gate = Some(a);
            }
        }
        let want = self.gate.as_ref().map(|g| json!({"module":{"addr":g}})).unwrap_or(json!({"anyone":{}}));
        ensure!(p == want, T, "creation-policy", "the creation policy is {p}, expected {want}");
        sc.checked(2);
        Ok(())
    }
    /// the terms as a message, possibly made impossible in one of several ways; and whether they are still possible
    fn spoil(sc: &mut Sc, kind: Kind, cfg: &mut Cfg, bad: u64) -> (Value, bool) {
        let mut valid = true;
        let mut m = {
            if bad == 0 && cfg.min.is_some() {
                cfg.min = Some(cfg.max + 1);
                valid = false;
            }
            cfg.json(kind)
        };
        if bad == 1 {
            if let Some(v) = &cfg.veto {
                m["veto"]["timelock_duration"] = dur(!cfg.time, v.delay);
                valid = false;
            }
        }
        if bad == 2 && kind == Kind::Single {
            let wrong = Pct::P(*[0, ONE + 1].choose(&mut sc.rng).unwrap());
            m["threshold"] = match sc.r(0, 2) {
                0 => Thr::Count(0),
                1 => Thr::Quorum(wrong, Pct::Maj),
                _ => Thr::Abs(wrong),
            }
            .json();
            valid = false;
        }
        if bad == 3 {
            match kind {
                Kind::Single => m["threshold"] = Thr::Quorum(Pct::Maj, Pct::P(ONE + 1)).json(),
                Kind::Multi => m["voting_strategy"] = Thr::Strategy(Pct::P(ONE + 1)).json(),
            }
            valid = false;
        }
        if bad == 4 && cfg.min.is_some() {
            m["min_voting_period"] = dur(!cfg.time, 0);
            valid = false;
        }
        (m, valid)
    }

    pub fn update_config(&mut self, sc: &mut Sc) -> R {
        if sc.chance(35) {
            return self.creation(sc);
        }
        let total: u128 = self.cur.values().sum();
        let mut cfg = World::rand_cfg(sc, self.kind, total);
        let bad = sc.r(0, 9);
        let (mut m, valid) = World::spoil(sc, self.kind, &mut cfg, bad);
        m["dao"] = json!(self.core);
        let who = if sc.chance(75) {
            self.core.clone()
        } else {
            let mut c = vec![self.people.choose(&mut sc.rng).unwrap().clone(), "vetoer".into(), self.voting.clone(), self.module.clone()];
            c.extend(self.gate.clone());
            sc.pick(&c)
        };
        let expect = valid && who == self.core;
        let module = self.module.clone();
        let r = sc.exec(&who, &module, &json!({ "update_config": m }), &[]);
        ensure!(
            r.is_ok() == expect,
            &["C05", "C01", "C02", "C06"],
            "config-accept",
            "update_config by {who} (valid {valid}) expected ok={expect}, got {}",
            r.map(|_| "ok".into()).unwrap_or_else(|e| e)
        );
        if expect {
            self.cfg = cfg;
        }
        Ok(())
    }

    /// the DAO leaves the module to another
    fn handover(&mut self, sc: &mut Sc) -> R {
        const T: &[&str] = &["C05"];
        let module = self.module.clone();
        let total: u128 = self.cur.values().sum();
        for (dao, by, ok) in [("heir", self.core.clone(), true), ("other", self.core.clone(), false), ("other", "heir".to_string(), true)] {
            let mut m = World::rand_cfg(sc, self.kind, total).json(self.kind);
            m["dao"] = json!(dao);
            let r = sc.exec(&by, &module, &json!({ "update_config": m }), &[]);
            ensure!(r.is_ok() == ok, T, "handover", "handing the module to {dao} by {by}: expected ok={ok}, got {r:?}");
            let c = sc.qm(T, &module, &json!({"config":{}}))?;
            let d = sc.qm(T, &module, &json!({"dao":{}}))?;
            let want = if ok { dao } else { "heir" };
            ensure!(c["dao"] == json!(want) && d == json!(want), T, "handover", "the module's DAO is {} / {d}, should be {want}", c["dao"]);
        }
        for i in 0..self.props.len() {
            self.check_prop(sc, i)?;
        }
        sc.tick("mon.handover");
        Ok(())
    }

    pub fn check_prop(&mut self, sc: &mut Sc, i: usize) -> R {
        let p = self.props[i].clone();
        let outcome: &[&str] = match self.kind {
            Kind::Single => &["C01"],
            Kind::Multi => &["C02"],
        };
        let v = sc.qm(&["C01", "C02", "C05"], &self.module, &json!({"proposal":{"proposal_id":p.id}}))?;
        let v = &v["proposal"];
        let st = status_name(&v["status"]);
        let want = p.status(sc);
        if st != want {
            let life = ["executed", "closed", "vetoed", "execution_failed", "veto_timelock"];
            let mut tags: Vec<&str> = outcome.to_vec();
            if life.contains(&st.as_str()) || life.contains(&want.as_str()) {
                tags = vec!["C05"];
                if want == "veto_timelock" || st == "veto_timelock" || want == "vetoed" || st == "vetoed" {
                    tags.push("C06");
                    tags.push(outcome[0]);
                }
                if p.terminal.is_none() {
                    tags.push(outcome[0]);
                }
            } else {
                tags.push("C06");
                tags.push("C05");
            }
            return Err(Viol::new(
                &tags,
                "status",
                format!(
                    "proposal {} reports status {st}, the vote history gives {want} (tally {:?}, total {}, rule {:?}, revote {}, expires {:?}, min {:?}, veto {:?}, now height {} time {})",
                    p.id, p.tally(), p.total, p.thr, p.revote, p.exp, p.min, p.veto, sc.height(), sc.block().time.nanos()
                ),
            ));
        }
        if want == "veto_timelock" {
            let e = p.exp.add(p.veto.as_ref().unwrap().delay);
            ensure!(
                v["status"]["veto_timelock"]["expiration"] == e.json(),
                &["C06"],
                "timelock-expiration",
                "proposal {} timelock ends {} want {}",
                p.id,
                v["status"],
                e.json()
            );
            sc.tick("mon.timelock_seen");
        }
        // an outcome once seen stays
        if matches!(want.as_str(), "passed" | "rejected") {
            if !p.exp.hit(sc) {
                self.props[i].early = Some(want.clone());
                sc.tick(&format!("mon.early_{want}"));
            } else if let Some(e) = &p.early {
                sc.tick("mon.early_confirmed_at_expiry");
                ensure!(
                    *e == want,
                    outcome,
                    "early-outcome-contradicted",
                    "proposal {} was {e} before expiry and is {want} after it",
                    p.id
                );
            }
            sc.tick(&format!("mon.{want}"));
            sc.nontrivial = true;
        }
        let t = p.tally();
        let got: Vec<u128> = match self.kind {
            Kind::Single => vec![u(&v["votes"]["yes"]), u(&v["votes"]["no"]), u(&v["votes"]["abstain"])],
            Kind::Multi => v["votes"]["vote_weights"].as_array().unwrap().iter().map(u).collect(),
        };
        ensure!(got == t, &["C04"], "tally", "proposal {} tally {got:?}, sum of ballots {t:?}", p.id);
        ensure!(
            u(&v["total_power"]) == p.total && v["start_height"] == json!(p.start),
            &["C04", "C01", "C02"],
            "total-power",
            "proposal {}: total power {} at height {}, snapshot of height {} gives {}",
            p.id,
            v["total_power"],
            v["start_height"],
            p.start,
            p.total
        );
        ensure!(
            v["expiration"] == p.exp.json()
                && v["allow_revoting"] == json!(p.revote)
                && s(&v["proposer"]) == p.proposer
                && s(&v["title"]) == p.title,
            &["C05", "C01", "C02"],
            "immutable-terms",
            "proposal {} terms changed: {v}",
            p.id
        );
        sc.checked(6);
        Ok(())
    }

    pub fn check_effects(&mut self, sc: &mut Sc) -> R {
        let mut spent = 0;
        for p in &self.props {
            for (k, o) in p.opts.iter().enumerate() {
                let want = if p.paid == Some(k) { o.amount } else { 0 };
                let got = sc.bank(&o.to, DENOM);
                spent += want;
                ensure!(
                    got == want,
                    &["C05", "C06"],
                    "effects",
                    "payee of option {k} of proposal {} holds {got}, executed outcome gives {want} (status {:?})",
                    p.id,
                    p.terminal
                );
            }
        }
        let t = sc.bank(&self.core, DENOM);
        ensure!(
            t == self.treasury && t + spent == 1_000_000_000,
            &["C05"],
            "treasury",
            "treasury holds {t}, executed proposals leave {}",
            self.treasury
        );
        sc.checked(self.props.len() as u64 + 1);
        Ok(())
    }

    pub fn check_ballots(&mut self, sc: &mut Sc, i: usize) -> R {
        let p = self.props[i].clone();
        let rend = |o: usize| self.vote_json(o);
        // paged listing of the votes, in voter order, complete
        let limit = sc.r(1, 4);
        let mut got: Vec<Value> = vec![];
        let mut after: Option<String> = None;
        loop {
            let v = sc.qm(&["C04"], &self.module, &json!({"list_votes":{"proposal_id":p.id,"start_after":after,"limit":limit}}))?;
            let a = v["votes"].as_array().unwrap().clone();
            if a.is_empty() || got.len() > 200 {
                break;
            }
            after = Some(s(&a.last().unwrap()["voter"]));
            got.extend(a);
        }
        let want: Vec<Value> = p
            .ballots
            .iter()
            .map(|(w, (o, pw, r))| json!({"voter":w,"vote":rend(*o),"power":pw.to_string(),"rationale":r}))
            .collect();
        ensure!(
            got == want,
            &["C04"],
            "ballots",
            "votes listed for proposal {}: {} want {}",
            p.id,
            json!(got),
            json!(want)
        );
        // the listing can be entered at any address, whether or not it voted
        let from = match sc.r(0, 3) {
            0 => sc.pick(&["aaa", "bbb", "carl", "dada", "mmm", "zzz"]).to_string(),
            1 => format!("{}0", sc.pick(&self.people)),
            _ => sc.pick(&self.people),
        };
        let v = sc.qm(&["C04"], &self.module, &json!({"list_votes":{"proposal_id":p.id,"start_after":from,"limit":limit}}))?;
        let part: Vec<Value> = p.ballots.keys().zip(&want).filter(|(k, _)| **k > from).take(limit as usize).map(|x| x.1.clone()).collect();
        ensure!(v["votes"] == json!(part), &["C04"], "ballots", "{limit} votes of proposal {} after {from}: {} want {}", p.id, v["votes"], json!(part));
        for who in self.people.clone() {
            let v = sc.qm(&["C04"], &self.module, &json!({"get_vote":{"proposal_id":p.id,"voter":who}}))?;
            let w = p.ballots.get(&who).map(|(o, pw, r)| json!({"voter":who,"vote":rend(*o),"power":pw.to_string(),"rationale":r})).unwrap_or(Value::Null);
            ensure!(v["vote"] == w, &["C04"], "ballot", "vote of {who} on {}: {} want {w}", p.id, v["vote"]);
        }
        sc.checked(1 + self.people.len() as u64);
        Ok(())
    }

    pub fn check_lists(&mut self, sc: &mut Sc) -> R {
        let n = self.props.len() as u64;
        let tags = &["C05", "C22"];
        let c = sc.qm(tags, &self.module, &json!({"proposal_count":{}}))?;
        let nx = sc.qm(tags, &self.module, &json!({"next_proposal_id":{}}))?;
        ensure!(c == json!(n) && nx == json!(n + 1), tags, "proposal-count", "count {c} next {nx}, {n} proposals were made");
        let limit = match sc.r(0, 5) {
            0 => None,
            1 => Some(1000),
            _ => Some(sc.r(1, if n > 20 { 40 } else { 4 })),
        };
        let mut fwd = vec![];
        let mut after: Option<u64> = None;
        loop {
            let v = sc.qm(tags, &self.module, &json!({"list_proposals":{"start_after":after,"limit":limit}}))?;
            let a = v["proposals"].as_array().unwrap().clone();
            if a.is_empty() || fwd.len() > 2000 {
                break;
            }
            after = a.last().unwrap()["id"].as_u64();
            fwd.extend(a);
        }
        let mut rev = vec![];
        let mut before: Option<u64> = None;
        loop {
            let v = sc.qm(tags, &self.module, &json!({"reverse_proposals":{"start_before":before,"limit":limit}}))?;
            let a = v["proposals"].as_array().unwrap().clone();
            if a.is_empty() || rev.len() > 2000 {
                break;
            }
            before = a.last().unwrap()["id"].as_u64();
            rev.extend(a);
        }
        rev.reverse();
        let ids: Vec<u64> = fwd.iter().map(|x| x["id"].as_u64().unwrap()).collect();
        ensure!(
            ids == (1..=n).collect::<Vec<_>>() && fwd == rev,
            tags,
            "proposal-list",
            "listed ids {ids:?} (reverse {:?}), proposals 1..={n} exist",
            rev.iter().map(|x| x["id"].clone()).collect::<Vec<_>>()
        );
        // from any id, there or not
        let (from, lim) = (sc.r(0, n + 3), sc.r(1, 4));
        let v = sc.qm(tags, &self.module, &json!({"list_proposals":{"start_after":from,"limit":lim}}))?;
        let want: Vec<&Value> = fwd.iter().filter(|x| x["id"].as_u64().unwrap() > from).take(lim as usize).collect();
        ensure!(v["proposals"] == json!(want), tags, "proposal-list", "{lim} proposals after {from}: {v}, want {want:?}");
        let v = sc.qm(tags, &self.module, &json!({"reverse_proposals":{"start_before":from,"limit":lim}}))?;
        let want: Vec<&Value> = fwd.iter().rev().filter(|x| x["id"].as_u64().unwrap() < from).take(lim as usize).collect();
        ensure!(v["proposals"] == json!(want), tags, "proposal-list", "{lim} proposals before {from}: {v}, want {want:?}");
        for (i, x) in fwd.iter().enumerate() {
            let st = status_name(&x["proposal"]["status"]);
            let want = self.props[i].status(sc);
            ensure!(st == want, &["C05", "C01", "C02", "C06"], "list-status", "listing shows {} as {st}, want {want}", i + 1);
        }
        sc.checked(3 + n);
        Ok(())
    }

    fn op(&mut self, sc: &mut Sc, w: &[u32]) -> R {
        match sc.weighted(w) {
            0 => self.propose(sc)?,
            1 => self.vote(sc)?,
            2 => self.execute(sc)?,
            3 => self.close(sc)?,
            4 => self.veto(sc)?,
            5 => self.set_weight(sc)?,
            6 => self.rationale(sc)?,
            7 => self.update_config(sc)?,
            8 => {
                let n = match sc.r(0, 3) {
                    0 => sc.r(2, 6),
                    _ => 1,
                };
                let t = sc.r(1, 6);
                sc.advance(n, n * t);
            }
            _ => {
                // straight to just before or exactly at a deadline of some proposal
                if let Some(i) = self.some_prop(sc) {
                    let p = self.props[i].clone();
                    let mut ds = vec![p.exp];
                    if let Some(m) = p.min {
                        ds.push(m);
                    }
                    if let Some(v) = &p.veto {
                        ds.push(p.exp.add(v.delay));
                    }
                    let d = sc.pick(&ds);
                    let off = sc.r(0, 2);
                    match d {
                        Exp::H(h) => {
                            let t = (h + off).saturating_sub(1);
                            if t > sc.height() && t < sc.height() + 100 {
                                let k = t - sc.height();
                                sc.advance(k, 5 * k);
                            }
                        }
                        Exp::T(t) => {
                            let t = (t / NS + off).saturating_sub(1);
                            if t > sc.now() && t < sc.now() + 1000 {
                                let k = t - sc.now();
                                sc.advance(1, k);
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }
    pub fn step(&mut self, sc: &mut Sc, w: &[u32]) -> R {
        self.op(sc, w)?;
        self.check_all(sc)
    }
    fn check_all(&mut self, sc: &mut Sc) -> R {
        for i in 0..self.props.len() {
            self.check_prop(sc, i)?;
        }
        self.check_effects(sc)
    }

    /// hundreds of proposals, or a crowd of voters
    pub fn long(sc: &mut Sc, kind: Kind) -> R {
        let crowd = sc.chance(30);
        let size = if crowd { sc.r(35, 60) } else { sc.r(1, 3) } as usize;
        let mut world = World::sized(sc, kind, false, size)?;
        let (n, w): (u64, &[u32]) = if crowd { (700, &[2, 90, 4, 2, 1, 3, 2, 1, 1, 1]) } else { (900, &[40, 40, 50, 12, 6, 2, 1, 1, 2, 3]) };
        world.propose(sc)?;
        // numbers past one byte, reached before the mixed life starts
        if !crowd && sc.chance(30) {
            for k in 0..270 {
                world.propose(sc)?;
                if k % 12 == 11 {
                    sc.advance(1, 5);
                }
            }
        }
        for k in 0..n {
            world.op(sc, w)?;
            if k % 150 == 149 {
                world.check_all(sc)?;
                world.check_lists(sc)?;
            }
        }
        for i in 0..world.props.len() {
            if crowd || sc.chance(10) {
                world.check_ballots(sc, i)?;
            }
        }
        if world.props.len() > 128 {
            sc.tick("mon.many_proposals");
        }
        if world.props.len() > 300 {
            sc.tick("mon.more_than_a_byte_of_proposals");
        }
        if world.props.iter().any(|p| p.ballots.len() > 30) {
            sc.tick("mon.crowd");
        }
        world.check_lists(sc)
    }

    pub fn run(sc: &mut Sc, kind: Kind, w: &[u32], steps: u64, force_veto: bool) -> R {
        let mut world = World::new(sc, kind, force_veto)?;
        let n = if sc.thorough { steps * 2 } else { steps };
        world.propose(sc)?;
        for k in 0..n {
            world.step(sc, w)?;
            if k % 8 == 7 {
                for i in 0..world.props.len() {
                    world.check_ballots(sc, i)?;
                }
                world.check_lists(sc)?;
            }
        }
        for i in 0..world.props.len() {
            world.check_ballots(sc, i)?;
        }
        world.check_lists(sc)?;
        // run every proposal to its end and look again
        for _ in 0..3 {
            sc.advance(12, 60);
            for i in 0..world.props.len() {
                world.check_prop(sc, i)?;
            }
        }
        for _ in 0..4 {
            world.execute(sc)?;
            world.close(sc)?;
        }
        for i in 0..world.props.len() {
            world.check_prop(sc, i)?;
        }
        world.check_effects(sc)?;
        if sc.chance(10) {
            world.handover(sc)?;
        }
        Ok(())
    }
}

pub fn single_mixed(sc: &mut Sc) -> R {
    World::run(sc, Kind::Single, &[8, 40, 10, 6, 5, 5, 3, 3, 14, 10], 60, false)
}
pub fn multi_mixed(sc: &mut Sc) -> R {
    World::run(sc, Kind::Multi, &[8, 40, 10, 6, 5, 5, 3, 3, 14, 10], 60, false)
}
pub fn single_votes(sc: &mut Sc) -> R {
    World::run(sc, Kind::Single, &[6, 60, 3, 2, 1, 6, 2, 1, 10, 10], 50, false)
}
pub fn multi_votes(sc: &mut Sc) -> R {
    World::run(sc, Kind::Multi, &[6, 60, 3, 2, 1, 6, 2, 1, 10, 10], 50, false)
}
pub fn single_life(sc: &mut Sc) -> R {
    World::run(sc, Kind::Single, &[8, 30, 25, 10, 10, 3, 1, 3, 10, 16], 60, false)
}
pub fn multi_life(sc: &mut Sc) -> R {
    World::run(sc, Kind::Multi, &[8, 30, 25, 10, 10, 3, 1, 3, 10, 16], 60, false)
}
pub fn single_veto(sc: &mut Sc) -> R {
    World::run(sc, Kind::Single, &[8, 35, 15, 4, 18, 2, 1, 2, 10, 18], 60, true)
}
pub fn multi_veto(sc: &mut Sc) -> R {
    World::run(sc, Kind::Multi, &[8, 35, 15, 4, 18, 2, 1, 2, 10, 18], 60, true)
}
pub fn single_long(sc: &mut Sc) -> R {
    World::long(sc, Kind::Single)
}
pub fn multi_long(sc: &mut Sc) -> R {
    World::long(sc, Kind::Multi)
}
