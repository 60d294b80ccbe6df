//! Migrations to the current code (C26).
//!
//! Twins: world A runs on an earlier release and is migrated at some point of its history, world
//! B runs the same history on the current code from the start. From the migration on the two must
//! answer every question and every message alike; and right after the migration A's answers must
//! contain what they contained before.
//!
//! Plain: the histories of the other monitors are run with deployed contracts migrated to the
//! very code they run; what their reference models say must not change by it.
use crate::gov::*;
use crate::*;
use cosmwasm_std::{coins, Coin};
use rand::SeedableRng;

const T: &[&str] = &["C26"];

pub struct Tw {
    /// A's names for things and B's
    map: Vec<(String, String)>,
    migrated: bool,
}
impl Tw {
    fn link(&mut self, a: &str, b: &str) {
        self.map.push((a.into(), b.into()));
    }
    fn norm(&self, v: &Value) -> Value {
        match v {
            Value::String(x) => match self.map.iter().find(|(a, _)| a == x) {
                Some((_, b)) => Value::String(b.clone()),
                None => match cosmwasm_std::Binary::from_base64(x).ok().filter(|b| b.len() > 2).and_then(|b| serde_json::from_slice::<Value>(&b).ok()) {
                    Some(v @ Value::Object(_)) => json!({ "b64": self.norm(&v) }),
                    _ => Value::String(x.clone()),
                },
            },
            Value::Array(l) => Value::Array(l.iter().map(|x| self.norm(x)).collect()),
            Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), self.norm(x))).collect()),
            x => x.clone(),
        }
    }
    /// Sends the message to both worlds. Before the migration the old code decides: what it
    /// refuses is not sent to the twin, and when only the twin refuses the history ends (the
    /// releases differ there). After the migration they must agree. Returns what A said.
    fn both(&self, sc: &mut Sc, by: (&str, &str), to: (&str, &str), msg: (&Value, &Value), funds: (&[Coin], &[Coin])) -> R<bool> {
        let ra = sc.exec(by.0, to.0, msg.0, funds.0);
        if !self.migrated {
            if ra.is_err() {
                return Ok(false);
            }
            if let Err(e) = sc.exec(by.1, to.1, msg.1, funds.1) {
                sc.tick(&format!("mig.releases-differ:{}", msg_name(msg.0)));
                if std::env::var("VMON_EVENTS").is_ok() {
                    eprintln!("differ {} {e}", msg.0);
                }
                return Err(Viol::new(&[], "skip", ""));
            }
            return Ok(true);
        }
        let rb = sc.exec(by.1, to.1, msg.1, funds.1);
        ensure!(
            ra.is_ok() == rb.is_ok(),
            T,
            "twin-exec",
            "after the migration, {} sends {} to the migrated contract: {:?}; a contract that ran the current code from the start: {:?}",
            by.0,
            msg.0,
            ra.as_ref().map(|_| "ok"),
            rb.as_ref().map(|_| "ok")
        );
        sc.checked(1);
        Ok(ra.is_ok())
    }
    fn same(&self, sc: &mut Sc, to: (&str, &str), q: (&Value, &Value), fix: &dyn Fn(&mut Value)) -> R {
        let ra = sc.q(to.0, q.0);
        let rb = sc.q(to.1, q.1);
        sc.checked(1);
        match (ra, rb) {
            (Ok(a), Ok(b)) => {
                let (mut a, mut b) = (self.norm(&a), self.norm(&b));
                fix(&mut a);
                fix(&mut b);
                ensure!(a == b, T, "twin-query", "query {} answers {a} on the migrated contract, {b} on its twin", q.0);
            }
            (Err(_), Err(_)) => {}
            (a, b) => return Err(Viol::new(T, "twin-query", format!("query {} answers {a:?} on the migrated contract, {b:?} on its twin", q.0))),
        }
        Ok(())
    }
}

/// every field of `old` is in `new` with the same value
fn contains(old: &Value, new: &Value, drop: &[&str]) -> Result<(), String> {
    match (old, new) {
        (Value::Object(o), Value::Object(n)) => {
            for (k, v) in o {
                if drop.contains(&k.as_str()) {
                    continue;
                }
                match n.get(k) {
                    Some(w) => contains(v, w, drop).map_err(|e| format!("{k}.{e}"))?,
                    None if v.is_null() => {}
                    None => return Err(format!("{k}: {v} is gone")),
                }
            }
            Ok(())
        }
        (Value::Array(o), Value::Array(n)) => {
            if o.len() != n.len() {
                return Err(format!("{} entries became {}", o.len(), n.len()));
            }
            for (i, (a, b)) in o.iter().zip(n).enumerate() {
                contains(a, b, drop).map_err(|e| format!("[{i}].{e}"))?;
            }
            Ok(())
        }
        (a, b) if a == b => Ok(()),
        (a, b) => Err(format!(": {a} became {b}")),
    }
}
type Ask = (String, Value);
fn ask1(sc: &Sc, (c, q): &Ask) -> Result<Value, String> {
    let v = sc.q(c, q)?;
    // v0.1.0 spells the variants of this answer with capitals
    Ok(match (&v, q.get("pause_info")) {
        (Value::Object(o), Some(_)) => Value::Object(o.iter().map(|(k, x)| (k.to_lowercase(), x.clone())).collect()),
        _ => v,
    })
}
fn ask(sc: &Sc, l: &[Ask]) -> Vec<Result<Value, String>> {
    l.iter().map(|a| ask1(sc, a)).collect()
}
fn kept(sc: &mut Sc, l: &[Ask], old: &[Result<Value, String>], drop: &[&str]) -> R {
    for (a, o) in l.iter().zip(old) {
        let (c, q) = a;
        if let Ok(o) = o {
            let n = ask1(sc, a).map_err(|e| Viol::new(T, "answer-changed", format!("query {q} of {c} answered {o} before the migration and fails after it: {e}")))?;
            sc.checked(1);
            if let Err(e) = contains(o, &n, drop) {
                return Err(Viol::new(T, "answer-changed", format!("query {q} of {c} answered {o} before the migration and {n} after it: {e}")));
            }
        }
    }
    Ok(())
}

fn num(a: &str) -> u64 {
    a.trim_start_matches(|c: char| !c.is_ascii_digit()).parse().unwrap_or(0)
}

struct Wd {
    core: String,
    voting: String,
    mods: Vec<String>,
    pre: Vec<Option<String>>,
    hooks: Vec<String>,
}

#[derive(Clone, Copy, PartialEq)]
enum Old {
    V1,
    Single,
    Multi,
    Approval,
}

struct Gw {
    t: Tw,
    old: Old,
    a: Wd,
    b: Wd,
    people: Vec<String>,
    group: String,
    toks: Vec<String>,
    dep20: String,
    weights: Vec<u64>,
    time: bool,
    max: u64,
    cfgs: Vec<Cfg>,
    v1dep: Option<u128>,
    predep: Option<Value>,
    specific: bool,
    n: u64,
    code: BTreeMap<&'static str, u64>,
    vetoer: bool,
    last_h: u64,
}
use std::collections::BTreeMap;

fn wasm(to: &str, m: &Value) -> Value {
    json!({"wasm":{"execute":{"contract_addr": to, "msg": b64(m), "funds": []}}})
}

impl Gw {
    fn multi(&self) -> bool {
        self.old == Old::Multi
    }
    fn deposit_json(sc: &mut Sc, dep20: &str) -> Option<Value> {
        match sc.r(0, 3) {
            0 => None,
            k => {
                let denom = if k == 1 { json!({"cw20": dep20}) } else { json!({"native": "udep"}) };
                Some(json!({"denom":{"token":{"denom": denom}}, "amount": sc.r(1, 50).to_string(), "refund_policy": sc.pick(&["always", "never", "only_passed"])}))
            }
        }
    }
    fn new(sc: &mut Sc, old: Old) -> R<Gw> {
        let mut code = BTreeMap::new();
        let gc = sc.code(cw4_code());
        let c20 = sc.code(cw20_code());
        let pc = sc.code(puppet_code());
        code.insert("core", sc.code(core_code()));
        code.insert("single", sc.code(single_code()));
        code.insert("multi", sc.code(multi_code()));
        code.insert("voting", sc.code(vcw4_code()));
        code.insert("pre-single", sc.code(wrap!(dao_pre_propose_single::contract; migrate)));
        code.insert("pre-multi", sc.code(wrap!(dao_pre_propose_multiple::contract; migrate)));
        code.insert("pre-approval", sc.code(wrap!(dao_pre_propose_approval_single::contract; migrate)));
        let (oc, op, ov, opre) = match old {
            Old::V1 => (
                sc.code(wrap!(cw_core_v1::contract; reply)),
                sc.code(wrap!(cw_proposal_single_v1::contract; reply)),
                code["voting"],
                0,
            ),
            _ => (
                sc.code(wrap!(dao_dao_core_v241::contract; reply, migrate)),
                if old == Old::Multi {
                    sc.code(wrap!(dao_proposal_multiple_v241::contract; reply, migrate))
                } else {
                    sc.code(wrap!(dao_proposal_single_v241::contract; reply, migrate))
                },
                sc.code(wrap!(dao_voting_cw4_v241::contract; reply, migrate)),
                match old {
                    Old::Multi => sc.code(wrap!(dao_pre_propose_multiple_v241::contract)),
                    Old::Approval => sc.code(wrap!(dao_pre_propose_approval_single_v241::contract)),
                    _ => sc.code(wrap!(dao_pre_propose_single_v241::contract)),
                },
            ),
        };
        let n = sc.r(1, 5) as usize;
        let mut people: Vec<String> = (0..n).map(|i| format!("voter{i}")).collect();
        let weights: Vec<u64> = (0..n).map(|_| sc.r(0, 6)).collect();
        let total: u128 = weights.iter().map(|x| *x as u128).sum();
        let group = sc.must_init(
            gc,
            "creator",
            &json!({"admin":"groupadmin","members": people.iter().zip(&weights).map(|(a,w)| json!({"addr":a,"weight":w})).collect::<Vec<_>>()}),
            &[],
            "cw4",
        )?;
        people.push("outsider".into());
        let mut toks = vec![];
        for i in 0..3 {
            let bal: Vec<Value> = people.iter().map(|p| json!({"address": p, "amount": "1000000"})).collect();
            toks.push(sc.must_init(c20, "creator", &json!({"name":"tok","symbol":"TOK","decimals":6,"initial_balances":bal,"mint":null}), &[], &format!("tok{i}"))?);
        }
        let dep20 = toks.pop().unwrap();
        for p in people.clone() {
            sc.mint(&p, 1_000_000, "udep");
        }
        let mods = if old == Old::V1 && sc.chance(30) { 2 } else { 1 };
        let kind = if old == Old::Multi { Kind::Multi } else { Kind::Single };
        let mut cfgs = vec![];
        let c0 = World::rand_cfg(sc, kind, total);
        for _ in 0..mods {
            let mut c = World::rand_cfg(sc, kind, total);
            c.time = c0.time;
            if old == Old::V1 {
                c.veto = None;
                c.close_fail = false;
                c.min = c.min.filter(|m| *m > 0);
                c.max = c.max.max(1);
            }
            let unit = if c.time { 5 } else { 1 };
            c.max = c.max / unit * unit;
            c.max = c.max.max(unit);
            if let Some(m) = c.min {
                c.min = Some(m.min(c.max));
            }
            if let Some(v) = &mut c.veto {
                v.delay = v.delay / unit * unit;
            }
            cfgs.push(c);
        }
        let vm = json!({"group_contract":{"existing":{"address":group}}});
        let specific = sc.chance(60);
        let predep = if old == Old::V1 || sc.chance(20) { None } else { Gw::deposit_json(sc, &dep20) };
        let with_pre = old == Old::Approval || (old != Old::V1 && sc.chance(75));
        let ext = if old == Old::Approval { json!({"approver": "approver"}) } else { json!({}) };
        let pre_info = |codeid: u64, v241: bool| {
            let mut m = json!({"deposit_info": predep, "extension": ext});
            if v241 {
                m["open_proposal_submission"] = json!(!specific);
            } else {
                m["submission_policy"] =
                    if specific { json!({"specific":{"dao_members":true,"allowlist":[],"denylist":[]}}) } else { json!({"anyone":{"denylist":[]}}) };
            }
            json!({"module_may_propose":{"info":{"code_id":codeid,"msg":b64(&m),"admin":{"core_module":{}},"funds":[],"label":"pre"}}})
        };
        let v1dep = if old == Old::V1 && sc.chance(40) { Some(sc.r(0, 20) as u128) } else { None };
        let extra = json!({"admin":"boss","automatically_add_cw20s": sc.chance(50),"automatically_add_cw721s": sc.chance(50),"image_url": "http://i"});
        // B, the twin
        let bpre = match old {
            Old::Multi => code["pre-multi"],
            Old::Approval => code["pre-approval"],
            _ => code["pre-single"],
        };
        let bmods: Vec<(u64, Value)> = cfgs
            .iter()
            .map(|c| {
                let mut m = c.json(kind);
                m["pre_propose_info"] = if with_pre { pre_info(bpre, false) } else { json!({"anyone_may_propose":{}}) };
                (code[if kind == Kind::Multi { "multi" } else { "single" }], m)
            })
            .collect();
        let items = json!([{"key":"k0","value":"v0"},{"key":"k1","value":"v1"}]);
        let mut ex = extra.clone();
        ex["initial_items"] = items.clone();
        let bcore = sc.must_init(code["core"], "creator", &dao_init(code["voting"], &vm, &bmods, ex.clone()), &[], "B.core")?;
        // A, on the earlier release
        let acore = if old == Old::V1 {
            let dj = v1dep.map(|d| json!({"token":{"token":{"address":dep20}},"deposit":d.to_string(),"refund_failed_proposals":true}));
            let ms: Vec<Value> = cfgs
                .iter()
                .map(|c| {
                    let mut m = c.json(kind);
                    let o = m.as_object_mut().unwrap();
                    o.remove("close_proposal_on_execution_failure");
                    o.remove("veto");
                    m["deposit_info"] = json!(dj);
                    json!({"code_id": op, "msg": b64(&m), "admin": {"core_contract":{}}, "label": "module"})
                })
                .collect();
            let mut m = json!({"name":"DAO","description":"d",
                "voting_module_instantiate_info": {"code_id": ov, "msg": b64(&vm), "admin": {"core_contract":{}}, "label": "voting"},
                "proposal_modules_instantiate_info": ms, "initial_items": items});
            for (k, v) in extra.as_object().unwrap() {
                m[k] = v.clone();
            }
            sc.init(oc, "creator", &m, &[], "A.core", Some("chainadmin"))
        } else {
            let amods: Vec<(u64, Value)> = cfgs
                .iter()
                .map(|c| {
                    let mut m = c.json(kind);
                    m["pre_propose_info"] = if with_pre { pre_info(opre, true) } else { json!({"anyone_may_propose":{}}) };
                    (op, m)
                })
                .collect();
            sc.init(oc, "creator", &dao_init(ov, &vm, &amods, ex), &[], "A.core", Some("chainadmin"))
        }
        .map_err(|e| Viol::new(&["*"], "setup", format!("instantiating the earlier release: {e}")))?;
        let mut wds = vec![];
        for (core, l) in [(acore, "A"), (bcore, "B")] {
            let voting = s(&sc.qm(T, &core, &json!({"voting_module":{}}))?);
            let pm = sc.qm(T, &core, &json!({"proposal_modules":{}}))?;
            let mut ms: Vec<String> = pm.as_array().unwrap().iter().map(|x| if x.is_string() { s(x) } else { s(&x["address"]) }).collect();
            ms.sort_by_key(|x| num(x));
            let mut pre = vec![];
            for (i, m) in ms.iter().enumerate() {
                sc.label(m, &format!("{l}.mod{i}"));
                pre.push(if with_pre {
                    let p = s(&sc.qm(T, m, &json!({"proposal_creation_policy":{}}))?["module"]["addr"]);
                    sc.label(&p, &format!("{l}.pre{i}"));
                    Some(p)
                } else {
                    None
                });
            }
            let mut hooks = vec![];
            for i in 0..2 {
                hooks.push(sc.must_init(pc, "creator", &json!({}), &[], &format!("{l}.hook{i}"))?);
            }
            sc.mint(&core, 1_000_000, DENOM);
            sc.label(&voting, &format!("{l}.voting"));
            for t in &toks {
                sc.exec("outsider", t, &json!({"transfer":{"recipient": core, "amount": "777"}}), &[]).expect("transfer");
            }
            wds.push(Wd { core, voting, mods: ms, pre, hooks });
        }
        let b = wds.pop().unwrap();
        let a = wds.pop().unwrap();
        let mut t = Tw { map: vec![], migrated: false };
        t.link(&a.core, &b.core);
        t.link(&a.voting, &b.voting);
        for (x, y) in a.mods.iter().zip(&b.mods) {
            t.link(x, y);
        }
        for (x, y) in a.pre.iter().zip(&b.pre) {
            if let (Some(x), Some(y)) = (x, y) {
                t.link(x, y);
            }
        }
        for (x, y) in a.hooks.iter().zip(&b.hooks) {
            t.link(x, y);
        }
        let last_h = sc.height();
        let w = Gw {
            t,
            old,
            a,
            b,
            people,
            group,
            toks,
            dep20,
            weights,
            time: c0.time,
            max: 14,
            vetoer: cfgs.iter().any(|c| c.veto.is_some()),
            cfgs,
            v1dep,
            predep,
            specific,
            n: 0,
            code,
            last_h,
        };
        sc.advance(1, 5);
        Ok(w)
    }
    /// one of the payloads that mean the same on both releases
    fn payload(&self, sc: &mut Sc, i: usize) -> (Vec<Value>, Vec<Value>) {
        let mut a = vec![];
        let mut b = vec![];
        let k = sc.r(0, 9);
        let who = sc.pick(&self.people);
        let amt = sc.r(1, 300_000).to_string();
        let tok = sc.pick(&self.toks);
        let add = sc.chance(70);
        let key = sc.pick(&["k0", "k1", "k9"]);
        let nm = format!("DAO{}", self.n);
        let h = sc.r(0, 1) as usize;
        let rm = sc.chance(25);
        let pause = if sc.chance(50) { json!({"height": sc.r(1, 4)}) } else { json!({"time": sc.r(1, 20)}) };
        for (l, w) in [(&mut a, &self.a), (&mut b, &self.b)] {
            match k {
                0 | 1 => l.push(json!({"bank":{"send":{"to_address": who, "amount":[{"denom": DENOM, "amount": amt}]}}})),
                2 => l.push(json!({"bank":{"send":{"to_address": who, "amount":[{"denom": DENOM, "amount": "9000000"}]}}})),
                3 => l.push(wasm(&w.core, &if add { json!({"update_cw20_list":{"to_add":[tok],"to_remove":[]}}) } else { json!({"update_cw20_list":{"to_add":[],"to_remove":[tok]}}) })),
                4 => l.push(wasm(&w.core, &json!({"remove_item":{"key": key}}))),
                5 => l.push(wasm(
                    &w.mods[i],
                    &match (rm, add) {
                        (true, true) => json!({"remove_vote_hook":{"address": w.hooks[h]}}),
                        (true, false) => json!({"remove_proposal_hook":{"address": w.hooks[h]}}),
                        (false, true) => json!({"add_vote_hook":{"address": w.hooks[h]}}),
                        (false, false) => json!({"add_proposal_hook":{"address": w.hooks[h]}}),
                    },
                )),
                6 => l.push(wasm(&w.core, &json!({"update_config":{"config":{"name": nm,"description":"e","image_url":null,"automatically_add_cw20s": add,"automatically_add_cw721s": rm}}}))),
                7 if add => l.push(wasm(&w.core, &json!({"pause":{"duration": pause}}))),
                _ => {}
            }
        }
        (a, b)
    }
    fn pid(&self, sc: &mut Sc, i: usize) -> u64 {
        let n = sc.q(&self.b.mods[i], &json!({"proposal_count":{}})).map(|x| u(&x) as u64).unwrap_or(0);
        if sc.chance(3) {
            n + 1
        } else {
            let lo = if sc.chance(60) { n.saturating_sub(2).max(1) } else { 1 };
            sc.r(lo, n.max(1))
        }
    }
    fn propose(&mut self, sc: &mut Sc) -> R {
        let i = sc.r(0, self.a.mods.len() as u64 - 1) as usize;
        if self.n > 13 {
            return Ok(());
        }
        self.n += 1;
        let who = sc.pick(&self.people);
        let title = format!("p{}", self.n);
        let (ma, mb) = if self.multi() {
            let (x1, y1) = self.payload(sc, i);
            let (x2, y2) = self.payload(sc, i);
            let f = |m1: Vec<Value>, m2: Vec<Value>| json!({"title":title,"description":"d","choices":{"options":[{"title":"o1","description":"x","msgs":m1},{"title":"o2","description":"y","msgs":m2}]}});
            (f(x1, x2), f(y1, y2))
        } else {
            let (x, y) = self.payload(sc, i);
            let f = |m: Vec<Value>| json!({"title":title,"description":"d","msgs":m});
            (f(x), f(y))
        };
        let (pa, pb) = (self.a.pre[i].clone(), self.b.pre[i].clone());
        if let (Some(pa), Some(pb)) = (pa, pb) {
            let cfg = sc.qm(T, &pb, &json!({"config":{}}))?;
            let mut funds = vec![];
            if let Some(n) = cfg["deposit_info"]["denom"]["native"].as_str() {
                let amt = u(&cfg["deposit_info"]["amount"]);
                let amt = if sc.chance(5) { amt + 1 } else { amt };
                funds = coins(amt, n);
            } else if cfg["deposit_info"]["denom"]["cw20"].is_string() && sc.chance(95) {
                let amt = s(&cfg["deposit_info"]["amount"]);
                for p in [&pa, &pb] {
                    let _ = sc.exec(&who, &self.dep20, &json!({"increase_allowance":{"spender": p, "amount": amt}}), &[]);
                }
            }
            let f = |m: Value| json!({"propose":{"msg":{"propose": m}}});
            self.t.both(sc, (&who, &who), (&pa, &pb), (&f(ma), &f(mb)), (&funds, &funds))?;
            return Ok(());
        }
        if let (Some(d), false) = (self.v1dep, self.t.migrated) {
            if d > 0 {
                let _ = sc.exec(&who, &self.dep20.clone(), &json!({"increase_allowance":{"spender": self.a.mods[i], "amount": d.to_string()}}), &[]);
            }
        }
        self.t.both(sc, (&who, &who), (&self.a.mods[i], &self.b.mods[i]), (&json!({"propose": ma}), &json!({"propose": mb})), (&[], &[]))?;
        Ok(())
    }
    /// a message from the DAO to something of its own
    fn as_dao(&self, sc: &mut Sc, to: (&str, &str), msg: (&Value, &Value)) -> R<bool> {
        self.t.both(sc, (&self.a.core, &self.b.core), to, msg, (&[], &[]))
    }
    fn op(&mut self, sc: &mut Sc) -> R {
        let i = sc.r(0, self.a.mods.len() as u64 - 1) as usize;
        let who = sc.pick(&self.people);
        let (ma, mb) = (self.a.mods[i].clone(), self.b.mods[i].clone());
        match sc.weighted(&[18, 30, 10, 6, 6, 5, 14, 8, 3]) {
            0 => self.propose(sc)?,
            1 => {
                let id = self.pid(sc, i);
                let v = if self.multi() { json!({"option_id": sc.r(0, 3)}) } else { json!(sc.pick(&["yes", "yes", "yes", "no", "abstain"])) };
                let m = json!({"vote":{"proposal_id":id,"vote":v}});
                self.t.both(sc, (&who, &who), (&ma, &mb), (&m, &m), (&[], &[]))?;
            }
            2 => {
                let id = self.pid(sc, i);
                let m = json!({"execute":{"proposal_id":id}});
                self.t.both(sc, (&who, &who), (&ma, &mb), (&m, &m), (&[], &[]))?;
            }
            3 => {
                let id = self.pid(sc, i);
                let m = json!({"close":{"proposal_id":id}});
                self.t.both(sc, (&who, &who), (&ma, &mb), (&m, &m), (&[], &[]))?;
            }
            4 => {
                if self.vetoer {
                    let id = self.pid(sc, i);
                    let m = json!({"veto":{"proposal_id":id}});
                    self.t.both(sc, ("vetoer", "vetoer"), (&ma, &mb), (&m, &m), (&[], &[]))?;
                }
            }
            5 => {
                // membership, always followed by a block
                let j = sc.r(0, self.weights.len() as u64 - 1) as usize;
                self.weights[j] = sc.r(0, 6);
                let m = json!({"update_members":{"remove":[],"add":[{"addr": self.people[j], "weight": self.weights[j]}]}});
                sc.exec("groupadmin", &self.group.clone(), &m, &[]).expect("members");
                sc.advance(1, 5);
            }
            6 => {
                let b = sc.r(1, 3);
                sc.advance(b, 5 * b);
            }
            7 => self.admin_op(sc, i)?,
            _ => {
                if self.old == Old::Approval {
                    let id = sc.r(1, self.n.max(1));
                    let m = json!({"extension":{"msg": if sc.chance(75) { json!({"approve":{"id":id}}) } else { json!({"reject":{"id":id}}) }}});
                    let by = if sc.chance(90) { "approver".to_string() } else { who };
                    let (pa, pb) = (self.a.pre[i].clone().unwrap(), self.b.pre[i].clone().unwrap());
                    self.t.both(sc, (&by, &by), (&pa, &pb), (&m, &m), (&[], &[]))?;
                }
            }
        }
        if self.old == Old::Approval && sc.chance(25) {
            let id = sc.r(1, self.n.max(1));
            let m = json!({"extension":{"msg": if sc.chance(80) { json!({"approve":{"id":id}}) } else { json!({"reject":{"id":id}}) }}});
            let (pa, pb) = (self.a.pre[i].clone().unwrap(), self.b.pre[i].clone().unwrap());
            self.t.both(sc, ("approver", "approver"), (&pa, &pb), (&m, &m), (&[], &[]))?;
        }
        Ok(())
    }
    fn admin_op(&mut self, sc: &mut Sc, i: usize) -> R {
        let v1 = self.old == Old::V1 && !self.t.migrated;
        let (ca, cb) = (self.a.core.clone(), self.b.core.clone());
        match sc.r(0, 8) {
            0 => {
                let (a, b) = self.payload(sc, i);
                let by = if sc.chance(85) { "boss" } else { "outsider" };
                self.t.both(sc, (by, by), (&ca, &cb), (&json!({"execute_admin_msgs":{"msgs":a}}), &json!({"execute_admin_msgs":{"msgs":b}})), (&[], &[]))?;
            }
            1 => {
                let k = sc.pick(&["k0", "k1", "k2"]);
                let v = format!("v{}", sc.r(0, 99));
                let mb = json!({"set_item":{"key":k,"value":v}});
                let ma = if v1 { json!({"set_item":{"key":k,"addr":v}}) } else { mb.clone() };
                self.as_dao(sc, (&ca, &cb), (&ma, &mb))?;
            }
            2 => {
                let m = sc.pick(&[json!({"nominate_admin":{"admin":"nova"}}), json!({"withdraw_admin_nomination":{}}), json!({"nominate_admin":{"admin":null}})]);
                let m = if m["nominate_admin"]["admin"].is_null() && m.get("nominate_admin").is_some() && sc.chance(90) { json!({"nominate_admin":{"admin":"nova"}}) } else { m };
                self.t.both(sc, ("boss", "boss"), (&ca, &cb), (&m, &m), (&[], &[]))?;
            }
            3 => {
                let m = json!({"accept_admin_nomination":{}});
                if sc.chance(40) {
                    self.t.both(sc, ("nova", "nova"), (&ca, &cb), (&m, &m), (&[], &[]))?;
                }
            }
            4 => {
                let h = sc.r(0, 1) as usize;
                let k = sc.pick(&["add_vote_hook", "add_proposal_hook", "remove_vote_hook"]);
                let (x, y) = (json!({k:{"address": self.a.hooks[h]}}), json!({k:{"address": self.b.hooks[h]}}));
                let (p, q) = (self.a.mods[i].clone(), self.b.mods[i].clone());
                self.as_dao(sc, (&p, &q), (&x, &y))?;
            }
            5 => {
                // new terms for later proposals
                let kind = if self.multi() { Kind::Multi } else { Kind::Single };
                let total: u128 = self.weights.iter().map(|x| *x as u128).sum();
                let mut c = World::rand_cfg(sc, kind, total);
                c.time = self.time;
                let unit = if c.time { 5 } else { 1 };
                c.max = (c.max / unit * unit).max(unit);
                c.min = c.min.map(|m| m.min(c.max));
                if let Some(v) = &mut c.veto {
                    v.delay = v.delay / unit * unit;
                }
                if v1 {
                    c.veto = None;
                    c.close_fail = false;
                    c.min = c.min.filter(|m| *m > 0);
                }
                let mk = |c: &Cfg, dao: &str, v1: bool| {
                    let mut m = c.json(kind);
                    m["dao"] = json!(dao);
                    let o = m.as_object_mut().unwrap();
                    o.remove("pre_propose_info");
                    if v1 {
                        o.remove("close_proposal_on_execution_failure");
                        o.remove("veto");
                        o.insert("deposit_info".into(), Value::Null);
                    }
                    json!({"update_config": m})
                };
                let (p, q) = (self.a.mods[i].clone(), self.b.mods[i].clone());
                if self.as_dao(sc, (&p, &q), (&mk(&c, &ca, v1), &mk(&c, &cb, false)))? {
                    if self.vetoer || c.veto.is_some() {
                        self.vetoer = true;
                    }
                    if v1 && i == 0 && self.a.mods.len() == 1 {
                        self.v1dep = None;
                    }
                    self.cfgs[i] = c;
                    sc.tick("mig.reconfigured");
                }
            }
            6 => {
                // pre-propose modules
                if let (Some(pa), Some(pb)) = (self.a.pre[i].clone(), self.b.pre[i].clone()) {
                    match sc.r(0, 3) {
                        0 => {
                            let d = Gw::deposit_json(sc, &self.dep20.clone());
                            let new = json!({"update_config":{"deposit_info": d, "submission_policy": null}});
                            let ma = if self.t.migrated { new.clone() } else { json!({"update_config":{"deposit_info": d, "open_proposal_submission": !self.specific}}) };
                            if self.as_dao(sc, (&pa, &pb), (&ma, &new))? {
                                self.predep = d;
                            }
                        }
                        1 if !self.t.migrated => {
                            let sp = sc.chance(50);
                            let pol = if sp { json!({"specific":{"dao_members":true,"allowlist":[],"denylist":[]}}) } else { json!({"anyone":{"denylist":[]}}) };
                            let mb = json!({"update_config":{"deposit_info": self.predep, "submission_policy": pol}});
                            let ma = json!({"update_config":{"deposit_info": self.predep, "open_proposal_submission": !sp}});
                            if self.as_dao(sc, (&pa, &pb), (&ma, &mb))? {
                                self.specific = sp;
                            }
                        }
                        1 => {
                            let m = json!({"update_submission_policy":{"denylist_add": [sc.pick(&self.people)], "set_dao_members": null, "allowlist_add": null, "allowlist_remove": null, "denylist_remove": null}});
                            self.as_dao(sc, (&pa, &pb), (&m, &m))?;
                        }
                        2 => {
                            let h = sc.r(0, 1) as usize;
                            let k = if sc.chance(70) { "add_proposal_submitted_hook" } else { "remove_proposal_submitted_hook" };
                            let (x, y) = (json!({k:{"address": self.a.hooks[h]}}), json!({k:{"address": self.b.hooks[h]}}));
                            self.as_dao(sc, (&pa, &pb), (&x, &y))?;
                        }
                        _ => {
                            let m = json!({"withdraw":{"denom": if sc.chance(50) { json!({"token":{"denom":{"native":"udep"}}}) } else { json!(null) }}});
                            let m = if m["withdraw"]["denom"].is_null() { json!({"withdraw":{"denom":null}}) } else { json!({"withdraw":{"denom":{"native":"udep"}}}) };
                            self.as_dao(sc, (&pa, &pb), (&m, &m))?;
                        }
                    }
                }
            }
            7 => {
                // pre-propose given up for good
                if self.a.pre[i].is_some() && self.old != Old::Approval && sc.chance(25) {
                    let m = json!({"update_pre_propose_info":{"info":{"anyone_may_propose":{}}}});
                    let (p, q) = (self.a.mods[i].clone(), self.b.mods[i].clone());
                    if self.as_dao(sc, (&p, &q), (&m, &m))? {
                        sc.tick("mig.pre-dropped");
                    }
                }
            }
            _ => {
                let m = json!({"update_cw721_list":{"to_add":[],"to_remove":[]}});
                self.as_dao(sc, (&ca, &cb), (&m, &m))?;
            }
        }
        Ok(())
    }
    fn old_questions(&self, sc: &Sc) -> Vec<Ask> {
        let c = &self.a.core;
        let mut l: Vec<Ask> = ["admin", "admin_nomination", "config", "cw20_token_list", "cw721_token_list", "cw20_balances", "list_items", "pause_info", "voting_module"]
            .iter()
            .map(|q| (c.clone(), json!({ *q: {} })))
            .collect();
        for p in &self.people {
            l.push((c.clone(), json!({"voting_power_at_height":{"address": p}})));
            l.push((c.clone(), json!({"voting_power_at_height":{"address": p, "height": sc.height().saturating_sub(3)}})));
        }
        l.push((c.clone(), json!({"total_power_at_height":{}})));
        for k in ["k0", "k1", "k2", "k9"] {
            l.push((c.clone(), json!({"get_item":{"key": k}})));
        }
        for m in &self.a.mods {
            for q in ["config", "list_proposals", "proposal_count", "proposal_hooks", "vote_hooks", "dao"] {
                l.push((m.clone(), json!({ q: {} })));
            }
            for id in 1..=self.n {
                l.push((m.clone(), json!({"list_votes":{"proposal_id": id}})));
            }
            if self.old != Old::V1 {
                l.push((m.clone(), json!({"proposal_creation_policy":{}})));
            }
        }
        if self.old != Old::V1 {
            l.push((c.clone(), json!({"proposal_modules":{}})));
            l.push((c.clone(), json!({"list_sub_daos":{}})));
        }
        for p in self.a.pre.iter().flatten() {
            for q in ["proposal_module", "dao", "config", "proposal_submitted_hooks"] {
                l.push((p.clone(), json!({ q: {} })));
            }
            for id in 1..=self.n {
                l.push((p.clone(), json!({"deposit_info":{"proposal_id": id}})));
            }
            if self.old == Old::Approval {
                for q in ["approver", "pending_proposals", "completed_proposals"] {
                    l.push((p.clone(), json!({"query_extension":{"msg":{ q: {} }}})));
                }
            }
        }
        l
    }
    fn compare(&self, sc: &mut Sc) -> R {
        let t = &self.t;
        let id = |_: &mut Value| {};
        let two = self.a.mods.len() > 1;
        let by_addr = move |v: &mut Value| {
            fn strip(v: &mut Value, two: bool) {
                if let Some(l) = v.as_array_mut() {
                    if two {
                        for x in l.iter_mut() {
                            x.as_object_mut().map(|o| o.remove("prefix"));
                        }
                        l.sort_by_key(|x| x["address"].to_string());
                    }
                }
            }
            if v.is_array() {
                strip(v, two)
            } else {
                strip(&mut v["proposal_modules"], two);
                v.as_object_mut().map(|o| o.remove("created_timestamp"));
            }
        };
        let (ca, cb) = (self.a.core.as_str(), self.b.core.as_str());
        for q in [
            "admin", "admin_nomination", "config", "cw20_token_list", "cw721_token_list", "cw20_balances", "list_items", "pause_info", "voting_module", "list_sub_daos", "proposal_module_count", "dao_u_r_i", "info",
            "total_power_at_height",
        ] {
            let m = json!({ q: {} });
            t.same(sc, (ca, cb), (&m, &m), &id)?;
        }
        for q in ["proposal_modules", "active_proposal_modules", "dump_state"] {
            let m = json!({ q: {} });
            t.same(sc, (ca, cb), (&m, &m), &by_addr)?;
        }
        for p in &self.people {
            let m = json!({"voting_power_at_height":{"address": p}});
            t.same(sc, (ca, cb), (&m, &m), &id)?;
        }
        for (x, y) in self.a.mods.iter().zip(&self.b.mods) {
            for q in ["config", "list_proposals", "reverse_proposals", "proposal_count", "proposal_creation_policy", "proposal_hooks", "vote_hooks", "dao", "info", "next_proposal_id"] {
                let m = json!({ q: {} });
                t.same(sc, (x, y), (&m, &m), &id)?;
            }
            for k in 1..=self.n {
                for m in [json!({"list_votes":{"proposal_id": k}}), json!({"proposal":{"proposal_id": k}}), json!({"generic_proposal_info":{"proposal_id": k}})] {
                    t.same(sc, (x, y), (&m, &m), &id)?;
                }
            }
        }
        for (x, y) in self.a.pre.iter().zip(&self.b.pre) {
            if let (Some(x), Some(y)) = (x, y) {
                for q in ["proposal_module", "dao", "config", "proposal_submitted_hooks", "info"] {
                    let m = json!({ q: {} });
                    t.same(sc, (x, y), (&m, &m), &id)?;
                }
                for p in &self.people {
                    let m = json!({"can_propose":{"address": p}});
                    t.same(sc, (x, y), (&m, &m), &id)?;
                }
                for k in 1..=self.n {
                    let m = json!({"deposit_info":{"proposal_id": k}});
                    t.same(sc, (x, y), (&m, &m), &id)?;
                    if self.old == Old::Approval {
                        for m in [json!({"proposal":{"id": k}}), json!({"is_pending":{"id":k}}), json!({"completed_proposal_id_for_created_proposal_id":{"id":k}})] {
                            let m = json!({"query_extension":{"msg": m}});
                            t.same(sc, (x, y), (&m, &m), &id)?;
                        }
                    }
                }
                if self.old == Old::Approval {
                    for q in ["approver", "pending_proposals", "completed_proposals", "reverse_pending_proposals", "reverse_completed_proposals"] {
                        let m = json!({"query_extension":{"msg":{ q: {} }}});
                        t.same(sc, (x, y), (&m, &m), &id)?;
                    }
                }
            }
        }
        for (x, y) in self.a.hooks.iter().zip(&self.b.hooks) {
            let (l, r) = (sc.puppet_log(x), sc.puppet_log(y));
            let l: Vec<Value> = l.into_iter().map(|(f, m)| t.norm(&json!([f, m]))).collect();
            let r: Vec<Value> = r.into_iter().map(|(f, m)| t.norm(&json!([f, m]))).collect();
            ensure!(l == r, T, "twin-hooks", "hook receivers of the migrated modules were told {l:?}, those of the twins {r:?}");
            sc.checked(1);
        }
        // money
        for d in [DENOM, "udep"] {
            for (x, y) in std::iter::once((&self.a.core, &self.b.core))
                .chain(self.a.mods.iter().zip(&self.b.mods))
                .chain(self.a.pre.iter().flatten().zip(self.b.pre.iter().flatten()))
            {
                let (p, q) = (sc.bank(x, d), sc.bank(y, d));
                ensure!(p == q, T, "twin-funds", "{x} of the migrated DAO holds {p}{d}, its twin {q}");
                sc.checked(1);
            }
        }
        for (x, y) in std::iter::once((&self.a.core, &self.b.core)).chain(self.a.pre.iter().flatten().zip(self.b.pre.iter().flatten())) {
            let (p, q) = (sc.cw20_bal(&self.dep20, x), sc.cw20_bal(&self.dep20, y));
            ensure!(p == q, T, "twin-funds", "{x} of the migrated DAO holds {p} deposit tokens, its twin {q}");
            sc.checked(1);
        }
        Ok(())
    }
    fn migrate(&mut self, sc: &mut Sc) -> R {
        let qs = self.old_questions(sc);
        let old = ask(sc, &qs);
        // the releases must have agreed until here
        for ((c, q), o) in qs.iter().zip(&old) {
            let y = self.t.map.iter().find(|(a, _)| a == c).map(|(_, b)| b.clone()).unwrap();
            if let Ok(o) = o {
                let n = self.t.norm(&sc.q(&y, q).unwrap_or(Value::Null));
                if let Err(e) = contains(&self.t.norm(o), &n, &["deposit_info", "open_proposal_submission", "dao", "modules"]) {
                    sc.tick(&format!("mig.releases-disagreed:{}", msg_name(q)));
                    sc.note(format!("releases disagree on {q}: {e}"));
                    return Err(Viol::new(&[], "skip", ""));
                }
            }
        }
        if self.old == Old::V1 {
            return self.migrate_v1(sc, &qs, &old);
        }
        // every contract of the DAO, in some order
        let mut jobs: Vec<(String, &'static str, Value, String)> = vec![];
        jobs.push((self.a.core.clone(), "core", json!({"from_compatible":{}}), "chainadmin".into()));
        let mk = if self.multi() { "multi" } else { "single" };
        jobs.push((self.a.mods[0].clone(), mk, json!({"from_compatible":{}}), self.a.core.clone()));
        jobs.push((self.a.voting.clone(), "voting", json!({}), self.a.core.clone()));
        let mut policy = None;
        if let Some(p) = &self.a.pre[0] {
            let k = match self.old {
                Old::Multi => "pre-multi",
                Old::Approval => "pre-approval",
                _ => "pre-single",
            };
            if sc.chance(30) {
                policy = Some(sc.pick(&[
                    json!({"anyone":{"denylist":["voter0"]}}),
                    json!({"specific":{"dao_members":true,"allowlist":["outsider"],"denylist":[]}}),
                    json!({"specific":{"dao_members":false,"allowlist":["outsider","voter0"],"denylist":["voter1"]}}),
                ]));
            }
            jobs.push((p.clone(), k, json!({"from_under_v250":{"policy": policy}}), self.a.core.clone()));
        }
        use rand::seq::SliceRandom;
        jobs.shuffle(&mut sc.rng);
        for (c, k, m, by) in &jobs {
            let code = self.code[k];
            sc.migrate(by, c, m, code).map_err(|e| Viol::new(T, "migrate-refused", format!("{k} cannot be migrated to the current code: {e}")))?;
            if sc.chance(30) && m.get("from_under_v250").is_some() {
                let r = sc.migrate(by, c, m, code);
                ensure!(r.is_err(), T, "migrated-twice", "a pre-propose module was migrated from 2.4.1 twice");
            }
        }
        let mut drop = vec!["open_proposal_submission", "version", "info"];
        if policy.is_some() {
            drop.push("submission_policy");
        }
        kept(sc, &qs, &old, &drop)?;
        self.t.migrated = true;
        if let (Some(p), Some(pb)) = (policy, self.b.pre[0].clone()) {
            let m = json!({"update_config":{"deposit_info": self.predep, "submission_policy": p}});
            sc.exec(&self.b.core.clone(), &pb, &m, &[]).map_err(|e| Viol::new(T, "setup", e))?;
        }
        // the old core registers nothing the new one does not
        self.start(sc)
    }
    fn start(&mut self, sc: &mut Sc) -> R {
        for h in self.a.hooks.iter().chain(&self.b.hooks).cloned().collect::<Vec<_>>() {
            sc.exec("x-clear", &h, &json!({"clear_log":{}}), &[]).expect("clear");
        }
        sc.tick("mig.migrated");
        sc.nontrivial = true;
        self.compare(sc)
    }
    fn migrate_v1(&mut self, sc: &mut Sc, qs: &[Ask], old: &[Result<Value, String>]) -> R {
        let mut plan = vec![];
        for (i, m) in self.a.mods.iter().enumerate() {
            let l = sc.qm(T, m, &json!({"list_proposals":{}}))?;
            let pending = l["proposals"].as_array().unwrap().iter().any(|p| {
                let p = &p["proposal"];
                !p["deposit_info"].is_null() && p["deposit_info"]["deposit"] != "0" && p["status"] != "closed" && p["status"] != "executed"
            });
            let veto = if sc.chance(35) {
                Some(json!({"timelock_duration": dur(self.time, if self.time { 10 } else { 2 }), "vetoer": "vetoer", "early_execute": sc.chance(50), "veto_before_passed": sc.chance(50)}))
            } else {
                None
            };
            let close = sc.chance(50);
            let pre = sc.chance(40);
            plan.push((i, m.clone(), pending, veto, close, pre));
        }
        let pre_msg = json!({"deposit_info": null, "submission_policy": {"specific":{"dao_members":true,"allowlist":[],"denylist":[]}}, "extension": {}});
        let info = |pre: bool, code: u64| {
            if pre {
                json!({"module_may_propose":{"info":{"code_id":code,"msg":b64(&pre_msg),"admin":{"core_module":{}},"funds":[],"label":"pre"}}})
            } else {
                json!({"anyone_may_propose":{}})
            }
        };
        // outstanding deposits have no way to migrate: refused, and nothing is changed
        if let Some((_, m, _, _, close, _)) = plan.iter().find(|x| x.2).cloned() {
            let c = self.a.core.clone();
            let r = sc.migrate(&c, &m, &json!({"from_v1":{"close_proposal_on_execution_failure": close, "pre_propose_info": {"anyone_may_propose":{}}, "veto": null}}), self.code["single"]);
            ensure!(r.is_err(), T, "pending-deposit", "a module with an outstanding proposal deposit was migrated");
            sc.tick("mig.pending-deposit");
            // (migrate_contract leaves the old code in place when it fails)
            kept(sc, qs, old, &[])?;
            return Ok(());
        }
        // a veto that cannot work (a delay of another kind than the voting period, a vetoer that is no
        // address) is refused, and nothing is changed
        if sc.chance(25) {
            let (_, m, _, _, close, _) = plan[0].clone();
            let c = self.a.core.clone();
            let bad_unit = sc.chance(60);
            let veto = json!({"timelock_duration": dur(self.time != bad_unit, 20), "vetoer": if bad_unit { "vetoer" } else { "V" }, "early_execute": false, "veto_before_passed": false});
            let r = sc.migrate(&c, &m, &json!({"from_v1":{"close_proposal_on_execution_failure": close, "pre_propose_info": {"anyone_may_propose":{}}, "veto": veto}}), self.code["single"]);
            ensure!(r.is_err(), T, "impossible-veto", "a module was migrated with the veto {veto}");
            sc.tick("mig.impossible-veto");
            kept(sc, qs.clone(), old.clone(), &[])?;
        }
        let uri = if sc.chance(50) { Some("ipfs://dao") } else { None };
        let core_first = sc.chance(50);
        let (ca, cb) = (self.a.core.clone(), self.b.core.clone());
        let core_msg = json!({"from_v1":{"dao_uri": uri, "params": null}});
        for step in 0..2 {
            if (step == 0) == core_first {
                sc.migrate("chainadmin", &ca, &core_msg, self.code["core"]).map_err(|e| Viol::new(T, "migrate-refused", format!("the core cannot be migrated from v1: {e}")))?;
            } else {
                for (_, m, _, veto, close, pre) in &plan {
                    let msg = json!({"from_v1":{"close_proposal_on_execution_failure": close, "pre_propose_info": info(*pre, self.code["pre-single"]), "veto": veto}});
                    sc.migrate(&ca, m, &msg, self.code["single"]).map_err(|e| Viol::new(T, "migrate-refused", format!("the proposal module cannot be migrated from v1: {e}")))?;
                }
            }
        }
        // twice is refused
        let r = sc.migrate("chainadmin", &ca, &core_msg, self.code["core"]);
        ensure!(r.is_err(), T, "migrated-twice", "the core was migrated from v1 twice");
        for (_, m, _, _, close, _) in &plan {
            let veto = if sc.chance(50) { json!({"timelock_duration": dur(self.time, 20), "vetoer": "vetoer", "early_execute": false, "veto_before_passed": false}) } else { Value::Null };
            let r = sc.migrate(&ca, m, &json!({"from_v1":{"close_proposal_on_execution_failure": close, "pre_propose_info": {"anyone_may_propose":{}}, "veto": veto}}), self.code["single"]);
            ensure!(r.is_err(), T, "migrated-twice", "the proposal module was migrated from v1 twice");
        }
        kept(sc, qs, old, &["deposit_info"])?;
        self.t.migrated = true;
        // the twin is brought to the same terms
        for (i, _, _, veto, close, pre) in &plan {
            let q = self.b.mods[*i].clone();
            let mut m = sc.qm(T, &q, &json!({"config":{}}))?;
            m["veto"] = json!(veto);
            m["close_proposal_on_execution_failure"] = json!(close);
            sc.exec(&cb, &q, &json!({"update_config": m}), &[]).map_err(|e| Viol::new(T, "setup", e))?;
            sc.exec(&cb, &q, &json!({"update_pre_propose_info":{"info": info(*pre, self.code["pre-single"])}}), &[]).map_err(|e| Viol::new(T, "setup", e))?;
            self.vetoer |= veto.is_some();
            if *pre {
                let x = s(&sc.qm(T, &self.a.mods[*i], &json!({"proposal_creation_policy":{}}))?["module"]["addr"]);
                let y = s(&sc.qm(T, &q, &json!({"proposal_creation_policy":{}}))?["module"]["addr"]);
                self.t.link(&x, &y);
                self.a.pre[*i] = Some(x);
                self.b.pre[*i] = Some(y);
            }
        }
        if uri.is_some() {
            let mut c = sc.qm(T, &cb, &json!({"config":{}}))?;
            c["dao_uri"] = json!(uri);
            sc.exec(&cb, &cb, &json!({"update_config":{"config": c}}), &[]).ok();
        }
        let paused = sc.qm(T, &cb, &json!({"pause_info":{}}))?.get("paused").is_some();
        if paused && uri.is_some() {
            // a paused twin refuses the configuration
            return Err(Viol::new(&[], "skip", ""));
        }
        // all proposal modules are active, under prefixes of their own
        let pm = sc.qm(T, &ca, &json!({"active_proposal_modules":{}}))?;
        let mut pre: Vec<String> = pm.as_array().unwrap().iter().map(|x| s(&x["prefix"])).collect();
        pre.sort();
        pre.dedup();
        ensure!(pre.len() == self.a.mods.len(), T, "modules", "after the migration the active proposal modules are {pm}, v1 had {:?}", self.a.mods);
        sc.checked(1);
        self.start(sc)
    }
    fn run(sc: &mut Sc, old: Old) -> R {
        let mut w = Gw::new(sc, old)?;
        let n = sc.r(8, 45);
        let after = sc.r(6, 30);
        for _ in 0..n {
            w.op(sc)?;
        }
        let mut left = 25;
        while !w.t.migrated && left > 0 {
            w.migrate(sc)?;
            if !w.t.migrated {
                w.op(sc)?;
                if sc.chance(40) {
                    sc.advance(3, 15);
                }
                // settle the outstanding ones
                for i in 0..w.a.mods.len() {
                    let id = w.pid(sc, i);
                    for m in [json!({"close":{"proposal_id":id}}), json!({"execute":{"proposal_id":id}})] {
                        let (x, y) = (w.a.mods[i].clone(), w.b.mods[i].clone());
                        w.t.both(sc, ("voter0", "voter0"), (&x, &y), (&m, &m), (&[], &[]))?;
                    }
                }
            }
            left -= 1;
        }
        if !w.t.migrated {
            sc.tick("mig.never");
            return Ok(());
        }
        for _ in 0..after {
            w.op(sc)?;
            w.compare(sc)?;
        }
        let _ = (w.max, w.last_h);
        Ok(())
    }
}
pub fn v1_dao(sc: &mut Sc) -> R {
    Gw::run(sc, Old::V1)
}
pub fn v241_single(sc: &mut Sc) -> R {
    Gw::run(sc, Old::Single)
}
pub fn v241_multi(sc: &mut Sc) -> R {
    Gw::run(sc, Old::Multi)
}
pub fn v241_approval(sc: &mut Sc) -> R {
    Gw::run(sc, Old::Approval)
}

// ---------------------------------------------------------------------------------------------
// staking

struct St {
    token: String,
    stake: String,
    ext: Option<String>,
    dist: Option<String>,
    rtok: String,
    rden: &'static str,
    hook: String,
}
pub fn v1_staking(sc: &mut Sc) -> R {
    let c20 = sc.code(cw20_code());
    let pc = sc.code(puppet_code());
    let olds = sc.code(wrap!(cw20_stake_v1::contract));
    let olde = sc.code(wrap!(cw20_stake_external_rewards_v1::contract));
    let oldd = sc.code(wrap!(cw20_stake_reward_distributor_v1::contract));
    let news = sc.code(wrap!(cw20_stake::contract; migrate));
    let newe = sc.code(wrap!(cw20_stake_external_rewards::contract; migrate));
    let newd = sc.code(wrap!(cw20_stake_reward_distributor::contract; migrate));
    let people: Vec<String> = (0..3).map(|i| format!("staker{i}")).collect();
    let owner = if sc.chance(85) { Some("own") } else { None };
    let manager = if sc.chance(50) { Some("mgr") } else { None };
    let time = sc.chance(50);
    let unbond = if sc.chance(60) { Some(dur(time, sc.r(1, 4) * if time { 5 } else { 1 })) } else { None };
    let with_ext = owner.is_some() && sc.chance(60);
    let ext_native = sc.chance(50);
    let rdur = sc.r(1, 12);
    let with_dist = sc.chance(60);
    let rate = sc.r(1, 50_000);
    let unit = *[1u64, 1, 1000, 1_000_000].get(sc.r(0, 3) as usize).unwrap();
    let mut w = vec![];
    for (l, old) in [("A", true), ("B", false)] {
        let bal: Vec<Value> = people.iter().map(|p| p.as_str()).chain(["own", "donor"]).map(|p| json!({"address": p, "amount": "100000000000"})).collect();
        let ti = json!({"name":"tok","symbol":"TOK","decimals":6,"initial_balances":bal,"mint":null});
        let token = sc.must_init(c20, "creator", &ti, &[], &format!("{l}.token"))?;
        let rtok = sc.must_init(c20, "creator", &ti, &[], &format!("{l}.rtok"))?;
        let hook = sc.must_init(pc, "creator", &json!({}), &[], &format!("{l}.hook"))?;
        let rden = if old { "urewa" } else { "urewb" };
        for p in ["own", "mgr"] {
            sc.mint(p, 100_000_000_000, rden);
        }
        let mut m = json!({"owner": owner, "token_address": token, "unstaking_duration": unbond});
        if old {
            m["manager"] = json!(manager);
        }
        let adm = Some("chainadmin");
        let setup = |e: String| Viol::new(&["*"], "setup", e);
        let stake = sc.init(if old { olds } else { news }, "creator", &m, &[], &format!("{l}.stake"), adm).map_err(setup)?;
        let mut ext = None;
        if with_ext {
            let mut m = json!({"owner": owner, "staking_contract": stake, "reward_token": if ext_native { json!({"native": rden}) } else { json!({"cw20": rtok}) }, "reward_duration": rdur});
            if old {
                m["manager"] = json!(manager);
            }
            ext = Some(sc.init(if old { olde } else { newe }, "creator", &m, &[], &format!("{l}.ext"), adm).map_err(setup)?);
        }
        let mut dist = None;
        if with_dist {
            let m = json!({"owner": "own", "staking_addr": stake, "reward_rate": rate.to_string(), "reward_token": token});
            dist = Some(sc.init(if old { oldd } else { newd }, "creator", &m, &[], &format!("{l}.dist"), adm).map_err(setup)?);
        }
        w.push(St { token, stake, ext, dist, rtok, rden, hook });
    }
    let b = w.pop().unwrap();
    let a = w.pop().unwrap();
    let mut t = Tw { map: vec![], migrated: false };
    for (x, y) in [(&a.token, &b.token), (&a.stake, &b.stake), (&a.rtok, &b.rtok), (&a.hook, &b.hook)] {
        t.link(x, y);
    }
    t.link(a.rden, b.rden);
    if let (Some(x), Some(y)) = (&a.ext, &b.ext) {
        t.link(x, y);
        let own = owner.unwrap();
        t.both(sc, (own, own), (&a.stake, &b.stake), (&json!({"add_hook":{"addr": x}}), &json!({"add_hook":{"addr": y}})), (&[], &[]))?;
    }
    if let (Some(x), Some(y)) = (&a.dist, &b.dist) {
        t.link(x, y);
    }
    let at = sc.r(0, 30);
    let n = at + sc.r(6, 25);
    let mut heights = vec![sc.height()];
    let none: (&[Coin], &[Coin]) = (&[], &[]);
    let quiet = sc.chance(15);
    for i in 0..n {
        if i == at {
            // migrate
            let mut qs: Vec<Ask> = vec![];
            for q in ["total_staked_at_height", "total_value", "get_config", "get_hooks"] {
                qs.push((a.stake.clone(), json!({ q: {} })));
            }
            for p in &people {
                qs.push((a.stake.clone(), json!({"staked_value":{"address":p}})));
                qs.push((a.stake.clone(), json!({"claims":{"address":p}})));
                qs.push((a.stake.clone(), json!({"staked_balance_at_height":{"address":p}})));
                for h in &heights {
                    qs.push((a.stake.clone(), json!({"staked_balance_at_height":{"address":p,"height":h}})));
                    qs.push((a.stake.clone(), json!({"total_staked_at_height":{"height":h}})));
                }
                if let Some(e) = &a.ext {
                    qs.push((e.clone(), json!({"get_pending_rewards":{"address":p}})));
                }
            }
            for c in a.ext.iter().chain(&a.dist) {
                qs.push((c.clone(), json!({"info":{}})));
            }
            let old = ask(sc, &qs);
            let stake_owner = sc.qm(T, &a.stake, &json!({"get_config":{}}))?["owner"].clone();
            let mut jobs: Vec<(&String, u64, Value)> = vec![(&a.stake, news, stake_owner)];
            if let Some(e) = &a.ext {
                jobs.push((e, newe, sc.qm(T, e, &json!({"info":{}}))?["config"]["owner"].clone()));
            }
            if let Some(d) = &a.dist {
                jobs.push((d, newd, json!("own")));
            }
            use rand::seq::SliceRandom;
            jobs.shuffle(&mut sc.rng);
            for (c, code, own) in jobs {
                sc.migrate("chainadmin", c, &json!({"from_v1":{}}), code).map_err(|e| Viol::new(T, "migrate-refused", format!("{c} cannot be migrated from v1: {e}")))?;
                let r = sc.migrate("chainadmin", c, &json!({"from_v1":{}}), code);
                ensure!(r.is_err(), T, "migrated-twice", "{c} was migrated from v1 twice");
                let o = sc.qm(T, c, &json!({"ownership":{}}))?;
                ensure!(o["owner"] == own && o["pending_owner"].is_null(), T, "owner", "the owner of {c} was {own} before the migration; after it the ownership is {o}");
                sc.checked(2);
            }
            kept(sc, &qs, &old, &["owner", "manager"])?;
            t.migrated = true;
            sc.exec("x-clear", &a.hook, &json!({"clear_log":{}}), &[]).expect("clear");
            sc.exec("x-clear", &b.hook, &json!({"clear_log":{}}), &[]).expect("clear");
            sc.tick("mig.migrated");
            sc.nontrivial = true;
        }
        let p = sc.pick(&people);
        let big = sc.r(1, 1000) * unit;
        let k = if quiet && i < at { 9 } else { sc.weighted(&[22, 6, 14, 8, 4, 8, 6, 8, 3, 20, 5]) };
        match k {
            0 | 1 => {
                let (by, m) = if k == 0 { (p.as_str(), json!({"stake":{}})) } else { ("donor", json!({"fund":{}})) };
                let f = |to: &str| json!({"send":{"contract": to, "amount": big.to_string(), "msg": b64(&m)}});
                t.both(sc, (by, by), (&a.token, &b.token), (&f(&a.stake), &f(&b.stake)), none)?;
            }
            2 => {
                let have = u(&sc.qm(T, &b.stake, &json!({"staked_balance_at_height":{"address":p}}))?["balance"]) as u64;
                let x = if sc.chance(10) { have + 1 } else { sc.r(have.min(1), have) };
                if x > 0 {
                    let m = json!({"unstake":{"amount": x.to_string()}});
                    t.both(sc, (&p, &p), (&a.stake, &b.stake), (&m, &m), none)?;
                }
            }
            3 => {
                let m = json!({"claim":{}});
                t.both(sc, (&p, &p), (&a.stake, &b.stake), (&m, &m), none)?;
            }
            4 => {
                let by = sc.pick(&["own", "own", "mgr", "donor"]);
                let d = if sc.chance(70) { Some(dur(time, sc.r(1, 4) * if time { 5 } else { 1 })) } else { None };
                let mb = json!({"update_config":{"duration": d}});
                if t.migrated {
                    t.both(sc, (by, by), (&a.stake, &b.stake), (&mb, &mb), none)?;
                } else if by == "own" {
                    let ma = json!({"update_config":{"owner": owner, "manager": manager, "duration": d}});
                    t.both(sc, (by, by), (&a.stake, &b.stake), (&ma, &mb), none)?;
                }
            }
            5 => {
                if let (Some(x), Some(y)) = (&a.ext, &b.ext) {
                    let amt = sc.r(1, 1000) * rdur * if sc.chance(50) { 1 } else { 1000 };
                    if ext_native {
                        let m = json!({"fund":{}});
                        t.both(sc, ("own", "own"), (x, y), (&m, &m), (&coins(amt as u128, a.rden), &coins(amt as u128, b.rden)))?;
                    } else {
                        let f = |to: &str| json!({"send":{"contract": to, "amount": amt.to_string(), "msg": b64(&json!({"fund":{}}))}});
                        t.both(sc, ("own", "own"), (&a.rtok, &b.rtok), (&f(x), &f(y)), none)?;
                    }
                }
            }
            6 => {
                if let (Some(x), Some(y)) = (&a.ext, &b.ext) {
                    let m = json!({"claim":{}});
                    t.both(sc, (&p, &p), (x, y), (&m, &m), none)?;
                }
            }
            7 => {
                if let (Some(x), Some(y)) = (&a.dist, &b.dist) {
                    match sc.r(0, 5) {
                        0 | 1 => {
                            let amt = sc.r(1, 1_000_000).to_string();
                            let f = |to: &str| json!({"transfer":{"recipient": to, "amount": amt}});
                            t.both(sc, ("donor", "donor"), (&a.token, &b.token), (&f(x), &f(y)), none)?;
                        }
                        2 | 3 => {
                            let m = json!({"distribute":{}});
                            t.both(sc, ("donor", "donor"), (x, y), (&m, &m), none)?;
                        }
                        4 => {
                            let by = sc.pick(&["own", "own", "donor"]);
                            let m = json!({"withdraw":{}});
                            t.both(sc, (by, by), (x, y), (&m, &m), none)?;
                        }
                        _ => {
                            let by = sc.pick(&["own", "own", "donor"]);
                            let r = sc.r(1, 50_000).to_string();
                            let f = |st: &St, old: bool| {
                                let mut m = json!({"staking_addr": st.stake, "reward_rate": r, "reward_token": st.token});
                                if old {
                                    m["owner"] = json!("own");
                                }
                                json!({"update_config": m})
                            };
                            t.both(sc, (by, by), (x, y), (&f(&a, !t.migrated), &f(&b, false)), none)?;
                        }
                    }
                }
            }
            8 => {
                if let (Some(x), Some(y)) = (&a.ext, &b.ext) {
                    let m = json!({"update_reward_duration":{"new_duration": rdur}});
                    let by = if t.migrated { sc.pick(&["own", "own", "mgr"]) } else { "own" };
                    t.both(sc, (by, by), (x, y), (&m, &m), none)?;
                }
                let k = sc.pick(&["add_hook", "add_hook", "remove_hook"]);
                let by = sc.pick(&["own", "own", "donor"]);
                t.both(sc, (by, by), (&a.stake, &b.stake), (&json!({k:{"addr": a.hook}}), &json!({k:{"addr": b.hook}})), none)?;
            }
            9 => {
                let b = sc.r(1, 3);
                sc.advance(b, 5 * b);
                heights.push(sc.height());
                if heights.len() > 6 {
                    heights.remove(0);
                }
            }
            _ => {
                if t.migrated {
                    let c = sc.r(0, 2);
                    let (x, y) = match c {
                        1 if a.ext.is_some() => (a.ext.as_ref().unwrap(), b.ext.as_ref().unwrap()),
                        2 if a.dist.is_some() => (a.dist.as_ref().unwrap(), b.dist.as_ref().unwrap()),
                        _ => (&a.stake, &b.stake),
                    };
                    let by = sc.pick(&["own", "own", "nova", "mgr"]);
                    let m = json!({"update_ownership": sc.pick(&[json!({"transfer_ownership":{"new_owner":"nova","expiry":null}}), json!("accept_ownership"), json!("accept_ownership")])});
                    t.both(sc, (by, by), (x, y), (&m, &m), none)?;
                }
            }
        }
        if t.migrated {
            let id = |_: &mut Value| {};
            let mut qs = vec![];
            for q in ["total_staked_at_height", "total_value", "get_config", "get_hooks", "list_stakers", "ownership"] {
                qs.push(json!({ q: {} }));
            }
            for p in &people {
                for q in ["staked_value", "claims", "staked_balance_at_height"] {
                    qs.push(json!({q:{"address":p}}));
                }
                let h = heights[i as usize % heights.len()];
                qs.push(json!({"staked_balance_at_height":{"address":p,"height":h}}));
                qs.push(json!({"total_staked_at_height":{"height":h}}));
            }
            for q in &qs {
                t.same(sc, (&a.stake, &b.stake), (q, q), &id)?;
            }
            for (x, y) in a.ext.iter().zip(&b.ext).chain(a.dist.iter().zip(&b.dist)) {
                for q in [json!({"info":{}}), json!({"ownership":{}})] {
                    t.same(sc, (x, y), (&q, &q), &id)?;
                }
            }
            for (x, y) in a.ext.iter().zip(&b.ext) {
                for p in &people {
                    let q = json!({"get_pending_rewards":{"address":p}});
                    t.same(sc, (x, y), (&q, &q), &id)?;
                }
                let (p, q) = (sc.bank(x, a.rden), sc.bank(y, b.rden));
                ensure!(p == q, T, "twin-funds", "the migrated rewards contract holds {p}, its twin {q}");
            }
            for (ta, tb) in [(&a.token, &b.token), (&a.rtok, &b.rtok)] {
                for p in people.iter().map(|x| x.as_str()).chain(["own"]) {
                    let (x, y) = (sc.cw20_bal(ta, p), sc.cw20_bal(tb, p));
                    ensure!(x == y, T, "twin-funds", "{p} has {x} of the tokens of the migrated contracts, {y} of the twins'");
                    sc.checked(1);
                }
            }
            let (x, y) = (sc.puppet_log(&a.hook), sc.puppet_log(&b.hook));
            let x: Vec<Value> = x.into_iter().map(|(f, m)| t.norm(&json!([f, m]))).collect();
            let y: Vec<Value> = y.into_iter().map(|(f, m)| t.norm(&json!([f, m]))).collect();
            ensure!(x == y, T, "twin-hooks", "hooks of the migrated staking contract say {x:?}, those of its twin {y:?}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// same code

fn key(parts: &[&[u8]], last: &[u8]) -> Vec<u8> {
    let mut k = vec![];
    for p in parts {
        k.extend((p.len() as u16).to_be_bytes());
        k.extend(*p);
    }
    k.extend(last);
    k
}

impl Sc {
    /// Migrates some of the deployed contracts to the code they run.
    pub fn plain_migrations(&mut self) {
        use cosmwasm_std::{Order, Storage};
        use rand::Rng;
        let Some(mut rng) = self.prng.take() else { return };
        if rng.gen_range(0..100) < 30 {
            let pre = key(&[b"wasm", b"contracts"], b"");
            let mut end = pre.clone();
            *end.last_mut().unwrap() += 1;
            let all: Vec<(String, Value)> = self
                .app
                .storage()
                .range(Some(&pre), Some(&end), Order::Ascending)
                .map(|(k, v)| (String::from_utf8(k[pre.len()..].to_vec()).unwrap(), serde_json::from_slice(&v).unwrap()))
                .collect();
            for (addr, data) in all {
                if rng.gen_range(0..100) < 50 {
                    self.plain_one(&mut rng, &addr, data);
                }
            }
        }
        self.prng = Some(rng);
    }
    fn plain_one(&mut self, rng: &mut rand::rngs::StdRng, addr: &str, mut data: Value) {
        use cosmwasm_std::Storage;
        use rand::Rng;
        let dk = key(&[b"wasm", b"contracts"], addr.as_bytes());
        let ik = key(&[b"wasm", format!("contract_data/{addr}").as_bytes()], b"contract_info");
        let Some(info) = self.app.storage().get(&ik) else { return };
        let Ok(iv) = serde_json::from_slice::<Value>(&info) else { return };
        let name = iv["contract"].as_str().unwrap_or("").trim_start_matches("crates.io:").to_string();
        let old = data.clone();
        data["admin"] = json!("chainadmin");
        self.app.storage_mut().set(&dk, &serde_json::to_vec(&data).unwrap());
        let code = u(&data["code_id"]) as u64;
        let mut set = |sc: &mut Sc, v: &str| {
            let mut x = iv.clone();
            x["version"] = json!(v);
            sc.app.storage_mut().set(&ik, &serde_json::to_vec(&x).unwrap());
        };
        let lower = rng.gen_range(0..100) < 50;
        let mut want = None; // Some(ok?)
        let msg = match name.as_str() {
            "dao-dao-core" | "dao-proposal-single" => {
                let v1 = if name == "dao-dao-core" {
                    json!({"from_v1":{"dao_uri":"x","params":null}})
                } else {
                    json!({"from_v1":{"close_proposal_on_execution_failure":true,"pre_propose_info":{"anyone_may_propose":{}},"veto":null}})
                };
                if rng.gen_range(0..100) < 20 {
                    want = Some(false);
                    v1
                } else {
                    if lower {
                        set(self, "2.4.2");
                    }
                    want = Some(true);
                    json!({"from_compatible":{}})
                }
            }
            "dao-proposal-multiple" => {
                if lower {
                    set(self, "2.4.2");
                }
                want = Some(true);
                json!({"from_compatible":{}})
            }
            "cw20-stake" | "cw20-stake-external-rewards" | "cw20-stake-reward-distributor" => {
                want = Some(false);
                json!({"from_v1":{}})
            }
            "dao-pre-propose-single" | "dao-pre-propose-multiple" | "dao-pre-propose-approval-single" | "dao-pre-propose-approver" => {
                want = Some(false);
                json!({"from_under_v250":{"policy":{"anyone":{"denylist":[]}}}})
            }
            "dao-rewards-distributor" => {
                let k = rng.gen_range(0..4);
                if k == 3 {
                    // another contract that was given this code
                    let x = json!({"contract": "crates.io:other", "version": "2.4.2"});
                    self.app.storage_mut().set(&ik, &serde_json::to_vec(&x).unwrap());
                } else if k == 0 {
                    set(self, "2.4.2");
                } else if k == 1 {
                    set(self, "99.1.0");
                }
                want = Some(k == 0);
                json!({})
            }
            "cw-token-swap" | "cw-tokenfactory-issuer" | "cw-admin-factory" | "btsg-ft-factory" => {
                if lower {
                    set(self, "2.4.2");
                }
                want = Some(true);
                json!({})
            }
            x if x.starts_with("dao-voting-") && x != "dao-voting-cw721-roles" => {
                if lower {
                    set(self, "2.4.2");
                }
                want = Some(true);
                json!({})
            }
            _ => Value::Null,
        };
        if !msg.is_null() {
            let r = self.migrate("chainadmin", addr, &msg, code);
            self.migrations += 1;
            self.tick(&format!("mig.plain.{name}.{}", if r.is_ok() { "ok" } else { "refused" }));
            let no_entry = r.as_ref().err().map(|e| e.contains("migrate not implemented")).unwrap_or(false);
            if let (Some(w), false) = (want, no_entry) {
                if r.is_ok() != w && self.deferred.is_none() {
                    self.deferred = Some(Viol::new(
                        T,
                        if w { "migrate-refused" } else { "migrate-accepted" },
                        format!("{name} (version {}) migrated with {msg}: expected {}, got {r:?}", iv["version"], if w { "success" } else { "a refusal" }),
                    ));
                }
            }
            if want == Some(true) && r.is_ok() && self.deferred.is_none() {
                let now: Value = self.app.storage().get(&ik).and_then(|x| serde_json::from_slice(&x).ok()).unwrap_or(Value::Null);
                if now != iv {
                    self.deferred = Some(Viol::new(T, "migrated-version", format!("{name} migrated to the code of {iv} says it is {now}")));
                }
            }
            if want != Some(true) || no_entry {
                self.app.storage_mut().set(&ik, &info);
            }
        }
        // the chain's own record of the administrator is put back
        let mut now: Value = serde_json::from_slice(&self.app.storage().get(&dk).unwrap()).unwrap();
        now["admin"] = old["admin"].clone();
        self.app.storage_mut().set(&dk, &serde_json::to_vec(&now).unwrap());
    }
}

/// Runs a history of another monitor with migrations in between. If its model is contradicted and
/// is not in the same history without the migrations, the migrations are to blame.
pub fn plain(sc: &mut Sc, f: fn(&mut Sc) -> R) -> R {
    sc.prng = Some(rand::rngs::StdRng::seed_from_u64(sc.seed ^ 0x5eed));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(sc)));
    sc.prng = None;
    sc.nontrivial = sc.migrations > 0;
    if let Some(v) = sc.deferred.take() {
        return Err(v);
    }
    let text = match r {
        Ok(Ok(())) => return Ok(()),
        Ok(Err(v)) if v.sig == "skip" => return Err(v),
        Ok(Err(v)) => v.msg,
        Err(p) => p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
    };
    if sc.migrations == 0 {
        return Err(Viol::new(&["other"], "without-migration", text));
    }
    let mut again = Sc::replica(sc.seed, sc.thorough);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut again)));
    match r {
        Ok(Ok(())) => Err(Viol::new(T, "behaviour-changed", format!("with contracts migrated to the code they run: {text}; without the migrations the same history is in order"))),
        _ => Err(Viol::new(&["other"], "without-migration", text)),
    }
}
macro_rules! plains {
    ($($n:ident = $f:path),* $(,)?) => { $(pub fn $n(sc: &mut Sc) -> R { plain(sc, $f) })* }
}
plains! {
    p_core = crate::core::run,
    p_single = crate::gov::single_mixed,
    p_multi = crate::gov::multi_mixed,
    p_pre = crate::prepro::single,
    p_approval = crate::prepro::approval,
    p_cw20 = crate::stake::cw20,
    p_token = crate::stake::token,
    p_cw721 = crate::nft::cw721,
    p_onft = crate::nft::onft,
    p_cw4 = crate::members::cw4,
    p_rewards = crate::rewards::mixed,
    p_swap = crate::swap::swap,
    p_issuer = crate::issuer::issuer,
    p_ext = crate::extrew::pool,
}
