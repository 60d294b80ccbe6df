//! Proposal, vote and pre-propose hooks of the single- and multiple-choice modules, watched on
//! three modules of one DAO that run the same history: one calls hook receivers that fail now and
//! then, its twin calls receivers that never do, the third has none. Whatever the receivers do, the three
//! must decide alike.
use crate::gov::*;
use crate::*;
use std::collections::{BTreeMap, BTreeSet};

const T: &[&str] = &["C21"];

struct Side {
    bare: bool,
    module: String,
    addr: BTreeMap<String, String>,
}

struct W {
    core: String,
    kind: Kind,
    a: Side,
    b: Side,
    /// never has receivers
    c: Side,
    /// proposals whose messages change the receivers, once executed: not compared with `c` any more
    div: BTreeSet<u64>,
    ph: Vec<String>,
    vh: Vec<String>,
    pre: bool,
    fail: BTreeSet<String>,
    /// name -> what the receiver must have been told
    want: BTreeMap<String, Vec<Value>>,
    msgs: BTreeMap<u64, &'static str>,
    n: u64,
}

fn names(w: &Side, v: &Value) -> Vec<String> {
    v["hooks"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| w.addr.iter().find(|(_, a)| **a == s(x)).map(|(n, _)| n.clone()).unwrap_or(s(x)))
        .collect()
}

impl W {
    fn setup(sc: &mut Sc, kind: Kind) -> R<W> {
        let cc = sc.code(core_code());
        let vc = sc.code(vcw4_code());
        let gc = sc.code(cw4_code());
        let mc = match kind {
            Kind::Single => sc.code(single_code()),
            Kind::Multi => sc.code(multi_code()),
        };
        let pc = sc.code(puppet_code());
        let total = 6;
        let mut cfg = World::rand_cfg(sc, kind, total);
        cfg.min = None;
        // proposals that are decided at birth change no status when their proposer votes
        if let Thr::Count(c) = cfg.thr {
            cfg.thr = Thr::Count(c.min(total));
        }
        cfg.max = cfg.max.max(if cfg.time { 5 } else { 1 });
        let pre = sc.chance(60);
        let mut pm = cfg.json(kind);
        pm["pre_propose_info"] = if pre {
            json!({"module_may_propose":{"info":{"code_id":pc,"msg":b64(&json!({})),"admin":null,"funds":[],"label":"pre"}}})
        } else {
            json!({"anyone_may_propose":{}})
        };
        let vm = json!({"group_contract":{"new":{"cw4_group_code_id":gc,"initial_members":[{"addr":"ann","weight":1},{"addr":"bob","weight":2},{"addr":"cat","weight":3}]}}});
        let core = sc.must_init(cc, "x", &dao_init(vc, &vm, &[(mc, pm.clone()), (mc, pm.clone()), (mc, pm)], json!({})), &[], "core")?;
        let ms = sc.qm(T, &core, &json!({"proposal_modules":{}}))?;
        sc.mint(&core, 1_000_000, DENOM);
        let mut sides = vec![];
        for (i, l) in ["A", "B", "C"].iter().enumerate() {
            let module = s(&ms[i]["address"]);
            sc.label(&module, l);
            let mut addr = BTreeMap::new();
            for n in ["h0", "h1", "h2"] {
                addr.insert(n.to_string(), sc.must_init(pc, "x", &json!({}), &[], n)?);
            }
            addr.insert("ghost".into(), if i == 0 { "ghost".into() } else { sc.must_init(pc, "x", &json!({}), &[], "ghost")? });
            let p = sc.qm(T, &module, &json!({"proposal_creation_policy":{}}))?;
            if pre {
                let a = s(&p["module"]["addr"]);
                sc.label(&a, "pre");
                addr.insert("pre".into(), a);
            }
            sides.push(Side { module, addr, bare: i == 2 });
        }
        sc.advance(1, 5);
        let c = sides.pop().unwrap();
        let b = sides.pop().unwrap();
        let a = sides.pop().unwrap();
        Ok(W { core, kind, a, b, c, div: BTreeSet::new(), ph: vec![], vh: vec![], pre, fail: BTreeSet::from(["ghost".to_string()]), want: BTreeMap::new(), msgs: BTreeMap::new(), n: 0 })
    }
    /// many healthy receivers besides the usual ones
    fn crowd(&mut self, sc: &mut Sc) -> R {
        let pc = sc.code(puppet_code());
        for k in 3..sc.r(11, 16) {
            let name = format!("h{k}");
            for side in [&mut self.a, &mut self.b] {
                let a = sc.must_init(pc, "x", &json!({}), &[], &name)?;
                side.addr.insert(name.clone(), a);
            }
            for side in [&self.a, &self.b] {
                for which in ["proposal", "vote"] {
                    let r = sc.exec(&self.core.clone(), &side.module, &Self::hook_msg(which, true, &side.addr[&name]), &[]);
                    ensure!(r.is_ok(), T, "hook-register", "adding {name} as {which} hook: {r:?}");
                }
            }
            self.ph.push(name.clone());
            self.vh.push(name);
        }
        sc.tick("crowd-of-receivers");
        Ok(())
    }
    fn props(&self, sc: &Sc, side: &Side) -> R<BTreeMap<u64, Value>> {
        let v = sc.qm(T, &side.module, &json!({"list_proposals":{"start_after":null,"limit":200}}))?;
        Ok(v["proposals"].as_array().unwrap().iter().map(|p| (p["id"].as_u64().unwrap(), p["proposal"].clone())).collect())
    }
    fn hook_msg(kind: &str, add: bool, addr: &str) -> Value {
        json!({ format!("{}_{kind}_hook", if add { "add" } else { "remove" }): {"address": addr} })
    }
    /// runs one message on both sides; returns whether it succeeded on the twin
    fn both(&mut self, sc: &mut Sc, who: &dyn Fn(&Side) -> String, msg: &dyn Fn(&Side) -> Value, on: Option<u64>, what: &str) -> R<bool> {
        let before = self.props(sc, &self.b)?;
        let rb = {
            let (w, m, c) = (who(&self.b), msg(&self.b), self.b.module.clone());
            sc.exec(&w, &c, &m, &[])
        };
        let after = self.props(sc, &self.b)?;
        let unlike = on.map(|id| what == "execute" && ["hook", "detach"].contains(self.msgs.get(&id).unwrap_or(&""))).unwrap_or(false);
        if unlike {
            self.div.insert(on.unwrap());
        }
        if !on.map(|id| self.div.contains(&id)).unwrap_or(false) {
            let (w, m, c) = (who(&self.c), msg(&self.c), self.c.module.clone());
            let rc = sc.exec(&w, &c, &m, &[]);
            ensure!(
                rc.is_ok() == rb.is_ok(),
                T,
                "receivers-change-outcome",
                "{what} of proposal {on:?} with healthy receivers {:?} of proposals and {:?} of votes: {rb:?}, without receivers {rc:?}",
                self.ph,
                self.vh
            );
        }
        // what the receivers must be told, in order
        let ok = rb.is_ok();
        let mut plan: Vec<(&str, Value)> = vec![];
        let bm = self.b.module.clone();
        if ok {
            let id = on.unwrap_or(after.len() as u64);
            let st = |m: &BTreeMap<u64, Value>| m.get(&id).map(|p| status_name(&p["status"])).unwrap_or("open".into());
            let change = |old: &str, new: &str| ("p", json!({"proposal_hook":{"proposal_status_changed":{"id":id,"old_status":old,"new_status":new}}}));
            let m = msg(&self.b);
            let vote = |v: &Value, who: &str| {
                let v = if self.kind == Kind::Multi { v["option_id"].to_string() } else { s(v) };
                ("v", json!({"vote_hook":{"new_vote":{"proposal_id":id,"voter":who,"vote":v}}}))
            };
            match what {
                "propose" => {
                    let b = &m["propose"];
                    let proposer = b["proposer"].as_str().map(|x| x.to_string()).unwrap_or(who(&self.b));
                    plan.push(("p", json!({"proposal_hook":{"new_proposal":{"id":id,"proposer":proposer}}})));
                    if !b["vote"].is_null() {
                        let new = st(&after);
                        if new != "open" {
                            plan.push(change("open", &new));
                        }
                        plan.push(vote(&b["vote"]["vote"], &proposer));
                    }
                }
                "vote" => {
                    let (old, new) = (st(&before), st(&after));
                    if old != new {
                        plan.push(change(&old, &new));
                    }
                    plan.push(vote(&m["vote"]["vote"], &who(&self.b)));
                }
                _ => {
                    let new = match what {
                        "execute" => "executed",
                        "close" => "closed",
                        _ => "vetoed",
                    };
                    plan.push(change(&st(&before), new));
                    if self.pre {
                        plan.push(("pre", json!({"proposal_completed_hook":{"proposal_id":id,"new_status":new}})));
                    }
                }
            }
        }
        // lists after the executed messages, before the calls
        let lp = names(&self.b, &sc.qm(T, &bm, &json!({"proposal_hooks":{}}))?);
        let lv = names(&self.b, &sc.qm(T, &bm, &json!({"vote_hooks":{}}))?);
        let pol_b = sc.qm(T, &bm, &json!({"proposal_creation_policy":{}}))?;
        let detached = self.pre && pol_b.get("anyone").is_some();
        let mut fails_p = BTreeSet::new();
        let mut fails_v = BTreeSet::new();
        let mut pre_failed = false;
        // how an index-keyed removal would go
        let (mut xp, mut xv, mut xok) = (lp.clone(), lv.clone(), true);
        for (k, _) in &plan {
            match *k {
                "pre" => pre_failed = self.fail.contains("pre"),
                k => {
                    let snap = if k == "p" { self.ph.clone() } else { self.vh.clone() };
                    for (i, h) in snap.iter().enumerate() {
                        if self.fail.contains(h) {
                            let (f, x) = if k == "p" { (&mut fails_p, &mut xp) } else { (&mut fails_v, &mut xv) };
                            f.insert(h.clone());
                            if i < x.len() {
                                x.remove(i);
                            } else {
                                xok = false;
                            }
                        }
                    }
                }
            }
        }
        let ip: Vec<String> = lp.iter().filter(|h| !fails_p.contains(*h)).cloned().collect();
        let iv: Vec<String> = lv.iter().filter(|h| !fails_v.contains(*h)).cloned().collect();
        let xdetach = detached && pre_failed;
        let ra = {
            let (w, m, c) = (who(&self.a), msg(&self.a), self.a.module.clone());
            sc.exec(&w, &c, &m, &[])
        };
        if !fails_p.is_empty() || !fails_v.is_empty() {
            sc.tick("hook-failed");
        }
        if pre_failed {
            sc.tick("pre-propose-hook-failed");
        }
        if ra.is_ok() != ok {
            let sig = if ok && xdetach && ra.is_err() {
                "detach-failing-pre-propose"
            } else if ok && !xok && ra.is_err() {
                "hook-index-shift"
            } else {
                "hook-changes-outcome"
            };
            return Err(Viol::new(T, sig, format!("{what} of proposal {on:?}: receivers failing {:?} of proposal hooks {:?} and vote hooks {:?}: with them {ra:?}, without failures {rb:?}", self.fail, self.ph, self.vh)));
        }
        let am = self.a.module.clone();
        let gp = names(&self.a, &sc.qm(T, &am, &json!({"proposal_hooks":{}}))?);
        let gv = names(&self.a, &sc.qm(T, &am, &json!({"vote_hooks":{}}))?);
        if gp != ip || gv != iv {
            let sig = if gp == xp && gv == xv { "hook-index-shift" } else { "hook-list" };
            return Err(Viol::new(T, sig, format!("after {what} with failing receivers {:?}: proposal hooks {gp:?} and vote hooks {gv:?}, expected {ip:?} and {iv:?}", self.fail)));
        }
        let pol_a = sc.qm(T, &am, &json!({"proposal_creation_policy":{}}))?;
        let anyone = detached || pre_failed || !self.pre;
        ensure!(pol_a.get("anyone").is_some() == anyone, T, "policy", "creation policy {pol_a} after {what}, pre-propose module failing: {pre_failed}");
        // deliveries
        for (k, ev) in plan {
            let to = match k {
                "p" => self.ph.clone(),
                "v" => self.vh.clone(),
                _ => vec!["pre".to_string()],
            };
            for h in to {
                if !self.fail.contains(&h) {
                    self.want.entry(h).or_default().push(ev.clone());
                    sc.tick("hook-delivered");
                }
            }
        }
        // keep the twin's registrations in step
        let core = self.core.clone();
        for (kind, have, want) in [("proposal", &lp, &ip), ("vote", &lv, &iv)] {
            for h in have {
                if !want.contains(h) {
                    let r = sc.exec(&core, &bm, &Self::hook_msg(kind, false, &self.b.addr[h]), &[]);
                    ensure!(r.is_ok(), T, "hook-register", "{r:?}");
                }
            }
        }
        if pre_failed && !detached {
            let r = sc.exec(&core, &bm, &json!({"update_pre_propose_info":{"info":{"anyone_may_propose":{}}}}), &[]);
            ensure!(r.is_ok(), T, "policy-update", "{r:?}");
        }
        if self.pre && anyone {
            let r = sc.exec(&core, &self.c.module.clone(), &json!({"update_pre_propose_info":{"info":{"anyone_may_propose":{}}}}), &[]);
            ensure!(r.is_ok(), T, "policy-update", "{r:?}");
        }
        self.ph = ip;
        self.vh = iv;
        self.pre = !anyone;
        self.compare(sc)?;
        Ok(ok)
    }
    fn compare(&self, sc: &mut Sc) -> R {
        let pa = self.props(sc, &self.a)?;
        let pb = self.props(sc, &self.b)?;
        ensure!(pa.len() == pb.len(), T, "twin", "{} proposals, twin has {}", pa.len(), pb.len());
        for (id, x) in &pa {
            let y = &pb[id];
            for f in ["status", "votes", "total_power", "proposer", "expiration", "start_height", "veto"] {
                ensure!(x[f] == y[f], T, "twin", "proposal {id}: {f} is {}, the twin with healthy receivers has {}", x[f], y[f]);
            }
            sc.checked(1);
        }
        for (id, x) in self.props(sc, &self.c)? {
            if !self.div.contains(&id) {
                for f in ["status", "votes", "total_power", "proposer", "expiration", "start_height", "veto"] {
                    ensure!(x[f] == pb[&id][f], T, "twin", "proposal {id}: {f} is {}, the twin without receivers has {}", pb[&id][f], x[f]);
                }
                sc.checked(1);
            }
        }
        if let Some(id) = pa.keys().last() {
            let q = json!({"list_votes":{"proposal_id":id,"start_after":null,"limit":30}});
            let (x, y) = (sc.qm(T, &self.a.module, &q)?, sc.qm(T, &self.b.module, &q)?);
            ensure!(x == y, T, "twin", "ballots of {id}: {x}, twin {y}");
        }
        Ok(())
    }
    fn logs(&self, sc: &mut Sc) -> R {
        for (n, a) in &self.a.addr {
            if n == "ghost" {
                continue;
            }
            let mut got = sc.puppet_log(a);
            for (_, m) in &mut got {
                for k in ["old_status", "new_status"] {
                    // a time lock is reported with its end, in wording of no interest here
                    if let Some(x) = m.pointer_mut(&format!("/proposal_hook/proposal_status_changed/{k}")) {
                        if s(x).starts_with("veto_timelock") {
                            *x = json!("veto_timelock");
                        }
                    }
                }
            }
            let want = self.want.get(n).cloned().unwrap_or_default();
            ensure!(
                got.len() == want.len() && got.iter().zip(&want).all(|((f, m), w)| *f == self.a.module && m == w),
                T,
                "hook-log",
                "receiver {n}: expected {want:?}, got {got:?}"
            );
            sc.checked(1);
        }
        Ok(())
    }
    fn ballot(&self, sc: &mut Sc) -> Value {
        match self.kind {
            Kind::Single => json!(sc.pick(&["yes", "yes", "yes", "no", "abstain"])),
            Kind::Multi => json!({ "option_id": sc.pick(&[0, 0, 0, 1, 2]) }),
        }
    }
    fn propose(&mut self, sc: &mut Sc) -> R {
        self.n += 1;
        let n = self.n;
        let who = sc.pick(&["ann", "bob", "cat"]).to_string();
        let vote = if sc.chance(45) { json!({"vote": self.ballot(sc), "rationale": null}) } else { Value::Null };
        let kind = sc.pick(&["none", "pay", "pay", "fail", "hook", "hook", "detach"]);
        let which = sc.pick(&["proposal", "vote"]);
        let add = sc.chance(40);
        let target = sc.pick(&["h0", "h1", "h2", "ghost"]);
        let pre = self.pre;
        let single = self.kind == Kind::Single;
        let direct = who.clone();
        let msg = move |side: &Side| {
            let call = |m: Value| json!({"wasm":{"execute":{"contract_addr":side.module,"msg":b64(&m),"funds":[]}}});
            let pay = |a: u64| json!({"bank":{"send":{"to_address":"payee","amount":[{"denom":DENOM,"amount":a.to_string()}]}}});
            let msgs = match kind {
                "none" => vec![],
                "hook" | "detach" if side.bare => vec![],
                "pay" => vec![pay(1)],
                "fail" => vec![pay(1), pay(1_000_000_000)],
                "hook" => vec![call(Self::hook_msg(which, add, &side.addr[target]))],
                _ => vec![call(json!({"update_pre_propose_info":{"info":{"anyone_may_propose":{}}}}))],
            };
            let mut p = json!({"title":format!("p{n}"),"description":"d","proposer": if pre { json!(who) } else { Value::Null }, "vote": vote});
            if single {
                p["msgs"] = json!(msgs);
            } else {
                p["choices"] = json!({"options":[{"title":"a","description":"a","msgs":msgs},{"title":"b","description":"b","msgs":msgs}]});
            }
            json!({ "propose": p })
        };
        let sender = move |side: &Side| if pre { side.addr["pre"].clone() } else { direct.clone() };
        let ok = self.both(sc, &sender, &msg, None, "propose")?;
        if ok {
            let id = self.props(sc, &self.b)?.len() as u64;
            self.msgs.insert(id, kind);
            sc.nontrivial |= !self.ph.is_empty() || !self.vh.is_empty() || self.pre;
        }
        Ok(())
    }
}

fn run(sc: &mut Sc, kind: Kind) -> R {
    let mut w = W::setup(sc, kind)?;
    if sc.chance(6) {
        w.crowd(sc)?;
    }
    let n = sc.r(20, if sc.thorough { 90 } else { 45 });
    for k in 0..n {
        let live: Vec<u64> = w.props(sc, &w.b)?.keys().cloned().collect();
        let id = if live.is_empty() { 1 } else if sc.chance(70) { *live.last().unwrap() } else { sc.pick(&live) };
        match if k < 3 { 6 } else { sc.weighted(&[16, 26, 14, 8, 5, 8, 14, 14]) } {
            0 => w.propose(sc)?,
            1 => {
                let who = sc.pick(&["ann", "bob", "cat", "cat", "zed"]).to_string();
                let v = w.ballot(sc);
                w.both(sc, &|_| who.clone(), &|_| json!({"vote":{"proposal_id":id,"vote":v,"rationale":null}}), Some(id), "vote")?;
            }
            2 => {
                let who = sc.pick(&["ann", "cat", "vetoer"]).to_string();
                w.both(sc, &|_| who.clone(), &|_| json!({"execute":{"proposal_id":id}}), Some(id), "execute")?;
            }
            3 => {
                w.both(sc, &|_| "zed".into(), &|_| json!({"close":{"proposal_id":id}}), Some(id), "close")?;
            }
            4 => {
                w.both(sc, &|_| "vetoer".into(), &|_| json!({"veto":{"proposal_id":id}}), Some(id), "veto")?;
            }
            5 => {
                let t = sc.pick(&["h0", "h1", "h2", "pre"]);
                if t == "pre" && (!w.a.addr.contains_key("pre") || sc.chance(70)) {
                    continue;
                }
                let f = !w.fail.contains(t);
                let a = w.a.addr[t].clone();
                let _ = sc.exec("x", &a, &json!({"set_mode": if f { "fail" } else { "ok" }}), &[]);
                if f {
                    w.fail.insert(t.into());
                } else {
                    w.fail.remove(t);
                }
            }
            6 => {
                let which = sc.pick(&["proposal", "vote"]);
                let add = sc.chance(75);
                let t = sc.pick(&["h0", "h1", "h2", "h0", "h1", "h2", "ghost"]);
                let by_dao = sc.chance(90);
                let list = if which == "proposal" { &mut w.ph } else { &mut w.vh };
                let ok = by_dao && list.iter().any(|x| x == t) != add;
                if ok {
                    if add {
                        list.push(t.into());
                    } else {
                        list.retain(|x| x != t);
                    }
                }
                let who = if by_dao { w.core.clone() } else { "ann".into() };
                for side in [&w.a, &w.b] {
                    let r = sc.exec(&who, &side.module, &W::hook_msg(which, add, &side.addr[t]), &[]);
                    ensure!(r.is_ok() == ok, T, "hook-register", "{} {t} as {which} hook by {who}: expected ok={ok}, got {r:?}", if add { "adding" } else { "removing" });
                    let l = names(side, &sc.qm(T, &side.module, &json!({format!("{which}_hooks"):{}}))?);
                    let want = if which == "proposal" { &w.ph } else { &w.vh };
                    ensure!(l == *want, T, "hook-list", "{which} hooks {l:?}, expected {want:?}");
                }
            }
            _ => {
                let d = sc.r(1, 6);
                sc.advance(d, d * 5);
            }
        }
        if sc.chance(40) {
            w.logs(sc)?;
        }
    }
    w.logs(sc)
}
pub fn single(sc: &mut Sc) -> R {
    run(sc, Kind::Single)
}
pub fn multi(sc: &mut Sc) -> R {
    run(sc, Kind::Multi)
}
