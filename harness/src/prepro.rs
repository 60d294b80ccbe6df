//! Pre-propose world: a DAO whose proposals come through a deposit-taking pre-propose module
//! (single, multiple, or approval with a person or an approver DAO deciding), with a ledger that
//! predicts every balance after every step.
use crate::gov::*;
use crate::model::HookBook;
use crate::*;
use cosmwasm_std::{coin, Coin};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    N(String),
    C(String),
}
impl Tok {
    pub fn denom(&self) -> Value {
        match self {
            Tok::N(d) => json!({ "native": d }),
            Tok::C(a) => json!({ "cw20": a }),
        }
    }
    pub fn bal(&self, sc: &Sc, who: &str) -> u128 {
        match self {
            Tok::N(d) => sc.bank(who, d),
            Tok::C(a) => sc.cw20_bal(a, who),
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum PKind {
    Single,
    Multi,
    Approval,
}
#[derive(Clone, Debug, PartialEq)]
struct Dep {
    tok: usize,
    amount: u128,
    policy: &'static str,
}
#[derive(Clone, Debug)]
struct Policy {
    specific: bool,
    members: bool,
    allow: Vec<String>,
    deny: Vec<String>,
}
impl Policy {
    fn json(&self) -> Value {
        if self.specific {
            json!({"specific":{"dao_members":self.members,"allowlist":self.allow,"denylist":self.deny}})
        } else {
            json!({"anyone":{"denylist":self.deny}})
        }
    }
    fn valid(&self) -> bool {
        !self.specific || (!self.deny.iter().any(|d| self.allow.contains(d)) && (self.members || !self.allow.is_empty()))
    }
    fn allows(&self, who: &str, member: bool) -> bool {
        if self.deny.iter().any(|d| d == who) {
            return false;
        }
        !self.specific || self.allow.iter().any(|a| a == who) || (self.members && member)
    }
}
#[derive(Clone, Debug)]
struct PP {
    dep: Option<Dep>,
    proposer: String,
    title: String,
    done: bool,
    approval: Option<u64>,
    msgs: Vec<Value>,
}
#[derive(Clone, Debug, PartialEq)]
enum St {
    Pending,
    Approved(u64),
    Rejected,
}
#[derive(Clone, Debug)]
struct Pre {
    id: u64,
    st: St,
    dep: Option<Dep>,
    proposer: String,
    title: String,
    msgs: Vec<Value>,
    vote: Value,
    /// number of the approver DAO's proposal
    ap: Option<u64>,
}
struct W {
    kind: PKind,
    unit: u128,
    core: String,
    group: String,
    module: String,
    pre: String,
    toks: Vec<Tok>,
    vtok: Option<usize>,
    users: Vec<String>,
    members: BTreeMap<String, u64>,
    cfg: Option<Dep>,
    pol: Policy,
    led: BTreeMap<(String, usize), u128>,
    props: Vec<PP>,
    pres: Vec<Pre>,
    approver: String,
    ap: Option<Ap>,
    /// told of every submission (the approver contract, which is told first, left out)
    hooks: HookBook,
    n: u64,
}
/// the approver DAO
struct Ap {
    core: String,
    module: String,
    contract: String,
    /// approver proposal id -> approval id
    props: Vec<(u64, bool)>,
    attached: bool,
    is_approver: bool,
}

impl W {
    /// many pre-proposals submitted and decided in a row, so that listings run over several pages
    fn burst(&mut self, sc: &mut Sc) -> R {
        for _ in 0..sc.r(8, 14) {
            self.propose(sc)?;
            self.decide(sc)?;
        }
        for _ in 0..sc.r(4, 12) {
            self.decide(sc)?;
        }
        sc.tick("burst");
        self.check(sc)
    }
    fn tags(&self) -> &'static [&'static str] {
        if self.kind == PKind::Approval {
            &["C11", "C12"]
        } else {
            &["C11"]
        }
    }
    fn mv(&mut self, from: &str, to: &str, tok: usize, a: u128) {
        *self.led.get_mut(&(from.to_string(), tok)).unwrap() -= a;
        *self.led.get_mut(&(to.to_string(), tok)).unwrap() += a;
    }
    fn bal(&self, who: &str, tok: usize) -> u128 {
        self.led[&(who.to_string(), tok)]
    }
    fn rand_dep(&self, sc: &mut Sc) -> Option<Dep> {
        if sc.chance(20) {
            return None;
        }
        Some(Dep {
            tok: sc.r(0, self.toks.len() as u64 - 1) as usize,
            amount: sc.r(1, 60) as u128 * self.unit,
            policy: sc.pick(&["always", "only_passed", "never"]),
        })
    }
    fn rand_pol(&self, sc: &mut Sc) -> Policy {
        let some = |sc: &mut Sc, users: &[String], pct: u32| users.iter().filter(|_| sc.chance(pct)).cloned().collect::<Vec<_>>();
        let specific = sc.chance(60);
        Policy {
            specific,
            members: specific && sc.chance(60),
            allow: if specific { some(sc, &self.users, 35) } else { vec![] },
            deny: some(sc, &self.users, 15),
        }
    }
    fn dep_in(&self, sc: &mut Sc, d: &Option<Dep>) -> Value {
        match d {
            None => Value::Null,
            Some(d) => {
                let denom = if Some(d.tok) == self.vtok && sc.chance(70) {
                    let t = match self.toks[d.tok] {
                        Tok::N(_) => "native",
                        Tok::C(_) => "cw20",
                    };
                    json!({"voting_module_token":{"token_type":t}})
                } else {
                    json!({"token":{"denom":self.toks[d.tok].denom()}})
                };
                json!({"denom":denom,"amount":d.amount.to_string(),"refund_policy":d.policy})
            }
        }
    }
    fn dep_out(&self, d: &Option<Dep>) -> Value {
        match d {
            None => Value::Null,
            Some(d) => json!({"denom":self.toks[d.tok].denom(),"amount":d.amount.to_string(),"refund_policy":d.policy}),
        }
    }
    fn member(&self, who: &str) -> bool {
        self.members.get(who).copied().unwrap_or(0) > 0
    }

    fn new(sc: &mut Sc, kind: PKind) -> R<W> {
        let users: Vec<String> = ["ann", "bob", "cat", "dan", "eve"].iter().map(|x| x.to_string()).collect();
        let (cc, c20, c4) = (sc.code(core_code()), sc.code(cw20_code()), sc.code(cw4_code()));
        let mcode = if kind == PKind::Multi { sc.code(multi_code()) } else { sc.code(single_code()) };
        let pcode = match kind {
            PKind::Single => sc.code(wrap!(dao_pre_propose_single::contract; migrate)),
            PKind::Multi => sc.code(wrap!(dao_pre_propose_multiple::contract; migrate)),
            PKind::Approval => sc.code(wrap!(dao_pre_propose_approval_single::contract; migrate)),
        };
        // what one token is worth: deposits of a few units, or of very many
        let unit = match sc.r(0, 19) {
            0 => 100_000_000_000,
            1 => 123_456_789_012_345_678_901,
            _ => 1,
        };
        let mut toks = vec![Tok::N("udep".into()), Tok::N("ualt".into())];
        for i in 0..2 {
            let bals: Vec<Value> = users.iter().map(|x| json!({"address":x,"amount":(500*unit).to_string()})).collect();
            let a = sc.must_init(c20, "x", &json!({"name":"token","symbol":"TOK","decimals":6,"initial_balances":bals,"mint":null}), &[], &format!("cw20{i}"))?;
            toks.push(Tok::C(a));
        }
        let mut members = BTreeMap::new();
        for (i, x) in users.iter().enumerate().take(3) {
            members.insert(x.clone(), if i == 0 { sc.r(1, 5) } else { sc.r(1, 3) });
        }
        for x in &users {
            sc.mint(x, 500 * unit, "udep");
            sc.mint(x, 500 * unit, "ualt");
        }
        // voting: cw4 mostly; token staking or cw20 staking to exercise voting-module deposits
        let style = sc.weighted(&[60, 20, 20]);
        let (vcode, vmsg) = match style {
            0 => {
                (sc.code(vcw4_code()), json!({"group_contract":{"new":{"cw4_group_code_id":c4,"initial_members":members.iter().map(|(a,w)| json!({"addr":a,"weight":w})).collect::<Vec<_>>()}}}))
            }
            1 => {
                for x in &users {
                    sc.mint(x, 600 * unit, "uvote");
                }
                toks.push(Tok::N("uvote".into()));
                (sc.code(wrap!(dao_voting_token_staked::contract; reply)), json!({"token_info":{"existing":{"denom":"uvote"}},"unstaking_duration":null,"active_threshold":null}))
            }
            _ => {
                let bals: Vec<Value> = users.iter().map(|x| json!({"address":x,"amount":(600*unit).to_string()})).collect();
                let a = sc.must_init(c20, "x", &json!({"name":"token","symbol":"TOK","decimals":6,"initial_balances":bals,"mint":null}), &[], "vote20")?;
                toks.push(Tok::C(a.clone()));
                let st = sc.code(wrap!(cw20_stake::contract));
                (sc.code(wrap!(dao_voting_cw20_staked::contract; reply)), json!({"token_info":{"existing":{"address":a,"staking_contract":{"new":{"staking_code_id":st,"unstaking_duration":null}}}},"active_threshold":null}))
            }
        };
        let vtok = if style > 0 { Some(toks.len() - 1) } else { None };
        let mut w = W {
            kind,
            unit,
            core: String::new(),
            group: String::new(),
            module: String::new(),
            pre: String::new(),
            toks,
            vtok,
            users: users.clone(),
            members,
            cfg: None,
            pol: Policy { specific: false, members: false, allow: vec![], deny: vec![] },
            led: BTreeMap::new(),
            props: vec![],
            pres: vec![],
            approver: "judge".into(),
            ap: None,
            hooks: HookBook::new(sc, 2)?,
            n: 0,
        };
        w.cfg = w.rand_dep(sc);
        loop {
            w.pol = w.rand_pol(sc);
            if w.pol.valid() {
                break;
            }
        }
        let ext = if kind == PKind::Approval { json!({"approver":"judge"}) } else { json!({}) };
        let pmsg = json!({"deposit_info": w.dep_in(sc, &w.cfg.clone()), "submission_policy": w.pol.json(), "extension": ext});
        let veto = if sc.chance(50) {
            json!({"timelock_duration":{"height":2},"vetoer":"vet","early_execute":true,"veto_before_passed":true})
        } else {
            Value::Null
        };
        let mut mmsg = json!({
            "max_voting_period":{"height": sc.r(3,6)}, "min_voting_period":null, "only_members_execute":false,
            "allow_revoting":false, "close_proposal_on_execution_failure": sc.chance(70), "veto": veto,
            "pre_propose_info":{"module_may_propose":{"info":{"code_id":pcode,"msg":b64(&pmsg),"admin":null,"funds":[],"label":"pre"}}},
        });
        if kind == PKind::Multi {
            mmsg["voting_strategy"] = json!({"single_choice":{"quorum":{"majority":{}}}});
        } else {
            mmsg["threshold"] = json!({"absolute_percentage":{"percentage":{"majority":{}}}});
        }
        w.core = sc.must_init(cc, "x", &dao_init(vcode, &vmsg, &[(mcode, mmsg)], json!({})), &[], "core")?;
        let t = w.tags();
        let vm = s(&sc.qm(t, &w.core, &json!({"voting_module":{}}))?);
        w.module = s(&sc.qm(t, &w.core, &json!({"proposal_modules":{}}))?[0]["address"]);
        let p = sc.qm(t, &w.module, &json!({"proposal_creation_policy":{}}))?;
        ensure!(p["module"]["addr"].is_string(), t, "gate", "the proposal module was told to take proposals from a pre-propose module only, but its policy is {p}");
        w.pre = s(&p["module"]["addr"]);
        let (m, p) = (w.module.clone(), w.pre.clone());
        sc.label(&m, "prop");
        sc.label(&p, "pre");
        sc.label(&vm, "vm");
        match style {
            0 => w.group = s(&sc.qm(t, &vm, &json!({"group_contract":{}}))?),
            1 => {
                for (a, n) in w.members.clone() {
                    let r = sc.exec(&a, &vm, &json!({"stake":{}}), &[coin(n as u128, "uvote")]);
                    ensure!(r.is_ok(), &["*"], "setup", "{r:?}");
                }
            }
            _ => {
                let st = s(&sc.qm(t, &vm, &json!({"staking_contract":{}}))?);
                let Tok::C(tok) = w.toks[vtok.unwrap()].clone() else { unreachable!() };
                for (a, n) in w.members.clone() {
                    let r = sc.exec(&a, &tok, &json!({"send":{"contract":st,"amount":n.to_string(),"msg":b64(&json!({"stake":{}}))}}), &[]);
                    ensure!(r.is_ok(), &["*"], "setup", "{r:?}");
                }
            }
        }
        sc.advance(1, 5);
        let core = w.core.clone();
        sc.mint(&core, 100, "upay");
        if kind == PKind::Approval && sc.chance(55) {
            w.approver_dao(sc, cc, c4)?;
        }
        for who in users.iter().cloned().chain([w.core.clone(), w.pre.clone(), "judge".into(), "vet".into()]) {
            for (i, t) in w.toks.clone().iter().enumerate() {
                let b = t.bal(sc, &who);
                w.led.insert((who.clone(), i), b);
            }
        }
        Ok(w)
    }

    /// a second DAO whose proposals decide on the pre-proposals
    fn approver_dao(&mut self, sc: &mut Sc, cc: u64, c4: u64) -> R {
        const T: &[&str] = &["C12"];
        let vc = sc.code(vcw4_code());
        let scode = sc.code(single_code());
        let ac = sc.code(wrap!(dao_pre_propose_approver::contract; migrate));
        let pc = sc.code(puppet_code());
        let probe = sc.must_init(pc, "x", &json!({}), &[], "probe")?;
        let k: u64 = probe.trim_start_matches("contract").parse().expect("address of a new contract");
        let core2 = format!("contract{}", k + 1);
        let r = sc.exec("judge", &self.pre.clone(), &json!({"extension":{"msg":{"update_approver":{"address":core2}}}}), &[]);
        ensure!(r.is_ok(), T, "update-approver", "the approver could not hand over: {r:?}");
        let veto = if sc.chance(50) {
            json!({"timelock_duration":{"height":2},"vetoer":"vet","early_execute":true,"veto_before_passed":true})
        } else {
            Value::Null
        };
        let mmsg = json!({
            "max_voting_period":{"height": 4}, "min_voting_period":null, "only_members_execute":false,
            "allow_revoting":false, "close_proposal_on_execution_failure": true, "veto": veto,
            "threshold":{"absolute_percentage":{"percentage":{"majority":{}}}},
            "pre_propose_info":{"module_may_propose":{"info":{"code_id":ac,"msg":b64(&json!({"pre_propose_approval_contract":self.pre})),"admin":null,"funds":[],"label":"approver"}}},
        });
        let vmsg = json!({"group_contract":{"new":{"cw4_group_code_id":c4,"initial_members":[{"addr":"jo1","weight":2},{"addr":"jo2","weight":1}]}}});
        let got = sc.must_init(cc, "x", &dao_init(vc, &vmsg, &[(scode, mmsg)], json!({})), &[], "core2")?;
        ensure!(got == core2, &["*"], "setup", "address prediction failed: {got} vs {core2}");
        let module = s(&sc.qm(T, &got, &json!({"proposal_modules":{}}))?[0]["address"]);
        let contract = s(&sc.qm(T, &module, &json!({"proposal_creation_policy":{}}))?["module"]["addr"]);
        sc.label(&module, "prop2");
        sc.label(&contract, "approver");
        sc.advance(1, 5);
        self.approver = contract.clone();
        self.ap = Some(Ap { core: got, module, contract, props: vec![], attached: true, is_approver: true });
        Ok(())
    }

    /// every observable, compared with the model
    fn check(&mut self, sc: &mut Sc) -> R {
        let t = self.tags();
        for ((who, i), want) in self.led.clone() {
            let got = self.toks[i].bal(sc, &who);
            ensure!(got == want, t, "balance", "{who} holds {got} of {:?}, expected {want}", self.toks[i]);
        }
        sc.checked(self.led.len() as u64);
        let n = s_u64(&sc.qm(t, &self.module, &json!({"next_proposal_id":{}}))?);
        ensure!(n == self.props.len() as u64 + 1, t, "ids", "the module expects proposal {n} next, but {} were made", self.props.len());
        for (i, p) in self.props.clone().iter().enumerate() {
            let d = sc.qm(t, &self.pre, &json!({"deposit_info":{"proposal_id":i+1}}))?;
            let want = json!({"deposit_info": self.dep_out(&p.dep), "proposer": p.proposer});
            ensure!(d == want, t, "deposit-info", "deposit of proposal {}: expected {want}, got {d}", i + 1);
            let q = sc.qm(t, &self.module, &json!({"proposal":{"proposal_id":i+1}}))?;
            ensure!(q["proposal"]["proposer"] == json!(p.proposer) && q["proposal"]["title"] == json!(p.title), t, "proposal-terms",
                "proposal {} should be {} by {}, but is {q}", i + 1, p.title, p.proposer);
            if self.kind != PKind::Multi {
                ensure!(q["proposal"]["msgs"] == json!(p.msgs), t, "proposal-terms", "proposal {} carries {}, submitted were {:?}", i + 1, q["proposal"]["msgs"], p.msgs);
            }
        }
        let c = sc.qm(t, &self.pre, &json!({"config":{}}))?;
        ensure!(c["deposit_info"] == self.dep_out(&self.cfg), t, "config", "deposit terms {}, expected {:?}", c["deposit_info"], self.cfg);
        let pol = &c["submission_policy"];
        let body = if self.pol.specific { &pol["specific"] } else { &pol["anyone"] };
        let same = |v: &Value, l: &[String]| {
            let mut a: Vec<String> = v.as_array().map(|x| x.iter().map(s).collect()).unwrap_or_default();
            let mut b = l.to_vec();
            a.sort();
            b.sort();
            a.dedup();
            b.dedup();
            a == b
        };
        ensure!(body.is_object() && same(&body["denylist"], &self.pol.deny) && (!self.pol.specific || (same(&body["allowlist"], &self.pol.allow) && body["dao_members"] == json!(self.pol.members))),
            t, "policy", "submission policy {pol}, expected {:?}", self.pol);
        for who in self.users.clone() {
            let g = sc.qm(t, &self.pre, &json!({"can_propose":{"address":who}}))?;
            let want = self.pol.allows(&who, self.member(&who));
            ensure!(g == json!(want), t, "can-propose", "can_propose({who}) = {g}, but the policy {:?} says {want}", self.pol);
        }
        sc.checked(self.props.len() as u64 * 2 + 7);
        let mut want = self.hooks.list.clone();
        if let Some(ap) = self.ap.as_ref().filter(|a| a.is_approver) {
            want.insert(0, ap.contract.clone());
        }
        let h = sc.qm(t, &self.pre, &json!({"proposal_submitted_hooks":{}}))?;
        ensure!(h["hooks"] == json!(want), t, "submitted-hook", "submission hooks {h}, expected {want:?}");
        self.hooks.check(sc, t, &self.pre)?;
        if self.kind == PKind::Approval {
            self.check_pre(sc)?;
        }
        Ok(())
    }
    fn pre_json(&self, p: &Pre) -> Value {
        json!({
            "status": match &p.st { St::Pending => json!({"pending":{}}), St::Approved(i) => json!({"approved":{"created_proposal_id":i}}), St::Rejected => json!({"rejected":{}}) },
            "approval_id": p.id, "proposer": p.proposer,
            "msg": {"title":p.title,"description":"d","msgs":p.msgs,"proposer":p.proposer,"vote":p.vote},
            "deposit": self.dep_out(&p.dep),
        })
    }
    fn check_pre(&mut self, sc: &mut Sc) -> R {
        const T: &[&str] = &["C12"];
        let ext = |m: Value| json!({"query_extension":{"msg":m}});
        let a = sc.qm(T, &self.pre, &ext(json!({"approver":{}})))?;
        ensure!(a == json!(self.approver), T, "approver", "approver is {a}, expected {}", self.approver);
        for p in self.pres.clone() {
            let want = self.pre_json(&p);
            let got = sc.qm(T, &self.pre, &ext(json!({"proposal":{"id":p.id}})))?;
            ensure!(got == want, T, "pre-proposal", "pre-proposal {}: expected {want}, got {got}", p.id);
            let pend = sc.qm(T, &self.pre, &ext(json!({"is_pending":{"id":p.id}})))?;
            ensure!(pend == json!(p.st == St::Pending), T, "is-pending", "pre-proposal {} is {:?} but is_pending says {pend}", p.id, p.st);
            for (q, yes) in [("pending_proposal", p.st == St::Pending), ("completed_proposal", p.st != St::Pending)] {
                let r = sc.q(&self.pre, &ext(json!({q:{"id":p.id}})));
                ensure!(r.is_ok() == yes, T, "pre-proposal", "{q} {}: {r:?}", p.id);
            }
            if let St::Approved(i) = p.st {
                let r = sc.qm(T, &self.pre, &ext(json!({"completed_proposal_id_for_created_proposal_id":{"id":i}})))?;
                ensure!(r == json!(p.id), T, "pre-proposal", "proposal {i} came from pre-proposal {}, reported {r}", p.id);
            }
        }
        let none = self.pres.len() as u64 + sc.r(1, 3);
        for q in ["proposal", "is_pending", "pending_proposal", "completed_proposal"] {
            let r = sc.q(&self.pre, &ext(json!({q:{"id":none}})));
            ensure!(r.is_err(), T, "no-pre-proposal", "there is no pre-proposal {none}, but {q} says {r:?}");
        }
        for (q, rq, pend) in [("pending_proposals", "reverse_pending_proposals", true), ("completed_proposals", "reverse_completed_proposals", false)] {
            let mut want: Vec<Value> = self.pres.iter().filter(|p| (p.st == St::Pending) == pend).map(|p| self.pre_json(p)).collect();
            for (name, cursor) in [(q, "start_after"), (rq, "start_before")] {
                let page = sc.r(1, 5);
                let mut got = vec![];
                let mut cur = Value::Null;
                loop {
                    let r = sc.qm(T, &self.pre, &ext(json!({name:{cursor:cur,"limit":page}})))?;
                    let l = r.as_array().unwrap().clone();
                    if l.is_empty() || got.len() > want.len() {
                        break;
                    }
                    cur = l.last().unwrap()["approval_id"].clone();
                    got.extend(l);
                }
                ensure!(got == want, T, "pre-list", "{name} in pages of {page}: expected {want:?}, got {got:?}");
                // from any id, in the list or not
                let from = sc.r(0, self.pres.len() as u64 + 2);
                let r = sc.qm(T, &self.pre, &ext(json!({name:{cursor:from,"limit":page}})))?;
                let part: Vec<&Value> = want
                    .iter()
                    .filter(|x| {
                        let id = x["approval_id"].as_u64().unwrap();
                        if cursor == "start_after" { id > from } else { id < from }
                    })
                    .take(page as usize)
                    .collect();
                ensure!(r == json!(part), T, "pre-list", "{page} of {name} from {from}: expected {part:?}, got {r}");
                want.reverse();
            }
        }
        sc.checked(self.pres.len() as u64 * 4 + 4);
        if let Some(ap) = &self.ap {
            let n = s_u64(&sc.qm(T, &ap.module, &json!({"next_proposal_id":{}}))?);
            ensure!(n == ap.props.len() as u64 + 1, T, "approver-ids", "the approver DAO has {} proposals, expected {}", n - 1, ap.props.len());
            for (i, (pid, _)) in ap.props.iter().enumerate() {
                let q = sc.qm(T, &ap.module, &json!({"proposal":{"proposal_id":i+1}}))?;
                let title = &self.pres[*pid as usize - 1].title;
                ensure!(q["proposal"]["msgs"] == json!([]) && q["proposal"]["title"] == json!(title), T, "approver-proposal", "approver proposal {} for pre-proposal {pid}: {q}", i + 1);
                for (m, k, v) in [("pre_propose_approval_id_for_approver_proposal_id", i as u64 + 1, *pid), ("approver_proposal_id_for_pre_propose_approval_id", *pid, i as u64 + 1)] {
                    let r = sc.qm(T, &ap.contract, &ext(json!({m:{"id":k}})))?;
                    ensure!(r == json!(v), T, "approver-map", "{m} {k}: expected {v}, got {r}");
                }
            }
        }
        Ok(())
    }

    /// the deposit of a completed proposal goes where its terms say
    fn resolve(&mut self, dep: &Option<Dep>, proposer: &str, refund: bool) {
        if let Some(d) = dep {
            let to = if refund { proposer.to_string() } else { self.core.clone() };
            let pre = self.pre.clone();
            self.mv(&pre, &to, d.tok, d.amount);
        }
    }
    fn complete(&mut self, sc: &mut Sc, id: u64, executed: bool) {
        let p = self.props[id as usize - 1].clone();
        self.props[id as usize - 1].done = true;
        let refund = p.dep.as_ref().map(|d| d.policy == "always" || (d.policy == "only_passed" && executed)).unwrap_or(false);
        if let Some(d) = &p.dep {
            sc.tick(&format!("resolved.{}.{}", d.policy, if executed { "executed" } else { "not-executed" }));
        }
        self.resolve(&p.dep, &p.proposer, refund);
    }
    fn covered(&self, dep: &Option<Dep>) -> bool {
        dep.as_ref().map(|d| self.bal(&self.pre, d.tok) >= d.amount).unwrap_or(true)
    }

    fn propose(&mut self, sc: &mut Sc) -> R {
        let t = self.tags();
        let who = if sc.chance(95) { sc.pick(&self.users) } else { self.core.clone() };
        self.n += 1;
        let title = format!("p{}", self.n);
        let mut funds: Vec<Coin> = vec![];
        let mut paid = true;
        let cfg = self.cfg.clone();
        match &cfg {
            None => {}
            Some(d) => match self.toks[d.tok].clone() {
                Tok::N(den) => {
                    let have = self.bal(&who, d.tok);
                    match sc.weighted(&[70, 8, 8, 7, 7]) {
                        0 => funds = vec![coin(d.amount, &den)],
                        1 => {
                            funds = vec![coin(d.amount + sc.r(1, 5) as u128, &den)];
                            paid = false;
                        }
                        2 => {
                            if d.amount > 1 {
                                funds = vec![coin(d.amount - 1, &den)];
                            }
                            paid = false;
                        }
                        3 => {
                            let other = if den == "ualt" { "udep" } else { "ualt" };
                            funds = vec![coin(d.amount, other)];
                            paid = false;
                        }
                        _ => {
                            let other = if den == "ualt" { "udep" } else { "ualt" };
                            funds = vec![coin(d.amount, &den), coin(1, other)];
                            paid = false;
                        }
                    }
                    paid &= have >= d.amount;
                }
                Tok::C(tok) => {
                    let have = self.bal(&who, d.tok);
                    let give = match sc.weighted(&[75, 10, 15]) {
                        0 => d.amount,
                        1 => d.amount + 7,
                        _ => d.amount - 1,
                    };
                    // set the allowance to exactly `give`
                    let cur = sc.qm(t, &tok, &json!({"allowance":{"owner":who,"spender":self.pre}}))?;
                    let cur = u(&cur["allowance"]);
                    if cur > give {
                        let _ = sc.exec(&who, &tok, &json!({"decrease_allowance":{"spender":self.pre,"amount":(cur-give).to_string(),"expires":null}}), &[]);
                    } else if give > cur {
                        let _ = sc.exec(&who, &tok, &json!({"increase_allowance":{"spender":self.pre,"amount":(give-cur).to_string(),"expires":null}}), &[]);
                    }
                    paid = give >= d.amount && have >= d.amount;
                }
            },
        }
        let payee = format!("payee{}", self.n);
        let msgs: Vec<Value> = match sc.weighted(&[60, 20, 20]) {
            0 => vec![json!({"bank":{"send":{"to_address":payee,"amount":[{"denom":"upay","amount":"1"}]}}})],
            1 => vec![],
            _ => vec![json!({"bank":{"send":{"to_address":payee,"amount":[{"denom":"upay","amount":"99999999"}]}}})],
        };
        let auto = sc.chance(15);
        let vote = match (auto, self.kind) {
            (false, _) => Value::Null,
            (true, PKind::Multi) => json!({"vote":{"option_id":0},"rationale":"r"}),
            (true, _) => json!({"vote":"yes","rationale":"r"}),
        };
        let inner = if self.kind == PKind::Multi {
            json!({"propose":{"title":title,"description":"d","choices":{"options":[{"title":"a","description":"a","msgs":msgs},{"title":"b","description":"b","msgs":[]}]},"vote":vote}})
        } else {
            json!({"propose":{"title":title,"description":"d","msgs":msgs,"vote":vote}})
        };
        let permitted = self.pol.allows(&who, self.member(&who));
        let votes_ok = !auto || self.kind == PKind::Approval || self.member(&who);
        let ok = permitted && paid && votes_ok && !self.hooks.blocked();
        let r = sc.exec(&who, &self.pre.clone(), &json!({"propose":{"msg":inner}}), &funds);
        ensure!(r.is_ok() == ok, t, if ok { "propose-refused" } else { "propose-accepted" },
            "{who} proposes (permitted {permitted}, deposit {cfg:?} paid exactly {paid}, auto-vote ok {votes_ok}, receivers failing {}) with {funds:?}: expected {}, got {r:?}", self.hooks.blocked(), if ok {"acceptance"} else {"refusal"});
        sc.checked(1);
        if !ok {
            sc.tick(if !permitted { "refused.policy" } else if !paid { "refused.payment" } else if !votes_ok { "refused.autovote" } else { "refused.receiver" });
            return Ok(());
        }
        if let Some(d) = &cfg {
            let pre = self.pre.clone();
            self.mv(&who, &pre, d.tok, d.amount);
            sc.tick(if matches!(self.toks[d.tok], Tok::N(_)) { "deposit.native" } else { "deposit.cw20" });
        }
        sc.nontrivial = true;
        if !self.hooks.list.is_empty() {
            sc.tick("mon.submission_told");
        }
        if self.kind == PKind::Approval {
            let id = self.pres.len() as u64 + 1;
            self.hooks.emit(json!({"propose":{"msg":{"propose":{"title":title,"description":"d","approval_id":id}}}}));
            let mut pre = Pre { id, st: St::Pending, dep: cfg, proposer: who, title, msgs, vote, ap: None };
            if let Some(ap) = &mut self.ap {
                if ap.is_approver {
                    ap.props.push((id, false));
                    pre.ap = Some(ap.props.len() as u64);
                }
            }
            self.pres.push(pre);
        } else {
            let mut told = inner.clone();
            told["propose"]["proposer"] = json!(who);
            self.hooks.emit(told);
            self.props.push(PP { dep: cfg, proposer: who, title, done: false, approval: None, msgs });
        }
        Ok(())
    }

    /// model effects of a decision on a pre-proposal
    fn decided(&mut self, sc: &mut Sc, id: u64, approve: bool) {
        let p = self.pres[id as usize - 1].clone();
        if approve {
            let n = self.props.len() as u64 + 1;
            self.props.push(PP { dep: p.dep.clone(), proposer: p.proposer.clone(), title: p.title.clone(), done: false, approval: Some(id), msgs: p.msgs.clone() });
            self.pres[id as usize - 1].st = St::Approved(n);
            sc.tick("approved");
        } else {
            self.pres[id as usize - 1].st = St::Rejected;
            let refund = p.dep.as_ref().map(|d| d.policy == "always").unwrap_or(false);
            self.resolve(&p.dep, &p.proposer, refund);
            sc.tick("rejected");
        }
    }
    /// can the proposal be created now (an automatic ballot needs voting power)
    fn creatable(&self, p: &Pre) -> bool {
        p.vote.is_null() || self.member(&p.proposer)
    }

    fn decide(&mut self, sc: &mut Sc) -> R {
        const T: &[&str] = &["C12"];
        let hi = self.pres.len() as u64 + 1;
        let id = if sc.chance(85) && !self.pres.is_empty() { sc.r(1, hi - 1) } else { sc.r(0, hi + 1) };
        let approve = sc.chance(60);
        let who = if sc.chance(75) { self.approver.clone() } else { sc.pick(&["ann".to_string(), self.core.clone(), "judge".into(), self.module.clone()]) };
        // the approver contract itself only acts through its DAO's proposals
        let via_dao = self.ap.as_ref().map(|a| a.is_approver).unwrap_or(false) && who == self.approver;
        if via_dao {
            return Ok(());
        }
        let p = self.pres.iter().find(|p| p.id == id).cloned();
        let pending = p.as_ref().map(|p| p.st == St::Pending).unwrap_or(false);
        let mut ok = who == self.approver && pending;
        if ok {
            let p = p.as_ref().unwrap();
            ok = if approve { self.creatable(p) } else { self.covered(&p.dep) };
        }
        let m = if approve { "approve" } else { "reject" };
        let r = sc.exec(&who, &self.pre.clone(), &json!({"extension":{"msg":{m:{"id":id}}}}), &[]);
        ensure!(r.is_ok() == ok, T, "decide", "{m} {id} by {who} (approver {}, pre-proposal {p:?}): expected ok={ok}, got {r:?}", self.approver);
        sc.checked(1);
        if ok {
            self.decided(sc, id, approve);
        }
        Ok(())
    }

    /// what an action on the main module did to a proposal
    fn after(&mut self, sc: &mut Sc, id: u64) -> R {
        let t = self.tags();
        let q = sc.qm(t, &self.module, &json!({"proposal":{"proposal_id":id}}))?;
        let st = status_name(&q["proposal"]["status"]);
        let fin = ["executed", "execution_failed", "closed", "vetoed"].contains(&st.as_str());
        if fin && !self.props[id as usize - 1].done {
            sc.tick(&format!("completed.{st}"));
            self.complete(sc, id, st.starts_with("exec"));
        }
        Ok(())
    }

    fn step(&mut self, sc: &mut Sc) -> R {
        let t = self.tags();
        let (core, pre, module) = (self.core.clone(), self.pre.clone(), self.module.clone());
        let nprops = self.props.len() as u64;
        let pick_prop = |sc: &mut Sc| if nprops == 0 { 1 } else if sc.chance(60) { nprops - sc.r(0, 2.min(nprops - 1)) } else { sc.r(1, nprops) };
        match sc.weighted(&[22, 26, 16, 8, 8, 4, 3, 2, 2, 14, 8, 10, 2, 2, 4]) {
            0 => self.propose(sc)?,
            1 => {
                if nprops > 0 {
                    let id = pick_prop(sc);
                    let who = sc.pick(&self.users[..3].to_vec());
                    let v = match (self.kind, sc.chance(65)) {
                        (PKind::Multi, y) => json!({"option_id": if y { sc.r(0, 1) } else { 2 }}),
                        (_, true) => json!("yes"),
                        (_, false) => json!("no"),
                    };
                    let _ = sc.exec(&who, &module, &json!({"vote":{"proposal_id":id,"vote":v}}), &[]);
                }
            }
            2 => {
                let id = pick_prop(sc);
                if nprops > 0 {
                    let covered = self.covered(&self.props[id as usize - 1].dep.clone());
                    if covered {
                        let _ = sc.exec("zed", &module, &json!({"execute":{"proposal_id":id}}), &[]);
                        self.after(sc, id)?;
                    }
                }
            }
            3 => {
                let id = pick_prop(sc);
                if nprops > 0 && self.covered(&self.props[id as usize - 1].dep.clone()) {
                    let _ = sc.exec("zed", &module, &json!({"close":{"proposal_id":id}}), &[]);
                    self.after(sc, id)?;
                }
            }
            4 => {
                let id = pick_prop(sc);
                if nprops > 0 && self.covered(&self.props[id as usize - 1].dep.clone()) {
                    let _ = sc.exec("vet", &module, &json!({"veto":{"proposal_id":id}}), &[]);
                    self.after(sc, id)?;
                }
            }
            5 => {
                // new terms
                let mut d = self.rand_dep(sc);
                if let Some(x) = &mut d {
                    if sc.chance(5) {
                        x.amount = 0;
                    }
                }
                let p = if sc.chance(50) { Some(self.rand_pol(sc)) } else { None };
                let by = if sc.chance(80) { core.clone() } else { sc.pick(&["ann".to_string(), module.clone(), "judge".into()]) };
                let ok = by == core && d.as_ref().map(|d| d.amount > 0).unwrap_or(true) && p.as_ref().map(|p| p.valid()).unwrap_or(true);
                let dj = self.dep_in(sc, &d);
                let r = sc.exec(&by, &pre, &json!({"update_config":{"deposit_info":dj,"submission_policy":p.as_ref().map(|p| p.json())}}), &[]);
                ensure!(r.is_ok() == ok, t, "update-config", "update_config to {d:?} {p:?} by {by}: expected ok={ok}, got {r:?}");
                if ok {
                    self.cfg = d;
                    if let Some(p) = p {
                        self.pol = p;
                    }
                }
            }
            6 => {
                let opt = |sc: &mut Sc, users: &[String]| if sc.chance(50) { Some(users.iter().filter(|_| sc.chance(35)).cloned().collect::<Vec<String>>()) } else { None };
                let us = self.users.clone();
                let (da, dr) = (opt(sc, &us), opt(sc, &us));
                let lists = self.pol.specific || sc.chance(20);
                let (aa, ar) = if lists { (opt(sc, &us), opt(sc, &us)) } else { (None, None) };
                let sm = if lists && sc.chance(40) { Some(sc.chance(60)) } else { None };
                let by = if sc.chance(85) { core.clone() } else { "ann".into() };
                let mut n = self.pol.clone();
                let upd = |l: &mut Vec<String>, add: &Option<Vec<String>>, rem: &Option<Vec<String>>| {
                    if let Some(a) = add {
                        l.extend(a.iter().cloned());
                        l.sort();
                        l.dedup();
                    }
                    if let Some(r) = rem {
                        l.retain(|x| !r.contains(x));
                    }
                };
                upd(&mut n.deny, &da, &dr);
                let fields_ok = self.pol.specific || (aa.is_none() && ar.is_none() && sm.is_none());
                if self.pol.specific {
                    upd(&mut n.allow, &aa, &ar);
                    if let Some(m) = sm {
                        n.members = m;
                    }
                }
                let ok = by == core && fields_ok && n.valid();
                let r = sc.exec(&by, &pre, &json!({"update_submission_policy":{"denylist_add":da,"denylist_remove":dr,"set_dao_members":sm,"allowlist_add":aa,"allowlist_remove":ar}}), &[]);
                ensure!(r.is_ok() == ok, t, "update-policy", "policy {:?} updated by {by} to {n:?}: expected ok={ok}, got {r:?}", self.pol);
                if ok {
                    self.pol = n;
                }
            }
            7 => {
                // the escape hatch, then the DAO puts the money back
                let tok = sc.r(0, self.toks.len() as u64 - 1) as usize;
                let named = sc.chance(60);
                let which = if named { Some(tok) } else { self.cfg.as_ref().map(|d| d.tok) };
                let by = if sc.chance(70) { core.clone() } else { sc.pick(&["ann".to_string(), "judge".into(), module.clone()]) };
                let have = which.map(|i| self.bal(&pre, i)).unwrap_or(0);
                let ok = by == core && have > 0;
                let r = sc.exec(&by, &pre, &json!({"withdraw":{"denom": if named { self.toks[tok].denom() } else { Value::Null }}}), &[]);
                ensure!(r.is_ok() == ok, t, "withdraw", "withdraw by {by} (holding {have}): expected ok={ok}, got {r:?}");
                if ok {
                    let i = which.unwrap();
                    self.mv(&pre, &core, i, have);
                    sc.tick("withdrawn");
                    self.check(sc)?;
                    let r = match self.toks[i].clone() {
                        Tok::N(d) => sc.cosmos(&core, cosmwasm_std::BankMsg::Send { to_address: pre.clone(), amount: vec![coin(have, d)] }.into()).map(|_| ()),
                        Tok::C(a) => sc.exec(&core, &a, &json!({"transfer":{"recipient":pre,"amount":have.to_string()}}), &[]).map(|_| ()),
                    };
                    ensure!(r.is_ok(), t, "withdraw", "the DAO cannot use what it withdrew: {r:?}");
                    self.mv(&core, &pre, i, have);
                }
            }
            8 => {
                // forged completions and proposals around the gate
                let id = sc.r(1, nprops + 1);
                let by = sc.pick(&["ann".to_string(), core.clone(), pre.clone(), "judge".into()]);
                let st = sc.pick(&["executed", "closed", "vetoed", "rejected", "passed"]);
                let r = sc.exec(&by, &pre, &json!({"proposal_completed_hook":{"proposal_id":id,"new_status":st}}), &[]);
                ensure!(r.is_err(), t, "forged-completion", "{by} told the pre-propose module that proposal {id} is {st}, and it believed");
                // from the module itself, about a proposal that is not completed
                let st = sc.pick(&["rejected", "passed", "open", "execution_failed"]);
                if st != "execution_failed" {
                    let r = sc.exec(&module, &pre, &json!({"proposal_completed_hook":{"proposal_id":id,"new_status":st}}), &[]);
                    ensure!(r.is_err(), t, "forged-completion", "the pre-propose module took proposal {id} as completed because it is {st}");
                    sc.tick("mon.not_completed");
                }
                let by = sc.pick(&["ann".to_string(), core.clone(), "judge".into()]);
                let m = if self.kind == PKind::Multi {
                    json!({"propose":{"title":"x","description":"d","choices":{"options":[{"title":"a","description":"a","msgs":[]},{"title":"b","description":"b","msgs":[]}]},"proposer":by,"vote":null}})
                } else {
                    json!({"propose":{"title":"x","description":"d","msgs":[],"proposer":by,"vote":null}})
                };
                let r = sc.exec(&by, &module, &m, &[]);
                ensure!(r.is_err(), t, "gate", "{by} created a proposal without the pre-propose module");
            }
            9 => {
                let n = sc.r(1, 3);
                sc.advance(n, n * 5);
            }
            10 => {
                if self.kind == PKind::Approval {
                    self.decide(sc)?;
                }
            }
            11 => {
                if self.ap.is_some() {
                    self.approver_step(sc)?;
                } else if self.kind == PKind::Approval {
                    self.decide(sc)?;
                }
            }
            12 => {
                // membership
                if !self.group.is_empty() {
                    let who = sc.pick(&["dan".to_string(), "cat".into()]);
                    let wgt = if self.member(&who) { 0 } else { 1 };
                    let g = self.group.clone();
                    let admin = sc.qm(&["*"], &g, &json!({"admin":{}}))?;
                    let r = sc.exec(&s(&admin["admin"]), &g, &if wgt == 0 { json!({"update_members":{"remove":[who],"add":[]}}) } else { json!({"update_members":{"remove":[],"add":[{"addr":who,"weight":wgt}]}}) }, &[]);
                    ensure!(r.is_ok(), &["*"], "setup", "{r:?}");
                    self.members.insert(who, wgt);
                    sc.advance(1, 5);
                }
            }
            14 => {
                if sc.chance(25) {
                    self.hooks.toggle(sc);
                } else {
                    let admin = if self.kind == PKind::Approval && sc.chance(40) { self.approver.clone() } else { core.clone() };
                    self.hooks.change(sc, t, &pre, &Some(admin), &|add, h| {
                        let k = if add { "add_proposal_submitted_hook" } else { "remove_proposal_submitted_hook" };
                        json!({k:{"address":h}})
                    })?;
                    if self.hooks.blocked() && sc.chance(60) {
                        // most histories go on without a failing receiver
                        let Some(h) = self.hooks.list.iter().find(|h| self.hooks.failing.contains(*h)).cloned() else { return Ok(()) };
                        let r = sc.exec(&core, &pre, &json!({"remove_proposal_submitted_hook":{"address":h}}), &[]);
                        ensure!(r.is_ok(), t, "hook-register", "the DAO cannot remove {h}: {r:?}");
                        self.hooks.list.retain(|x| *x != h);
                    }
                }
            }
            _ => {
                if self.kind == PKind::Approval && self.ap.is_none() {
                    let by = if sc.chance(50) { self.approver.clone() } else { sc.pick(&["ann".to_string(), core.clone(), "judge".into()]) };
                    let to = sc.pick(&["judge".to_string(), "judge2".into()]);
                    let ok = by == self.approver;
                    let r = sc.exec(&by, &pre, &json!({"extension":{"msg":{"update_approver":{"address":to}}}}), &[]);
                    ensure!(r.is_ok() == ok, &["C12"], "update-approver", "update_approver by {by} (approver {}): {r:?}", self.approver);
                    if ok {
                        self.approver = to;
                    }
                }
            }
        }
        self.check(sc)
    }

    /// one step of the approver DAO
    fn approver_step(&mut self, sc: &mut Sc) -> R {
        const T: &[&str] = &["C12"];
        let ap = self.ap.as_ref().unwrap();
        let (m2, c2, ct) = (ap.module.clone(), ap.core.clone(), ap.contract.clone());
        let n = ap.props.len() as u64;
        let attached = ap.attached;
        match sc.weighted(&[45, 25, 10, 10, 7, 3]) {
            0 if n > 0 => {
                let id = sc.r(n.saturating_sub(2).max(1), n);
                let v = if sc.chance(60) { "yes" } else { "no" };
                let who = sc.pick(&["jo1", "jo2"]);
                let _ = sc.exec(who, &m2, &json!({"vote":{"proposal_id":id,"vote":v}}), &[]);
            }
            k @ (1 | 2 | 3) if n > 0 => {
                let id = sc.r(1, n);
                let (pid, done) = self.ap.as_ref().unwrap().props[id as usize - 1];
                let p = self.pres[pid as usize - 1].clone();
                // decisions that cannot take effect would detach the approver: not this property
                let fits = p.st != St::Pending || !attached || match k {
                    1 => self.creatable(&p),
                    _ => self.covered(&p.dep),
                };
                if !fits || (attached && !self.ap.as_ref().unwrap().is_approver) {
                    return Ok(());
                }
                let (msg, by) = match k {
                    1 => (json!({"execute":{"proposal_id":id}}), "zed"),
                    2 => (json!({"close":{"proposal_id":id}}), "zed"),
                    _ => (json!({"veto":{"proposal_id":id}}), "vet"),
                };
                let r = sc.exec(by, &m2, &msg, &[]);
                let q = sc.qm(T, &m2, &json!({"proposal":{"proposal_id":id}}))?;
                let st = status_name(&q["proposal"]["status"]);
                if r.is_ok() && !done && ["executed", "closed", "vetoed", "execution_failed"].contains(&st.as_str()) {
                    self.ap.as_mut().unwrap().props[id as usize - 1].1 = true;
                    sc.tick(&format!("approver.{st}"));
                    let pol = sc.qm(T, &m2, &json!({"proposal_creation_policy":{}}))?;
                    ensure!(pol["module"]["addr"] == json!(ct), T, if st == "vetoed" { "approver-veto" } else { "approver-detached" },
                        "the approver DAO's proposal {id} ended {st}, and its approver module was thrown out ({pol}); pre-proposal {pid} is left undecided");
                    if p.st == St::Pending && attached {
                        self.decided(sc, pid, st == "executed");
                    }
                }
            }
            4 => {
                // only the approver contract creates proposals over there, and only it is configured by nobody
                let by = sc.pick(&["jo1".to_string(), c2.clone(), self.core.clone()]);
                if attached {
                    let r = sc.exec(&by, &m2, &json!({"propose":{"title":"x","description":"d","msgs":[],"proposer":by,"vote":null}}), &[]);
                    ensure!(r.is_err(), T, "approver-gate", "{by} created a proposal in the approver DAO directly");
                }
                let r = sc.exec(&by, &ct, &json!({"propose":{"msg":{"propose":{"title":"x","description":"d","approval_id":1}}}}), &[]);
                ensure!(r.is_err(), T, "approver-gate", "{by} created an approver proposal");
                let r = sc.exec(&by, &ct, &json!({"proposal_completed_hook":{"proposal_id":1,"new_status":"executed"}}), &[]);
                ensure!(r.is_err(), T, "forged-completion", "{by} forged an approver completion");
                let r = sc.exec(&by, &ct, &json!({"update_config":{"deposit_info":null,"submission_policy":null}}), &[]);
                ensure!(r.is_err(), T, "approver-config", "{by} configured the approver");
                let g = sc.qm(T, &ct, &json!({"can_propose":{"address":by}}))?;
                ensure!(g == json!(false), T, "approver-gate", "can_propose {by}: {g}");
            }
            5 => {
                let by = if sc.chance(60) { c2.clone() } else { sc.pick(&["jo1".to_string(), self.core.clone(), "judge".into()]) };
                let ok = by == c2 && self.ap.as_ref().unwrap().is_approver;
                let r = sc.exec(&by, &ct, &json!({"extension":{"msg":{"reset_approver":{}}}}), &[]);
                ensure!(r.is_ok() == ok, T, "reset-approver", "reset_approver by {by}: expected ok={ok}, got {r:?}");
                if ok {
                    self.ap.as_mut().unwrap().is_approver = false;
                    self.approver = c2;
                    sc.tick("approver.reset");
                }
            }
            _ => {}
        }
        Ok(())
    }
}
fn s_u64(v: &Value) -> u64 {
    v.as_u64().unwrap_or_else(|| u(v) as u64)
}

fn go(sc: &mut Sc, kind: PKind) -> R {
    let mut w = W::new(sc, kind)?;
    w.check(sc)?;
    let n = sc.r(12, if sc.thorough { 60 } else { 40 });
    if kind == PKind::Approval && sc.chance(5) {
        w.burst(sc)?;
    }
    for _ in 0..n {
        w.step(sc)?;
    }
    Ok(())
}
pub fn single(sc: &mut Sc) -> R {
    go(sc, PKind::Single)
}
pub fn multi(sc: &mut Sc) -> R {
    go(sc, PKind::Multi)
}
pub fn approval(sc: &mut Sc) -> R {
    go(sc, PKind::Approval)
}
