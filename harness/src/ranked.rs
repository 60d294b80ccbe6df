//! Ranked-choice world: core + cw4 voting + condorcet module, with the winner recomputed
//! from the raw ballots after every step.
use crate::gov::*;
use crate::*;
use std::collections::BTreeMap;

const T: &[&str] = &["C03"];
const BALLOT: &[&str] = &["C03", "C04"];
const EFFECT: &[&str] = &["C03", "C05"];

#[derive(Clone, Debug)]
struct Rp {
    id: u64,
    start: u64,
    total: u128,
    exp: Exp,
    min: Option<Exp>,
    quorum: Pct,
    close_fail: bool,
    n: usize,
    opts: Vec<OptMsgs>, // without none of the above
    ballots: BTreeMap<String, (Vec<u32>, u128)>,
    terminal: Option<&'static str>,
    paid: Option<usize>,
    early: Option<String>,
}
impl Rp {
    /// margin[a][b] = power preferring a to b minus power preferring b to a
    fn margins(&self) -> Vec<Vec<i128>> {
        let mut m = vec![vec![0i128; self.n]; self.n];
        for (b, p) in self.ballots.values() {
            let pos = |c: usize| b.iter().position(|x| *x as usize == c).unwrap();
            for a in 0..self.n {
                for c in 0..self.n {
                    if a != c {
                        if pos(a) < pos(c) {
                            m[a][c] += *p as i128;
                        } else {
                            m[a][c] -= *p as i128;
                        }
                    }
                }
            }
        }
        m
    }
    fn cast(&self) -> u128 {
        self.ballots.values().map(|x| x.1).sum()
    }
    fn status(&self, sc: &Sc) -> String {
        if let Some(t) = self.terminal {
            return t.into();
        }
        if let Some(m) = self.min {
            if !m.hit(sc) {
                return "open".into();
            }
        }
        let left = (self.total - self.cast()) as i128;
        let m = self.margins();
        let least = |a: usize| (0..self.n).filter(|b| *b != a).map(|b| m[a][b]).min().unwrap();
        let winner = (0..self.n).find(|a| least(*a) > 0);
        let expired = self.exp.hit(sc);
        let quorum = self.quorum.pass(self.cast(), self.total);
        if expired && !quorum {
            return "rejected".into();
        }
        match winner {
            Some(w) => {
                let safe = least(w) > left;
                if quorum && (expired || safe) {
                    format!("passed:{w}")
                } else {
                    "open".into()
                }
            }
            None => {
                // some option could still beat all others if every outstanding vote ranks it first
                let hope = (0..self.n).any(|a| least(a) + left > 0);
                if expired || !hope {
                    "rejected".into()
                } else {
                    "open".into()
                }
            }
        }
    }
}

fn st(v: &Value) -> String {
    match v {
        Value::String(x) => x.clone(),
        Value::Object(m) => {
            let (k, v) = m.iter().next().unwrap();
            format!("{k}:{}", v["winner"])
        }
        _ => "?".into(),
    }
}

pub fn run(sc: &mut Sc) -> R {
    let n = sc.r(1, 6) as usize;
    let style = sc.r(0, 4);
    let mut cur: BTreeMap<String, u128> = BTreeMap::new();
    for i in 0..n {
        let w: u128 = match style {
            0 => 1,
            1 => sc.r(0, 4).into(),
            2 => sc.r(1, 100).into(),
            3 => sc.r(1, 1_000_000_000_000_000).into(),
            // together no more than 2^126
            _ => {
                let b = sc.r(60, 123);
                sc.rng.gen_range(0..=1u128 << b)
            }
        };
        cur.insert(format!("voter{i}"), w);
    }
    let mut people: Vec<String> = cur.keys().cloned().collect();
    people.push("outsider".into());
    let total: u128 = cur.values().sum();
    let rand_cfg = |sc: &mut Sc| {
        let time = sc.chance(50);
        let unit = if time { 5 } else { 1 };
        let max = if sc.chance(5) { 0 } else { sc.r(1, 12) * unit };
        let min = if sc.chance(35) { Some(sc.r(0, max)) } else { None };
        let quorum = rand_pct(sc, total, true);
        let close = sc.chance(50);
        (time, max, min, quorum, close)
    };
    let cfg_json = |c: &(bool, u64, Option<u64>, Pct, bool)| {
        json!({"quorum": c.3.json(), "voting_period": dur(c.0, c.1), "min_voting_period": c.2.map(|m| dur(c.0, m)),
               "close_proposals_on_execution_failure": c.4})
    };
    let mut cfg = rand_cfg(sc);
    // the first member's weight meets the quorum, or misses it by one
    if let (true, Pct::P(p)) = (n > 1 && sc.chance(30), cfg.3) {
        let line = crate::big::mul_div_u128(total, p, ONE);
        let line = line + if line < total { sc.r(0, 1) as u128 } else { 0 };
        let mut rest = total - line;
        cur.insert("voter0".into(), line);
        for i in 1..n {
            let x = if i + 1 == n { rest } else { sc.rng.gen_range(0..=rest) };
            rest -= x;
            cur.insert(format!("voter{i}"), x);
        }
        sc.tick("mon.on_the_line");
    }
    let huge = style == 4 || cur.values().any(|x| *x > 1 << 60);
    if huge {
        sc.tick("mon.huge_powers");
    }
    let cc = sc.code(core_code());
    let vc = sc.code(vcw4_code());
    let gc = sc.code(cw4_code());
    let pc = sc.code(wrap!(dao_proposal_condorcet::contract; reply));
    let (group, vc, vm) = if huge {
        let vc = sc.code(crate::electorate::electorate_code());
        (String::new(), vc, json!({"members": cur.iter().map(|(a, w)| json!([a, w.to_string()])).collect::<Vec<_>>()}))
    } else {
        let members = cur.iter().map(|(a, w)| json!({"addr":a,"weight":*w as u64})).collect::<Vec<_>>();
        let group = sc.must_init(gc, "creator", &json!({"admin":"groupadmin","members":members}), &[], "cw4")?;
        let vm = json!({"group_contract":{"existing":{"address":group}}});
        (group, vc, vm)
    };
    let core = sc.must_init(cc, "creator", &dao_init(vc, &vm, &[(pc, cfg_json(&cfg))], json!({})), &[], "core")?;
    let voting = s(&sc.qm(T, &core, &json!({"voting_module":{}}))?);
    let module = s(&sc.qm(T, &core, &json!({"proposal_modules":{}}))?[0]["address"]);
    sc.label(&module, "condorcet");
    let mut treasury = 1_000_000_000u128;
    sc.mint(&core, treasury, DENOM);
    let mut hist: Vec<(u64, BTreeMap<String, u128>)> = vec![(sc.height(), cur.clone())];
    sc.advance(1, 5);
    let mut props: Vec<Rp> = vec![];
    let mut uniq = 0u128;
    let steps = if sc.thorough { 120 } else { 55 };
    for k in 0..steps {
        let at = |h: u64| {
            let mut r = BTreeMap::new();
            for (x, m) in &hist {
                if *x < h {
                    r = m.clone();
                }
            }
            r
        };
        let op = if k == 0 { 0 } else { sc.weighted(&[7, 45, 10, 6, 6, 3, 14, 10]) };
        match op {
            0 => {
                let who = people.choose(&mut sc.rng).unwrap().clone();
                let nreal = match sc.r(0, 24) {
                    0 => 0,
                    1 | 2 => sc.r(5, 9) as usize,
                    _ => sc.r(1, 4) as usize,
                };
                let id = props.len() as u64 + 1;
                let mut opts = vec![];
                let mut choices = vec![];
                for _ in 0..nreal {
                    uniq += 1;
                    let to = format!("payee{uniq}");
                    let pay = |to: &str, a: u128| json!({"bank":{"send":{"to_address":to,"amount":[{"denom":DENOM,"amount":a.to_string()}]}}});
                    let fails = sc.chance(20);
                    let mut m = vec![pay(&to, 100 + uniq)];
                    if fails {
                        m.push(if sc.chance(50) {
                            pay("nobody", 10_000_000_000_000)
                        } else {
                            json!({"wasm":{"execute":{"contract_addr":module,"msg":b64(&json!({"execute":{"proposal_id":id}})),"funds":[]}}})
                        });
                    }
                    choices.push(json!({ "msgs": m }));
                    opts.push(OptMsgs { to, amount: 100 + uniq, fails, empty: false });
                }
                let w = at(sc.height());
                let expect = cur.get(&who).copied().unwrap_or(0) > 0 && nreal > 0;
                let r = sc.exec(&who, &module, &json!({"propose":{"choices":choices}}), &[]);
                ensure!(r.is_ok() == expect, EFFECT, "propose-accept", "propose by {who} with {nreal} choices: expected ok={expect} got {r:?}");
                if expect {
                    let now = if cfg.0 { Exp::T(sc.block().time.nanos()) } else { Exp::H(sc.height()) };
                    props.push(Rp {
                        id,
                        start: sc.height(),
                        total: w.values().map(|x| *x as u128).sum(),
                        exp: now.add(cfg.1),
                        min: cfg.2.map(|m| now.add(m)),
                        quorum: cfg.3,
                        close_fail: cfg.4,
                        n: nreal + 1,
                        opts,
                        ballots: BTreeMap::new(),
                        terminal: None,
                        paid: None,
                        early: None,
                    });
                }
            }
            1 if !props.is_empty() => {
                let back = sc.r(0, 2) as usize;
                let i = props.len() - 1 - back.min(props.len() - 1);
                let who = people.choose(&mut sc.rng).unwrap().clone();
                let p = props[i].clone();
                let mut b: Vec<u32> = (0..p.n as u32).collect();
                b.shuffle(&mut sc.rng);
                if sc.chance(50) {
                    // correlated ballots so that winners emerge
                    let fav = (p.id % p.n as u64) as u32;
                    b.retain(|x| *x != fav);
                    b.insert(0, fav);
                }
                let mut valid = true;
                if sc.chance(5) {
                    valid = false;
                    match sc.r(0, 2) {
                        0 => {
                            b.pop();
                        }
                        1 => b[0] = p.n as u32,
                        _ => {
                            let x = b[0];
                            let l = b.len() - 1;
                            b[l] = x;
                        }
                    }
                }
                let power = at(p.start).get(&who).copied().unwrap_or(0);
                let expect = valid && power > 0 && !p.exp.hit(sc) && !p.ballots.contains_key(&who);
                let r = sc.exec(&who, &module, &json!({"vote":{"proposal_id":p.id,"vote":b}}), &[]);
                ensure!(
                    r.is_ok() == expect,
                    BALLOT,
                    "vote-accept",
                    "ballot {b:?} by {who} (power {power}) on {}: expected ok={expect}, got {}",
                    p.id,
                    r.map(|_| "ok".into()).unwrap_or_else(|e| e)
                );
                if expect {
                    props[i].ballots.insert(who, (b, power));
                }
            }
            2 | 3 if !props.is_empty() => {
                let i = sc.r(0, props.len() as u64 - 1) as usize;
                let who = people.choose(&mut sc.rng).unwrap().clone();
                let p = props[i].clone();
                let status = p.status(sc);
                if op == 2 {
                    let power = at(p.start).get(&who).copied().unwrap_or(0);
                    let win = status.strip_prefix("passed:").map(|w| w.parse::<usize>().unwrap());
                    let fails = win.map(|w| w < p.opts.len() && p.opts[w].fails).unwrap_or(false);
                    let expect = win.is_some() && power > 0 && (!fails || p.close_fail);
                    let r = sc.exec(&who, &module, &json!({"execute":{"proposal_id":p.id}}), &[]);
                    ensure!(
                        r.is_ok() == expect,
                        EFFECT,
                        "execute-accept",
                        "execute of {} in {status} by {who} (power {power}, fails {fails}): expected ok={expect}, got {}",
                        p.id,
                        r.map(|_| "ok".into()).unwrap_or_else(|e| e)
                    );
                    if expect {
                        sc.nontrivial = true;
                        if fails {
                            props[i].terminal = Some("execution_failed");
                            sc.tick("mon.execution_failed");
                        } else {
                            props[i].terminal = Some("executed");
                            let w = win.unwrap();
                            sc.tick("mon.executed");
                            if w < p.opts.len() {
                                props[i].paid = Some(w);
                                treasury -= p.opts[w].amount;
                            }
                        }
                    }
                } else {
                    let expect = status == "rejected";
                    let r = sc.exec(&who, &module, &json!({"close":{"proposal_id":p.id}}), &[]);
                    ensure!(r.is_ok() == expect, EFFECT, "close-accept", "close of {} in {status}: expected ok={expect}, got {r:?}", p.id);
                    if expect {
                        props[i].terminal = Some("closed");
                        sc.nontrivial = true;
                    }
                }
            }
            4 => {
                let who = format!("voter{}", sc.r(0, 6));
                if !people.contains(&who) {
                    people.push(who.clone());
                }
                let remove = sc.chance(25);
                let mut w = sc.r(0, 20) as u128;
                if huge && sc.chance(30) {
                    let b = sc.r(60, 122);
                    w = sc.rng.gen_range(0..=1u128 << b);
                }
                let others: u128 = cur.iter().filter(|x| *x.0 != who).map(|x| *x.1).sum();
                w = w.min((1u128 << 126) - others.min(1 << 126));
                let m = if huge {
                    json!({"set":{"addr":who,"power":if remove { Value::Null } else { json!(w.to_string()) }}})
                } else if remove {
                    json!({"update_members":{"remove":[who],"add":[]}})
                } else {
                    json!({"update_members":{"remove":[],"add":[{"addr":who,"weight":w as u64}]}})
                };
                if sc.exec("groupadmin", if huge { &voting } else { &group }, &m, &[]).is_ok() {
                    if remove {
                        cur.remove(&who);
                    } else {
                        cur.insert(who, w);
                    }
                    hist.push((sc.height(), cur.clone()));
                }
            }
            5 => {
                let c = rand_cfg(sc);
                let mut j = cfg_json(&c);
                let mut valid = true;
                if sc.chance(15) {
                    valid = false;
                    match sc.r(0, 1) {
                        0 => j["quorum"] = Pct::P(ONE + 1).json(),
                        _ => j["min_voting_period"] = dur(c.0, c.1 + 1),
                    }
                }
                let who = if sc.chance(70) { core.clone() } else { people.choose(&mut sc.rng).unwrap().clone() };
                let expect = valid && who == core;
                let r = sc.exec(&who, &module, &json!({ "set_config": j }), &[]);
                ensure!(r.is_ok() == expect, &["C03", "C05"], "config-accept", "set_config by {who}: expected ok={expect}, got {r:?}");
                if expect {
                    cfg = c;
                }
            }
            6 => {
                let n = if sc.chance(25) { sc.r(2, 6) } else { 1 };
                sc.advance(n, 5 * n);
            }
            _ if !props.is_empty() => {
                let i = sc.r(0, props.len() as u64 - 1) as usize;
                let d = if sc.chance(50) { props[i].exp } else { props[i].min.unwrap_or(props[i].exp) };
                let off = sc.r(0, 2);
                match d {
                    Exp::H(h) if h + off > sc.height() + 1 => {
                        let k = h + off - 1 - sc.height();
                        sc.advance(k, 5 * k);
                    }
                    Exp::T(t) if t / NS + off > sc.now() + 1 => {
                        let k = t / NS + off - 1 - sc.now();
                        sc.advance(1, k);
                    }
                    _ => {}
                }
            }
            _ => {}
        }
        // monitor
        let mut spent = 0;
        for p in props.iter_mut() {
            let v = sc.qm(T, &module, &json!({"proposal":{"id":p.id}}))?;
            let got = st(&v["proposal"]["last_status"]);
            let want = p.status(sc);
            ensure!(
                got == want,
                T,
                "status",
                "proposal {} reports {got}, its ballots give {want} (ballots {:?}, total {}, quorum {:?}, expires {:?}, min {:?})",
                p.id,
                p.ballots,
                p.total,
                p.quorum,
                p.exp,
                p.min
            );
            if want.starts_with("passed") || want == "rejected" {
                sc.nontrivial = true;
                let kind = if want == "rejected" { "rejected" } else { "passed" };
                sc.tick(&format!("mon.{kind}"));
                if !p.exp.hit(sc) {
                    sc.tick(&format!("mon.early_{kind}"));
                    p.early = Some(want.clone());
                }
            }
            if let Some(e) = &p.early {
                if p.terminal.is_none() {
                    ensure!(*e == want, T, "early-outcome-contradicted", "proposal {} was {e} early and is {want} now", p.id);
                }
            }
            ensure!(
                u(&v["tally"]["power_outstanding"]) == p.total - p.cast() && u(&v["proposal"]["total_power"]) == p.total,
                BALLOT,
                "power",
                "proposal {} outstanding {} of {}, ballots leave {} of {}",
                p.id,
                v["tally"]["power_outstanding"],
                v["proposal"]["total_power"],
                p.total - p.cast(),
                p.total
            );
            ensure!(v["tally"]["expiration"] == p.exp.json(), EFFECT, "terms", "expiration {} want {:?}", v["tally"]["expiration"], p.exp);
            for (i, o) in p.opts.iter().enumerate() {
                let want = if p.paid == Some(i) { o.amount } else { 0 };
                spent += want;
                let got = sc.bank(&o.to, DENOM);
                ensure!(got == want, EFFECT, "effects", "payee of choice {i} of {} holds {got}, want {want}", p.id);
            }
            sc.checked(5);
        }
        let t = sc.bank(&core, DENOM);
        ensure!(t == treasury && t + spent == 1_000_000_000, EFFECT, "treasury", "treasury {t} want {treasury}");
        let nx = sc.qm(T, &module, &json!({"next_proposal_id":{}}))?;
        ensure!(nx == json!(props.len() + 1), EFFECT, "ids", "next id {nx}, {} proposals exist", props.len());
    }
    Ok(())
}
