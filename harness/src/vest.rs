//! cw-vesting: the schedule, who is paid what, cancellation (C16); staking of vesting tokens,
//! slashes and the stake history behind it (C17).
use crate::big::*;
use crate::chainstake::{BOND, POOL};
use crate::*;
use cosmwasm_std::coin;
use std::collections::{BTreeMap, BTreeSet};

const T16: &[&str] = &["C16"];
const T17: &[&str] = &["C17"];
const VALS: [&str; 3] = ["val1", "val2", "val3"];
const WHO: [&str; 5] = ["boss", "rec", "ann", "bob", "cat"];

#[derive(Clone, PartialEq, Debug)]
enum Stt {
    Unfunded,
    Funded,
    Canceled,
}
#[derive(Clone, Debug)]
enum Den {
    Native(String),
    Cw20(String),
}
/// One thing that changed what is staked (bonded or unbonding) with a validator.
#[derive(Clone, Debug)]
struct Ch {
    val: String,
    from: u64,
    to: u64,
    up: bool,
    a: u128,
}

pub struct W {
    t: &'static [&'static str],
    v: String,
    den: Den,
    owner: Option<String>,
    offered: Option<String>,
    total: u128,
    pts: Vec<(u64, u128)>,
    start: u64,
    ubs: u64,
    period: u64,
    st: Stt,
    vested_at_cancel: u128,
    claimed: u128,
    slashed: u128,
    ow: u128,
    pay_to: String,
    hist: Vec<Ch>,
    /// times at which the staked history has an entry: per validator, and overall
    marks: BTreeMap<String, BTreeSet<u64>>,
    all_marks: BTreeSet<u64>,
    /// losses the contract was not told about: (validator, bonded?, slash time, end, amount)
    untold: Vec<(String, bool, u64, u64, u128)>,
    lost: u128,
    /// tokens that are not the vest's
    stray: i128,
    spare: u128,
    got: BTreeMap<String, u128>,
}

fn curve(pts: &[(u64, u128)], x: u64) -> u128 {
    if x <= pts[0].0 {
        return pts[0].1;
    }
    for w in pts.windows(2) {
        let ((x1, y1), (x2, y2)) = (w[0], w[1]);
        if x <= x2 {
            return y1 + mul_div_u128(y2 - y1, (x - x1) as u128, (x2 - x1) as u128);
        }
    }
    pts[pts.len() - 1].1
}

impl W {
    fn vested(&self, t: u64) -> u128 {
        match self.st {
            Stt::Canceled => self.vested_at_cancel,
            _ => curve(&self.pts, t.saturating_sub(self.start)),
        }
    }
    fn staked_with(&self, v: &str, t: u64) -> u128 {
        let mut up = 0u128;
        let mut down = 0u128;
        for c in self.hist.iter().filter(|c| c.val == v && t >= c.from && t < c.to) {
            if c.up {
                up += c.a
            } else {
                down += c.a
            }
        }
        assert!(up >= down, "model: {v} at {t}: {up} < {down}");
        up - down
    }
    fn staked(&self, t: u64) -> u128 {
        VALS.iter().map(|v| self.staked_with(v, t)).sum()
    }
    fn entitled(&self, t: u64) -> u128 {
        (self.vested(t) - self.claimed).saturating_sub(self.slashed)
    }
    /// what the books say is at hand; less than nothing if others' tokens are staked too
    fn raw(&self, t: u64) -> i128 {
        let (a, b) = match self.st {
            Stt::Unfunded => (0, 0),
            Stt::Funded => (self.total - self.claimed, self.staked(t) + self.slashed),
            Stt::Canceled => (self.ow + self.entitled(t), self.staked(t)),
        };
        a as i128 - b as i128
    }
    fn liquid(&self, t: u64) -> u128 {
        self.raw(t).max(0) as u128
    }
    fn mark(&mut self, v: Option<&str>, t: u64, everywhere: bool) {
        if let Some(v) = v {
            self.marks.entry(v.into()).or_default().insert(t);
        }
        if everywhere {
            self.all_marks.insert(t);
        }
    }
    fn held(&self, sc: &Sc) -> u128 {
        self.bal(sc, &self.v)
    }
    fn bal(&self, sc: &Sc, who: &str) -> u128 {
        match &self.den {
            Den::Native(d) => sc.bank(who, d),
            Den::Cw20(t) => sc.cw20_bal(t, who),
        }
    }
    /// unbonded, but not yet paid out by the chain
    fn in_transit(&self, sc: &mut Sc) -> u128 {
        let (now, v) = (sc.now(), self.v.clone());
        sc.stk(|s| s.unbonding.iter().filter(|u| u.del == v && u.end <= now).map(|u| u.amount).sum())
    }
    fn purse(&self, sc: &Sc) -> BTreeMap<String, u128> {
        WHO.iter().map(|w| (w.to_string(), self.bal(sc, w))).collect()
    }
    /// checks that exactly these payments were made since `before`
    fn paid(&self, sc: &Sc, before: &BTreeMap<String, u128>, want: &[(&str, u128)], sig: &str, what: &str) -> R {
        for w in WHO {
            let x: u128 = want.iter().filter(|(a, _)| *a == w).map(|(_, x)| *x).sum();
            let (b, a) = (before[w], self.bal(sc, w));
            ensure!(a == b + x, self.t, sig, "{what}: {w} had {b}, has {a}, should have got {x}");
        }
        Ok(())
    }

    fn distribute(&mut self, sc: &mut Sc) -> R {
        let now = sc.now();
        let can = self.liquid(now).min(self.entitled(now));
        let by = sc.pick(&WHO);
        let req = match sc.r(0, 5) {
            0 => Some(sc.rng.gen_range(0..=can)),
            1 => Some(can.saturating_add(1)),
            2 => Some(can),
            3 => Some(sc.amount()),
            _ => None,
        };
        let x = req.unwrap_or(can);
        let before = self.purse(sc);
        let held = self.held(sc);
        let r = sc.exec(by, &self.v.clone(), &json!({"distribute": {"amount": req.map(|x| x.to_string())}}), &[]);
        let ok = x > 0 && x <= can && x <= held;
        ensure!(r.is_ok() == ok, self.t, "distribute", "distributing {req:?} of {can} (vested {}, claimed {}, slashed {}, held {held}): expected ok={ok}, got {r:?}", self.vested(now), self.claimed, self.slashed);
        self.paid(sc, &before, &[("rec", if ok { x } else { 0 })], "distributed", "distribution")?;
        if ok {
            self.claimed += x;
            sc.tick("distributed");
            if x < can {
                sc.tick("distributed.part");
            }
            if self.st == Stt::Canceled {
                sc.tick("distributed.after-cancel");
            }
            sc.nontrivial = true;
        }
        Ok(())
    }
    fn cancel(&mut self, sc: &mut Sc) -> R {
        let by = if sc.chance(70) { self.owner.clone().unwrap_or("boss".into()) } else { sc.pick(&WHO).to_string() };
        let now = sc.now();
        let before = self.purse(sc);
        let held = self.held(sc);
        let ent = self.entitled(now);
        let liq = self.liquid(now);
        let (to_v, to_o) = if self.st == Stt::Unfunded { (0, 0) } else { (ent.min(liq), liq - ent.min(liq)) };
        let ok = self.owner.as_deref() == Some(by.as_str()) && self.st != Stt::Canceled && to_v + to_o <= held;
        let r = sc.exec(&by, &self.v.clone(), &json!({"cancel": {}}), &[]);
        ensure!(r.is_ok() == ok, self.t, "cancel", "cancel by {by} (owner {:?}, {:?}, vested {}): expected ok={ok}, got {r:?}", self.owner, self.st, self.vested(now));
        if !ok {
            return self.paid(sc, &before, &[], "canceled", "refused cancellation");
        }
        self.paid(sc, &before, &[("rec", to_v), (by.as_str(), to_o)], "canceled", "cancellation")?;
        let unfunded = self.st == Stt::Unfunded;
        let over = self.raw(now).min(0);
        self.vested_at_cancel = if unfunded { 0 } else { self.vested(now) };
        self.st = Stt::Canceled;
        self.claimed += to_v;
        self.ow = self.staked(now) - self.entitled(now).min(self.staked(now));
        self.pay_to = by;
        self.stray += over;
        if over < 0 {
            sc.tick("canceled.stray-staked");
        }
        sc.tick(if unfunded { "canceled.unfunded" } else if to_v > 0 && to_o > 0 { "canceled.both" } else { "canceled" });
        if self.staked(now) > 0 {
            sc.tick("canceled.staked");
        }
        Ok(())
    }
    fn withdraw(&mut self, sc: &mut Sc) -> R {
        let now = sc.now();
        let can = if self.st == Stt::Canceled { self.ow.min(self.liquid(now)) } else { 0 };
        let req = match sc.r(0, 4) {
            0 => Some(sc.rng.gen_range(0..=can)),
            1 => Some(can.saturating_add(1)),
            _ => None,
        };
        let x = req.unwrap_or(can);
        let before = self.purse(sc);
        let held = self.held(sc);
        let by = sc.pick(&WHO);
        let r = sc.exec(by, &self.v.clone(), &json!({"withdraw_canceled_payment": {"amount": req.map(|x| x.to_string())}}), &[]);
        let ok = self.owner.is_some() && x > 0 && x <= can && x <= held;
        ensure!(r.is_ok() == ok, self.t, "withdraw", "withdrawing {req:?} of {can} after {:?} (owner's part {}, held {held}): expected ok={ok}, got {r:?}", self.st, self.ow);
        let o = self.owner.clone().unwrap_or_default();
        self.paid(sc, &before, &[(o.as_str(), if ok { x } else { 0 })], "withdrawn", "withdrawal")?;
        if ok {
            self.ow -= x;
            sc.tick("withdrawn");
        }
        Ok(())
    }
    fn fund(&mut self, sc: &mut Sc, other: &str) -> R {
        let Den::Cw20(tok) = self.den.clone() else {
            let by = sc.pick(&WHO);
            let r = sc.exec(by, &self.v.clone(), &json!({"receive": {"sender": "boss", "amount": self.total.to_string(), "msg": b64(&json!({"fund": {}}))}}), &[]);
            ensure!(r.is_err(), self.t, "fund", "{by} 'funded' a native vest with a made-up cw20 notice");
            return Ok(());
        };
        let wrong = sc.chance(20);
        // a payment that was cancelled cannot be revived with what it still amounts to, either
        let rest = if self.st != Stt::Canceled || sc.chance(40) { 0 } else { u(&sc.qm(self.t, &self.v, &json!({"total_to_vest": {}}))?) };
        let a = if rest > 0 { rest } else if sc.chance(25) { if sc.chance(50) { self.total.saturating_add(1) } else { self.total - 1 } } else { self.total };
        if a == 0 {
            return Ok(());
        }
        let t = if wrong { other.to_string() } else { tok.clone() };
        let by = sc.pick(&WHO);
        let have = sc.cw20_bal(&t, by);
        let r = sc.exec(by, &t, &json!({"send": {"contract": self.v, "amount": a.to_string(), "msg": b64(&json!({"fund": {}}))}}), &[]);
        let ok = !wrong && a == self.total && self.st == Stt::Unfunded && have >= a;
        ensure!(r.is_ok() == ok, self.t, "fund", "funding a vest ({:?}) of {} with {a} (right token: {}) by {by} holding {have}: expected ok={ok}, got {r:?}", self.st, self.total, !wrong);
        if ok {
            self.st = Stt::Funded;
            sc.tick("funded.cw20");
        } else {
            let r2 = sc.exec(by, &self.v.clone(), &json!({"receive": {"sender": by, "amount": self.total.to_string(), "msg": b64(&json!({"fund": {}}))}}), &[]);
            ensure!(r2.is_err(), self.t, "fund", "{by} 'funded' the vest with a made-up notice");
        }
        Ok(())
    }
    fn ownership(&mut self, sc: &mut Sc) -> R {
        let mut by = if sc.chance(70) { self.owner.clone().unwrap_or("boss".into()) } else { sc.pick(&WHO).to_string() };
        let (m, ok) = match sc.r(0, 9) {
            0..=4 => {
                // the recipient may become the owner of its own vest
                let to = sc.pick(&["boss", "ann", "bob", "rec"]);
                let ok = self.owner.as_deref() == Some(by.as_str());
                if ok {
                    self.offered = Some(to.into());
                }
                (json!({"transfer_ownership": {"new_owner": to, "expiry": null}}), ok)
            }
            5..=8 => {
                if sc.chance(70) {
                    by = self.offered.clone().unwrap_or(by);
                }
                let ok = self.offered.as_deref() == Some(by.as_str());
                if ok {
                    self.owner = self.offered.take();
                    sc.tick("owner.changed");
                }
                (json!("accept_ownership"), ok)
            }
            _ => {
                let locked = self.st == Stt::Canceled && self.ow > 0;
                let ok = self.owner.as_deref() == Some(by.as_str()) && !locked;
                if ok {
                    self.owner = None;
                    self.offered = None;
                    sc.tick("owner.renounced");
                } else if locked && self.owner.as_deref() == Some(by.as_str()) {
                    sc.tick("renounce.refused");
                }
                (json!("renounce_ownership"), ok)
            }
        };
        let r = sc.exec(&by, &self.v.clone(), &json!({"update_ownership": m}), &[]);
        ensure!(r.is_ok() == ok, self.t, "ownership", "{m} by {by} (owner {:?}, {:?}, owner's part {}): expected ok={ok}, got {r:?}", self.owner, self.st, self.ow);
        Ok(())
    }

    fn stake_op(&mut self, sc: &mut Sc) -> R {
        let now = sc.now();
        let v = sc.pick(&VALS);
        let kind = sc.weighted(&[40, 35, 15]);
        let by = if sc.chance(88) || (self.st == Stt::Canceled && kind == 1 && sc.chance(50)) { "rec" } else { sc.pick(&WHO) };
        let me = self.v.clone();
        let stakeable = matches!(&self.den, Den::Native(d) if d == BOND);
        let before = self.purse(sc);
        let rw = |w: &W, sc: &mut Sc, v: &str| -> u128 {
            let me = w.v.clone();
            sc.stk(|s| s.rewards.get(&me).and_then(|m| m.get(v)).copied().unwrap_or(0))
        };
        let bonded = sc.stk(|s| s.bond(&me, v));
        let tracked = self.staked_with(v, u64::MAX - 1);
        match kind {
            0 => {
                let held = self.held(sc);
                let a = match sc.r(0, 5) {
                    0 => 0,
                    1 => held,
                    2 => held.saturating_add(1),
                    _ => sc.rng.gen_range(0..=held),
                };
                // whatever else a vest of another token holds is not for staking either
                let a = if stakeable || sc.chance(40) {
                    a
                } else {
                    sc.mint(&me, 1000, BOND);
                    sc.tick("mon.unstakeable-with-stake-coins");
                    sc.r(1, 1000) as u128
                };
                let pend = rw(self, sc, v);
                let r = sc.exec(by, &me, &json!({"delegate": {"validator": v, "amount": a.to_string()}}), &[]);
                let liq = self.liquid(now);
                let ok = by == "rec" && self.st == Stt::Funded && stakeable && a > 0 && a <= held;
                ensure!(r.is_ok() == ok, self.t, "delegate", "{by} delegating {a} of {held} held and {liq} liquid ({:?}, stakeable {stakeable}): expected ok={ok}, got {r:?}", self.st);
                if ok {
                    self.hist.push(Ch { val: v.into(), from: now, to: u64::MAX, up: true, a });
                    self.mark(Some(v), now, true);
                    self.paid(sc, &before, &[(self.pay_to.clone().as_str(), pend)], "rewards", "rewards paid on delegation")?;
                    sc.tick("delegated");
                    if self.raw(now) < 0 {
                        sc.tick("delegated.stray");
                    }
                    if tracked == 0 && self.staked_with(v, now) > a {
                        sc.tick("delegated.while-unbonding");
                    }
                    sc.nontrivial = true;
                } else {
                    self.paid(sc, &before, &[], "rewards", "refused delegation")?;
                }
            }
            1 => {
                let a = match sc.r(0, 5) {
                    0 => 0,
                    1 | 2 => bonded,
                    3 => bonded.saturating_add(1),
                    _ => sc.rng.gen_range(0..=bonded),
                };
                let pend = rw(self, sc, v);
                let r = sc.exec(by, &me, &json!({"undelegate": {"validator": v, "amount": a.to_string()}}), &[]);
                let ok = stakeable && a > 0 && a <= bonded && match self.st {
                    Stt::Unfunded => false,
                    Stt::Funded => by == "rec",
                    Stt::Canceled => true,
                };
                ensure!(r.is_ok() == ok, self.t, "undelegate", "{by} undelegating {a} of {bonded} at {v} ({:?}): expected ok={ok}, got {r:?}", self.st);
                if ok {
                    self.hist.push(Ch { val: v.into(), from: now + self.ubs, to: u64::MAX, up: false, a });
                    self.mark(Some(v), now + self.ubs, true);
                    self.paid(sc, &before, &[(self.pay_to.clone().as_str(), pend)], "rewards", "rewards paid on undelegation")?;
                    sc.tick(if self.st == Stt::Canceled { "undelegated.after-cancel" } else { "undelegated" });
                }
            }
            _ => {
                let w = if sc.chance(90) { VALS[(VALS.iter().position(|x| *x == v).unwrap() + sc.r(1, 2) as usize) % 3] } else { v };
                let a = match sc.r(0, 4) {
                    0 => 0,
                    1 => bonded,
                    2 => bonded.saturating_add(1),
                    _ => sc.rng.gen_range(0..=bonded),
                };
                let receiving = sc.stk(|s| s.redel.iter().any(|(d, x, e)| *d == me && x == v && *e > now));
                let pend = rw(self, sc, v) + rw(self, sc, w);
                let r = sc.exec(by, &me, &json!({"redelegate": {"src_validator": v, "dst_validator": w, "amount": a.to_string()}}), &[]);
                let ok = by == "rec" && self.st == Stt::Funded && stakeable && a > 0 && a <= bonded && v != w && !receiving;
                ensure!(r.is_ok() == ok, self.t, "redelegate", "{by} redelegating {a} of {bonded} from {v} to {w} ({:?}, receiving {receiving}): expected ok={ok}, got {r:?}", self.st);
                if ok {
                    self.hist.push(Ch { val: v.into(), from: now, to: u64::MAX, up: false, a });
                    self.hist.push(Ch { val: w.into(), from: now, to: u64::MAX, up: true, a });
                    self.mark(Some(v), now, true);
                    self.mark(Some(w), now, true);
                    self.paid(sc, &before, &[(self.pay_to.clone().as_str(), pend)], "rewards", "rewards paid on redelegation")?;
                    sc.tick("redelegated");
                }
            }
        }
        Ok(())
    }
    fn rewards(&mut self, sc: &mut Sc) -> R {
        let v = sc.pick(&VALS);
        let me = self.v.clone();
        let bonded = sc.stk(|s| s.bond(&me, v));
        if sc.chance(45) {
            // another address for the rewards
            let by = if sc.chance(75) { if self.st == Stt::Canceled { self.owner.clone().unwrap_or("rec".into()) } else { "rec".into() } } else { sc.pick(&WHO).to_string() };
            let to = if sc.chance(15) { me.clone() } else { sc.pick(&WHO).to_string() };
            let r = sc.exec(&by, &me, &json!({"set_withdraw_address": {"address": to}}), &[]);
            let ok = to != me && if self.st == Stt::Canceled { self.owner.as_deref() == Some(by.as_str()) } else { by == "rec" };
            ensure!(r.is_ok() == ok, self.t, "withdraw-address", "{by} directs the rewards to {to} ({:?}, owner {:?}): expected ok={ok}, got {r:?}", self.st, self.owner);
            if ok {
                self.pay_to = to;
                sc.tick("withdraw-address");
            }
            return Ok(());
        }
        if bonded == 0 {
            return Ok(());
        }
        let a = sc.amount();
        sc.stk_reward(&me, v, a);
        if sc.chance(60) {
            let pend = sc.stk(|s| s.rewards.get(&me).and_then(|m| m.get(v)).copied().unwrap_or(0));
            let before = self.purse(sc);
            let by = sc.pick(&WHO);
            let r = sc.exec(by, &me, &json!({"withdraw_delegator_reward": {"validator": v}}), &[]);
            ensure!(r.is_ok(), self.t, "rewards", "withdrawing {pend} rewards: {r:?}");
            self.paid(sc, &before, &[(self.pay_to.clone().as_str(), pend)], "rewards", "reward withdrawal")?;
            sc.tick(if self.st == Stt::Canceled { "rewards.after-cancel" } else { "rewards" });
        }
        Ok(())
    }
    /// Would noting an unbonding slash at `s` for an entry ending at `end` fall between other entries
    /// of the recorded history?
    fn overlapped(&self, v: &str, s: u64, end: u64) -> bool {
        let hit = |m: &BTreeSet<u64>| m.range(s + 1..end).next().is_some();
        hit(&self.all_marks) || self.marks.get(v).map_or(false, hit)
    }
    fn slash(&mut self, sc: &mut Sc, allow_overlap: bool) -> R {
        if self.ubs != self.period || self.st == Stt::Unfunded {
            return Ok(());
        }
        let now = sc.now();
        let v = sc.pick(&VALS);
        let me = self.v.clone();
        let since = if sc.chance(50) { now } else { now.saturating_sub(sc.r(0, 2 * self.period)) };
        // which of our entries would be hit
        let hit: Vec<u64> = sc.stk(|s| s.unbonding.iter().filter(|u| u.del == me && u.val == v && u.start >= since && u.end > now).map(|u| u.end).collect());
        if !hit.is_empty() && !allow_overlap && (hit.len() > 1 || self.overlapped(v, now, hit[0])) {
            return Ok(());
        }
        let (num, den) = match sc.r(0, 5) {
            0 => (1, 1),
            1 => (1, 2),
            2 => (1, 20),
            3 => (1, 10_000),
            _ => (sc.r(1, 99) as u128, 100),
        };
        let (b, ents) = sc.stk_slash(&me, v, num, den, since);
        if b > 0 {
            self.untold.push((v.into(), true, now, u64::MAX, b));
            sc.tick("slashed.bonded");
        }
        for (end, a) in &ents {
            self.untold.push((v.into(), false, now, *end, *a));
            sc.tick("slashed.unbonding");
        }
        self.lost += b + ents.iter().map(|e| e.1).sum::<u128>();
        if !ents.is_empty() || sc.chance(60) {
            self.tell(sc, ents.len() > 1 || allow_overlap)?;
        }
        Ok(())
    }
    /// the owner registers slashes (and others try to)
    fn tell(&mut self, sc: &mut Sc, any: bool) -> R {
        if self.untold.is_empty() {
            return Ok(());
        }
        let me = self.v.clone();
        let now = sc.now();
        let (v, bonded, s, end, a) = self.untold[0].clone();
        let m = |a: u128, t: u64| json!({"register_slash": {"validator": v, "time": (t * NS).to_string(), "amount": a.to_string(), "during_unbonding": !bonded}});
        if sc.chance(15) {
            let by = sc.pick(&["rec", "ann", "cat"]);
            if self.owner.as_deref() != Some(by) {
                let r = sc.exec(by, &me, &m(a, s), &[]);
                ensure!(r.is_err(), self.t, "register-auth", "{by} registered a slash");
            }
        }
        let Some(o) = self.owner.clone() else { return Ok(()) };
        if sc.chance(10) {
            let r = sc.exec(&o, &me, &m(0, s), &[]);
            ensure!(r.is_err(), self.t, "register", "an empty slash was registered");
            let r = sc.exec(&o, &me, &m(a, now + 1), &[]);
            ensure!(r.is_err(), self.t, "register", "a slash in the future was registered");
        }
        if !bonded && !any && self.overlapped(&v, s, end) {
            return Ok(());
        }
        self.untold.remove(0);
        let r = sc.exec(&o, &me, &m(a, s), &[]);
        ensure!(r.is_ok(), self.t, "register", "registering a slash of {a} at {v} at {s} (bonded: {bonded}): {r:?}");
        self.hist.push(Ch { val: v.clone(), from: s, to: end, up: false, a });
        self.mark(Some(&v), s, true);
        match self.st {
            Stt::Canceled => {
                let x = a.min(self.ow);
                let owed = self.ow + self.entitled(now);
                self.ow -= x;
                self.slashed += a - x;
                self.stray -= (a - (owed - self.ow - self.entitled(now))) as i128;
                sc.tick(if a > x { "registered.canceled.spill" } else { "registered.canceled" });
            }
            _ => {
                self.slashed += a;
                sc.tick("registered");
            }
        }
        if s < now {
            sc.tick("registered.late");
        }
        Ok(())
    }

    fn check(&mut self, sc: &mut Sc) -> R {
        let (t, v, now) = (self.t, self.v.clone(), sc.now());
        let i = sc.qm(t, &v, &json!({"info": {}}))?;
        let st = match self.st {
            Stt::Unfunded => json!("unfunded"),
            Stt::Funded => json!("funded"),
            Stt::Canceled => json!({"canceled": {"owner_withdrawable": self.ow.to_string()}}),
        };
        ensure!(i["status"] == st, t, "status", "the vest reports {}, should be {st}", i["status"]);
        ensure!(u(&i["claimed"]) == self.claimed && u(&i["slashed"]) == self.slashed && i["recipient"] == json!("rec"), t, "info", "{i}: claimed {} slashed {}", self.claimed, self.slashed);
        let o = sc.qm(t, &v, &json!({"ownership": {}}))?;
        ensure!(o["owner"] == json!(self.owner) && o["pending_owner"] == json!(self.offered), t, "ownership", "{o}");
        // the schedule, at arbitrary times
        let ds = sc.r(0, 30);
        for x in [now, self.start.saturating_sub(1), self.start + ds, now + ds, u64::MAX / NS - 1, self.start + self.pts[sc.r(0, self.pts.len() as u64 - 1) as usize].0] {
            let g = u(&sc.qm(t, &v, &json!({"vested": {"t": (x as u128 * NS as u128).to_string()}}))?);
            ensure!(g == self.vested(x), t, "vested", "at {x} (start {}) {g} is reported vested, {} is", self.start, self.vested(x));
        }
        let tv = u(&sc.qm(t, &v, &json!({"total_to_vest": {}}))?);
        let want = if self.st == Stt::Canceled { self.vested_at_cancel } else { self.total };
        ensure!(tv == want, t, "total", "{tv} will vest in total, should be {want}");
        let du = sc.qm(t, &v, &json!({"vest_duration": {}}))?;
        let want = if self.st == Stt::Canceled { Value::Null } else { json!((self.pts[self.pts.len() - 1].0 - self.pts[0].0).to_string()) };
        ensure!(du == want, t, "duration", "duration {du}, should be {want}");
        // what can be paid out, now and (if nothing else happens) later
        for x in [now, now + sc.r(0, 3 * self.period)] {
            let g = u(&sc.qm(t, &v, &json!({"distributable": {"t": (x * NS).to_string()}}))?);
            let want = self.liquid(x).min(self.entitled(x));
            ensure!(g == want, t, "distributable", "at {x} (now {now}) {g} is reported distributable, should be {want} (liquid {}, vested {}, claimed {}, slashed {}, owner's {})", self.liquid(x), self.vested(x), self.claimed, self.slashed, self.ow);
        }
        // the books agree with the chain
        let held = self.held(sc);
        if self.untold.is_empty() && self.ubs == self.period {
            let tr = self.in_transit(sc);
            let liq = self.raw(now);
            ensure!((held + tr) as i128 == liq + self.stray, t, "holdings", "the vest holds {held} ({tr} in transit, {} unasked); by its books {liq}", self.stray);
            if self.st == Stt::Canceled {
                ensure!(liq + self.staked(now) as i128 == (self.ow + self.entitled(now)) as i128, t, "split", "{} staked and {liq} held, {} for the owner and {} for the recipient", self.staked(now), self.ow, self.entitled(now));
            }
        }
        if matches!(self.den, Den::Native(_)) && self.t == T17 {
            let (b, un): (u128, u128) = sc.stk(|s| (VALS.iter().map(|x| s.bond(&v, x)).sum(), s.unbonding.iter().filter(|u| u.del == v).map(|u| u.amount).sum()));
            if self.ubs == self.period && self.untold.is_empty() {
                let tr = self.in_transit(sc);
                ensure!(b + un - tr == self.staked(now), t, "staked", "{b} bonded and {un} unbonding, {} by the records", self.staked(now));
            }
            // the recorded history
            for x in [now, now.saturating_sub(sc.r(0, 2 * self.period)), now + sc.r(1, self.period + 5)] {
                let ts = (x * NS).to_string();
                let g = u(&sc.qm(t, &v, &json!({"stake": {"total_staked": {"t": ts}}}))?);
                ensure!(g == self.staked(x), t, "history-total", "{g} staked at {x} (now {now}), should be {}", self.staked(x));
                let mut n = 0;
                for val in VALS {
                    let g = u(&sc.qm(t, &v, &json!({"stake": {"validator_staked": {"t": ts, "validator": val}}}))?);
                    let want = self.staked_with(val, x);
                    ensure!(g == want, t, "history-validator", "{g} staked with {val} at {x} (now {now}), should be {want}");
                    n += (want > 0) as u128;
                }
                let g = u(&sc.qm(t, &v, &json!({"stake": {"cardinality": {"t": ts}}}))?);
                ensure!(g == n, t, "history-cardinality", "{g} validators at {x} (now {now}), should be {n}");
            }
            sc.checked(15);
        }
        sc.checked(18);
        Ok(())
    }
    fn time(&mut self, sc: &mut Sc) {
        let now = sc.now();
        let mut marks: Vec<u64> = self.pts.iter().map(|p| self.start + p.0).chain(self.all_marks.iter().copied()).filter(|x| *x > now).collect();
        marks.sort();
        let d = match sc.r(0, 6) {
            0..=2 if !marks.is_empty() => {
                let m = if sc.chance(60) { marks[0] } else { sc.pick(&marks) } - now;
                let d = sc.r(0, 2);
                (m + d).saturating_sub(1)
            }
            3 => sc.r(0, 3),
            4 => sc.r(1, self.period + 2),
            _ => sc.r(1, 60),
        };
        let d = d.min(40_000_000);
        sc.advance(1, d);
        if sc.chance(85) {
            sc.advance(1, 0);
        }
    }
}

fn schedule(sc: &mut Sc, total: u128) -> (Value, Vec<(u64, u128)>, u64) {
    let dur = match sc.r(0, 5) {
        0 => 1,
        1 => sc.r(1, 10),
        2 => sc.r(100, 100_000),
        3 => sc.r(1, 300_000_000),
        _ => sc.r(10, 2000),
    };
    if sc.chance(55) {
        return (json!("saturating_linear"), vec![(0, 0), (dur, total)], dur);
    }
    let n = sc.r(2, 5);
    let mut pts = vec![];
    let mut x = sc.r(1, 20);
    let mut y = 0u128;
    for i in 0..n {
        if i == n - 1 {
            y = total;
        } else if i > 0 && !sc.chance(25) {
            y = sc.rng.gen_range(y..=total);
        }
        pts.push((x, y));
        x += sc.r(1, dur.max(2));
    }
    let j: Vec<Value> = pts.iter().map(|(x, y)| json!([x, y.to_string()])).collect();
    let last = pts[pts.len() - 1].0;
    (json!({"piecewise_linear": j}), pts, last)
}

/// what instantiation has to refuse
fn bad_inits(sc: &mut Sc, code: u64, denom: &str) -> R {
    let now = sc.now();
    let base = json!({"owner": "boss", "recipient": "rec", "title": "t", "total": "100", "denom": {"native": denom}, "schedule": "saturating_linear",
        "start_time": null, "vesting_duration_seconds": 50, "unbonding_duration_seconds": 60});
    let mut bad: Vec<(&str, Value, Vec<cosmwasm_std::Coin>)> = vec![];
    let with = |f: &dyn Fn(&mut Value)| {
        let mut m = base.clone();
        f(&mut m);
        m
    };
    let hundred = vec![coin(100, denom)];
    bad.push(("nothing to vest", with(&|m| m["total"] = json!("0")), hundred.clone()));
    bad.push(("no duration", with(&|m| m["vesting_duration_seconds"] = json!(0)), hundred.clone()));
    bad.push(("over already", with(&|m| m["start_time"] = json!(((now - 50) * NS).to_string())), hundred.clone()));
    bad.push(("too little sent", base.clone(), vec![coin(99, denom)]));
    bad.push(("too much sent", base.clone(), vec![coin(101, denom)]));
    bad.push(("nothing sent", base.clone(), vec![]));
    bad.push(("two tokens sent", base.clone(), vec![coin(100, denom), coin(5, "zother")]));
    bad.push(("another token sent", base.clone(), vec![coin(100, "zother")]));
    for (w, p) in [
        ("decreasing", json!([[1, "0"], [5, "60"], [9, "50"], [12, "100"]])),
        ("not ending at the total", json!([[1, "0"], [5, "99"]])),
        ("beyond the total", json!([[1, "0"], [5, "101"]])),
        ("overshooting", json!([[1, "0"], [5, "150"], [9, "100"]])),
        ("not starting at zero", json!([[1, "1"], [5, "100"]])),
        ("one step", json!([[1, "100"]])),
        ("no steps", json!([])),
        ("out of order", json!([[5, "0"], [4, "100"]])),
        ("twice the same time", json!([[5, "0"], [5, "100"]])),
    ] {
        bad.push((w, with(&|m| m["schedule"] = json!({"piecewise_linear": p})), hundred.clone()));
    }
    sc.mint("boss", 1000, denom);
    sc.mint("boss", 1000, "zother");
    let (why, m, f) = sc.pick(&bad);
    let r = sc.init(code, "boss", &m, &f, "vest-bad", None);
    ensure!(r.is_err(), T16, "init", "a vest accepted although {why}: {m} {f:?}");
    Ok(())
}

pub fn world(sc: &mut Sc, t: &'static [&'static str], staking: bool) -> R<(W, String)> {
    // whole seconds, as staking periods end on them
    let t0 = sc.now() + 1000;
    sc.set_time(t0);
    let period = sc.pick(&[10u64, 60, 1000]);
    sc.stk_init(&VALS, period);
    let code = sc.code(wrap!(cw_vesting::contract));
    let c20 = sc.code(cw20_code());
    if !staking && sc.chance(30) {
        bad_inits(sc, code, BOND)?;
    }
    let mut total = if sc.chance(15) { sc.rng.gen_range(1..=5u128) } else { sc.amount().max(1) };
    if !staking && sc.chance(15) {
        total = sc.rng.gen_range(1u128 << 90..1u128 << 126);
    }
    let (sched, pts, last) = schedule(sc, total);
    let now = sc.now();
    let start = match sc.r(0, 3) {
        0 => None,
        1 => Some(now + sc.r(0, 200)),
        2 => Some(now - sc.r(0, last.min(now) - 1)),
        _ => Some(now),
    };
    let ubs = if staking && sc.chance(15) { sc.pick(&[period / 2, period * 2]) } else { period };
    let owner = if sc.chance(88) { Some("boss".to_string()) } else { None };
    let coins20 = |_: &mut Sc, x: u128| json!({"name": "token", "symbol": "TOK", "decimals": 6, "initial_balances": WHO.iter().map(|w| json!({"address": w, "amount": x.to_string()})).collect::<Vec<_>>(), "mint": null});
    let m = coins20(sc, total.min(u128::MAX / 10).saturating_add(5));
    let tok = sc.must_init(c20, "boss", &m, &[], "cw20")?;
    let other = sc.must_init(c20, "boss", &m, &[], "cw20b")?;
    let native = staking || sc.chance(55);
    let (den, dj, funds) = if native {
        let d = if staking { BOND } else { sc.pick(&[BOND, "uusd"]) };
        sc.mint("boss", total, d);
        (Den::Native(d.into()), json!({"native": d}), vec![coin(total, d)])
    } else {
        (Den::Cw20(tok.clone()), json!({"cw20": tok}), vec![])
    };
    let m = json!({"owner": owner, "recipient": "rec", "title": "t", "description": null, "total": total.to_string(), "denom": dj, "schedule": sched,
        "start_time": start.map(|x| (x * NS).to_string()), "vesting_duration_seconds": last, "unbonding_duration_seconds": ubs});
    let v = sc.must_init(code, "boss", &m, &funds, "vest")?;
    let w = W {
        t,
        v: v.clone(),
        den: den.clone(),
        offered: None,
        total,
        pts,
        start: start.unwrap_or(now),
        ubs,
        period,
        st: if native { Stt::Funded } else { Stt::Unfunded },
        vested_at_cancel: 0,
        claimed: 0,
        slashed: 0,
        ow: 0,
        pay_to: if matches!(&den, Den::Native(d) if d == BOND) { "rec".into() } else { v },
        owner,
        hist: vec![],
        marks: BTreeMap::new(),
        all_marks: BTreeSet::new(),
        untold: vec![],
        lost: 0,
        stray: 0,
        spare: 0,
        got: BTreeMap::new(),
    };
    let _ = (w.lost, w.spare, &w.got, POOL);
    Ok((w, other))
}

pub fn schedule_fam(sc: &mut Sc) -> R {
    let (mut w, other) = world(sc, T16, false)?;
    w.check(sc)?;
    let n = sc.r(6, 22);
    for _ in 0..n {
        match sc.weighted(&[30, 26, 6, 8, 10, 8, 4, 3]) {
            0 => w.time(sc),
            1 => w.distribute(sc)?,
            2 => w.cancel(sc)?,
            3 => w.withdraw(sc)?,
            4 => w.fund(sc, &other)?,
            5 => w.ownership(sc)?,
            6 => w.stake_op(sc)?,
            _ => {
                // somebody just sends tokens
                if let Den::Native(d) = w.den.clone() {
                    sc.mint(&w.v.clone(), 3, &d);
                    w.stray += 3;
                }
            }
        }
        w.check(sc)?;
    }
    // in the end everything can be had
    if w.st != Stt::Unfunded {
        let end = w.start + w.pts[w.pts.len() - 1].0;
        let now = sc.now();
        sc.advance(1, end.saturating_sub(now));
        sc.advance(1, w.period * 2);
        sc.advance(1, 0);
        w.check(sc)?;
        let me = w.v.clone();
        if w.t == T16 && w.staked(u64::MAX - 1) == 0 {
            let now = sc.now();
            let rest = w.entitled(now);
            let before = w.purse(sc);
            let r = sc.exec("cat", &me, &json!({"distribute": {"amount": null}}), &[]);
            ensure!(r.is_ok() == (rest > 0), w.t, "final", "{rest} left for the recipient at the end: {r:?}");
            w.paid(sc, &before, &[("rec", rest)], "final", "last distribution")?;
            w.claimed += rest;
            if w.st == Stt::Funded {
                ensure!(w.claimed == w.total, w.t, "final", "{} of {} was ever paid", w.claimed, w.total);
                sc.tick("paid-out");
            }
            w.check(sc)?;
        }
    }
    Ok(())
}

pub fn staking_fam(sc: &mut Sc) -> R {
    staking(sc, T17, true)
}
/// the same without slashes, as another test of who is paid what
pub fn staked_fam(sc: &mut Sc) -> R {
    staking(sc, T16, false)
}
fn staking(sc: &mut Sc, t: &'static [&'static str], slashes: bool) -> R {
    let (mut w, other) = world(sc, t, true)?;
    w.check(sc)?;
    let n = sc.r(8, 34);
    for _ in 0..n {
        match sc.weighted(&[24, 12, 4, 7, 1, 4, 34, 10, 8, 5, 3]) {
            0 => w.time(sc),
            1 => w.distribute(sc)?,
            2 => w.cancel(sc)?,
            3 => w.withdraw(sc)?,
            4 => w.fund(sc, &other)?,
            5 => w.ownership(sc)?,
            6 => w.stake_op(sc)?,
            7 => w.rewards(sc)?,
            8 if slashes => w.slash(sc, false)?,
            8 => w.withdraw(sc)?,
            9 => w.tell(sc, false)?,
            _ => {
                let x = sc.pick(&[1, 1000]);
                sc.mint(&w.v.clone(), x, BOND);
                w.stray += x as i128;
            }
        }
        w.check(sc)?;
    }
    // unwind everything: nothing may be stuck
    if w.ubs == w.period && w.st != Stt::Unfunded {
        while !w.untold.is_empty() && w.owner.is_some() {
            let k = w.untold.len();
            w.tell(sc, false)?;
            w.check(sc)?;
            if k == w.untold.len() {
                break;
            }
        }
        let me = w.v.clone();
        for v in VALS {
            let b = sc.stk(|s| s.bond(&me, v));
            if b > 0 {
                let now = sc.now();
                let r = sc.exec("rec", &me, &json!({"undelegate": {"validator": v, "amount": b.to_string()}}), &[]);
                ensure!(r.is_ok(), w.t, "unwind", "the recipient cannot undelegate {b} from {v}: {r:?}");
                w.hist.push(Ch { val: v.into(), from: now + w.ubs, to: u64::MAX, up: false, a: b });
                w.mark(Some(v), now + w.ubs, true);
                sc.stk(|s| s.rewards.clear());
                w.check(sc)?;
            }
        }
        let end = (w.start + w.pts[w.pts.len() - 1].0).max(sc.now() + w.period + 1);
        let now = sc.now();
        sc.advance(1, end - now);
        sc.advance(1, 0);
        w.check(sc)?;
        if w.untold.is_empty() {
            let now = sc.now();
            let rest = w.entitled(now);
            let before = w.purse(sc);
            let r = sc.exec("cat", &me, &json!({"distribute": {"amount": null}}), &[]);
            ensure!(r.is_ok() == (rest > 0), w.t, "final", "{rest} left for the recipient in the end: {r:?}");
            w.paid(sc, &before, &[("rec", rest)], "final", "last distribution")?;
            w.claimed += rest;
            if w.st == Stt::Canceled && w.owner.is_some() {
                let before = w.purse(sc);
                let r = sc.exec("cat", &me, &json!({"withdraw_canceled_payment": {"amount": null}}), &[]);
                ensure!(r.is_ok() == (w.ow > 0), w.t, "final", "{} left for the owner in the end: {r:?}", w.ow);
                w.paid(sc, &before, &[(w.owner.clone().unwrap().as_str(), w.ow)], "final", "last withdrawal")?;
                w.ow = 0;
            }
            w.check(sc)?;
            let held = w.held(sc);
            ensure!(w.owner.is_none() || w.raw(now) <= 0, w.t, "final", "{held} stuck in the end");
            sc.tick("unwound");
        }
    }
    Ok(())
}

/// A slash of unbonding tokens with another recorded change between it and the end of the unbonding.
pub fn overlap_fam(sc: &mut Sc) -> R {
    let t = T17;
    let t0 = sc.now() + 1000;
    sc.set_time(t0);
    let period = sc.pick(&[60u64, 1000]);
    sc.stk_init(&VALS, period);
    let code = sc.code(wrap!(cw_vesting::contract));
    let total = sc.rng.gen_range(1_000u128..1_000_000_000_000);
    sc.mint("boss", total, BOND);
    let m = json!({"owner": "boss", "recipient": "rec", "title": "t", "total": total.to_string(), "denom": {"native": BOND}, "schedule": "saturating_linear",
        "vesting_duration_seconds": period * 10, "unbonding_duration_seconds": period});
    let v = sc.must_init(code, "boss", &m, &[coin(total, BOND)], "vest")?;
    let exec = |sc: &mut Sc, by: &str, m: Value| -> R {
        let r = sc.exec(by, &v, &m, &[]);
        ensure!(r.is_ok(), t, "overlap-setup", "{m}: {r:?}");
        Ok(())
    };
    let a = sc.rng.gen_range(total / 4..total / 2);
    exec(sc, "rec", json!({"delegate": {"validator": "val1", "amount": a.to_string()}}))?;
    let und = sc.rng.gen_range(100.min(a)..=a);
    exec(sc, "rec", json!({"undelegate": {"validator": "val1", "amount": und.to_string()}}))?;
    let end = sc.now() + period;
    let d = sc.r(1, 10);
    sc.advance(1, d);
    let slashed_at = sc.now();
    let between = sc.chance(60);
    let (_, ents) = sc.stk_slash(&v, "val1", 1, 10, slashed_at - d);
    let cut: u128 = ents.iter().map(|e| e.1).sum();
    let bonded_cut = (a - und) - sc.stk(|s| s.bond(&v, "val1"));
    let d = sc.r(1, 10);
    sc.advance(1, d);
    let other = sc.rng.gen_range(1..total / 4);
    if between {
        exec(sc, "rec", json!({"delegate": {"validator": "val2", "amount": other.to_string()}}))?;
    }
    let later = sc.now();
    let reg = |x: u128, un: bool| json!({"register_slash": {"validator": "val1", "time": (slashed_at * NS).to_string(), "amount": x.to_string(), "during_unbonding": un}});
    if bonded_cut > 0 {
        exec(sc, "boss", reg(bonded_cut, false))?;
    }
    if cut == 0 {
        return Ok(());
    }
    exec(sc, "boss", reg(cut, true))?;
    sc.nontrivial = true;
    sc.tick(if between { "overlap.yes" } else { "overlap.no" });
    let at = |sc: &mut Sc, x: u64| -> R<u128> { Ok(u(&sc.qm(t, &v, &json!({"stake": {"total_staked": {"t": (x * NS).to_string()}}}))?)) };
    let plus = if between { other } else { 0 };
    let base = a - bonded_cut;
    for (x, want) in [(slashed_at - 1, a), (slashed_at, base - cut), (later - 1, base - cut), (later, base - cut + plus), (end - 1, base - cut + plus), (end, base - und + plus)] {
        let g = at(sc, x)?;
        sc.checked(1);
        ensure!(!(between && x >= later && x < end && g == want + cut), t, "unbonding-slash-overlap", "{g} staked at {x}, should be {want}: {cut} slashed at {slashed_at} from tokens unbonding until {end}, {other} delegated at {later}");
        ensure!(g == want, t, "history-total", "{g} staked at {x}, should be {want}");
    }
    Ok(())
}
