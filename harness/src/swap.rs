//! cw-token-swap: an escrow between two parties (C18).
use crate::*;
use cosmwasm_std::coin;
use std::collections::BTreeMap;

const T: &[&str] = &["C18"];

#[derive(Clone, Debug, PartialEq)]
enum As {
    Nat(String),
    C20(String),
}
#[derive(Clone, Debug)]
struct Party {
    who: String,
    asset: usize,
    amount: u128,
    provided: bool,
}
struct W {
    swap: String,
    assets: Vec<As>,
    who: Vec<String>,
    p: [Party; 2],
    /// (holder, asset) -> amount
    book: BTreeMap<(String, usize), u128>,
    done: bool,
}
impl As {
    fn promise(&self, amount: &str) -> Value {
        match self {
            As::Nat(d) => json!({"native": {"denom": d, "amount": amount}}),
            As::C20(t) => json!({"cw20": {"contract_addr": t, "amount": amount}}),
        }
    }
}
impl W {
    fn bal(&self, sc: &Sc, who: &str, a: usize) -> u128 {
        match &self.assets[a] {
            As::Nat(d) => sc.bank(who, d),
            As::C20(t) => sc.cw20_bal(t, who),
        }
    }
    fn mv(&mut self, from: &str, to: &str, a: usize, x: u128) {
        *self.book.get_mut(&(from.to_string(), a)).unwrap() -= x;
        *self.book.entry((to.to_string(), a)).or_insert(0) += x;
    }
    fn check(&self, sc: &mut Sc) -> R {
        let st = sc.qm(T, &self.swap, &json!({"status": {}}))?;
        for (i, k) in ["counterparty_one", "counterparty_two"].iter().enumerate() {
            let p = &self.p[i];
            let want = json!({"address": p.who, "promise": self.assets[p.asset].promise(&p.amount.to_string()), "provided": p.provided});
            ensure!(st[k] == want, T, "status", "{k} is reported as {}, should be {want}", st[k]);
        }
        for ((w, a), x) in &self.book {
            let g = self.bal(sc, w, *a);
            ensure!(g == *x, T, "holdings", "{w} holds {g} of {:?}, should hold {x} ({:?})", self.assets[*a], self.p);
        }
        sc.checked(2 + self.book.len() as u64);
        Ok(())
    }
    fn fund(&mut self, sc: &mut Sc, exact: bool) -> R {
        let by = if exact || sc.chance(85) { let i = sc.r(0, 1) as usize; self.p[i].who.clone() } else { sc.pick(&self.who) };
        let me = self.p.iter().position(|p| p.who == by);
        let own = me.map(|i| self.p[i].clone());
        let asset = match &own {
            Some(p) if exact || sc.chance(75) => p.asset,
            _ => sc.r(0, self.assets.len() as u64 - 1) as usize,
        };
        let base = own.as_ref().map(|p| p.amount).unwrap_or(self.p[0].amount);
        let x = match sc.r(0, 9) {
            0 if !exact => base.saturating_sub(1),
            1 if !exact => base + 1,
            2 if !exact => sc.amount(),
            3 if !exact => base * 2,
            _ => base,
        };
        let have = self.book.get(&(by.clone(), asset)).copied().unwrap_or(0);
        let two = matches!(self.assets[asset], As::Nat(_)) && !exact && sc.chance(6);
        let r = match self.assets[asset].clone() {
            As::Nat(d) => {
                let mut f = if x == 0 { vec![] } else { vec![coin(x, d)] };
                if two {
                    f.push(coin(1, "zextra"));
                }
                sc.exec(&by, &self.swap.clone(), &json!({"fund": {}}), &f)
            }
            As::C20(t) => sc.exec(&by, &t, &json!({"send": {"contract": self.swap, "amount": x.to_string(), "msg": b64(&json!(""))}}), &[]),
        };
        let ok = have >= x && !two && own.as_ref().map_or(false, |p| p.asset == asset && p.amount == x && !p.provided);
        ensure!(r.is_ok() == ok, T, "fund", "{by} ({own:?}) provides {x} of {:?} holding {have}: expected ok={ok}, got {r:?}", self.assets[asset]);
        if ok {
            let i = me.unwrap();
            self.p[i].provided = true;
            let sw = self.swap.clone();
            self.mv(&by, &sw, asset, x);
            sc.tick(match self.assets[asset] {
                As::Nat(_) => "funded.native",
                As::C20(_) => "funded.cw20",
            });
            if self.p[0].provided && self.p[1].provided {
                let [a, b] = self.p.clone();
                self.mv(&sw, &b.who, a.asset, a.amount);
                self.mv(&sw, &a.who, b.asset, b.amount);
                self.done = true;
                sc.tick("completed");
                sc.nontrivial = true;
            }
        } else if own.as_ref().map_or(false, |p| p.asset == asset && p.amount != x && have >= x) {
            sc.tick("refused.amount");
        }
        Ok(())
    }
    fn withdraw(&mut self, sc: &mut Sc) -> R {
        let by = if sc.chance(85) { let i = sc.r(0, 1) as usize; self.p[i].who.clone() } else { sc.pick(&self.who) };
        let me = self.p.iter().position(|p| p.who == by);
        let ok = !self.done && me.map_or(false, |i| self.p[i].provided);
        let r = sc.exec(&by, &self.swap.clone(), &json!({"withdraw": {}}), &[]);
        ensure!(r.is_ok() == ok, T, "withdraw", "{by} withdraws ({:?}, done: {}): expected ok={ok}, got {r:?}", self.p, self.done);
        if ok {
            let i = me.unwrap();
            self.p[i].provided = false;
            let p = self.p[i].clone();
            let sw = self.swap.clone();
            self.mv(&sw, &by, p.asset, p.amount);
            sc.tick("withdrawn");
        } else if self.done {
            sc.tick("withdraw.refused-done");
        }
        Ok(())
    }
    /// claims to have paid
    fn forge(&mut self, sc: &mut Sc) -> R {
        let by = sc.pick(&self.who);
        let i = sc.r(0, 1) as usize;
        let (m, f) = if sc.chance(70) {
            (json!({"receive": {"sender": self.p[i].who, "amount": self.p[i].amount.to_string(), "msg": b64(&json!(""))}}), vec![])
        } else {
            // paying with nothing attached
            (json!({"fund": {}}), vec![])
        };
        let r = sc.exec(&by, &self.swap.clone(), &m, &f);
        ensure!(r.is_err(), T, "forged", "{by} made the swap believe in a payment: {m}");
        sc.tick("forged");
        Ok(())
    }
    fn stray(&mut self, sc: &mut Sc) -> R {
        let by = sc.pick(&self.who);
        let a = sc.r(0, self.assets.len() as u64 - 1) as usize;
        let x = sc.amount().min(self.book[&(by.clone(), a)] / 4);
        if x == 0 {
            return Ok(());
        }
        let sw = self.swap.clone();
        let r = match self.assets[a].clone() {
            As::Nat(d) => sc.cosmos(&by, cosmwasm_std::BankMsg::Send { to_address: sw.clone(), amount: vec![coin(x, d)] }.into()).map(|_| ()),
            As::C20(t) => sc.exec(&by, &t, &json!({"transfer": {"recipient": sw, "amount": x.to_string()}}), &[]).map(|_| ()),
        };
        ensure!(r.is_ok(), T, "stray", "transfer to the swap: {r:?}");
        self.mv(&by, &sw, a, x);
        sc.tick("stray");
        Ok(())
    }
}

pub fn swap(sc: &mut Sc) -> R {
    let code = sc.code(wrap!(cw_token_swap::contract; migrate));
    let c20 = sc.code(cw20_code());
    let pup = sc.code(puppet_code());
    let who: Vec<String> = vec!["ann".into(), "bob".into(), "cat".into()];
    let big = [sc.amount().max(1), sc.amount().max(1)];
    let stock = (big[0] + big[1]) * 4 + 20;
    let mut assets = vec![];
    for d in ["ua", "ub"] {
        for w in &who {
            sc.mint(w, stock, d);
        }
        assets.push(As::Nat(d.into()));
    }
    for w in &who {
        sc.mint(w, 10, "zextra");
    }
    for l in ["tok1", "tok2"] {
        let m = json!({"name": "token", "symbol": "TOK", "decimals": 6, "initial_balances": who.iter().map(|w| json!({"address": w, "amount": stock.to_string()})).collect::<Vec<_>>(), "mint": null});
        assets.push(As::C20(sc.must_init(c20, "deployer", &m, &[], l)?));
    }
    let puppet = sc.must_init(pup, "deployer", &json!({}), &[], "puppet")?;
    let mut names = who.clone();
    names.shuffle(&mut sc.rng);
    let p: Vec<Party> = (0..2).map(|i| Party { who: names[i].clone(), asset: sc.r(0, 3) as usize, amount: big[i], provided: false }).collect();
    let one = |p: &Party| json!({"address": p.who, "promise": assets[p.asset].promise(&p.amount.to_string())});
    let good = json!({"counterparty_one": one(&p[0]), "counterparty_two": one(&p[1])});
    if sc.chance(40) {
        let mut m = good.clone();
        let side = sc.pick(&["counterparty_one", "counterparty_two"]);
        let why = match sc.r(0, 4) {
            0 => {
                m[side]["promise"] = assets[sc.r(0, 3) as usize].promise("0");
                "a promise of nothing"
            }
            1 => {
                m["counterparty_two"]["address"] = m["counterparty_one"]["address"].clone();
                "a swap with oneself"
            }
            2 => {
                m[side]["promise"] = As::C20(puppet.clone()).promise("5");
                "a promise of what is no cw20"
            }
            3 => {
                m[side]["promise"] = As::C20("nobody".into()).promise("5");
                "a promise of a missing cw20"
            }
            _ => {
                m[side]["address"] = json!("x");
                "an invalid address"
            }
        };
        let r = sc.init(code, "deployer", &m, &[], "swap-bad", None);
        ensure!(r.is_err(), T, "init", "accepted {why}: {m}");
        sc.tick("init.refused");
    }
    let sw = sc.must_init(code, "deployer", &good, &[], "swap")?;
    let mut w = W { swap: sw.clone(), assets, who: who.clone(), p: [p[0].clone(), p[1].clone()], book: BTreeMap::new(), done: false };
    for a in 0..4 {
        for x in &who {
            w.book.insert((x.clone(), a), stock);
        }
        w.book.insert((sw.clone(), a), 0);
    }
    if p[0].asset == p[1].asset {
        sc.tick("same-asset");
    }
    w.check(sc)?;
    let n = sc.r(3, 14);
    let mut after = 0;
    for _ in 0..n {
        match sc.weighted(&[50, 25, 10, 6]) {
            0 => w.fund(sc, false)?,
            1 => w.withdraw(sc)?,
            2 => w.forge(sc)?,
            _ => w.stray(sc)?,
        }
        if sc.chance(20) {
            let d = sc.r(0, 100000);
            sc.advance(1, d);
        }
        w.check(sc)?;
        if w.done {
            after += 1;
            if after > 4 {
                break;
            }
        }
    }
    // whoever provided can always have it back, or both can complete
    if !w.done {
        if sc.chance(50) {
            for i in 0..2 {
                if w.p[i].provided {
                    let who = w.p[i].who.clone();
                    let r = sc.exec(&who, &w.swap.clone(), &json!({"withdraw": {}}), &[]);
                    ensure!(r.is_ok(), T, "locked", "{who} cannot have the tokens back: {r:?}");
                    let p = w.p[i].clone();
                    w.mv(&sw, &who, p.asset, p.amount);
                    w.p[i].provided = false;
                }
            }
        } else {
            for _ in 0..12 {
                if !w.done {
                    w.fund(sc, true)?;
                    w.check(sc)?;
                }
            }
        }
        w.check(sc)?;
    }
    Ok(())
}
