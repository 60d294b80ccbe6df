//! Non-fungible staking: dao-voting-cw721-staked and dao-voting-onft-staked.
use crate::model::*;
use crate::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Nft,
    Onft,
}
/// The DAO itself may hold and stake NFTs too.
const USERS: [&str; 5] = ["ann", "bob", "cat", "dan", "dao"];
const POW: &[&str] = &["C08"];
const CUST: &[&str] = &["C09"];
const BOTH: &[&str] = &["C08", "C09"];
const OUT: &[&str] = &["C08", "C09", "C21"];
const HOOK: &[&str] = &["C21"];
const ACT: &[&str] = &["C23"];
const SETUP: &[&str] = &["C25"];
const MAX: usize = 70;

struct W {
    k: Kind,
    vm: String,
    col: String,
    fake: String,
    owner: BTreeMap<String, String>,
    staked: BTreeMap<String, BTreeSet<String>>,
    claims: BTreeMap<String, Vec<(String, Rel)>>,
    prep: BTreeMap<String, String>,
    past: BTreeMap<String, String>,
    snap: Snap,
    dur: Option<Dur>,
    th: Option<Th>,
    hooks: HookBook,
    next: u32,
    start: u64,
}

fn id(i: u32) -> String {
    match i % 5 {
        0 => format!("{i}"),
        1 => format!("nft {i}"),
        2 => format!("T{i}"),
        3 => format!("{}", 1000 - (i as i64)),
        _ => format!("z/{i}"),
    }
}

impl W {
    fn setup(sc: &mut Sc, k: Kind) -> R<W> {
        let hooks = HookBook::new(sc, 3)?;
        let dur = any_dur(sc);
        let bad = dur.map(|d| d.zero()).unwrap_or(false);
        let n = sc.r(1, 9) as u32;
        let th = if sc.chance(40) { Some(Th::random(sc, n as u128 / 2, n as u128)) } else { None };
        let mut owner = BTreeMap::new();
        let hoarder = sc.chance(25);
        for i in 0..n {
            owner.insert(id(i), if hoarder && sc.chance(80) { "ann".to_string() } else { sc.pick(&USERS).to_string() });
        }
        let th_ok = th.as_ref().map(|t| t.valid(n as u128)).unwrap_or(true);
        let (vm, col, fake);
        match k {
            Kind::Nft => {
                let nc = sc.code(cw721_code());
                let vmc = sc.code(wrap!(dao_voting_cw721_staked::contract; reply, migrate));
                fake = sc.must_init(nc, "x", &json!({"name":"f","symbol":"F","minter":"dao"}), &[], "fakenft")?;
                let mint = |i: &String, o: &String| json!({"mint":{"token_id":i,"owner":o,"token_uri":null,"extension":{}}});
                for (i, o) in &owner {
                    let _ = sc.exec("dao", &fake, &mint(i, o), &[]);
                }
                let existing = sc.chance(50);
                let info = if existing {
                    let c = sc.must_init(nc, "x", &json!({"name":"n","symbol":"N","minter":"dao"}), &[], "nft")?;
                    for (i, o) in &owner {
                        let r = sc.exec("dao", &c, &mint(i, o), &[]);
                        ensure!(r.is_ok(), &["*"], "setup", "mint: {r:?}");
                    }
                    json!({"existing":{"address":c}})
                } else {
                    let ms: Vec<String> = owner.iter().map(|(i, o)| b64(&mint(i, o))).collect();
                    json!({"new":{"code_id":nc,"label":"nft","msg":b64(&json!({"name":"n","symbol":"N","minter":"someone"})),"initial_nfts":ms}})
                };
                if !existing && sc.chance(10) {
                    let mut e = info.clone();
                    e["new"]["initial_nfts"] = json!([]);
                    let at = sc.pick(&[Value::Null, json!({"percentage":{"percent":"0.5"}}), json!({"absolute_count":{"count":"1"}})]);
                    let r = sc.init(vmc, "dao", &json!({"nft_contract":e,"unstaking_duration":null,"active_threshold":at}), &[], "vm", None);
                    ensure!(r.is_err(), SETUP, "empty-collection", "a DAO over a new collection without NFTs was created");
                }
                let made = existing && sc.chance(35);
                let mut answer = Value::Null;
                let mut fac = String::new();
                let info = if made {
                    // a factory that hands out a collection made beforehand
                    let c = sc.code(puppet::puppet_code());
                    fac = sc.must_init(c, "x", &json!({}), &[], "factory")?;
                    let cb = if sc.chance(50) {
                        {
                        let n = sc.r(0, 3);
                        let ms: Vec<Value> = (0..n).map(|i| json!({"wasm":{"execute":{"contract_addr":fac,"msg":b64(&json!({"greet":i})),"funds":[]}}})).collect();
                        json!({"msgs":ms})
                    }
                    } else {
                        Value::Null
                    };
                    answer = json!({"nft_contract":info["existing"]["address"],"module_instantiate_callback":cb});
                    let call = |a: &Value| json!({"factory":b64(&json!({"execute":{"contract_addr":fac,"msg":b64(&json!({"answer":a})),"funds":[]}}))});
                    if sc.chance(15) {
                        for a in [json!({}), json!({"data":b64(&json!({"nft_contract":"dao","module_instantiate_callback":null}))})] {
                            let r = sc.init(vmc, "dao", &json!({"nft_contract":call(&a),"unstaking_duration":null,"active_threshold":null}), &[], "vm", None);
                            ensure!(r.is_err(), SETUP, "factory-refused", "a DAO was created though its NFT factory answered {a}");
                        }
                    }
                    call(&json!({"data":b64(&answer)}))
                } else {
                    info
                };
                let r = sc.init_module(vmc, "dao", &json!({"nft_contract":info,"unstaking_duration":dur_json(&dur),"active_threshold":th.as_ref().map(|t| t.json())}), "vm");
                // the module leaves it to the factory whether a count suits its collection
                let th_ok = th_ok || (made && matches!(&th, Some(Th::Count(_))));
                ensure!(r.is_ok() == (th_ok && !bad), &["C23", "C25", "C09"], "init", "threshold {th:?} of {n} NFTs, duration {dur:?}: got {r:?}");
                let Ok((a, callbacks)) = r else { return Err(Viol::new(&[], "skip", "")) };
                vm = a;
                if made {
                    let want = answer["module_instantiate_callback"]["msgs"].as_array().map(|m| m.len()).unwrap_or(0);
                    let log = sc.puppet_log(&fac);
                    ensure!(callbacks == want && log == (0..want).map(|i| ("dao".to_string(), json!({"greet":i}))).collect::<Vec<_>>(), SETUP, "factory-answer",
                        "the factory answered {answer}, {callbacks} callbacks came back to the DAO: {log:?}");
                    let c = sc.qm(SETUP, &vm, &json!({"config":{}}))?;
                    ensure!(c["nft_address"] == answer["nft_contract"], SETUP, "factory-answer", "the factory answered {answer}, the module uses {c}");
                    sc.checked(2);
                    sc.tick("mon.factory");
                }
                col = s(&sc.qm(SETUP, &vm, &json!({"config":{}}))?["nft_address"]);
                sc.label(&col, "nft");
                if !existing {
                    let o = sc.qm(SETUP, &col, &json!({"ownership":{}}))?;
                    // the callback, executed by the DAO, has accepted the ownership
                    ensure!(o["owner"] == "dao" && o["pending_owner"].is_null() && callbacks == 1, SETUP, "new-owner", "the DAO does not own the collection: {o}");
                    let ci = sc.qm(SETUP, &col, &json!({"contract_info":{}}))?;
                    ensure!(ci == json!({"name":"n","symbol":"N"}), SETUP, "new-collection", "the collection is {ci}");
                    ensure!(sc.wasm_admin(&col) == Some("dao".into()), SETUP, "new-admin", "the collection's admin is {:?}", sc.wasm_admin(&col));
                }
                let nt = sc.qm(SETUP, &col, &json!({"num_tokens":{}}))?;
                ensure!(nt["count"] == json!(n), SETUP, "distribution", "{nt} NFTs, announced {n}");
            }
            Kind::Onft => {
                let vmc = sc.code(wrap!(dao_voting_onft_staked::contract; migrate));
                sc.onft_create("dao", "col");
                fake = "fakecol".into();
                sc.onft_create("dao", "fakecol");
                for (i, o) in &owner {
                    sc.onft_mint("dao", "col", i, o);
                    sc.onft_mint("dao", "fakecol", i, o);
                }
                let r = sc.init(vmc, "dao", &json!({"onft_collection":{"existing":{"id":"col"}},"unstaking_duration":dur_json(&dur),"active_threshold":th.as_ref().map(|t| t.json())}), &[], "vm", None);
                ensure!(r.is_ok() == (th_ok && !bad), &["C23", "C25", "C09"], "init", "threshold {th:?} of {n} NFTs, duration {dur:?}: got {r:?}");
                let Ok(a) = r else { return Err(Viol::new(&[], "skip", "")) };
                vm = a;
                col = "col".into();
            }
        }
        Ok(W {
            k,
            vm,
            col,
            fake,
            owner,
            staked: BTreeMap::new(),
            claims: BTreeMap::new(),
            prep: BTreeMap::new(),
            past: BTreeMap::new(),
            snap: Snap::default(),
            dur,
            th,
            hooks,
            next: n,
            start: sc.height(),
        })
    }
    fn chain_owner(&self, sc: &Sc, i: &str) -> Option<String> {
        match self.k {
            Kind::Nft => sc.q(&self.col, &json!({"owner_of":{"token_id":i,"include_expired":null}})).ok().map(|v| s(&v["owner"])),
            Kind::Onft => sc.onft_owner(&self.col, i),
        }
    }
    fn owned(&self, who: &str) -> Vec<String> {
        self.owner.iter().filter(|o| o.1 == who).map(|o| o.0.clone()).collect()
    }
    fn any_id(&self, sc: &mut Sc) -> String {
        let v: Vec<String> = self.owner.keys().cloned().collect();
        if v.is_empty() || sc.chance(5) {
            return "nope".into();
        }
        sc.pick(&v)
    }
    fn held_for(&self, i: &str) -> bool {
        self.staked.values().any(|s| s.contains(i)) || self.claims.values().flatten().any(|c| c.0 == i)
    }
    fn set_power(&mut self, sc: &Sc, who: &str) {
        let n = self.staked.get(who).map(|s| s.len()).unwrap_or(0);
        self.snap.set(sc.height(), who, n as u128);
    }

    fn mint(&mut self, sc: &mut Sc) {
        let i = id(self.next);
        self.next += 1;
        let o = sc.pick(&USERS).to_string();
        match self.k {
            Kind::Nft => {
                if sc.exec("dao", &self.col.clone(), &json!({"mint":{"token_id":i,"owner":o,"token_uri":null,"extension":{}}}), &[]).is_err() {
                    return;
                }
            }
            Kind::Onft => sc.onft_mint("dao", &self.col.clone(), &i, &o),
        }
        self.owner.insert(i, o);
    }
    fn transfer(&mut self, sc: &mut Sc, to_contract: bool) -> R {
        let who = sc.pick(&USERS);
        let mine = self.owned(who);
        if mine.is_empty() {
            return Ok(());
        }
        let i = sc.pick(&mine);
        let to = if to_contract { self.vm.clone() } else { sc.pick(&USERS).to_string() };
        let ok = match self.k {
            Kind::Nft => sc.exec(who, &self.col.clone(), &json!({"transfer_nft":{"recipient":to,"token_id":i}}), &[]).is_ok(),
            Kind::Onft => sc.onft_send(who, &self.col.clone(), &i, &to).is_ok(),
        };
        if ok {
            self.owner.insert(i, to);
        }
        Ok(())
    }
    fn book_stake(&mut self, sc: &mut Sc, who: &str, ids: &[String]) {
        sc.nontrivial = true;
        sc.tick("staked");
        for i in ids {
            self.staked.entry(who.to_string()).or_default().insert(i.clone());
            self.hooks.emit(json!({"nft_stake_change_hook":{"stake":{"addr":who,"token_id":i}}}));
        }
        self.set_power(sc, who);
    }
    fn stake(&mut self, sc: &mut Sc) -> R {
        let who = sc.pick(&USERS);
        let mine = self.owned(who);
        match self.k {
            Kind::Nft => {
                let i = if mine.is_empty() || sc.chance(8) { self.any_id(sc) } else { sc.pick(&mine) };
                let foreign = sc.chance(8);
                let (c, ok) = if foreign { (self.fake.clone(), false) } else { (self.col.clone(), mine.contains(&i) && !self.hooks.blocked()) };
                let r = if foreign && sc.chance(40) {
                    sc.exec(who, &self.vm.clone(), &json!({"receive_nft":{"sender":who,"token_id":i,"msg":""}}), &[])
                } else {
                    sc.exec(who, &c, &json!({"send_nft":{"contract":self.vm,"token_id":i,"msg":""}}), &[])
                };
                ensure!(r.is_ok() == ok, OUT, "stake-outcome", "staking {i} by {who} (owns {mine:?}, foreign {foreign}, hooks failing {}): expected ok={ok}, got {r:?}", self.hooks.blocked());
                if ok {
                    self.owner.insert(i.clone(), self.vm.clone());
                    self.book_stake(sc, who, &[i]);
                }
            }
            Kind::Onft => match sc.r(0, 9) {
                9 => {
                    // something arrives unprepared; nobody it was once prepared by may have it staked
                    if let Some(i) = mine.first().cloned() {
                        if !self.prep.contains_key(&i) && sc.onft_send(who, &self.col.clone(), &i, &self.vm.clone()).is_ok() {
                            self.owner.insert(i.clone(), self.vm.clone());
                            sc.tick("mon.unprepared");
                        }
                    }
                    let stray: Vec<String> = self.owner.iter().filter(|(i, o)| **o == self.vm && self.past.contains_key(*i) && !self.prep.contains_key(*i) && !self.held_for(i)).map(|x| x.0.clone()).collect();
                    if !stray.is_empty() {
                        let i = sc.pick(&stray);
                        let (old, vm) = (self.past[&i].clone(), self.vm.clone());
                        sc.tick("mon.confirm-cancelled");
                        self.confirm(sc, &old, vec![i], &vm)?;
                    }
                }
                0 | 1 | 2 => {
                    let mut ids: Vec<String> = (0..sc.r(1, 3)).map(|_| if mine.is_empty() || sc.chance(8) { self.any_id(sc) } else { sc.pick(&mine) }).collect();
                    if sc.chance(60) {
                        ids.sort();
                        ids.dedup();
                    }
                    let ok = ids.iter().all(|i| mine.contains(i));
                    let r = sc.exec(who, &self.vm.clone(), &json!({"prepare_stake":{"token_ids":ids}}), &[]);
                    ensure!(r.is_ok() == ok, OUT, "prepare-outcome", "preparing {ids:?} by {who} owning {mine:?}: {r:?}");
                    if ok {
                        for i in &ids {
                            self.prep.insert(i.clone(), who.to_string());
                            self.past.insert(i.clone(), who.to_string());
                        }
                        // usually goes on to send and confirm
                        if sc.chance(70) {
                            ids.sort();
                            ids.dedup();
                            for i in &ids {
                                let r = sc.onft_send(who, &self.col.clone(), i, &self.vm.clone());
                                if r.is_ok() {
                                    self.owner.insert(i.clone(), self.vm.clone());
                                }
                            }
                            if sc.chance(80) {
                                let vm = self.vm.clone();
                                if sc.chance(20) {
                                    ids.push(ids[0].clone());
                                }
                                self.confirm(sc, who, ids, &vm)?;
                            }
                        }
                    }
                }
                3 | 4 | 5 => {
                    let mut cand: Vec<String> = self.prep.keys().cloned().collect();
                    if cand.is_empty() || sc.chance(10) {
                        cand = self.owner.keys().cloned().collect();
                    }
                    if cand.is_empty() {
                        return Ok(());
                    }
                    let ids: Vec<String> = (0..sc.r(1, 3)).map(|_| sc.pick(&cand)).collect();
                    let vm = self.vm.clone();
                    let who = self.prep.get(&ids[0]).cloned().filter(|_| true).unwrap_or(who.to_string());
                    let who = if sc.chance(15) { sc.pick(&USERS).to_string() } else { who };
                    self.confirm(sc, &who, ids, &vm)?;
                }
                _ => self.cancel(sc)?,
            },
        }
        Ok(())
    }
    fn confirm(&mut self, sc: &mut Sc, who: &str, ids: Vec<String>, vm: &str) -> R {
        let ok = ids.iter().all(|i| self.prep.get(i).map(|p| p == who).unwrap_or(false) && self.owner.get(i).map(|o| o == vm).unwrap_or(false)) && !self.hooks.blocked();
        let r = sc.exec(who, vm, &json!({"confirm_stake":{"token_ids":ids}}), &[]);
        ensure!(r.is_ok() == ok, OUT, "confirm-outcome", "confirming {ids:?} by {who} (prepared {:?}): expected ok={ok}, got {r:?}", self.prep);
        if ok {
            let mut d = ids.clone();
            d.sort();
            d.dedup();
            for i in &d {
                self.prep.remove(i);
            }
            self.book_stake(sc, who, &d);
        }
        Ok(())
    }
    fn cancel(&mut self, sc: &mut Sc) -> R {
        let dao = sc.chance(40);
        let mut cand: Vec<String> = self.owner.keys().cloned().collect();
        if !self.prep.is_empty() && sc.chance(60) {
            cand = self.prep.keys().cloned().collect();
        }
        let stranger = sc.pick(&USERS).to_string();
        let by_owner = sc.chance(80);
        if dao || stranger == "dao" || self.prep.values().any(|p| p == "dao") || self.owner.values().any(|p| p == "dao") {
            // the DAO's documented power over everything the contract holds is not judged
            cand.retain(|i| !self.held_for(i));
        }
        if cand.is_empty() {
            return Ok(());
        }
        let ids: Vec<String> = (0..sc.r(1, 3)).map(|_| sc.pick(&cand)).collect();
        let who = if dao {
            "dao".to_string()
        } else if by_owner {
            self.prep.get(&ids[0]).cloned().unwrap_or_else(|| self.owner[&ids[0]].clone())
        } else {
            stranger
        };
        if who == self.vm {
            return Ok(());
        }
        let dao = who == "dao";
        let rec = if sc.chance(50) { Some(sc.pick(&USERS).to_string()) } else { None };
        let mut own = self.owner.clone();
        let mut prep = self.prep.clone();
        let mut ok = true;
        for i in &ids {
            let o = self.owner[i].clone();
            let p = self.prep.get(i).cloned();
            if dao {
                prep.remove(i);
                if o == self.vm {
                    match rec.clone().or(p) {
                        Some(to) if own[i] == self.vm => {
                            own.insert(i.clone(), to);
                        }
                        _ => ok = false,
                    }
                }
            } else {
                if who != o && p.as_ref() != Some(&who) {
                    ok = false;
                }
                prep.remove(i);
                if o == self.vm {
                    if own[i] != self.vm {
                        ok = false; // sent twice
                    }
                    own.insert(i.clone(), who.clone());
                }
            }
        }
        let r = sc.exec(&who, &self.vm.clone(), &json!({"cancel_stake":{"token_ids":ids,"recipient":rec}}), &[]);
        ensure!(r.is_ok() == ok, CUST, "cancel-outcome", "cancelling {ids:?} by {who} to {rec:?} (prepared {:?}, owners {:?}): expected ok={ok}, got {r:?}", self.prep, self.owner);
        if ok {
            self.owner = own;
            self.prep = prep;
        }
        Ok(())
    }
    fn unstake(&mut self, sc: &mut Sc) -> R {
        let with: Vec<String> = self.staked.iter().filter(|s| !s.1.is_empty()).map(|s| s.0.clone()).collect();
        let who = if with.is_empty() || sc.chance(10) { sc.pick(&USERS).to_string() } else { sc.pick(&with) };
        let mine: Vec<String> = self.staked.get(&who).into_iter().flatten().cloned().collect();
        let mut ids: Vec<String> = vec![];
        for i in &mine {
            if sc.chance(50) {
                ids.push(i.clone());
            }
        }
        ids.shuffle(&mut sc.rng);
        if sc.chance(25) {
            self.config(sc)?;
        }
        match sc.r(0, 11) {
            0 if !ids.is_empty() => ids.push(ids[0].clone()),
            1 => ids.push(self.any_id(sc)),
            2 => ids.clear(),
            3 => ids = mine.clone(),
            _ => {}
        }
        self.unstake_as(sc, &who, ids)
    }
    fn unstake_as(&mut self, sc: &mut Sc, who: &str, ids: Vec<String>) -> R {
        let mine: Vec<String> = self.staked.get(who).into_iter().flatten().cloned().collect();
        let uniq: BTreeSet<&String> = ids.iter().collect();
        let full = self.dur.is_some() && self.claims.get(who).map(|c| c.len()).unwrap_or(0) + ids.len() > MAX;
        let ok = !ids.is_empty() && uniq.len() == ids.len() && ids.iter().all(|i| mine.contains(i)) && !self.hooks.blocked() && !full;
        let r = sc.exec(who, &self.vm.clone(), &json!({"unstake":{"token_ids":ids}}), &[]);
        ensure!(r.is_ok() == ok, OUT, "unstake-outcome", "unstaking {ids:?} by {who} staking {mine:?} (hooks failing {}, claims full {full}): expected ok={ok}, got {r:?}", self.hooks.blocked());
        if ok {
            for i in &ids {
                self.staked.get_mut(who).unwrap().remove(i);
                match self.dur {
                    None => {
                        self.owner.insert(i.clone(), who.to_string());
                    }
                    Some(d) => {
                        let rel = d.after(sc);
                        self.claims.entry(who.to_string()).or_default().push((i.clone(), rel));
                    }
                }
            }
            self.hooks.emit(json!({"nft_stake_change_hook":{"unstake":{"addr":who,"token_ids":ids}}}));
            self.set_power(sc, who);
        }
        Ok(())
    }
    fn claim(&mut self, sc: &mut Sc) -> R {
        let with: Vec<String> = self.claims.iter().filter(|c| !c.1.is_empty()).map(|c| c.0.clone()).collect();
        let who = if with.is_empty() || sc.chance(15) { sc.pick(&USERS).to_string() } else { sc.pick(&with) };
        self.claim_as(sc, &who)
    }
    fn claim_as(&mut self, sc: &mut Sc, who: &str) -> R {
        let due: Vec<String> = self.claims.get(who).into_iter().flatten().filter(|c| c.1.expired(sc)).map(|c| c.0.clone()).collect();
        let r = sc.exec(who, &self.vm.clone(), &json!({"claim_nfts":{}}), &[]);
        ensure!(r.is_ok() != due.is_empty(), CUST, "claim-outcome", "claim by {who} with {due:?} due: {r:?}");
        if r.is_ok() {
            sc.tick("claimed");
            for i in &due {
                self.owner.insert(i.clone(), who.to_string());
            }
            if self.claims[who].iter().position(|c| !due.contains(&c.0)) < self.claims[who].iter().rposition(|c| due.contains(&c.0)) && due.len() < self.claims[who].len() {
                sc.tick("claimed.out-of-order");
            }
            self.claims.get_mut(who).unwrap().retain(|c| !due.contains(&c.0));
        }
        Ok(())
    }
    fn supply(&self) -> u128 {
        self.owner.len() as u128
    }
    fn threshold(&mut self, sc: &mut Sc) -> R {
        let who = if sc.chance(85) { "dao" } else { "mallory" };
        let t = if sc.chance(15) { None } else { Some(Th::random(sc, self.snap.total(), self.supply())) };
        let ok = who == "dao" && t.as_ref().map(|t| t.valid(self.supply())).unwrap_or(true);
        let r = sc.exec(who, &self.vm.clone(), &json!({"update_active_threshold":{"new_threshold":t.as_ref().map(|t| t.json())}}), &[]);
        ensure!(r.is_ok() == ok, ACT, "threshold-outcome", "threshold {t:?} with supply {} by {who}: expected ok={ok}, got {r:?}", self.supply());
        if ok {
            self.th = t;
        }
        Ok(())
    }
    fn config(&mut self, sc: &mut Sc) -> R {
        let who = if sc.chance(85) { "dao" } else { "mallory" };
        let d = any_dur(sc);
        let ok = who == "dao" && !d.map(|d| d.zero()).unwrap_or(false);
        let r = sc.exec(who, &self.vm.clone(), &json!({"update_config":{"duration":dur_json(&d)}}), &[]);
        ensure!(r.is_ok() == ok, CUST, "config-outcome", "update_config {d:?} by {who}: expected ok={ok}, got {r:?}");
        if ok {
            self.dur = d;
        }
        Ok(())
    }
    fn check(&mut self, sc: &mut Sc) -> R {
        let h = sc.height();
        let ids: Vec<String> = self.owner.keys().cloned().collect();
        for i in &ids {
            let o = self.chain_owner(sc, i);
            ensure!(o.as_ref() == self.owner.get(i), CUST, "owner", "NFT {i} belongs to {o:?}, should to {:?}", self.owner[i]);
        }
        for who in USERS {
            let c = sc.qm(CUST, &self.vm, &json!({"nft_claims":{"address":who}}))?;
            let want: Vec<Value> = self.claims.get(who).into_iter().flatten().map(|(a, r)| json!({"token_id":a,"release_at":r.json()})).collect();
            ensure!(c["nft_claims"] == json!(want), CUST, "claims", "claims of {who}: expected {want:?}, got {c}");
            let st = sc.qm(BOTH, &self.vm, &json!({"staked_nfts":{"address":who,"start_after":null,"limit":null}}))?;
            let want: Vec<&String> = self.staked.get(who).into_iter().flatten().collect();
            ensure!(st == json!(want), BOTH, "staked-nfts", "staked by {who}: expected {want:?}, got {st}");
        }
        let c = sc.qm(CUST, &self.vm, &json!({"config":{}}))?;
        ensure!(c["unstaking_duration"] == dur_json(&self.dur), CUST, "config", "config {c}, expected duration {:?}", self.dur);
        sc.checked(9 + ids.len() as u64);
        let mut hs: Vec<Option<u64>> = vec![None, Some(h), Some(h + 1)];
        let int = self.snap.interesting();
        for _ in 0..3 {
            if !int.is_empty() && sc.chance(70) {
                hs.push(Some(sc.pick(&int)));
            } else {
                let lo = self.start.saturating_sub(2);
                hs.push(Some(sc.r(lo, h + 3)));
            }
        }
        for hh in hs {
            let at = hh.unwrap_or(h);
            let who = sc.pick(&USERS);
            let p = sc.qm(POW, &self.vm, &json!({"voting_power_at_height":{"address":who,"height":hh}}))?;
            ensure!(u(&p["power"]) == self.snap.at(at, who) && p["height"] == json!(at), POW, "power", "power of {who} at {hh:?} (block {h}): expected {}, got {p}", self.snap.at(at, who));
            let t = sc.qm(POW, &self.vm, &json!({"total_power_at_height":{"height":hh}}))?;
            ensure!(u(&t["power"]) == self.snap.total_at(at) && t["height"] == json!(at), POW, "total", "total power at {hh:?} (block {h}): expected {}, got {t}", self.snap.total_at(at));
            sc.checked(2);
        }
        let staked = self.snap.total_at(h);
        let a = sc.qm(ACT, &self.vm, &json!({"is_active":{}}))?["active"] == json!(true);
        let (lo, hi) = self.th.as_ref().map(|t| t.need(self.supply())).unwrap_or((0, 0));
        ensure!(if a { staked >= lo } else { staked < hi.max(if matches!(self.th, Some(Th::Pct(_))) { 1 } else { 0 }) }, ACT, "is-active", "active={a} with {staked} staked of {} and threshold {:?}", self.supply(), self.th);
        let q = sc.qm(ACT, &self.vm, &json!({"active_threshold":{}}))?;
        ensure!(q["active_threshold"] == self.th.as_ref().map(|t| t.json()).unwrap_or(Value::Null), ACT, "active-threshold", "{q} instead of {:?}", self.th);
        sc.tick(if self.th.is_some() { if a { "active" } else { "inactive" } } else { "no-threshold" });
        let hk = sc.qm(HOOK, &self.vm, &json!({"hooks":{}}))?;
        ensure!(hk["hooks"] == json!(self.hooks.list), HOOK, "hook-list", "hooks {hk}, expected {:?}", self.hooks.list);
        sc.checked(3);
        if sc.chance(25) {
            self.hooks.check(sc, HOOK, &self.vm)?;
        }
        if sc.chance(10) {
            let who = sc.pick(&USERS);
            let want: Vec<Value> = self.staked.get(who).into_iter().flatten().map(|i| json!(i)).collect();
            let vm = self.vm.clone();
            pages(sc, &["C08", "C22"], &vm, "staked_nfts", json!({"address":who}), &want, true, &|v| v.clone(), &|r| r.clone())?;
        }
        Ok(())
    }
}

fn run(sc: &mut Sc, k: Kind) -> R {
    let mut w = match W::setup(sc, k) {
        Ok(w) => w,
        Err(v) if v.sig == "skip" => return Ok(()),
        Err(v) => return Err(v),
    };
    w.check(sc).map_err(|v| v.also("C25"))?;
    if k == Kind::Nft && sc.chance(2) {
        let vm = w.vm.clone();
        let wait = sc.chance(60);
        let r = sc.exec("dao", &vm, &json!({"update_config":{"duration":if wait { json!({"height":9}) } else { Value::Null }}}), &[]);
        ensure!(r.is_ok(), CUST, "config-outcome", "{r:?}");
        w.dur = if wait { Some(Dur::H(9)) } else { None };
        let most = if sc.chance(50) { 20 } else { 60 };
        for i in 0..74 {
            let i = format!("bulk{i}");
            let _ = sc.exec("dao", &w.col.clone(), &json!({"mint":{"token_id":i,"owner":"ann","token_uri":null,"extension":{}}}), &[]);
            let r = sc.exec("ann", &w.col.clone(), &json!({"send_nft":{"contract":vm,"token_id":i,"msg":""}}), &[]);
            ensure!(r.is_ok(), BOTH, "stake-outcome", "{r:?}");
            w.owner.insert(i.clone(), vm.clone());
            w.book_stake(sc, "ann", &[i]);
        }
        let mut left: Vec<String> = w.staked["ann"].iter().cloned().collect();
        while !left.is_empty() {
            let n = (sc.r(1, most) as usize).min(left.len());
            let part: Vec<String> = left.drain(..n).collect();
            w.unstake_as(sc, "ann", part)?;
        }
        sc.tick("claim-queue-filled");
        w.check(sc)?;
        sc.advance(9, 50);
        if wait {
            w.claim_as(sc, "ann")?;
        }
        w.check(sc)?;
    }
    if sc.chance(4) {
        let vm = w.vm.clone();
        w.hooks.crowd(sc, HOOK, &vm, "dao", &|_, h| json!({"add_hook":{"addr":h}}))?;
    }
    let n = sc.r(30, if sc.thorough { 120 } else { 80 });
    for _ in 0..n {
        match sc.weighted(&[26, 16, 8, 4, 3, 4, 5, 3, 4, 26]) {
            0 => w.stake(sc)?,
            1 => w.unstake(sc)?,
            2 => w.claim(sc)?,
            3 => w.mint(sc),
            4 => {
                let to = sc.chance(30);
                w.transfer(sc, to)?;
            }
            5 => w.config(sc)?,
            6 => {
                let vm = w.vm.clone();
                w.hooks.change(sc, HOOK, &vm, &Some("dao".to_string()), &|add, h| if add { json!({"add_hook":{"addr":h}}) } else { json!({"remove_hook":{"addr":h}}) })?;
            }
            7 => w.hooks.toggle(sc),
            8 => w.threshold(sc)?,
            _ => {
                let r: Vec<Rel> = w.claims.values().flatten().map(|c| c.1).collect();
                sc.advance_around(&r);
                if sc.chance(40) && !r.is_empty() {
                    w.claim(sc)?;
                }
            }
        }
        w.check(sc)?;
    }
    let vm = w.vm.clone();
    for h in w.hooks.list.clone() {
        let r = sc.exec("dao", &vm, &json!({"remove_hook":{"addr":h}}), &[]);
        ensure!(r.is_ok(), HOOK, "hook-register", "removing hook {h}: {r:?}");
    }
    w.hooks.list.clear();
    sc.advance(100, 100_000);
    for who in USERS {
        if w.claims.get(who).map(|c| !c.is_empty()).unwrap_or(false) {
            w.claim_as(sc, who)?;
        }
        let all: Vec<String> = w.staked.get(who).into_iter().flatten().cloned().collect();
        if !all.is_empty() {
            w.unstake_as(sc, who, all)?;
        }
    }
    sc.advance(100, 100_000);
    for who in USERS {
        if w.claims.get(who).map(|c| !c.is_empty()).unwrap_or(false) {
            w.claim_as(sc, who)?;
        }
        ensure!(w.claims.get(who).map(|c| c.is_empty()).unwrap_or(true), CUST, "exit-claim", "{who} still has claims");
    }
    w.check(sc)?;
    w.hooks.check(sc, HOOK, &vm)?;
    sc.tick("drained");
    Ok(())
}
pub fn cw721(sc: &mut Sc) -> R {
    run(sc, Kind::Nft)
}
pub fn onft(sc: &mut Sc) -> R {
    run(sc, Kind::Onft)
}
