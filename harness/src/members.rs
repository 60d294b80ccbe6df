//! Membership voting: cw721-roles behind dao-voting-cw721-roles and cw4-group behind dao-voting-cw4.
use crate::model::*;
use crate::*;
use std::collections::BTreeMap;

/// The DAO may be a member of itself.
const USERS: [&str; 6] = ["ann", "bob", "cat", "dan", "eve", "dao"];
const POW: &[&str] = &["C08"];
const ROLE: &[&str] = &["C20"];
const BOTH: &[&str] = &["C08", "C20"];
const HOOK: &[&str] = &["C21", "C20"];
const SETUP: &[&str] = &["C25", "C20"];

fn powers(sc: &mut Sc, vm: &str, snap: &Snap, start: u64, tags: &[&str]) -> R {
    let h = sc.height();
    let mut hs: Vec<Option<u64>> = vec![None, Some(h), Some(h + 1)];
    let int = snap.interesting();
    for _ in 0..4 {
        if !int.is_empty() && sc.chance(70) {
            hs.push(Some(sc.pick(&int)));
        } else {
            hs.push(Some(sc.r(start.saturating_sub(2), h + 3)));
        }
    }
    for hh in hs {
        // membership modules answer a query without height with the newest weights
        let at = hh.unwrap_or(h + 1);
        let shown = hh.unwrap_or(h);
        let who = sc.pick(&USERS);
        let p = sc.qm(tags, vm, &json!({"voting_power_at_height":{"address":who,"height":hh}}))?;
        ensure!(u(&p["power"]) == snap.at(at, who) && p["height"] == json!(shown), tags, "power", "power of {who} at {hh:?} (block {h}): expected {}, got {p}", snap.at(at, who));
        let t = sc.qm(tags, vm, &json!({"total_power_at_height":{"height":hh}}))?;
        ensure!(u(&t["power"]) == snap.total_at(at) && t["height"] == json!(shown), tags, "total", "total power at {hh:?} (block {h}): expected {}, got {t}", snap.total_at(at));
        sc.checked(2);
    }
    Ok(())
}

/// walks a member listing page by page and compares the members with weight
fn members(sc: &mut Sc, tags: &[&str], snap: &Snap, get: &dyn Fn(&Sc, Option<String>, u64) -> Result<Value, Viol>) -> R {
    let page = sc.r(1, 4);
    let mut start = None;
    let mut got: Vec<(String, u128)> = vec![];
    loop {
        let v = get(sc, start.clone(), page)?;
        let part = v["members"].as_array().cloned().unwrap_or_default();
        if part.is_empty() || got.len() > 50 {
            break;
        }
        start = Some(s(&part.last().unwrap()["addr"]));
        for m in part {
            if u(&m["weight"]) > 0 {
                got.push((s(&m["addr"]), u(&m["weight"])));
            }
        }
    }
    let want: Vec<(String, u128)> = snap.cur.iter().filter(|x| *x.1 > 0).map(|(a, b)| (a.clone(), *b)).collect();
    ensure!(got == want, tags, "members", "members {got:?}, expected {want:?}");
    // entered at any address, member or not; members without weight may be listed too
    let from = match sc.r(0, 2) {
        0 => sc.pick(&["aaa", "bbb", "carl", "dada", "mmm", "zzz"]).to_string(),
        _ => sc.pick(&USERS).to_string(),
    };
    let v = get(sc, Some(from.clone()), 30)?;
    let got: Vec<(String, u128)> = v["members"].as_array().cloned().unwrap_or_default().iter().map(|m| (s(&m["addr"]), u(&m["weight"]))).filter(|x| x.1 > 0).collect();
    let part: Vec<(String, u128)> = want.into_iter().filter(|x| x.0 > from).collect();
    ensure!(got == part, tags, "members", "members after {from}: {got:?}, expected {part:?}");
    sc.checked(1);
    Ok(())
}

#[derive(Clone, Debug)]
struct Tok {
    owner: String,
    weight: u64,
    role: Option<String>,
    uri: Option<String>,
}

struct W {
    vm: String,
    nft: String,
    minter: String,
    pending: Option<String>,
    toks: BTreeMap<String, Tok>,
    snap: Snap,
    hooks: HookBook,
    next: u32,
    start: u64,
}

fn ext(m: Value) -> Value {
    json!({ "extension": { "msg": m } })
}

impl W {
    fn sum(&self, who: &str) -> u128 {
        self.toks.values().filter(|t| t.owner == who).map(|t| t.weight as u128).sum()
    }
    fn resync(&mut self, sc: &Sc, who: &str) -> (u128, u128) {
        let old = self.snap.get(who);
        let new = self.sum(who);
        self.snap.set(sc.height(), who, new);
        (old, new)
    }
    fn diff(&mut self, who: &str, old: u128, new: u128) {
        self.hooks.emit(json!({"member_changed_hook":{"diffs":[{"key":who,"old":old as u64,"new":new as u64}]}}));
    }
    fn as_minter(&self, sc: &mut Sc) -> (String, bool) {
        let w = if sc.chance(88) { self.minter.clone() } else { sc.pick(&["mallory", "ann", "bob", "dao"]).to_string() };
        let ok = w == self.minter;
        (w, ok)
    }
    fn weight(&self, sc: &mut Sc) -> u64 {
        match sc.r(0, 9) {
            0 => 0,
            1 => (u64::MAX - self.snap.total().min(u64::MAX as u128) as u64).saturating_add(sc.r(0, 1)),
            2..=5 => sc.r(1, 5),
            _ => sc.amount().min(1 << 40) as u64,
        }
    }
    fn setup(sc: &mut Sc) -> R<W> {
        let mut hooks = HookBook::new(sc, 3)?;
        hooks.norm = true;
        let nc = sc.code(wrap!(cw721_roles::contract));
        let vmc = sc.code(wrap!(dao_voting_cw721_roles::contract; reply));
        let mut toks = BTreeMap::new();
        for i in 0..sc.r(1, 7) {
            let w = if sc.chance(90) { sc.r(0, 20) } else { sc.r(0, 1 << 40) };
            toks.insert(format!("r{i}"), Tok { owner: sc.pick(&USERS).to_string(), weight: w, role: sc.pick(&[None, Some("lead".to_string())]), uri: sc.pick(&[None, None, Some("ipfs://r".to_string())]) });
        }
        let existing = sc.chance(60);
        let vm;
        let nft;
        let mint = |i: &String, t: &Tok| json!({"token_id":i,"owner":t.owner,"token_uri":t.uri,"extension":{"role":t.role,"weight":t.weight}});
        if existing {
            nft = sc.must_init(nc, "x", &json!({"name":"roles","symbol":"R","minter":"dao"}), &[], "roles")?;
            vm = sc.must_init(vmc, "dao", &json!({"nft_contract":{"existing":{"address":nft}}}), &[], "vm")?;
            for (i, t) in &toks {
                let r = sc.exec("dao", &nft, &json!({"mint":mint(i, t)}), &[]);
                ensure!(r.is_ok(), ROLE, "mint", "{r:?}");
            }
        } else {
            if sc.chance(20) {
                let r = sc.init(vmc, "dao", &json!({"nft_contract":{"new":{"code_id":nc,"label":"roles","name":"roles","symbol":"R","initial_nfts":[]}}}), &[], "vm", None);
                ensure!(r.is_err(), SETUP, "no-members", "a roles DAO without members was created");
            }
            let ms: Vec<Value> = toks.iter().map(|(i, t)| mint(i, t)).collect();
            vm = sc.must_init(vmc, "dao", &json!({"nft_contract":{"new":{"code_id":nc,"label":"roles","name":"roles","symbol":"R","initial_nfts":ms}}}), &[], "vm")?;
            nft = s(&sc.qm(SETUP, &vm, &json!({"config":{}}))?["nft_address"]);
            sc.label(&nft, "roles");
            ensure!(sc.wasm_admin(&nft) == Some("dao".into()), SETUP, "new-admin", "the roles contract's admin is {:?}", sc.wasm_admin(&nft));
            // the DAO is offered the roles contract and takes it
            let r = sc.exec("mallory", &nft, &json!({"update_ownership":"accept_ownership"}), &[]);
            ensure!(r.is_err(), SETUP, "minter-theft", "a stranger took the minter role");
            let r = sc.exec("dao", &nft, &json!({"update_ownership":"accept_ownership"}), &[]);
            ensure!(r.is_ok(), SETUP, "dao-cannot-own", "the DAO cannot accept ownership of its own roles contract: {r:?}");
        }
        let mut w = W { vm, nft, minter: "dao".into(), pending: None, toks, snap: Snap::default(), hooks, next: 100, start: sc.height() };
        for who in USERS {
            if w.toks.values().any(|t| t.owner == who) {
                w.resync(sc, who);
            }
        }
        Ok(w)
    }
    fn op(&mut self, sc: &mut Sc, recv: &str) -> R {
        let nft = self.nft.clone();
        let (who, auth) = self.as_minter(sc);
        let any: Option<String> = {
            let v: Vec<String> = self.toks.keys().cloned().collect();
            if v.is_empty() || sc.chance(4) { None } else { Some(sc.pick(&v)) }
        };
        let id = any.clone().unwrap_or("missing".into());
        let any = if self.toks.contains_key(&id) { Some(id.clone()) } else { None };
        let blocked = self.hooks.blocked();
        match sc.weighted(&[20, 16, 20, 4, 4, 10, 5, 6, 4]) {
            0 => {
                let (id, fresh) = if sc.chance(10) { (id.clone(), !self.toks.contains_key(&id)) } else {
                    self.next += 1;
                    (format!("r{}", self.next), true)
                };
                let o = sc.pick(&USERS).to_string();
                let wt = self.weight(sc);
                let fits = self.snap.total() + wt as u128 <= u64::MAX as u128;
                let role = if sc.chance(50) { Some(sc.pick(&["chair", ""]).to_string()) } else { None };
                let r = sc.exec(&who, &nft, &json!({"mint":{"token_id":id,"owner":o,"token_uri":null,"extension":{"role":role,"weight":wt}}}), &[]);
                let ok = auth && fresh && fits && !blocked;
                ensure!(r.is_ok() == ok, ROLE, "mint-outcome", "mint {id} weight {wt} to {o} by {who}: expected ok={ok}, got {r:?}");
                if ok {
                    sc.nontrivial = true;
                    self.toks.insert(id, Tok { owner: o.clone(), weight: wt, role, uri: None });
                    let (a, b) = self.resync(sc, &o);
                    self.diff(&o, a, b);
                }
            }
            1 => {
                let r = sc.exec(&who, &nft, &json!({"burn":{"token_id":id}}), &[]);
                let ok = auth && any.is_some() && !blocked;
                ensure!(r.is_ok() == ok, ROLE, "burn-outcome", "burning {id} ({:?}) by {who}: expected ok={ok}, got {r:?}", self.toks.get(&id));
                if ok {
                    let t = self.toks.remove(&id).unwrap();
                    let (a, b) = self.resync(sc, &t.owner);
                    self.diff(&t.owner, a, b);
                }
            }
            2 => {
                let old = self.toks.get(&id).map(|t| t.weight).unwrap_or(0);
                let wt = match sc.r(0, 5) {
                    0 => old,
                    1 => old.saturating_sub(1),
                    2 => 0,
                    3 => old / 2,
                    _ => self.weight(sc),
                };
                let fits = self.snap.total() - old as u128 + wt as u128 <= u64::MAX as u128;
                let r = sc.exec(&who, &nft, &ext(json!({"update_token_weight":{"token_id":id,"weight":wt}})), &[]);
                let ok = auth && any.is_some() && wt != old && fits && !blocked;
                ensure!(r.is_ok() == ok, ROLE, "weight-outcome", "weight {old} -> {wt} of {id} by {who}: expected ok={ok}, got {r:?}");
                if ok {
                    sc.tick(if wt < old { "weight-decrease" } else { "weight-increase" });
                    let o = {
                        let t = self.toks.get_mut(&id).unwrap();
                        t.weight = wt;
                        t.owner.clone()
                    };
                    let (a, b) = self.resync(sc, &o);
                    self.diff(&o, a, b);
                }
            }
            3 => {
                let role = if sc.chance(60) { Some(sc.pick(&["chair", "scribe", "The Scribe, 2nd"]).to_string()) } else { None };
                let r = sc.exec(&who, &nft, &ext(json!({"update_token_role":{"token_id":id,"role":role}})), &[]);
                ensure!(r.is_ok() == (auth && any.is_some()), ROLE, "role-outcome", "role of {id} by {who}: {r:?}");
                if r.is_ok() {
                    self.toks.get_mut(&id).unwrap().role = role;
                }
            }
            4 => {
                let uri = if sc.chance(60) { Some(sc.pick(&["ipfs://x", "https://y/?z=1"]).to_string()) } else { None };
                let r = sc.exec(&who, &nft, &ext(json!({"update_token_uri":{"token_id":id,"token_uri":uri}})), &[]);
                ensure!(r.is_ok() == (auth && any.is_some()), ROLE, "uri-outcome", "uri of {id} by {who}: {r:?}");
                if r.is_ok() {
                    self.toks.get_mut(&id).unwrap().uri = uri;
                }
            }
            5 => {
                let send = sc.chance(30);
                let to = if send { recv.to_string() } else { sc.pick(&USERS).to_string() };
                // the contract a role is sent to may refuse it, and is told exactly what was sent
                let refuses = send && sc.chance(20);
                let payload = b64(&json!({"hi": sc.r(0, 99)}));
                if send {
                    let x = sc.exec("x", recv, &json!({"clear_log":{}}), &[]);
                    ensure!(x.is_ok(), ROLE, "harness", "{x:?}");
                    sc.exec("x", recv, &json!({"set_mode": if refuses { "fail" } else { "ok" }}), &[]).ok();
                }
                let m = if send { json!({"send_nft":{"contract":to,"token_id":id,"msg":payload}}) } else { json!({"transfer_nft":{"recipient":to,"token_id":id}}) };
                let from = self.toks.get(&id).map(|t| t.owner.clone()).unwrap_or_default();
                let moves = from != to;
                let r = sc.exec(&who, &nft, &m, &[]);
                let ok = auth && any.is_some() && !(blocked && moves) && !refuses;
                if refuses {
                    ensure!(r.is_err(), ROLE, "refused-send", "{id} was sent to a contract that refuses it: {r:?}");
                } else if blocked && auth && any.is_some() {
                    // whether a move that changes no weight calls hooks is not specified
                    if r.is_ok() && self.toks[&id].weight > 0 && moves {
                        return Err(Viol::new(HOOK, "blocked-transfer", "a weight moved although a hook failed"));
                    }
                } else {
                    ensure!(r.is_ok() == ok, ROLE, "transfer-outcome", "moving {id} from {from} to {to} by {who}: expected ok={ok}, got {r:?}");
                }
                if r.is_ok() {
                    if send {
                        let l = sc.qm(ROLE, recv, &json!({"log":{}}))?;
                        let want = json!([[nft, {"receive_nft":{"sender":who,"token_id":id,"msg":payload}}]]);
                        ensure!(l == want, ROLE, "send-notice", "the receiver was told {l}, expected {want}");
                        sc.tick("role-sent-to-contract");
                    }
                    sc.tick("transfer");
                    self.toks.get_mut(&id).unwrap().owner = to.clone();
                    if moves {
                        let (a, b) = self.resync(sc, &from);
                        let (c, d) = self.resync(sc, &to);
                        self.hooks.emit(json!({"member_changed_hook":{"diffs":[{"key":from,"old":a as u64,"new":b as u64},{"key":to,"old":c as u64,"new":d as u64}]}}));
                    }
                }
            }
            6 => {
                let m = self.minter.clone();
                self.hooks.change(sc, HOOK, &nft, &Some(m), &|add, h| ext(if add { json!({"add_hook":{"addr":h}}) } else { json!({"remove_hook":{"addr":h}}) }))?;
            }
            7 => self.hooks.toggle(sc),
            _ => {
                if let (Some(p), true) = (self.pending.clone(), sc.chance(60)) {
                    let who = if sc.chance(75) { p.clone() } else { "mallory".into() };
                    let r = sc.exec(&who, &nft, &json!({"update_ownership":"accept_ownership"}), &[]);
                    ensure!(r.is_ok() == (who == p), SETUP, "accept-outcome", "{who} accepting what was offered to {p}: {r:?}");
                    if r.is_ok() {
                        self.minter = p;
                        self.pending = None;
                    }
                } else {
                    let to = sc.pick(&["dao", "dao2"]);
                    let r = sc.exec(&who, &nft, &json!({"update_ownership":{"transfer_ownership":{"new_owner":to,"expiry":null}}}), &[]);
                    ensure!(r.is_ok() == auth, ROLE, "offer-outcome", "{who} offering the minter role: {r:?}");
                    if auth {
                        self.pending = Some(to.into());
                    }
                }
                // approvals are not available to holders
                let holder = self.toks.get(&id).map(|t| t.owner.clone()).unwrap_or("ann".into());
                if holder != self.minter {
                    let m = sc.pick(&[
                        json!({"approve":{"spender":"mallory","token_id":id,"expires":null}}),
                        json!({"approve_all":{"operator":"mallory","expires":null}}),
                        json!({"transfer_nft":{"recipient":"mallory","token_id":id}}),
                        json!({"burn":{"token_id":id}}),
                    ]);
                    let r = sc.exec(&holder, &nft, &m, &[]);
                    ensure!(r.is_err(), ROLE, "holder-acts", "the holder {holder} could {m}");
                }
            }
        }
        Ok(())
    }
    fn check(&mut self, sc: &mut Sc) -> R {
        let nft = self.nft.clone();
        for (i, t) in &self.toks {
            let v = sc.qm(ROLE, &nft, &json!({"all_nft_info":{"token_id":i,"include_expired":null}}))?;
            ensure!(
                v["access"]["owner"] == json!(t.owner) && v["info"]["extension"] == json!({"role":t.role,"weight":t.weight}) && v["info"]["token_uri"] == json!(t.uri) && v["access"]["approvals"] == json!([]),
                ROLE, "token", "token {i}: expected {t:?}, got {v}"
            );
        }
        let n = sc.qm(ROLE, &nft, &json!({"num_tokens":{}}))?;
        ensure!(n["count"] == json!(self.toks.len()), ROLE, "num-tokens", "{n}, expected {}", self.toks.len());
        if sc.chance(20) {
            let o = sc.pick(&USERS);
            let want: Vec<&String> = self.toks.iter().filter(|(_, t)| t.owner == o).map(|(i, _)| i).collect();
            let v = sc.qm(ROLE, &nft, &json!({"tokens":{"owner":o,"start_after":null,"limit":100}}))?;
            ensure!(v["tokens"] == json!(want), ROLE, "tokens-of", "roles of {o}: {v}, expected {want:?}");
            let v = sc.qm(ROLE, &nft, &json!({"all_tokens":{"start_after":null,"limit":100}}))?;
            let want: Vec<&String> = self.toks.keys().collect();
            ensure!(v["tokens"] == json!(want), ROLE, "all-tokens", "all roles: {v}, expected {want:?}");
            sc.checked(2);
        }
        for who in USERS {
            let m = sc.qm(BOTH, &nft, &ext(json!({"member":{"addr":who,"at_height":null}})))?;
            let got = if m["weight"].is_null() { 0 } else { u(&m["weight"]) };
            ensure!(got == self.sum(who), BOTH, "member-weight", "{who} has weight {m}, but holds roles of weight {}", self.sum(who));
        }
        let all: u128 = self.toks.values().map(|t| t.weight as u128).sum();
        let t = sc.qm(BOTH, &nft, &ext(json!({"total_weight":{"at_height":null}})))?;
        ensure!(u(&t["weight"]) == all, BOTH, "total-weight", "total weight {t}, tokens weigh {all}");
        sc.checked(7 + self.toks.len() as u64);
        powers(sc, &self.vm.clone(), &self.snap, self.start, BOTH)?;
        let hk = sc.qm(HOOK, &nft, &ext(json!({"hooks":{}})))?;
        ensure!(hk["hooks"] == json!(self.hooks.list), HOOK, "hook-list", "hooks {hk}, expected {:?}", self.hooks.list);
        if sc.chance(30) {
            self.hooks.check(sc, HOOK, &nft)?;
        }
        if sc.chance(15) {
            members(sc, &["C20", "C22"], &self.snap, &|sc, st, l| sc.qm(ROLE, &nft, &ext(json!({"list_members":{"start_after":st,"limit":l}}))))?;
        }
        Ok(())
    }
}

pub fn roles(sc: &mut Sc) -> R {
    let mut w = W::setup(sc)?;
    let pc = sc.code(puppet_code());
    let recv = sc.must_init(pc, "x", &json!({}), &[], "receiver")?;
    w.check(sc).map_err(|v| v.also("C25"))?;
    if sc.chance(4) {
        let (nft, m) = (w.nft.clone(), w.minter.clone());
        w.hooks.crowd(sc, HOOK, &nft, &m, &|_, h| ext(json!({"add_hook":{"addr":h}})))?;
    }
    let n = sc.r(15, if sc.thorough { 80 } else { 45 });
    for _ in 0..n {
        if sc.chance(28) {
            sc.advance_around(&[]);
        } else {
            w.op(sc, &recv)?;
        }
        w.check(sc)?;
    }
    w.hooks.check(sc, HOOK, &w.nft)?;
    Ok(())
}

pub fn cw4(sc: &mut Sc) -> R {
    let gc = sc.code(cw4_code());
    let vmc = sc.code(wrap!(dao_voting_cw4::contract; reply, migrate));
    let mut init: Vec<(String, u64)> = vec![];
    for uu in USERS {
        if sc.chance(50) {
            init.push((uu.into(), if sc.chance(20) { 0 } else { sc.r(1, 50) }));
        }
    }
    init.shuffle(&mut sc.rng);
    let dup = sc.chance(10) && !init.is_empty();
    if dup {
        let d = init[0].clone();
        init.push(if sc.chance(50) { d } else { (d.0, d.1 + 1) });
    }
    let ms: Vec<Value> = init.iter().map(|(a, w)| json!({"addr":a,"weight":w})).collect();
    let total: u64 = init.iter().map(|x| x.1).sum();
    let mut snap = Snap::default();
    let vm;
    let group;
    if sc.chance(50) {
        let ok = !init.is_empty() && !dup && total > 0;
        let r = sc.init(vmc, "dao", &json!({"group_contract":{"new":{"cw4_group_code_id":gc,"initial_members":ms}}}), &[], "vm", None);
        ensure!(r.is_ok() == ok, &["C25", "C08"], "init", "members {init:?}: expected ok={ok}, got {r:?}");
        let Ok(a) = r else { return Ok(()) };
        vm = a;
        group = s(&sc.qm(SETUP, &vm, &json!({"group_contract":{}}))?);
        sc.label(&group, "group");
        ensure!(sc.wasm_admin(&group) == Some("dao".into()), SETUP, "new-admin", "the group's admin is {:?}", sc.wasm_admin(&group));
        let ad = sc.qm(SETUP, &group, &json!({"admin":{}}))?;
        ensure!(ad["admin"] == "dao", SETUP, "group-admin", "group admin {ad}");
    } else {
        if dup {
            return Ok(());
        }
        group = sc.must_init(gc, "x", &json!({"admin":"dao","members":ms}), &[], "group")?;
        let r = sc.init(vmc, "dao", &json!({"group_contract":{"existing":{"address":group}}}), &[], "vm", None);
        ensure!(r.is_ok() == !init.is_empty(), &["C25", "C08"], "init-existing", "group of {init:?}: {r:?}");
        let Ok(a) = r else { return Ok(()) };
        vm = a;
    }
    let start = sc.height();
    for (a, w) in &init {
        snap.set(start, a, *w as u128);
    }
    sc.advance(1, 5);
    powers(sc, &vm, &snap, start, POW).map_err(|v| v.also("C25"))?;
    let n = sc.r(10, if sc.thorough { 60 } else { 30 });
    for _ in 0..n {
        if sc.chance(40) {
            sc.advance_around(&[]);
        } else {
            let mut add: Vec<(String, u64)> = vec![];
            let mut rem: Vec<String> = vec![];
            for uu in USERS {
                match sc.r(0, 5) {
                    0 | 1 => add.push((uu.into(), if sc.chance(15) { 0 } else { sc.r(1, 100) })),
                    2 => rem.push(uu.into()),
                    _ => {}
                }
            }
            let who = if sc.chance(90) { "dao" } else { "mallory" };
            let av: Vec<Value> = add.iter().map(|(a, w)| json!({"addr":a,"weight":w})).collect();
            let r = sc.exec(who, &group, &json!({"update_members":{"add":av,"remove":rem}}), &[]);
            if r.is_ok() {
                sc.nontrivial = true;
                for (a, w) in &add {
                    snap.set(sc.height(), a, *w as u128);
                }
                for a in &rem {
                    if snap.cur.contains_key(a) {
                        snap.remove(sc.height(), a);
                    }
                }
            }
        }
        powers(sc, &vm, &snap, start, POW)?;
    }
    let r = sc.q(&vm, &json!({"dao":{}}));
    ensure!(r == Ok(json!("dao")), SETUP, "dao", "{r:?}");
    Ok(())
}
