//! Core-contract world: one dao-dao-core under hostile senders, with puppet modules, driven
//! through every execute message and compared with a reference model of authority (C07) and of
//! its registries (C22).
use crate::gov::dao_init;
use crate::puppet::*;
use crate::*;
use std::collections::BTreeMap;

const A: &[&str] = &["C07"];
const L: &[&str] = &["C22"];
const D: &str = "ucore";

#[derive(Clone, Debug, PartialEq)]
struct Module {
    addr: String,
    prefix: String,
    on: bool,
    want: Value,
}
#[derive(Clone)]
struct M {
    core: String,
    admin: String,
    nominee: Option<String>,
    paused: Option<gov::Exp>,
    config: Value,
    items: BTreeMap<String, String>,
    cw20s: BTreeMap<String, ()>,
    nfts: BTreeMap<String, ()>,
    subs: BTreeMap<String, Option<String>>,
    modules: Vec<Module>,
    voting: String,
    voting_want: Value,
    bank: u128,
}
impl M {
    fn is_paused(&self, sc: &Sc) -> bool {
        self.paused.map(|p| !p.hit(sc)).unwrap_or(false)
    }
}
fn prefix(mut n: usize) -> String {
    // bijective base 26
    n += 1;
    let mut out = vec![];
    while n > 0 {
        n -= 1;
        out.push(b'A' + (n % 26) as u8);
        n /= 26;
    }
    out.reverse();
    String::from_utf8(out).unwrap()
}

const KEYS: &[&str] = &["a b", "a", "ab", "b", "A", "key with spaces", "ключ", "z", " a", "a ", "a\n"];
/// What an item may hold. (Blank values end up in event attributes, which the chain refuses; only items
/// set at creation, which emit none, may be blank.)
fn value(sc: &mut Sc) -> String {
    match sc.r(0, 7) {
        3 => "  padded\t".into(),
        4 => "значение \"quoted\" \\ {}".into(),
        5 => "long ".repeat(200),
        _ => format!("v{}", sc.r(0, 9)),
    }
}

struct W {
    m: M,
    pcode: u64,
    pcode2: u64,
    /// every address that ever was a module
    ever: Vec<String>,
    tokens: Vec<String>,
    nft: Vec<String>,
    plain: String,
    uniq: u64,
}

/// A message a DAO may send itself (or try to), with its effect on the model.
fn self_msg(sc: &mut Sc, w: &mut W) -> Value {
    let k = sc.weighted(&[3, 2, 14, 8, 5, 9, 8, 8, 9, 4, 3, 3]);
    let key = |sc: &mut Sc| sc.pick(KEYS).to_string();
    match k {
        0 => json!({"pause":{"duration": gov::dur(sc.chance(50), { let n = sc.r(0, 12); n })}}),
        1 => json!({"unpause":{}}),
        2 => json!({"set_item":{"key": key(sc), "value": value(sc)}}),
        3 => json!({"remove_item":{"key": key(sc)}}),
        4 => {
            let c = json!({"name": if sc.chance(70) {format!("n{}", sc.r(0,99))} else {value(sc)}, "description": value(sc), "image_url": if sc.chance(50) {json!(value(sc))} else {Value::Null},
                "automatically_add_cw20s": sc.chance(50), "automatically_add_cw721s": sc.chance(50),
                "dao_uri": if sc.chance(50) {json!(value(sc))} else {Value::Null}});
            json!({"update_config":{"config": c}})
        }
        5 | 6 => {
            let pool = if k == 5 { w.tokens.clone() } else { w.nft.clone() };
            let mut pick = |sc: &mut Sc, bad: bool| {
                let mut v = vec![];
                for _ in 0..sc.r(0, 3) {
                    v.push(if bad && sc.chance(8) { w.plain.clone() } else { sc.pick(&pool) });
                }
                v
            };
            let add = pick(sc, true);
            let rm = pick(sc, false);
            json!({ if k == 5 { "update_cw20_list" } else { "update_cw721_list" }: {"to_add": add, "to_remove": rm}})
        }
        7 => {
            let mut v = vec![];
            let mut r = vec![];
            for _ in 0..sc.r(0, 3) {
                v.push(json!({"addr": format!("subdao{}", sc.r(0, 6)), "charter": if sc.chance(50) {json!(value(sc))} else {Value::Null}}));
            }
            for _ in 0..sc.r(0, 2) {
                r.push(format!("subdao{}", sc.r(0, 6)));
            }
            json!({"update_sub_daos":{"to_add": v, "to_remove": r}})
        }
        8 => {
            let mut dis: Vec<String> = vec![];
            for _ in 0..sc.weighted(&[4, 5, 3, 1]) {
                dis.push(match sc.weighted(&[12, 1]) {
                    0 => sc.pick(&w.m.modules).addr,
                    _ => "unknown".into(),
                });
            }
            if sc.chance(85) {
                dis.sort();
                dis.dedup();
            }
            let mut add = vec![];
            if sc.chance(4) {
                // past one letter of prefixes
                for _ in 0..sc.r(8, 30) {
                    add.push(module_info(sc, w, 0));
                }
                sc.tick("many-modules-added");
            }
            for _ in 0..sc.weighted(&[4, 5, 2]) {
                add.push(module_info(sc, w, 8));
            }
            json!({"update_proposal_modules":{"to_add": add, "to_disable": dis}})
        }
        9 => json!({"update_voting_module":{"module": module_info(sc, w, 15)}}),
        10 => json!({"nominate_admin":{"admin": if sc.chance(70) {json!(format!("admin{}", sc.r(0,3)))} else {Value::Null}}}),
        _ => json!({"withdraw_admin_nomination":{}}),
    }
}
fn module_info(sc: &mut Sc, w: &mut W, fail: u32) -> Value {
    let mut m = json!({"fail": sc.chance(fail)});
    match sc.r(0, 3) {
        0 => m["data"] = json!(cosmwasm_std::Binary::from(b"not a callback".to_vec()).to_base64()),
        1 => {
            w.uniq += 1;
            m["data"] = callback(&format!("cb{}", w.uniq), sc.r(0, 3));
        }
        _ => {}
    }
    w.uniq += 1;
    let admin = match sc.r(0, 3) {
        0 => Value::Null,
        1 => json!({"address":{"addr": format!("madmin{}", sc.r(0, 3))}}),
        _ => json!({"core_module":{}}),
    };
    let funds = if sc.chance(25) { json!([{"denom": D, "amount": if sc.chance(8) { "10000000".to_string() } else { sc.r(1, 90).to_string() }}]) } else { json!([]) };
    json!({"code_id": if sc.chance(50) {w.pcode} else {w.pcode2}, "msg": b64(&m), "admin": admin, "funds": funds, "label": format!("module {}", w.uniq)})
}
/// A module's request that the DAO pay `to` three coins, n times.
fn callback(to: &str, n: u64) -> Value {
    let msgs: Vec<Value> = (0..n).map(|_| json!({"bank":{"send":{"to_address":to,"amount":[{"denom":D,"amount":"3"}]}}})).collect();
    json!(b64(&json!({"msgs":msgs})))
}
fn mod_fails(v: &Value) -> (bool, u128) {
    let b = cosmwasm_std::Binary::from_base64(v["msg"].as_str().unwrap()).unwrap();
    let m: Value = serde_json::from_slice(&b).unwrap();
    let pays = m["data"].as_str().map(|d| {
        let d = cosmwasm_std::Binary::from_base64(d).unwrap();
        serde_json::from_slice::<Value>(&d).map(|c| 3 * c["msgs"].as_array().map_or(0, |m| m.len()) as u128).unwrap_or(0)
    });
    (m["fail"] == json!(true), pays.unwrap_or(0))
}
fn funds_of(v: &Value) -> u128 {
    v["funds"].as_array().unwrap().iter().map(|c| u(&c["amount"])).sum()
}

/// Applies `msg` sent by `sender` to the model: Ok(()) if the contract must accept it.
/// `new` receives the number of modules that will be instantiated (prop, voting).
fn apply(sc: &Sc, w: &W, m: &mut M, sender: &str, msg: &Value, new: &mut Vec<&'static str>) -> Result<(), String> {
    let isself = sender == m.core;
    let isadmin = sender == m.admin;
    if m.is_paused(sc) && !isself && !isadmin {
        return Err("paused".into());
    }
    let name = msg_name(msg);
    let b = &msg[&name];
    let need = |c: bool| if c { Ok(()) } else { Err("unauthorized".to_string()) };
    match name.as_str() {
        "execute_admin_msgs" | "execute_proposal_hook" => {
            if name == "execute_admin_msgs" {
                need(isadmin)?;
            } else {
                need(m.modules.iter().any(|x| x.addr == sender && x.on))?;
            }
            for x in b["msgs"].as_array().unwrap() {
                if let Some(p) = x.get("bank") {
                    let a = u(&p["send"]["amount"][0]["amount"]);
                    if a > m.bank {
                        return Err("insufficient".into());
                    }
                    m.bank -= a;
                } else {
                    let e = &x["wasm"]["execute"];
                    let inner: Value = serde_json::from_slice(&cosmwasm_std::Binary::from_base64(e["msg"].as_str().unwrap()).unwrap()).unwrap();
                    let core = m.core.clone();
                    apply(sc, w, m, &core, &inner, new)?;
                }
            }
        }
        "pause" => {
            need(isself)?;
            let d = &b["duration"];
            m.paused = Some(if let Some(t) = d.get("time") {
                gov::Exp::T(sc.block().time.nanos()).add(t.as_u64().unwrap())
            } else {
                gov::Exp::H(sc.height()).add(d["height"].as_u64().unwrap())
            });
        }
        "unpause" => {
            need(isadmin)?;
            m.paused = None;
        }
        "set_item" => {
            need(isself)?;
            m.items.insert(s(&b["key"]), s(&b["value"]));
        }
        "remove_item" => {
            need(isself)?;
            m.items.remove(&s(&b["key"])).ok_or("missing")?;
        }
        "update_config" => {
            need(isself)?;
            m.config = b["config"].clone();
        }
        "update_cw20_list" | "update_cw721_list" => {
            need(isself)?;
            let list = if name == "update_cw20_list" { &mut m.cw20s } else { &mut m.nfts };
            for x in b["to_add"].as_array().unwrap() {
                if s(x) == w.plain {
                    return Err("not a token".into());
                }
                list.insert(s(x), ());
            }
            for x in b["to_remove"].as_array().unwrap() {
                list.remove(&s(x));
            }
        }
        "update_sub_daos" => {
            need(isself)?;
            for x in b["to_remove"].as_array().unwrap() {
                m.subs.remove(&s(x));
            }
            for x in b["to_add"].as_array().unwrap() {
                m.subs.insert(s(&x["addr"]), x["charter"].as_str().map(|c| c.to_string()));
            }
        }
        "update_proposal_modules" => {
            need(isself)?;
            for x in b["to_disable"].as_array().unwrap() {
                let q = m.modules.iter_mut().find(|y| y.addr == s(x)).ok_or("unknown module")?;
                if !q.on {
                    return Err("already disabled".into());
                }
                q.on = false;
            }
            let add = b["to_add"].as_array().unwrap();
            if add.is_empty() && m.modules.iter().all(|x| !x.on) {
                return Err("no active modules".into());
            }
            for x in add {
                let (f, pay) = mod_fails(x);
                if f {
                    return Err("module fails".into());
                }
                let pay = pay + funds_of(x);
                if pay > m.bank {
                    return Err("insufficient".into());
                }
                m.bank -= pay;
                let p = prefix(m.modules.len());
                m.modules.push(Module { addr: String::new(), prefix: p, on: true, want: x.clone() });
                new.push("prop");
            }
        }
        "update_voting_module" => {
            need(isself)?;
            // the callback of a replacement voting module is not executed
            if mod_fails(&b["module"]).0 {
                return Err("module fails".into());
            }
            let pay = funds_of(&b["module"]);
            if pay > m.bank {
                return Err("insufficient".into());
            }
            m.bank -= pay;
            m.voting = String::new();
            m.voting_want = b["module"].clone();
            new.push("voting");
        }
        "nominate_admin" => {
            need(isadmin)?;
            if m.nominee.is_some() {
                return Err("pending".into());
            }
            match b["admin"].as_str() {
                Some(a) => m.nominee = Some(a.to_string()),
                None => m.admin = m.core.clone(),
            }
        }
        "withdraw_admin_nomination" => {
            need(isadmin)?;
            m.nominee.take().ok_or("none")?;
        }
        "accept_admin_nomination" => {
            need(m.nominee.as_deref() == Some(sender))?;
            m.admin = m.nominee.take().unwrap();
        }
        "receive" => {
            if m.config["automatically_add_cw20s"] == json!(true) {
                m.cw20s.insert(sender.to_string(), ());
            }
        }
        "receive_nft" => {
            if m.config["automatically_add_cw721s"] == json!(true) {
                m.nfts.insert(sender.to_string(), ());
            }
        }
        x => panic!("unmodelled {x}"),
    }
    Ok(())
}

pub fn run(sc: &mut Sc) -> R {
    let cc = sc.code(core_c());
    let pcode = sc.code(puppet_code());
    let c20 = sc.code(cw20_code());
    let c721 = sc.code(cw721_code());
    let mut tokens = vec![];
    for i in 0..5 {
        tokens.push(sc.must_init(c20, "minter", &json!({"name":"tok","symbol":format!("TOK{}", ["A","B","C","D","E"][i]),"decimals":6,
            "initial_balances":[{"address":"holder","amount":"1000000"}],"mint":{"minter":"minter"}}), &[], "cw20")?);
    }
    let mut nft = vec![];
    for _ in 0..4 {
        nft.push(sc.must_init(c721, "minter", &json!({"name":"n","symbol":"N","minter":"minter"}), &[], "cw721")?);
    }
    let plain = "notacontract".to_string();
    let with_admin = sc.chance(60);
    let mut items = BTreeMap::new();
    let mut init_items = vec![];
    for _ in 0..sc.r(0, 4) {
        let k = match sc.r(0, 9) { 0..=5 => format!("k{}", sc.r(0, 9)), 6 => String::new(), _ => sc.pick(KEYS).to_string() };
        let v = if sc.chance(20) { String::new() } else { value(sc) };
        init_items.push(json!({"key":k.clone(),"value":v.clone()}));
        items.insert(k, v);
    }
    let dup = init_items.len() != items.len();
    let nmod = if sc.chance(3) { sc.r(20, 60) } else { sc.r(1, 3) } as usize;
    let empty = sc.chance(3);
    let cfg = json!({"name":"DAO","description":"d","image_url":null,"automatically_add_cw20s":sc.chance(50),"automatically_add_cw721s":sc.chance(50),"dao_uri":"u"});
    let mods: Vec<(u64, Value)> = if empty { vec![] } else { (0..nmod).map(|_| (pcode, json!({}))).collect() };
    let mut ext = cfg.clone();
    ext["admin"] = if with_admin { json!("admin0") } else { Value::Null };
    ext["initial_items"] = json!(init_items);
    let init = dao_init(pcode, &json!({}), &mods, ext);
    let mut init = init;
    // the first modules may be given coins and ask for messages to be executed, like later ones
    let (mut out, mut broken) = (0u128, false);
    let purse = if nmod > 3 { sc.pick(&[0u128, 700]) } else { sc.pick(&[0u128, 0, 40, 200]) };
    for i in 0..=mods.len() {
        let (key, m) = if i == 0 {
            ("vote", &mut init["voting_module_instantiate_info"])
        } else {
            ("prop", &mut init["proposal_modules_instantiate_info"][i - 1])
        };
        let mut d = json!({});
        if sc.chance(3) && (nmod < 4 || i == 5) {
            d["fail"] = json!(true);
            broken = true;
        }
        match sc.r(0, 5) {
            0 => d["data"] = json!(cosmwasm_std::Binary::from(b"not a callback".to_vec()).to_base64()),
            1 if purse > 0 => {
                let n = sc.r(0, 3);
                d["data"] = callback(&format!("first{key}{i}"), n);
                out += 3 * n as u128;
            }
            _ => {}
        }
        m["msg"] = json!(b64(&d));
        if purse > 0 && sc.chance(30) {
            let a = sc.r(1, 30);
            m["funds"] = json!([{"denom": D, "amount": a.to_string()}]);
            out += a as u128;
        }
    }
    if purse > 0 {
        sc.mint("creator", purse, D);
    }
    let coins = if purse > 0 { vec![cosmwasm_std::coin(purse, D)] } else { vec![] };
    let r = sc.init(cc, "creator", &init, &coins, "core", None);
    let poor = out > purse;
    ensure!(r.is_ok() == !(dup || empty || broken || poor), A, "instantiate", "instantiate (duplicate item {dup}, no modules {empty}, failing module {broken}, too little money {poor}) => {r:?}");
    sc.checked(1);
    let Ok(core) = r else {
        return Ok(());
    };
    for i in 0..=mods.len() {
        let m = if i == 0 { &init["voting_module_instantiate_info"] } else { &init["proposal_modules_instantiate_info"][i - 1] };
        let want = mod_fails(m).1;
        let got = sc.bank(&format!("first{}{i}", if i == 0 { "vote" } else { "prop" }), D);
        ensure!(got == want, A, "callback", "the callback of initial module {i} was to pay {want}, paid {got}");
        sc.checked(1);
        if want > 0 {
            sc.tick("mon.initial_callback");
        }
    }
    let q = sc.qm(A, &core, &json!({"dump_state":{}}))?;
    let mut w = W {
        m: M {
            core: core.clone(),
            admin: if with_admin { "admin0".into() } else { core.clone() },
            nominee: None,
            paused: None,
            config: cfg,
            items,
            cw20s: BTreeMap::new(),
            nfts: BTreeMap::new(),
            subs: BTreeMap::new(),
            modules: vec![],
            voting: s(&q["voting_module"]),
            voting_want: init["voting_module_instantiate_info"].clone(),
            bank: 1_000_000 + purse - out,
        },
        pcode,
        pcode2: sc.code(puppet_code()),
        ever: vec![],
        tokens,
        nft,
        plain,
        uniq: 0,
    };
    sc.mint(&core, 1_000_000, D);
    let first = w.m.voting.clone();
    for i in 0..nmod {
        w.m.modules.push(Module { addr: String::new(), prefix: prefix(i), on: true, want: init["proposal_modules_instantiate_info"][i].clone() });
    }
    made(sc, &core, &first, &w.m.voting_want.clone())?;
    w.ever.push(first.clone());
    learn(sc, &mut w)?;
    ensure!(!w.m.modules.iter().any(|x| x.addr == first), A, "modules", "voting module {first} registered as a proposal module");
    check(sc, &w)?;
    sc.nontrivial = true;
    let steps = if sc.thorough { 90 } else { 45 };
    for _ in 0..steps {
        if sc.chance(18) {
            let b = sc.r(1, 3);
            let t = b * 5;
            sc.advance(b, t);
            check_pause(sc, &w)?;
            continue;
        }
        // sender
        let mut who = match sc.weighted(&[30, 22, 22, 5, 5, 6, 3, 7]) {
            0 => core.clone(),
            1 => w.m.admin.clone(),
            2 => sc.pick(&w.m.modules).addr,
            3 => w.m.voting.clone(),
            4 => "outsider".into(),
            5 => format!("admin{}", sc.r(0, 3)),
            6 => w.m.nominee.clone().unwrap_or("creator".into()),
            _ => "creator".into(),
        };
        let msg = match sc.weighted(&[34, 20, 20, 8, 6, 6, 6]) {
            0 => self_msg(sc, &mut w),
            k @ (1 | 2) => {
                let mut msgs = vec![];
                for _ in 0..if sc.chance(6) { sc.r(9, 24) } else { sc.r(1, 3) } {
                    if sc.chance(55) {
                        w.uniq += 1;
                        let a = if sc.chance(6) { 10_000_000 } else { sc.r(1, 500) };
                        msgs.push(json!({"bank":{"send":{"to_address":format!("payee{}", w.uniq),"amount":[{"denom":D,"amount":a.to_string()}]}}}));
                    } else {
                        let inner = self_msg(sc, &mut w);
                        msgs.push(json!({"wasm":{"execute":{"contract_addr":core,"msg":b64(&inner),"funds":[]}}}));
                    }
                }
                if k == 1 {
                    json!({"execute_admin_msgs":{"msgs":msgs}})
                } else {
                    if sc.chance(60) {
                        who = sc.pick(&w.m.modules).addr;
                    }
                    json!({"execute_proposal_hook":{"msgs":msgs}})
                }
            }
            3 => {
                if sc.chance(60) {
                    who = w.m.nominee.clone().unwrap_or(who);
                }
                json!({"accept_admin_nomination":{}})
            }
            4 => {
                if sc.chance(60) {
                    who = w.m.admin.clone();
                }
                json!({"nominate_admin":{"admin": if sc.chance(85) {json!(format!("admin{}", sc.r(0,3)))} else {Value::Null}}})
            }
            5 => {
                // a token arriving through the token contract
                let t = sc.pick(&w.tokens);
                let m = json!({"send":{"contract":core,"amount":sc.r(1,50).to_string(),"msg":b64(&json!({}))}});
                let mut next = w.m.clone();
                let want = apply(sc, &w, &mut next, &t, &json!({"receive":{}}), &mut vec![]);
                let r = sc.exec("holder", &t, &m, &[]);
                ensure!(r.is_ok() == want.is_ok(), L, "receive", "sending a cw20 to the DAO: {r:?}, expected {want:?}");
                if want.is_ok() {
                    w.m = next;
                    sc.tick("mon.receive");
                }
                check(sc, &w)?;
                continue;
            }
            _ => {
                let t = sc.pick(&w.nft);
                w.uniq += 1;
                let id = format!("t{}", w.uniq);
                sc.exec("minter", &t, &json!({"mint":{"owner":"holder","token_id":id,"token_uri":null,"extension":null}}), &[]).ok();
                let mut next = w.m.clone();
                let want = apply(sc, &w, &mut next, &t, &json!({"receive_nft":{}}), &mut vec![]);
                let r = sc.exec("holder", &t, &json!({"send_nft":{"contract":core,"token_id":id,"msg":b64(&json!({}))}}), &[]);
                ensure!(r.is_ok() == want.is_ok(), L, "receive", "sending an NFT to the DAO: {r:?}, expected {want:?}");
                if want.is_ok() {
                    w.m = next;
                }
                check(sc, &w)?;
                continue;
            }
        };
        let mut next = w.m.clone();
        let mut new = vec![];
        let want = apply(sc, &w, &mut next, &who, &msg, &mut new);
        let r = sc.exec(&who, &core, &msg, &[]);
        sc.checked(1);
        if w.m.is_paused(sc) {
            sc.tick(if want.is_ok() { "mon.paused_allowed" } else { "mon.paused_blocked" });
        }
        ensure!(
            r.is_ok() == want.is_ok(),
            A,
            "accept",
            "{msg} by {who}: expected {want:?}, got {}",
            r.map(|_| "ok".to_string()).unwrap_or_else(|e| e)
        );
        if want.is_ok() {
            w.m = next;
            if !new.is_empty() {
                learn(sc, &mut w)?;
            }
        }
        check(sc, &w)?;
    }
    Ok(())
}
fn core_c() -> Box<dyn cw_mt::Contract<cw_std::Empty>> {
    gov::core_code()
}

/// A module is the contract that was asked for: code, label, admin, creator and funds.
fn made(sc: &mut Sc, core: &str, addr: &str, want: &Value) -> R {
    let d = sc.app.contract_data(&cosmwasm_std::Addr::unchecked(addr)).map_err(|e| Viol::new(A, "module-made", format!("{addr}: {e}")))?;
    let admin = match &want["admin"] {
        Value::Null => None,
        v if v.get("core_module").is_some() => Some(core.to_string()),
        v => Some(s(&v["address"]["addr"])),
    };
    ensure!(
        json!(d.code_id) == want["code_id"] && json!(d.label) == want["label"] && d.creator == core && d.admin.clone().map(|a| a.to_string()) == admin,
        A,
        "module-made",
        "module {addr} is {d:?}, asked for {want}"
    );
    let f = sc.bank(addr, D);
    ensure!(f == funds_of(want), A, "module-made", "module {addr} has {f}{D}, asked for {want}");
    sc.checked(2);
    Ok(())
}

/// Newly instantiated modules get an address the model cannot know: learn it from the listing.
fn learn(sc: &mut Sc, w: &mut W) -> R {
    let st = sc.qm(A, &w.m.core, &json!({"dump_state":{}}))?;
    let got = st["proposal_modules"].as_array().unwrap().clone();
    ensure!(got.len() == w.m.modules.len(), A, "modules", "expected {} proposal modules, DAO lists {got:?}", w.m.modules.len());
    let known = w.ever.clone();
    for m in w.m.modules.iter_mut().filter(|m| m.addr.is_empty()) {
        let g = got.iter().find(|g| g["prefix"] == json!(m.prefix));
        ensure!(g.is_some(), A, "modules", "no module with prefix {} in {got:?}", m.prefix);
        m.addr = s(&g.unwrap()["address"]);
        ensure!(!known.contains(&m.addr), A, "modules", "module {} lost its old entry", m.addr);
        made(sc, &w.m.core, &m.addr, &m.want)?;
        w.ever.push(m.addr.clone());
    }
    if w.m.voting.is_empty() {
        w.m.voting = s(&st["voting_module"]);
        ensure!(!w.ever.contains(&w.m.voting), A, "voting-module", "the new voting module {} is an old module", w.m.voting);
        made(sc, &w.m.core, &w.m.voting, &w.m.voting_want)?;
        w.ever.push(w.m.voting.clone());
        sc.tick("mon.voting_replaced");
    }
    let mut uniq: Vec<&String> = w.m.modules.iter().map(|m| &m.addr).collect();
    uniq.sort();
    uniq.dedup();
    ensure!(uniq.len() == w.m.modules.len(), A, "modules", "two modules share an address");
    Ok(())
}

fn check_pause(sc: &mut Sc, w: &W) -> R {
    let p = sc.qm(A, &w.m.core, &json!({"pause_info":{}}))?;
    let want = if w.m.is_paused(sc) { json!({"paused":{"expiration": w.m.paused.unwrap().json()}}) } else { json!({"unpaused":{}}) };
    ensure!(p == want, A, "pause-info", "pause info {p}, expected {want}");
    sc.checked(1);
    Ok(())
}

fn check(sc: &mut Sc, w: &W) -> R {
    let m = &w.m;
    let c = &m.core;
    check_pause(sc, w)?;
    let st = sc.qm(A, c, &json!({"dump_state":{}}))?;
    let eq = |got: &Value, want: Value, tags: &[&str], what: &str| -> R {
        ensure!(*got == want, tags, what, "{what}: reported {got}, expected {want}");
        Ok(())
    };
    eq(&st["admin"], json!(m.admin), A, "admin")?;
    eq(&sc.qm(A, c, &json!({"admin":{}}))?, json!(m.admin), A, "admin")?;
    eq(&sc.qm(A, c, &json!({"admin_nomination":{}}))?["nomination"], json!(m.nominee), A, "nomination")?;
    eq(&st["config"], m.config.clone(), A, "config")?;
    eq(&sc.qm(A, c, &json!({"config":{}}))?, m.config.clone(), A, "config")?;
    eq(&sc.qm(A, c, &json!({"dao_u_r_i":{}}))?["dao_uri"], m.config["dao_uri"].clone(), A, "dao-uri")?;
    eq(&st["voting_module"], json!(m.voting), A, "voting-module")?;
    let mut mods: Vec<&Module> = m.modules.iter().collect();
    mods.sort_by(|a, b| a.addr.cmp(&b.addr));
    let j = |x: &Module| json!({"address":x.addr,"prefix":x.prefix,"status": if x.on {"enabled"} else {"disabled"}});
    let all: Vec<Value> = mods.iter().map(|x| j(x)).collect();
    let on: Vec<Value> = mods.iter().filter(|x| x.on).map(|x| j(x)).collect();
    eq(&st["proposal_modules"], norm(&all), A, "modules").or_else(|_| {
        // status may be serialised either way; compare case-insensitively
        let got = lower(&st["proposal_modules"]);
        eq(&got, lower(&norm(&all)), A, "modules")
    })?;
    ensure!(!on.is_empty(), A, "no-active-module", "the DAO has no active proposal module");
    let cnt = sc.qm(A, c, &json!({"proposal_module_count":{}}))?;
    eq(&cnt["total_proposal_module_count"], json!(all.len()), A, "module-count")?;
    eq(&cnt["active_proposal_module_count"], json!(on.len()), A, "module-count")?;
    eq(&st["active_proposal_module_count"], json!(on.len()), A, "module-count")?;
    ensure!(sc.bank(c, D) == m.bank, A, "treasury", "treasury holds {}, expected {}", sc.bank(c, D), m.bank);
    sc.checked(10);
    // listings, a few per step
    let id = |v: &Value| v.clone();
    let addr_key = |v: &Value| v["address"].clone();
    match sc.r(0, 7) {
        0 => pages(sc, L, c, "proposal_modules", json!({}), &all, true, &addr_key, &|v| lower(v))?,
        1 => {
            // limit counts only active modules
            pages(sc, L, c, "active_proposal_modules", json!({}), &on, true, &addr_key, &|v| lower(v))?
        }
        2 => {
            let want: Vec<Value> = m.items.iter().rev().map(|(k, v)| json!([k, v])).collect();
            pages(sc, L, c, "list_items", json!({}), &want, true, &|v| v[0].clone(), &id)?;
            for k in KEYS.iter().chain(["k1", "nothing here"].iter()) {
                let g = sc.qm(L, c, &json!({"get_item":{"key":k}}))?;
                eq(&g["item"], json!(m.items.get(*k)), L, "get-item")?;
            }
        }
        3 => {
            let want: Vec<Value> = m.cw20s.keys().rev().map(|k| json!(k)).collect();
            pages(sc, L, c, "cw20_token_list", json!({}), &want, true, &id, &id)?;
            let mut bal = vec![];
            for k in m.cw20s.keys().rev() {
                bal.push(json!({"addr":k,"balance":sc.cw20_bal(k, c).to_string()}));
            }
            pages(sc, L, c, "cw20_balances", json!({}), &bal, true, &|v| v["addr"].clone(), &id)?;
        }
        4 => {
            let want: Vec<Value> = m.nfts.keys().rev().map(|k| json!(k)).collect();
            pages(sc, L, c, "cw721_token_list", json!({}), &want, true, &id, &id)?;
        }
        5 => {
            let want: Vec<Value> = m.subs.iter().map(|(k, v)| json!({"addr":k,"charter":v})).collect();
            pages(sc, L, c, "list_sub_daos", json!({}), &want, true, &|v| v["addr"].clone(), &id)?;
        }
        6 => {
            let h = if sc.chance(50) { None } else { Some(sc.r(1, 20000)) };
            let eff = h.unwrap_or(sc.height());
            let t = sc.qm(L, c, &json!({"total_power_at_height":{"height":h}}))?;
            eq(&t, json!({"power": (77_000 + eff % 997 + salt(&m.voting)).to_string(), "height": eff}), L, "power-relay")?;
            let t = sc.qm(L, c, &json!({"voting_power_at_height":{"height":h,"address":"someone"}}))?;
            eq(&t, json!({"power": (7000 + eff % 997 + salt(&m.voting)).to_string(), "height": eff}), L, "power-relay")?;
            sc.checked(2);
        }
        _ => {}
    }
    Ok(())
}
fn norm(v: &[Value]) -> Value {
    json!(v)
}
fn lower(v: &Value) -> Value {
    serde_json::from_str(&v.to_string().replace("\"Enabled\"", "\"enabled\"").replace("\"Disabled\"", "\"disabled\"")).unwrap()
}
