use crate::drive::{Sc, Viol};
use cosmwasm_std::{coin, Addr, BlockInfo, Coin, Empty, Timestamp};
use cw_multi_test::{AppResponse, BankSudo, Contract, ContractWrapper, Executor, SudoMsg};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const NS: u64 = 1_000_000_000;

/// Wraps the four or five entry points of a contract crate.
#[macro_export]
macro_rules! wrap {
    ($($m:ident)::+) => {
        Box::new($crate::cw_mt::ContractWrapper::new(
            $($m)::+::execute, $($m)::+::instantiate, $($m)::+::query,
        )) as Box<dyn $crate::cw_mt::Contract<$crate::cw_std::Empty>>
    };
    ($($m:ident)::+ ; reply) => {
        Box::new($crate::cw_mt::ContractWrapper::new(
            $($m)::+::execute, $($m)::+::instantiate, $($m)::+::query,
        ).with_reply($($m)::+::reply)) as Box<dyn $crate::cw_mt::Contract<$crate::cw_std::Empty>>
    };
    ($($m:ident)::+ ; migrate) => {
        Box::new($crate::cw_mt::ContractWrapper::new(
            $($m)::+::execute, $($m)::+::instantiate, $($m)::+::query,
        ).with_migrate($($m)::+::migrate)) as Box<dyn $crate::cw_mt::Contract<$crate::cw_std::Empty>>
    };
    ($($m:ident)::+ ; reply, migrate) => {
        Box::new($crate::cw_mt::ContractWrapper::new(
            $($m)::+::execute, $($m)::+::instantiate, $($m)::+::query,
        ).with_reply($($m)::+::reply).with_migrate($($m)::+::migrate)) as Box<dyn $crate::cw_mt::Contract<$crate::cw_std::Empty>>
    };
}
pub use cosmwasm_std as cw_std;
pub use cw_multi_test as cw_mt;

pub fn cw20_code() -> Box<dyn Contract<Empty>> {
    wrap!(cw20_base::contract; migrate)
}
pub fn cw4_code() -> Box<dyn Contract<Empty>> {
    wrap!(cw4_group::contract)
}
pub fn cw721_code() -> Box<dyn Contract<Empty>> {
    Box::new(ContractWrapper::new(
        cw721_base::entry::execute,
        cw721_base::entry::instantiate,
        cw721_base::entry::query,
    ))
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        format!("panic: {s}")
    } else if let Some(s) = e.downcast_ref::<String>() {
        format!("panic: {s}")
    } else {
        "panic".into()
    }
}

/// Decimal string of `atomics` / 10^18.
pub fn dec(atomics: u128) -> String {
    cosmwasm_std::Decimal::new(cosmwasm_std::Uint128::new(atomics)).to_string()
}
pub const ONE: u128 = 1_000_000_000_000_000_000;

pub fn u(v: &Value) -> u128 {
    match v {
        Value::String(s) => s.parse().unwrap_or_else(|_| panic!("not a number: {s}")),
        Value::Number(n) => n.as_u64().expect("u64") as u128,
        other => panic!("not a number: {other}"),
    }
}
pub fn s(v: &Value) -> String {
    v.as_str().unwrap_or_else(|| panic!("not a string: {v}")).to_string()
}
pub fn b64<T: serde::Serialize>(v: &T) -> String {
    cosmwasm_std::Binary::from(serde_json::to_vec(v).unwrap()).to_base64()
}

/// The name of the top-level variant of a message.
pub fn msg_name(msg: &Value) -> String {
    match msg {
        Value::Object(m) => {
            let k = m.keys().next().cloned().unwrap_or_default();
            if k == "send" || k == "send_nft" || k == "receive" || k == "receive_nft" {
                // look into the hook message for the real operation
                if let Some(inner) = m[&k].get("msg").and_then(|x| x.as_str()) {
                    if let Ok(bin) = cosmwasm_std::Binary::from_base64(inner) {
                        if let Ok(v) = serde_json::from_slice::<Value>(&bin) {
                            return format!("{k}:{}", msg_name(&v));
                        }
                    }
                }
            }
            k
        }
        Value::String(s) => s.clone(),
        _ => "?".into(),
    }
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…", &s[..e])
}

impl Sc {
    pub fn code(&mut self, c: Box<dyn Contract<Empty>>) -> u64 {
        self.app.store_code(c)
    }
    pub fn block(&self) -> BlockInfo {
        self.app.block_info()
    }
    pub fn height(&self) -> u64 {
        self.app.block_info().height
    }
    pub fn now(&self) -> u64 {
        self.app.block_info().time.seconds()
    }
    pub fn advance(&mut self, blocks: u64, secs: u64) {
        self.app.update_block(|b| {
            b.height += blocks;
            b.time = b.time.plus_seconds(secs);
        });
        self.note(format!(
            "-- block +{blocks} +{secs}s => height {} time {}",
            self.height(),
            self.now()
        ));
        self.step("blk");
        if self.prng.is_some() {
            self.plain_migrations();
        }
    }
    pub fn set_time(&mut self, secs: u64) {
        self.app.update_block(|b| b.time = Timestamp::from_seconds(secs));
    }
    pub fn mint(&mut self, to: &str, amount: u128, denom: &str) {
        self.app
            .sudo(SudoMsg::Bank(BankSudo::Mint {
                to_address: to.to_string(),
                amount: vec![coin(amount, denom)],
            }))
            .expect("mint");
        self.note(format!("mint {amount}{denom} -> {to}"));
    }
    pub fn bank(&self, who: &str, denom: &str) -> u128 {
        self.app.wrap().query_balance(who, denom).map(|c| c.amount.u128()).unwrap_or(0)
    }
    pub fn cw20_bal(&self, token: &str, who: &str) -> u128 {
        u(&self.q(token, &json!({"balance":{"address":who}})).expect("cw20 balance")["balance"])
    }
    /// the address that may migrate a contract
    pub fn wasm_admin(&self, addr: &str) -> Option<String> {
        self.app.wrap().query_wasm_contract_info(addr).ok().and_then(|i| i.admin)
    }
    pub fn wasm_creator(&self, addr: &str) -> Option<String> {
        self.app.wrap().query_wasm_contract_info(addr).ok().map(|i| i.creator)
    }
    pub fn label(&mut self, addr: &str, l: &str) {
        self.labels.insert(addr.to_string(), l.to_string());
    }
    fn lab(&self, addr: &str) -> String {
        self.labels.get(addr).cloned().unwrap_or_else(|| addr.to_string())
    }
    pub fn init(
        &mut self,
        code: u64,
        sender: &str,
        msg: &Value,
        funds: &[Coin],
        label: &str,
        admin: Option<&str>,
    ) -> Result<String, String> {
        let app = &mut self.app;
        let r = catch_unwind(AssertUnwindSafe(|| {
            app.instantiate_contract(
                code,
                Addr::unchecked(sender),
                msg,
                funds,
                label,
                admin.map(|a| a.to_string()),
            )
        }));
        let r = match r {
            Ok(Ok(a)) => Ok(a.to_string()),
            Ok(Err(e)) => Err(format!("{e:#}")),
            Err(p) => Err(panic_text(p)),
        };
        if let Ok(a) = &r {
            self.label(a, label);
        }
        self.note(format!(
            "instantiate {label} by {sender} {msg} funds {funds:?} => {}",
            match &r {
                Ok(a) => a.clone(),
                Err(e) => format!("ERR {}", clip(e, 300)),
            }
        ));
        self.tick(&format!("{label}.instantiate.{}", if r.is_ok() { "ok" } else { "err" }));
        r
    }
    /// Instantiates a module as a DAO core contract does: the messages the module asks for in its
    /// answer are then executed in the DAO's name, and all fails if one of them fails.
    pub fn init_module(&mut self, code: u64, dao: &str, msg: &Value, label: &str) -> Result<(String, usize), String> {
        let m = cosmwasm_std::WasmMsg::Instantiate {
            admin: Some(dao.to_string()),
            code_id: code,
            msg: serde_json::to_vec(msg).unwrap().into(),
            funds: vec![],
            label: label.to_string(),
        };
        let app = &mut self.app;
        let r = catch_unwind(AssertUnwindSafe(|| app.execute(Addr::unchecked(dao), m.into())));
        let r = match r {
            Ok(Ok(a)) => Ok(cw_utils::parse_instantiate_response_data(&a.data.unwrap_or_default()).unwrap()),
            Ok(Err(e)) => Err(format!("{e:#}")),
            Err(p) => Err(panic_text(p)),
        };
        if let Ok(a) = &r {
            self.label(&a.contract_address, label);
        }
        self.note(format!(
            "instantiate {label} by {dao} {msg} => {}",
            match &r {
                Ok(a) => a.contract_address.clone(),
                Err(e) => format!("ERR {}", clip(e, 300)),
            }
        ));
        self.tick(&format!("{label}.instantiate.{}", if r.is_ok() { "ok" } else { "err" }));
        let r = r?;
        let mut n = 0;
        if let Some(v) = r.data.as_ref().and_then(|d| serde_json::from_slice::<Value>(d).ok()) {
            for m in v["msgs"].as_array().into_iter().flatten() {
                let msg: cosmwasm_std::CosmosMsg = serde_json::from_value(m.clone()).map_err(|e| e.to_string())?;
                let app = &mut self.app;
                let r = catch_unwind(AssertUnwindSafe(|| app.execute(Addr::unchecked(dao), msg)));
                let r = match r {
                    Ok(Ok(_)) => Ok(()),
                    Ok(Err(e)) => Err(format!("{e:#}")),
                    Err(p) => Err(panic_text(p)),
                };
                self.note(format!("callback {m} => {r:?}"));
                r?;
                n += 1;
            }
        }
        Ok((r.contract_address, n))
    }
    pub fn must_init(
        &mut self,
        code: u64,
        sender: &str,
        msg: &Value,
        funds: &[Coin],
        label: &str,
    ) -> Result<String, Viol> {
        self.init(code, sender, msg, funds, label, None).map_err(|e| {
            Viol::new(&["*"], "setup", format!("instantiating {label} with a valid configuration failed: {e}"))
        })
    }
    pub fn exec(
        &mut self,
        sender: &str,
        contract: &str,
        msg: &Value,
        funds: &[Coin],
    ) -> Result<AppResponse, String> {
        let app = &mut self.app;
        let r = catch_unwind(AssertUnwindSafe(|| {
            app.execute_contract(Addr::unchecked(sender), Addr::unchecked(contract), msg, funds)
        }));
        let r = match r {
            Ok(Ok(a)) => Ok(a),
            Ok(Err(e)) => Err(format!("{e:#}")),
            Err(p) => Err(panic_text(p)),
        };
        self.note(format!(
            "{sender} -> {}({contract}) {}{} => {}",
            self.lab(contract),
            clip(&msg.to_string(), 600),
            if funds.is_empty() { String::new() } else { format!(" funds {funds:?}") },
            match &r {
                Ok(_) => "ok".to_string(),
                Err(e) => format!("ERR {}", clip(e, 300)),
            }
        ));
        let ev = format!(
            "{}.{}.{}",
            self.lab(contract),
            msg_name(msg),
            if r.is_ok() { "ok" } else { "err" }
        );
        self.tick(&ev);
        self.step(&ev);
        r
    }
    pub fn migrate(&mut self, sender: &str, contract: &str, msg: &Value, code: u64) -> Result<(), String> {
        let app = &mut self.app;
        let r = catch_unwind(AssertUnwindSafe(|| {
            app.migrate_contract(Addr::unchecked(sender), Addr::unchecked(contract), msg, code)
        }));
        let r = match r {
            Ok(Ok(_)) => Ok(()),
            Ok(Err(e)) => Err(format!("{e:#}")),
            Err(p) => Err(panic_text(p)),
        };
        self.note(format!("{sender} migrates {} {msg} => {:?}", self.lab(contract), r));
        let ev = format!("{}.migrate.{}", self.lab(contract), if r.is_ok() { "ok" } else { "err" });
        self.tick(&ev);
        self.step(&ev);
        r
    }
    /// Raw chain message (bank send, staking ...)
    pub fn cosmos(&mut self, sender: &str, msg: cosmwasm_std::CosmosMsg) -> Result<AppResponse, String> {
        let app = &mut self.app;
        let m2 = format!("{msg:?}");
        let r = catch_unwind(AssertUnwindSafe(|| app.execute(Addr::unchecked(sender), msg)));
        let r = match r {
            Ok(Ok(a)) => Ok(a),
            Ok(Err(e)) => Err(format!("{e:#}")),
            Err(p) => Err(panic_text(p)),
        };
        self.note(format!(
            "{sender} sends {} => {}",
            clip(&m2, 300),
            match &r {
                Ok(_) => "ok".to_string(),
                Err(e) => format!("ERR {}", clip(e, 200)),
            }
        ));
        r
    }
    pub fn q(&self, contract: &str, msg: &Value) -> Result<Value, String> {
        let r = catch_unwind(AssertUnwindSafe(|| {
            let req = cosmwasm_std::QueryRequest::<Empty>::Wasm(cosmwasm_std::WasmQuery::Smart {
                contract_addr: contract.to_string(),
                msg: cosmwasm_std::Binary::from(serde_json::to_vec(msg).unwrap()),
            });
            let raw = serde_json::to_vec(&req).unwrap();
            use cosmwasm_std::Querier;
            self.app.raw_query(&raw)
        }));
        match r {
            Err(p) => Err(panic_text(p)),
            Ok(cosmwasm_std::SystemResult::Err(e)) => Err(format!("system: {e}")),
            Ok(cosmwasm_std::SystemResult::Ok(cosmwasm_std::ContractResult::Err(e))) => Err(e),
            Ok(cosmwasm_std::SystemResult::Ok(cosmwasm_std::ContractResult::Ok(b))) => {
                serde_json::from_slice(&b).map_err(|e| format!("bad json: {e}"))
            }
        }
    }
    /// A query that must answer for the property to hold.
    pub fn qm(&self, tags: &[&str], contract: &str, msg: &Value) -> Result<Value, Viol> {
        self.q(contract, msg).map_err(|e| {
            Viol::new(
                tags,
                &format!("query:{}", msg_name(msg)),
                format!("query {msg} of {} failed: {e}", self.lab(contract)),
            )
        })
    }
    pub fn new_app() -> crate::tf::Chain {
        crate::tf::new_chain()
    }
}
