// A thin JSON layer over cw-multi-test for the demonstrations.
#![allow(dead_code, unused_macros, unused_imports)]
pub use cosmwasm_std::{coin, coins, Addr, Binary, Coin, Empty};
use cw_multi_test as mt;
pub use cw_multi_test::Executor;
pub use serde_json::{json, Value};

#[macro_export]
macro_rules! code {
    ($m:path) => {{ use $m as c; Box::new(cw_multi_test::ContractWrapper::new(c::execute, c::instantiate, c::query)) as Box<dyn cw_multi_test::Contract<cosmwasm_std::Empty>> }};
    ($m:path; reply) => {{ use $m as c; Box::new(cw_multi_test::ContractWrapper::new(c::execute, c::instantiate, c::query).with_reply(c::reply)) as Box<dyn cw_multi_test::Contract<cosmwasm_std::Empty>> }};
}

pub struct Chain {
    pub app: mt::App,
}
pub fn b64(v: &Value) -> String {
    Binary::from(serde_json::to_vec(v).unwrap()).to_base64()
}
pub fn num(v: &Value) -> u128 {
    match v {
        Value::String(s) => s.parse().unwrap(),
        v => v.as_u64().unwrap_or_else(|| panic!("not a number: {v}")) as u128,
    }
}
pub fn txt(v: &Value) -> String {
    v.as_str().unwrap_or_else(|| panic!("not a string: {v}")).to_string()
}
impl Chain {
    pub fn new() -> Self {
        Chain { app: mt::App::default() }
    }
    pub fn code(&mut self, c: Box<dyn mt::Contract<Empty>>) -> u64 {
        self.app.store_code(c)
    }
    pub fn mint(&mut self, who: &str, amount: u128, denom: &str) {
        self.app
            .sudo(mt::SudoMsg::Bank(mt::BankSudo::Mint { to_address: who.into(), amount: coins(amount, denom) }))
            .unwrap();
    }
    pub fn init(&mut self, code: u64, who: &str, msg: Value, funds: &[Coin]) -> String {
        self.app
            .instantiate_contract(code, Addr::unchecked(who), &msg, funds, "demo", None)
            .unwrap_or_else(|e| panic!("instantiate {msg}: {e:#}"))
            .to_string()
    }
    pub fn try_init(&mut self, code: u64, who: &str, msg: Value, funds: &[Coin]) -> Result<String, String> {
        self.app
            .instantiate_contract(code, Addr::unchecked(who), &msg, funds, "demo", None)
            .map(|a| a.to_string())
            .map_err(|e| format!("{e:#}"))
    }
    pub fn exec(&mut self, who: &str, on: &str, msg: Value, funds: &[Coin]) -> Result<mt::AppResponse, String> {
        self.app
            .execute_contract(Addr::unchecked(who), Addr::unchecked(on), &msg, funds)
            .map_err(|e| format!("{e:#}"))
    }
    pub fn ok(&mut self, who: &str, on: &str, msg: Value, funds: &[Coin]) -> mt::AppResponse {
        self.exec(who, on, msg.clone(), funds).unwrap_or_else(|e| panic!("{who} -> {on} {msg}: {e}"))
    }
    pub fn q(&self, on: &str, msg: Value) -> Value {
        self.app.wrap().query_wasm_smart(on, &msg).unwrap_or_else(|e| panic!("query {msg}: {e}"))
    }
    pub fn bank(&self, who: &str, denom: &str) -> u128 {
        self.app.wrap().query_balance(who, denom).unwrap().amount.u128()
    }
    pub fn cw20(&self, token: &str, who: &str) -> u128 {
        num(&self.q(token, json!({"balance":{"address":who}}))["balance"])
    }
    pub fn blocks(&mut self, n: u64) {
        self.app.update_block(|b| {
            b.height += n;
            b.time = b.time.plus_seconds(5 * n);
        });
    }
    pub fn seconds(&mut self, n: u64) {
        self.app.update_block(|b| {
            b.height += 1;
            b.time = b.time.plus_seconds(n);
        });
    }
    pub fn send_cw20(&mut self, token: &str, who: &str, to: &str, amount: u128, msg: Value) -> Result<mt::AppResponse, String> {
        self.exec(who, token, json!({"send":{"contract":to,"amount":amount.to_string(),"msg":b64(&msg)}}), &[])
    }
}
