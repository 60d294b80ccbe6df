//! A voting module that answers with whatever powers it was told, up to the largest that fit:
//! cw4 weights stop at 64 bits, token balances do not.
use crate::*;
use cosmwasm_std::{Addr, Binary, Deps, DepsMut, Empty, Env, MessageInfo, Response, StdError, StdResult};
use cw_storage_plus::Item;
use std::collections::BTreeMap;

type At = Vec<(u64, BTreeMap<String, u128>)>;
const HIST: Item<Vec<(u64, Vec<(String, cosmwasm_std::Uint128)>)>> = Item::new("hist");
const DAO: Item<Addr> = Item::new("dao");

fn load(deps: Deps) -> StdResult<At> {
    Ok(HIST.load(deps.storage)?.into_iter().map(|(h, m)| (h, m.into_iter().map(|(a, p)| (a, p.u128())).collect())).collect())
}
fn save(deps: DepsMut, at: At) -> StdResult<()> {
    let v: Vec<(u64, Vec<(String, cosmwasm_std::Uint128)>)> = at.into_iter().map(|(h, m)| (h, m.into_iter().map(|(a, p)| (a, p.into())).collect())).collect();
    HIST.save(deps.storage, &v)
}
fn num(v: &serde_json::Value) -> StdResult<u128> {
    v.as_str().and_then(|x| x.parse().ok()).ok_or_else(|| StdError::generic_err("power"))
}
fn instantiate(deps: DepsMut, env: Env, info: MessageInfo, msg: serde_json::Value) -> StdResult<Response> {
    DAO.save(deps.storage, &info.sender)?;
    let mut m = BTreeMap::new();
    for x in msg["members"].as_array().into_iter().flatten() {
        m.insert(s(&x[0]), num(&x[1])?);
    }
    save(deps, vec![(env.block.height, m)])?;
    Ok(Response::new())
}
fn execute(deps: DepsMut, env: Env, _: MessageInfo, msg: serde_json::Value) -> StdResult<Response> {
    let mut at = load(deps.as_ref())?;
    let mut m = at.last().cloned().unwrap().1;
    let who = s(&msg["set"]["addr"]);
    if msg["set"]["power"].is_null() {
        m.remove(&who);
    } else {
        m.insert(who, num(&msg["set"]["power"])?);
    }
    at.push((env.block.height, m));
    save(deps, at)?;
    Ok(Response::new())
}
fn query(deps: Deps, env: Env, msg: serde_json::Value) -> StdResult<Binary> {
    let out = |v: serde_json::Value| Ok(Binary::from(serde_json::to_vec(&v).unwrap()));
    // like cw4: before a given block's changes, or with all of them
    let at = |h: Option<u64>| -> StdResult<BTreeMap<String, u128>> {
        Ok(load(deps)?.into_iter().filter(|(b, _)| h.map(|h| *b < h).unwrap_or(true)).last().map(|x| x.1).unwrap_or_default())
    };
    if let Some(m) = msg.get("voting_power_at_height") {
        let p = at(m["height"].as_u64())?.get(m["address"].as_str().unwrap_or("")).copied().unwrap_or(0);
        return out(json!({"power": p.to_string(), "height": m["height"].as_u64().unwrap_or(env.block.height)}));
    }
    if let Some(m) = msg.get("total_power_at_height") {
        return out(json!({"power": at(m["height"].as_u64())?.values().sum::<u128>().to_string(), "height": m["height"].as_u64().unwrap_or(env.block.height)}));
    }
    if msg.get("dao").is_some() {
        return out(json!(DAO.load(deps.storage)?));
    }
    if msg.get("info").is_some() {
        return out(json!({"info":{"contract":"electorate","version":"1.0.0"}}));
    }
    Err(StdError::generic_err("no such query"))
}
pub fn electorate_code() -> Box<dyn cw_mt::Contract<Empty>> {
    Box::new(cw_mt::ContractWrapper::new(execute, instantiate, query))
}
