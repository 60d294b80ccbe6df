//! A contract with no behaviour of its own: it records what it is sent, can be told to refuse,
//! and answers voting-module queries. Any address can be impersonated as a sender in
//! cw-multi-test, so this is only needed where a contract must exist behind the address.
use crate::*;
use cosmwasm_std::{to_json_binary, Binary, CosmosMsg, Deps, DepsMut, Empty, Env, MessageInfo, Reply, Response, StdError, StdResult, SubMsg};
use cw_storage_plus::Item;

const MODE: Item<String> = Item::new("mode");
const LOG: Item<Vec<(String, Binary)>> = Item::new("log");

fn instantiate(deps: DepsMut, _: Env, _: MessageInfo, msg: serde_json::Value) -> StdResult<Response> {
    if msg["fail"] == json!(true) {
        return Err(StdError::generic_err("puppet told to fail"));
    }
    MODE.save(deps.storage, &"ok".to_string())?;
    LOG.save(deps.storage, &vec![])?;
    let mut r = Response::new();
    for (list, always) in [("msgs", false), ("try", true)] {
        for m in msg[list].as_array().into_iter().flatten() {
            let m: CosmosMsg = serde_json::from_value(m.clone()).map_err(|e| StdError::generic_err(e.to_string()))?;
            r = r.add_submessage(if always { SubMsg::reply_always(m, 1) } else { SubMsg::new(m) });
        }
    }
    if let Some(d) = msg["data"].as_str() {
        r = r.set_data(Binary::from_base64(d)?);
    }
    Ok(r)
}
fn execute(deps: DepsMut, _: Env, info: MessageInfo, msg: serde_json::Value) -> StdResult<Response> {
    if let Some(m) = msg["set_mode"].as_str() {
        MODE.save(deps.storage, &m.to_string())?;
        return Ok(Response::new());
    }
    if msg.get("clear_log").is_some() {
        LOG.save(deps.storage, &vec![])?;
        return Ok(Response::new());
    }
    if let Some(m) = msg.get("relay") {
        let msgs: Vec<CosmosMsg> = serde_json::from_value(m["msgs"].clone()).map_err(|e| StdError::generic_err(e.to_string()))?;
        return Ok(Response::new().add_messages(msgs));
    }
    if let Some(m) = msg.get("answer") {
        let r = Response::new();
        return Ok(match m["data"].as_str() {
            Some(d) => r.set_data(Binary::from_base64(d)?),
            None => r,
        });
    }
    if MODE.load(deps.storage)? == "fail" {
        return Err(StdError::generic_err("puppet told to fail"));
    }
    let mut l = LOG.load(deps.storage)?;
    l.push((info.sender.to_string(), Binary::from(serde_json::to_vec(&msg).unwrap())));
    LOG.save(deps.storage, &l)?;
    Ok(Response::new())
}
fn reply(_: DepsMut, _: Env, _: Reply) -> StdResult<Response> {
    Ok(Response::new())
}
fn migrate(_: DepsMut, _: Env, _: serde_json::Value) -> StdResult<Response> {
    Ok(Response::new())
}
fn query(deps: Deps, env: Env, msg: serde_json::Value) -> StdResult<Binary> {
    if msg.get("log").is_some() {
        let l: Vec<serde_json::Value> = LOG
            .load(deps.storage)?
            .into_iter()
            .map(|(s, b)| json!([s, serde_json::from_slice::<serde_json::Value>(&b).unwrap()]))
            .collect();
        return Ok(Binary::from(serde_json::to_vec(&l).unwrap()));
    }
    if let Some(m) = msg.get("voting_power_at_height") {
        let h = m["height"].as_u64().unwrap_or(env.block.height);
        let a = m["address"].as_str().unwrap_or("").len() as u64;
        return Ok(Binary::from(serde_json::to_vec(&json!({"power": (a * 1000 + h % 997 + salt(env.contract.address.as_str())).to_string(), "height": h})).unwrap()));
    }
    if msg.get("dao").is_some() {
        return to_json_binary(&env.contract.address);
    }
    if let Some(m) = msg.get("total_power_at_height") {
        let h = m["height"].as_u64().unwrap_or(env.block.height);
        return Ok(Binary::from(serde_json::to_vec(&json!({"power": (77_000 + h % 997 + salt(env.contract.address.as_str())).to_string(), "height": h})).unwrap()));
    }
    to_json_binary(&Empty {})
}

/// what tells the answers of one puppet from another's
pub fn salt(addr: &str) -> u64 {
    addr.bytes().filter(|b| b.is_ascii_digit()).fold(0, |a, b| a * 10 + (b - b'0') as u64) * 1_000_000
}

pub fn puppet_code() -> Box<dyn cw_mt::Contract<Empty>> {
    Box::new(cw_mt::ContractWrapper::new(execute, instantiate, query).with_reply(reply).with_migrate(migrate))
}

impl Sc {
    /// what the puppet recorded since the last clear, as (sender, message)
    pub fn puppet_log(&self, addr: &str) -> Vec<(String, Value)> {
        self.q(addr, &json!({"log":{}}))
            .expect("puppet log")
            .as_array()
            .unwrap()
            .iter()
            .map(|x| (s(&x[0]), x[1].clone()))
            .collect()
    }
}

/// Walks a paginated listing with random page sizes and compares it with the expected list.
pub fn pages(
    sc: &mut Sc,
    tags: &[&str],
    contract: &str,
    query: &str,
    args: Value,
    expect: &[Value],
    unlimited: bool,
    key: &dyn Fn(&Value) -> Value,
    get: &dyn Fn(&Value) -> Value,
) -> R {
    let mk = |start: Option<Value>, limit: Option<u64>| {
        let mut a = args.clone();
        a["start_after"] = start.unwrap_or(Value::Null);
        a["limit"] = limit.map(|l| json!(l)).unwrap_or(Value::Null);
        json!({ query: a })
    };
    let cmp = |got: &[Value], want: &[Value], how: &str| -> R {
        ensure!(got == want, tags, &format!("list:{query}"), "{query} ({how}) of {contract}: expected {want:?}, got {got:?}");
        Ok(())
    };
    if unlimited {
        let r = sc.qm(tags, contract, &mk(None, None))?;
        cmp(get(&r).as_array().unwrap(), expect, "no limit")?;
    }
    let page = sc.r(1, 4);
    let mut got: Vec<Value> = vec![];
    let mut start = None;
    loop {
        let r = sc.qm(tags, contract, &mk(start.clone(), Some(page)))?;
        let part = get(&r).as_array().unwrap().clone();
        ensure!(part.len() as u64 <= page, tags, &format!("list:{query}"), "{query} of {contract}: page of {} exceeds limit {page}", part.len());
        if part.is_empty() || got.len() > expect.len() + 8 {
            break;
        }
        start = Some(key(part.last().unwrap()));
        let short = (part.len() as u64) < page;
        got.extend(part);
        if short {
            // a short page means the listing ended
            break;
        }
    }
    cmp(&got, expect, &format!("pages of {page}"))?;
    // a listing can be entered anywhere, also at a key that is not (or no longer) in it
    let keys: Vec<String> = expect.iter().filter_map(|e| key(e).as_str().map(|x| x.to_string())).collect();
    if keys.len() == expect.len() && keys.len() > 1 {
        let up = keys.windows(2).all(|w| w[0] < w[1]);
        let down = keys.windows(2).all(|w| w[0] > w[1]);
        let k = sc.pick(&keys);
        let from = match sc.r(0, 4) {
            0 => k.clone(),
            1 => format!("{k}0"),
            2 => format!("{k}z"),
            3 => sc.pick(&["aaa", "bbb", "carl", "contract1", "dada", "mmm", "zzz"]).to_string(),
            _ if k.chars().count() > 3 => k.chars().take(k.chars().count() - 1).collect(),
            _ => k.clone(),
        };
        if up || down {
            let want: Vec<Value> = expect.iter().zip(&keys).filter(|(_, k)| if up { **k > from } else { **k < from }).take(page as usize).map(|x| x.0.clone()).collect();
            let r = sc.qm(tags, contract, &mk(Some(json!(from)), Some(page)))?;
            cmp(get(&r).as_array().unwrap(), &want, &format!("{page} from {from}"))?;
            sc.tick(if keys.contains(&from) { "mon.page-from-key" } else { "mon.page-from-no-key" });
        }
    }
    sc.checked(2);
    Ok(())
}
