//! Stand-in for the chain's staking and distribution modules, with the rules contracts meet on a
//! real chain: unbonding entries paid at the end of a block, no transitive, zero or self
//! redelegation, automatic reward withdrawal, and slashing of bonded tokens and of the unbonding
//! entries begun since the infraction.
use anyhow::{anyhow, bail, Result as AnyResult};
use cosmwasm_std::{
    coins, to_json_binary, Addr, Api, BankMsg, Binary, BlockInfo, CosmosMsg, CustomQuery, DistributionMsg, Empty, Querier, StakingMsg,
    StakingQuery, Storage,
};
use cw_multi_test::{AppResponse, BankSudo, CosmosRouter, Distribution, Module, Staking, StakingSudo, SudoMsg};
use schemars::JsonSchema;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;
use std::fmt::Debug;

pub const BOND: &str = "ubond";
pub const POOL: &str = "staking_module";
const KEY: &[u8] = b"\x01stk";

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Unbonding {
    pub del: String,
    pub val: String,
    pub amount: u128,
    pub start: u64,
    pub end: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct St {
    pub vals: Vec<String>,
    pub period: u64,
    pub bonded: BTreeMap<String, BTreeMap<String, u128>>,
    pub unbonding: Vec<Unbonding>,
    /// (delegator, destination, completion)
    pub redel: Vec<(String, String, u64)>,
    pub rewards: BTreeMap<String, BTreeMap<String, u128>>,
    pub withdraw: BTreeMap<String, String>,
}
pub fn load(s: &dyn Storage) -> St {
    s.get(KEY).map(|b| serde_json::from_slice(&b).unwrap()).unwrap_or_default()
}
pub fn save(s: &mut dyn Storage, st: &St) {
    s.set(KEY, &serde_json::to_vec(st).unwrap());
}
impl St {
    pub fn bond(&self, d: &str, v: &str) -> u128 {
        self.bonded.get(d).and_then(|m| m.get(v)).copied().unwrap_or(0)
    }
    fn add(&mut self, d: &str, v: &str, a: u128) {
        *self.bonded.entry(d.into()).or_default().entry(v.into()).or_insert(0) += a;
    }
    fn sub(&mut self, d: &str, v: &str, a: u128) -> AnyResult<()> {
        let have = self.bond(d, v);
        if a > have {
            bail!("{d} has {have} bonded with {v}, not {a}");
        }
        let m = self.bonded.get_mut(d).unwrap();
        if a == have {
            m.remove(v);
        } else {
            m.insert(v.into(), have - a);
        }
        Ok(())
    }
    fn receiving(&self, d: &str, v: &str, now: u64) -> bool {
        self.redel.iter().any(|(a, b, e)| a == d && b == v && *e > now)
    }
    fn take_rewards(&mut self, d: &str, v: &str) -> (String, u128) {
        let r = self.rewards.get_mut(d).and_then(|m| m.remove(v)).unwrap_or(0);
        (self.withdraw.get(d).cloned().unwrap_or_else(|| d.to_string()), r)
    }
}

pub struct StakeMod;
impl Staking for StakeMod {
    fn process_queue<ExecC, QueryC: CustomQuery>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
    ) -> AnyResult<AppResponse> {
        if storage.get(KEY).is_none() {
            return Ok(AppResponse::default());
        }
        let mut st = load(storage);
        let now = block.time.seconds();
        let (due, rest): (Vec<_>, Vec<_>) = st.unbonding.drain(..).partition(|u| u.end <= now);
        st.unbonding = rest;
        st.redel.retain(|(_, _, e)| *e > now);
        save(storage, &st);
        for u in due.into_iter().filter(|u| u.amount > 0) {
            router.execute(
                api,
                storage,
                block,
                Addr::unchecked(POOL),
                BankMsg::Send { to_address: u.del, amount: coins(u.amount, BOND) }.into(),
            )?;
        }
        Ok(AppResponse::default())
    }
}
impl Module for StakeMod {
    type ExecT = StakingMsg;
    type QueryT = StakingQuery;
    type SudoT = StakingSudo;
    fn execute<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        sender: Addr,
        msg: StakingMsg,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        let mut st = load(storage);
        let now = block.time.seconds();
        let d = sender.to_string();
        let known = |st: &St, v: &str| -> AnyResult<()> {
            if st.vals.iter().any(|x| x == v) {
                Ok(())
            } else {
                Err(anyhow!("validator {v} does not exist"))
            }
        };
        let coin = |c: &cosmwasm_std::Coin| -> AnyResult<u128> {
            if c.denom != BOND {
                bail!("only {BOND} can be staked");
            }
            if c.amount.is_zero() {
                bail!("invalid zero amount");
            }
            Ok(c.amount.u128())
        };
        let mut pay = vec![];
        match msg {
            StakingMsg::Delegate { validator, amount } => {
                known(&st, &validator)?;
                let a = coin(&amount)?;
                pay.push(st.take_rewards(&d, &validator));
                st.add(&d, &validator, a);
                save(storage, &st);
                router.execute(api, storage, block, sender, BankMsg::Send { to_address: POOL.into(), amount: coins(a, BOND) }.into())?;
            }
            StakingMsg::Undelegate { validator, amount } => {
                known(&st, &validator)?;
                let a = coin(&amount)?;
                pay.push(st.take_rewards(&d, &validator));
                st.sub(&d, &validator, a)?;
                let end = now + st.period;
                st.unbonding.push(Unbonding { del: d, val: validator, amount: a, start: now, end });
                save(storage, &st);
            }
            StakingMsg::Redelegate { src_validator, dst_validator, amount } => {
                known(&st, &src_validator)?;
                known(&st, &dst_validator)?;
                let a = coin(&amount)?;
                if src_validator == dst_validator {
                    bail!("cannot redelegate to the same validator");
                }
                if st.receiving(&d, &src_validator, now) {
                    bail!("redelegation to this validator already in progress");
                }
                pay.push(st.take_rewards(&d, &src_validator));
                pay.push(st.take_rewards(&d, &dst_validator));
                st.sub(&d, &src_validator, a)?;
                st.add(&d, &dst_validator, a);
                let end = now + st.period;
                st.redel.push((d, dst_validator, end));
                save(storage, &st);
            }
            m => bail!("unsupported staking message {m:?}"),
        }
        for (to, a) in pay.into_iter().filter(|(_, a)| *a > 0) {
            router.sudo(api, storage, block, SudoMsg::Bank(BankSudo::Mint { to_address: to, amount: coins(a, BOND) }))?;
        }
        Ok(AppResponse::default())
    }
    fn sudo<ExecC, QueryC>(
        &self,
        _: &dyn Api,
        _: &mut dyn Storage,
        _: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        _: &BlockInfo,
        _: StakingSudo,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        bail!("no staking sudo")
    }
    fn query(&self, _: &dyn Api, storage: &dyn Storage, _: &dyn Querier, block: &BlockInfo, r: StakingQuery) -> AnyResult<Binary> {
        let st = load(storage);
        let c = |a: u128| json!({"denom": BOND, "amount": a.to_string()});
        Ok(match r {
            StakingQuery::BondedDenom {} => to_json_binary(&json!({"denom": BOND}))?,
            StakingQuery::Delegation { delegator, validator } => {
                let b = st.bond(&delegator, &validator);
                let can = if st.receiving(&delegator, &validator, block.time.seconds()) { 0 } else { b };
                let full = json!({"delegator": delegator, "validator": validator, "amount": c(b), "can_redelegate": c(can), "accumulated_rewards": []});
                to_json_binary(&json!({"delegation": if b == 0 { serde_json::Value::Null } else { full }}))?
            }
            q => bail!("unsupported staking query {q:?}"),
        })
    }
}

pub struct DistrMod;
impl Distribution for DistrMod {}
impl Module for DistrMod {
    type ExecT = DistributionMsg;
    type QueryT = Empty;
    type SudoT = Empty;
    fn execute<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        sender: Addr,
        msg: DistributionMsg,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        let mut st = load(storage);
        match msg {
            DistributionMsg::SetWithdrawAddress { address } => {
                api.addr_validate(&address)?;
                st.withdraw.insert(sender.to_string(), address);
                save(storage, &st);
            }
            DistributionMsg::WithdrawDelegatorReward { validator } => {
                if st.bond(sender.as_str(), &validator) == 0 {
                    bail!("no delegation distribution info");
                }
                let (to, a) = st.take_rewards(sender.as_str(), &validator);
                save(storage, &st);
                if a > 0 {
                    router.sudo(api, storage, block, SudoMsg::Bank(BankSudo::Mint { to_address: to, amount: coins(a, BOND) }))?;
                }
            }
            m => bail!("unsupported distribution message {m:?}"),
        }
        Ok(AppResponse::default())
    }
    fn sudo<ExecC, QueryC>(
        &self,
        _: &dyn Api,
        _: &mut dyn Storage,
        _: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        _: &BlockInfo,
        _: Empty,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        bail!("no distribution sudo")
    }
    fn query(&self, _: &dyn Api, _: &dyn Storage, _: &dyn Querier, _: &BlockInfo, _: Empty) -> AnyResult<Binary> {
        bail!("no distribution query")
    }
}

impl crate::Sc {
    pub fn stk<T>(&mut self, f: impl FnOnce(&mut St) -> T) -> T {
        self.app.init_modules(|_, _, s| {
            let mut st = load(s);
            let r = f(&mut st);
            save(s, &st);
            r
        })
    }
    pub fn stk_init(&mut self, vals: &[&str], period: u64) {
        self.stk(|st| {
            st.vals = vals.iter().map(|s| s.to_string()).collect();
            st.period = period;
        });
    }
    /// rewards accrue to a delegator
    pub fn stk_reward(&mut self, d: &str, v: &str, a: u128) {
        self.stk(|st| *st.rewards.entry(d.into()).or_default().entry(v.into()).or_insert(0) += a);
        self.note(format!("-- {a} rewards for {d} at {v}"));
    }
    /// Slashes `num/den` of what is bonded with `val` and of the unbonding entries begun at or after
    /// `since`; returns what delegator `d` lost: bonded, and per unbonding entry (end, loss).
    pub fn stk_slash(&mut self, d: &str, val: &str, num: u128, den: u128, since: u64) -> (u128, Vec<(u64, u128)>) {
        let now = self.now();
        let (b, e, burn) = self.stk(|st| {
            let mut mine = 0;
            let mut burn = 0;
            for (who, m) in st.bonded.iter_mut() {
                if let Some(x) = m.get_mut(val) {
                    let loss = *x * num / den;
                    *x -= loss;
                    burn += loss;
                    if who == d {
                        mine = loss;
                    }
                }
                m.retain(|_, x| *x > 0);
            }
            let mut ents = vec![];
            for u in st.unbonding.iter_mut().filter(|u| u.val == val && u.start >= since && u.end > now) {
                let loss = u.amount * num / den;
                u.amount -= loss;
                burn += loss;
                if u.del == d && loss > 0 {
                    ents.push((u.end, loss));
                }
            }
            (mine, ents, burn)
        });
        if burn > 0 {
            let m: CosmosMsg = BankMsg::Burn { amount: coins(burn, BOND) }.into();
            self.app_execute_raw(POOL, m);
        }
        self.note(format!("-- slash of {num}/{den} at {val}, infraction at {since}: {d} loses {b} bonded and {e:?} unbonding"));
        (b, e)
    }
    fn app_execute_raw(&mut self, who: &str, m: CosmosMsg) {
        use cw_multi_test::Executor;
        self.app.execute(Addr::unchecked(who), m).expect("burn");
    }
}
