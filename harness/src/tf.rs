//! The chain under the contracts: cw-multi-test plus the two native modules the contracts talk
//! to over Stargate messages (Osmosis tokenfactory with before-send hooks, OmniFlix ONFT).
//! These are stand-ins for the chain, not code under test; they enforce what the real modules
//! enforce (denom admins, NFT ownership), so a contract that skips a check gains nothing.
use anyhow::{anyhow, bail, Result as AnyResult};
use cosmwasm_std::testing::{MockApi, MockStorage};
use cosmwasm_std::{coins, Addr, Api, BankMsg, BankQuery, Binary, BlockInfo, CosmosMsg, CustomQuery, Empty, Querier, Storage};
use cw_multi_test::{
    no_init, App, AppBuilder, AppResponse, Bank, BankKeeper, BankSudo, CosmosRouter, FailingModule, Module, Stargate, SudoMsg, WasmKeeper, WasmSudo,
};
use omniflix_std::types::omniflix::onft::v1beta1 as onft;
use osmosis_std::types::osmosis::tokenfactory::v1beta1 as tfm;
use prost::Message as _;
use prost11::Message as _;
use schemars::JsonSchema;
use serde::de::DeserializeOwned;
use serde_json::{json, Value};
use std::fmt::Debug;

pub type Chain = App<
    HookedBank,
    MockApi,
    MockStorage,
    FailingModule<Empty, Empty, Empty>,
    WasmKeeper<Empty, Empty>,
    crate::chainstake::StakeMod,
    crate::chainstake::DistrMod,
    FailingModule<cosmwasm_std::IbcMsg, cosmwasm_std::IbcQuery, Empty>,
    FailingModule<cosmwasm_std::GovMsg, Empty, Empty>,
    Keeper,
>;

pub fn new_chain() -> Chain {
    AppBuilder::default()
        .with_bank(HookedBank(BankKeeper::new()))
        .with_stargate(Keeper)
        .with_staking(crate::chainstake::StakeMod)
        .with_distribution(crate::chainstake::DistrMod)
        .build(no_init)
}

fn hook_key(denom: &str) -> Vec<u8> {
    format!("\u{1}tf/hook/{denom}").into_bytes()
}
fn admin_key(denom: &str) -> Vec<u8> {
    format!("\u{1}tf/admin/{denom}").into_bytes()
}
fn meta_key(denom: &str) -> Vec<u8> {
    format!("\u{1}tf/meta/{denom}").into_bytes()
}
fn onft_key(denom: &str) -> Vec<u8> {
    format!("\u{1}onft/{denom}").into_bytes()
}

pub struct HookedBank(pub BankKeeper);
impl Bank for HookedBank {}
impl Module for HookedBank {
    type ExecT = BankMsg;
    type QueryT = BankQuery;
    type SudoT = BankSudo;
    fn execute<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        sender: Addr,
        msg: BankMsg,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        if let BankMsg::Send { to_address, amount } = &msg {
            for c in amount {
                if let Some(h) = storage.get(&hook_key(&c.denom)) {
                    let h = Addr::unchecked(String::from_utf8(h)?);
                    let m = json!({"block_before_send": {"from": sender, "to": to_address, "amount": c}});
                    router.sudo(
                        api,
                        storage,
                        block,
                        SudoMsg::Wasm(WasmSudo { contract_addr: h, msg: Binary::from(serde_json::to_vec(&m)?) }),
                    )?;
                }
            }
        }
        self.0.execute(api, storage, router, block, sender, msg)
    }
    fn query(&self, api: &dyn Api, storage: &dyn Storage, q: &dyn Querier, block: &BlockInfo, r: BankQuery) -> AnyResult<Binary> {
        self.0.query(api, storage, q, block, r)
    }
    fn sudo<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        msg: BankSudo,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        self.0.sudo(api, storage, router, block, msg)
    }
}

/// The messages of BitSong's x/fantoken.
mod fan {
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct Coin {
        #[prost(string, tag = "1")]
        pub denom: String,
        #[prost(string, tag = "2")]
        pub amount: String,
    }
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct Issue {
        #[prost(string, tag = "1")]
        pub symbol: String,
        #[prost(string, tag = "2")]
        pub name: String,
        #[prost(string, tag = "3")]
        pub max_supply: String,
        #[prost(string, tag = "4")]
        pub authority: String,
        #[prost(string, tag = "5")]
        pub minter: String,
        #[prost(string, tag = "6")]
        pub uri: String,
    }
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct Issued {
        #[prost(string, tag = "1")]
        pub denom: String,
    }
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct Mint {
        #[prost(string, tag = "1")]
        pub recipient: String,
        #[prost(message, optional, tag = "2")]
        pub coin: Option<Coin>,
        #[prost(string, tag = "3")]
        pub minter: String,
    }
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct Change {
        #[prost(string, tag = "1")]
        pub denom: String,
        #[prost(string, tag = "2")]
        pub old: String,
        #[prost(string, tag = "3")]
        pub new: String,
    }
}
fn ft_key(denom: &str) -> Vec<u8> {
    format!("\u{1}ft/{denom}").into_bytes()
}
fn load_ft(storage: &dyn Storage, denom: &str) -> AnyResult<Value> {
    let b = storage.get(&ft_key(denom)).ok_or_else(|| anyhow!("no fantoken {denom}"))?;
    Ok(serde_json::from_slice(&b)?)
}
fn load_onft(storage: &dyn Storage, denom: &str) -> AnyResult<Value> {
    let b = storage.get(&onft_key(denom)).ok_or_else(|| anyhow!("no onft denom {denom}"))?;
    Ok(serde_json::from_slice(&b)?)
}
fn save_onft(storage: &mut dyn Storage, denom: &str, v: &Value) {
    storage.set(&onft_key(denom), &serde_json::to_vec(v).unwrap());
}
fn check_admin(storage: &dyn Storage, denom: &str, sender: &Addr, claimed: &str) -> AnyResult<()> {
    if sender.as_str() != claimed {
        bail!("signer {sender} is not the message sender {claimed}");
    }
    match storage.get(&admin_key(denom)) {
        Some(a) if a == sender.as_bytes() => Ok(()),
        Some(_) => bail!("{sender} is not the admin of {denom}"),
        None => bail!("denom {denom} does not exist"),
    }
}

pub struct Keeper;
impl Stargate for Keeper {
    fn execute<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        sender: Addr,
        type_url: String,
        value: Binary,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        let amt = |c: &Option<osmosis_std::types::cosmos::base::v1beta1::Coin>| -> AnyResult<(u128, String)> {
            let c = c.as_ref().ok_or_else(|| anyhow!("no coin"))?;
            let a: u128 = c.amount.parse()?;
            if a == 0 {
                bail!("invalid zero amount");
            }
            Ok((a, c.denom.clone()))
        };
        match type_url.as_str() {
            "/osmosis.tokenfactory.v1beta1.MsgCreateDenom" => {
                let m = tfm::MsgCreateDenom::decode(value.as_slice())?;
                if m.sender != sender.as_str() {
                    bail!("signer mismatch");
                }
                if m.subdenom.len() > 44 {
                    bail!("subdenom too long");
                }
                let denom = format!("factory/{}/{}", m.sender, m.subdenom);
                if storage.get(&admin_key(&denom)).is_some() {
                    bail!("denom {denom} exists");
                }
                storage.set(&admin_key(&denom), sender.as_bytes());
                let r = tfm::MsgCreateDenomResponse { new_token_denom: denom };
                Ok(AppResponse { events: vec![], data: Some(Binary::from(r.encode_to_vec())) })
            }
            "/osmosis.tokenfactory.v1beta1.MsgMint" => {
                let m = tfm::MsgMint::decode(value.as_slice())?;
                let (a, d) = amt(&m.amount)?;
                check_admin(storage, &d, &sender, &m.sender)?;
                let to = if m.mint_to_address.is_empty() { m.sender } else { m.mint_to_address };
                router.sudo(api, storage, block, SudoMsg::Bank(BankSudo::Mint { to_address: to, amount: coins(a, d) }))
            }
            "/osmosis.tokenfactory.v1beta1.MsgBurn" => {
                let m = tfm::MsgBurn::decode(value.as_slice())?;
                let (a, d) = amt(&m.amount)?;
                check_admin(storage, &d, &sender, &m.sender)?;
                let from = if m.burn_from_address.is_empty() { m.sender } else { m.burn_from_address };
                router.execute(api, storage, block, Addr::unchecked(from), CosmosMsg::Bank(BankMsg::Burn { amount: coins(a, d) }))
            }
            "/osmosis.tokenfactory.v1beta1.MsgChangeAdmin" => {
                let m = tfm::MsgChangeAdmin::decode(value.as_slice())?;
                check_admin(storage, &m.denom, &sender, &m.sender)?;
                storage.set(&admin_key(&m.denom), m.new_admin.as_bytes());
                Ok(AppResponse::default())
            }
            "/osmosis.tokenfactory.v1beta1.MsgSetDenomMetadata" => {
                let m = tfm::MsgSetDenomMetadata::decode(value.as_slice())?;
                let md = m.metadata.ok_or_else(|| anyhow!("no metadata"))?;
                check_admin(storage, &md.base, &sender, &m.sender)?;
                let v = json!({"description": md.description, "display": md.display, "name": md.name, "symbol": md.symbol,
                    "units": md.denom_units.iter().map(|u| json!([u.denom, u.exponent, u.aliases])).collect::<Vec<_>>()});
                storage.set(&meta_key(&md.base), &serde_json::to_vec(&v)?);
                Ok(AppResponse::default())
            }
            "/osmosis.tokenfactory.v1beta1.MsgForceTransfer" => {
                let m = tfm::MsgForceTransfer::decode(value.as_slice())?;
                let (a, d) = amt(&m.amount)?;
                check_admin(storage, &d, &sender, &m.sender)?;
                router.execute(
                    api,
                    storage,
                    block,
                    Addr::unchecked(m.transfer_from_address),
                    CosmosMsg::Bank(BankMsg::Send { to_address: m.transfer_to_address, amount: coins(a, d) }),
                )
            }
            "/osmosis.tokenfactory.v1beta1.MsgSetBeforeSendHook" => {
                let m = tfm::MsgSetBeforeSendHook::decode(value.as_slice())?;
                check_admin(storage, &m.denom, &sender, &m.sender)?;
                if m.cosmwasm_address.is_empty() {
                    storage.remove(&hook_key(&m.denom));
                } else {
                    storage.set(&hook_key(&m.denom), m.cosmwasm_address.as_bytes());
                }
                Ok(AppResponse::default())
            }
            "/OmniFlix.onft.v1beta1.MsgCreateDenom" => {
                let m = onft::MsgCreateDenom::decode(value.as_slice())?;
                if storage.get(&onft_key(&m.id)).is_some() {
                    bail!("onft denom exists");
                }
                save_onft(storage, &m.id, &json!({"creator": sender, "onfts": {}}));
                Ok(AppResponse::default())
            }
            "/OmniFlix.onft.v1beta1.MsgMintONFT" => {
                let m = onft::MsgMintOnft::decode(value.as_slice())?;
                let mut v = load_onft(storage, &m.denom_id)?;
                if v["creator"] != json!(sender) {
                    bail!("only the creator mints");
                }
                if v["onfts"].get(&m.id).is_some() {
                    bail!("onft exists");
                }
                v["onfts"][&m.id] = json!(m.recipient);
                save_onft(storage, &m.denom_id, &v);
                Ok(AppResponse::default())
            }
            "/OmniFlix.onft.v1beta1.MsgTransferONFT" => {
                let m = onft::MsgTransferOnft::decode(value.as_slice())?;
                let mut v = load_onft(storage, &m.denom_id)?;
                if m.sender != sender.as_str() {
                    bail!("signer mismatch");
                }
                if v["onfts"][&m.id] != json!(sender) {
                    bail!("{sender} does not own onft {}", m.id);
                }
                v["onfts"][&m.id] = json!(m.recipient);
                save_onft(storage, &m.denom_id, &v);
                Ok(AppResponse::default())
            }
            "/bitsong.fantoken.MsgIssue" => {
                let m = fan::Issue::decode(value.as_slice())?;
                if m.authority != sender.as_str() {
                    bail!("signer mismatch");
                }
                if m.symbol.is_empty() || m.name.is_empty() {
                    bail!("a fantoken needs a symbol and a name");
                }
                let max: u128 = m.max_supply.parse()?;
                let n: u64 = storage.get(b"\x01ft#").map(|b| String::from_utf8(b).unwrap().parse().unwrap()).unwrap_or(0);
                storage.set(b"\x01ft#", (n + 1).to_string().as_bytes());
                let denom = format!("ft{n}x");
                let v = json!({"symbol": m.symbol, "name": m.name, "max": max.to_string(), "authority": m.authority, "minter": m.minter, "uri": m.uri, "supply": "0"});
                storage.set(&ft_key(&denom), &serde_json::to_vec(&v)?);
                Ok(AppResponse { events: vec![], data: Some(Binary::from(fan::Issued { denom }.encode_to_vec())) })
            }
            "/bitsong.fantoken.MsgMint" => {
                let m = fan::Mint::decode(value.as_slice())?;
                let c = m.coin.ok_or_else(|| anyhow!("no coin"))?;
                let mut v = load_ft(storage, &c.denom)?;
                if m.minter != sender.as_str() || v["minter"] != json!(m.minter) {
                    bail!("{sender} is not the minter");
                }
                let a: u128 = c.amount.parse()?;
                if a == 0 {
                    bail!("invalid zero amount");
                }
                let sup = crate::u(&v["supply"]).checked_add(a).ok_or_else(|| anyhow!("overflow"))?;
                if sup > crate::u(&v["max"]) {
                    bail!("above the maximum supply");
                }
                v["supply"] = json!(sup.to_string());
                storage.set(&ft_key(&c.denom), &serde_json::to_vec(&v)?);
                let to = if m.recipient.is_empty() { m.minter } else { m.recipient };
                router.sudo(api, storage, block, SudoMsg::Bank(BankSudo::Mint { to_address: to, amount: coins(a, c.denom) }))
            }
            "/bitsong.fantoken.MsgSetMinter" | "/bitsong.fantoken.MsgSetAuthority" => {
                let m = fan::Change::decode(value.as_slice())?;
                let role = if type_url.ends_with("Minter") { "minter" } else { "authority" };
                let mut v = load_ft(storage, &m.denom)?;
                if m.old != sender.as_str() || v[role] != json!(m.old) {
                    bail!("{sender} is not the {role}");
                }
                v[role] = json!(m.new);
                storage.set(&ft_key(&m.denom), &serde_json::to_vec(&v)?);
                Ok(AppResponse::default())
            }
            other => bail!("unknown stargate message {other}"),
        }
    }
    fn query(&self, _: &dyn Api, storage: &dyn Storage, _: &dyn Querier, _: &BlockInfo, path: String, data: Binary) -> AnyResult<Binary> {
        match path.as_str() {
            "/OmniFlix.onft.v1beta1.Query/ONFT" => {
                let r = onft::QueryOnftRequest::decode(data.as_slice())?;
                let v = load_onft(storage, &r.denom_id)?;
                let onft = v["onfts"].get(&r.id).map(|o| onft::Onft {
                    id: r.id.clone(),
                    metadata: None,
                    data: String::new(),
                    owner: o.as_str().unwrap().to_string(),
                    transferable: true,
                    extensible: false,
                    created_at: None,
                    nsfw: false,
                    royalty_share: "0".into(),
                });
                Ok(cosmwasm_std::to_json_binary(&onft::QueryOnftResponse { onft })?)
            }
            "/OmniFlix.onft.v1beta1.Query/Supply" => {
                let r = onft::QuerySupplyRequest::decode(data.as_slice())?;
                let v = load_onft(storage, &r.denom_id)?;
                Ok(cosmwasm_std::to_json_binary(&onft::QuerySupplyResponse {
                    amount: v["onfts"].as_object().unwrap().len() as u64,
                })?)
            }
            // test-only windows into the native modules
            "/vmon/tf" => {
                let d = String::from_utf8(data.to_vec())?;
                let g = |k: Vec<u8>| storage.get(&k).map(|b| String::from_utf8(b).unwrap());
                let meta: Value = storage.get(&meta_key(&d)).map(|b| serde_json::from_slice(&b).unwrap()).unwrap_or(Value::Null);
                Ok(Binary::from(serde_json::to_vec(
                    &json!({"admin": g(admin_key(&d)), "hook": g(hook_key(&d)), "meta": meta}),
                )?))
            }
            "/vmon/ft" => Ok(Binary::from(serde_json::to_vec(&load_ft(storage, &String::from_utf8(data.to_vec())?).unwrap_or(Value::Null))?)),
            "/vmon/onft" => Ok(Binary::from(serde_json::to_vec(&load_onft(storage, &String::from_utf8(data.to_vec())?)?)?)),
            other => bail!("unknown stargate query {other}"),
        }
    }
}

impl crate::Sc {
    fn stargate(&self, path: &str, data: &str) -> Value {
        use cosmwasm_std::{ContractResult, QueryRequest, SystemResult};
        let req = QueryRequest::<Empty>::Stargate { path: path.into(), data: Binary::from(data.as_bytes()) };
        match self.app.raw_query(&serde_json::to_vec(&req).unwrap()) {
            SystemResult::Ok(ContractResult::Ok(b)) => serde_json::from_slice(&b).unwrap(),
            e => panic!("chain query {path}: {e:?}"),
        }
    }
    pub fn tf_state(&self, denom: &str) -> Value {
        self.stargate("/vmon/tf", denom)
    }
    /// what the chain records of a fantoken (null if there is none)
    pub fn ft_state(&self, denom: &str) -> Value {
        self.stargate("/vmon/ft", denom)
    }
    pub fn onft_owner(&self, denom: &str, id: &str) -> Option<String> {
        self.stargate("/vmon/onft", denom)["onfts"].get(id).map(|o| o.as_str().unwrap().to_string())
    }
    pub fn onft_count(&self, denom: &str) -> usize {
        self.stargate("/vmon/onft", denom)["onfts"].as_object().unwrap().len()
    }
    pub fn onft_create(&mut self, who: &str, denom: &str) {
        let m = onft::MsgCreateDenom {
            id: denom.into(),
            symbol: denom.into(),
            name: denom.into(),
            description: String::new(),
            preview_uri: String::new(),
            schema: String::new(),
            sender: who.into(),
            creation_fee: None,
            uri: String::new(),
            uri_hash: String::new(),
            data: String::new(),
            royalty_receivers: vec![],
        };
        self.cosmos(who, CosmosMsg::Stargate { type_url: "/OmniFlix.onft.v1beta1.MsgCreateDenom".into(), value: m.encode_to_vec().into() })
            .expect("onft denom");
    }
    pub fn onft_mint(&mut self, who: &str, denom: &str, id: &str, to: &str) {
        let m = onft::MsgMintOnft {
            id: id.into(),
            denom_id: denom.into(),
            metadata: None,
            data: String::new(),
            transferable: true,
            extensible: false,
            nsfw: false,
            royalty_share: "0".into(),
            sender: who.into(),
            recipient: to.into(),
        };
        self.cosmos(who, CosmosMsg::Stargate { type_url: "/OmniFlix.onft.v1beta1.MsgMintONFT".into(), value: m.encode_to_vec().into() })
            .expect("onft mint");
    }
    pub fn onft_send(&mut self, who: &str, denom: &str, id: &str, to: &str) -> Result<(), String> {
        let m = onft::MsgTransferOnft { id: id.into(), denom_id: denom.into(), sender: who.into(), recipient: to.into() };
        self.cosmos(who, CosmosMsg::Stargate { type_url: "/OmniFlix.onft.v1beta1.MsgTransferONFT".into(), value: m.encode_to_vec().into() })
            .map(|_| ())
    }
}

pub fn issuer_code() -> Box<dyn cw_multi_test::Contract<cosmwasm_std::Empty>> {
    Box::new(
        cw_multi_test::ContractWrapper::new(
            cw_tokenfactory_issuer::contract::execute,
            cw_tokenfactory_issuer::contract::instantiate,
            cw_tokenfactory_issuer::contract::query,
        )
        .with_reply(cw_tokenfactory_issuer::contract::reply)
        .with_migrate(cw_tokenfactory_issuer::contract::migrate)
        .with_sudo(cw_tokenfactory_issuer::contract::sudo),
    )
}
