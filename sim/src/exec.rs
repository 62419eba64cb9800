//! Runs the real contracts: storage, querier and gas metering around their entry points.

use std::collections::BTreeMap;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::Arc;

use cosmos_sdk_proto::ibc::core::channel::v1::{MsgChannelCloseInit, MsgChannelOpenInit};
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{
    from_json, instantiate2_address, to_json_binary, Addr, Api, Binary, Checksum, CodeInfoResponse, Coin,
    ContractInfoResponse, ContractResult, CosmosMsg, Deps, DepsMut, Empty, Env, Event,
    IbcBasicResponse, IbcChannel, IbcChannelCloseMsg, IbcChannelConnectMsg, IbcChannelOpenMsg, IbcOrder,
    IbcPacket, IbcPacketAckMsg, IbcPacketReceiveMsg, IbcPacketTimeoutMsg, MessageInfo, Order,
    Querier, QuerierResult, QuerierWrapper, QueryRequest, Record, Reply, Response, Storage, SubMsg,
    SystemError, SystemResult, WasmQuery,
};
use cw_ica_controller::helpers::{CwIcaControllerCode, CwIcaControllerContract};
use cw_ica_controller::types::msg as cmsg;
use prost::Message;
use serde_json::Value;

use crate::world::{Contract, Kind, Map, OpenInitReq, Origin};

pub struct SimStorage {
    pub map: Arc<Map>,
    ops: std::cell::Cell<u32>,
    limit: Option<u32>,
}

struct OutOfGas;

impl SimStorage {
    pub fn new(map: Arc<Map>, limit: Option<u32>) -> Self {
        Self { map, ops: std::cell::Cell::new(0), limit }
    }
    fn tick(&self) {
        let n = self.ops.get() + 1;
        self.ops.set(n);
        if self.limit.is_some_and(|l| n > l) {
            panic_any(OutOfGas);
        }
    }
}

impl Storage for SimStorage {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.tick();
        self.map.get(key).cloned()
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        self.tick();
        assert!(!value.is_empty(), "empty values are not supported by the store");
        Arc::make_mut(&mut self.map).insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        self.tick();
        Arc::make_mut(&mut self.map).remove(key);
    }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        self.tick();
        let mut v: Vec<Record> = self
            .map
            .iter()
            .filter(|(k, _)| start.map_or(true, |s| k.as_slice() >= s) && end.map_or(true, |e| k.as_slice() < e))
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect();
        if order == Order::Descending {
            v.reverse();
        }
        Box::new(v.into_iter())
    }
}

pub struct SimQuerier<'a> {
    pub api: &'a MockApi,
    pub env: &'a Env,
    pub contracts: &'a Arc<BTreeMap<String, Contract>>,
    pub code_id: u64,
}

impl Querier for SimQuerier<'_> {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<Empty> = match from_json(bin) {
            Ok(r) => r,
            Err(e) => return SystemResult::Err(SystemError::InvalidRequest { error: e.to_string(), request: bin.into() }),
        };
        match req {
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => match self.contracts.get(&contract_addr).map(|c| c.kind) {
                Some(Kind::Ctl) => SystemResult::Ok(match raw_query(self.api, self.env, self.contracts, self.code_id, &contract_addr, &msg) {
                    Ok(b) => ContractResult::Ok(b),
                    Err(e) => ContractResult::Err(e),
                }),
                _ => SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr }),
            },
            QueryRequest::Wasm(WasmQuery::ContractInfo { contract_addr }) => match self.contracts.get(&contract_addr) {
                Some(c) => SystemResult::Ok(ContractResult::Ok(
                    to_json_binary(&ContractInfoResponse::new(
                        c.code_id,
                        Addr::unchecked(&c.creator),
                        c.admin.clone().map(Addr::unchecked),
                        false,
                        Some(format!("wasm.{contract_addr}")),
                    ))
                    .unwrap(),
                )),
                None => SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr }),
            },
            QueryRequest::Wasm(WasmQuery::CodeInfo { code_id }) => {
                if code_id == self.code_id || code_id == self.code_id + 1 {
                    let r = CodeInfoResponse::new(code_id, self.api.addr_make("uploader"), checksum(code_id));
                    SystemResult::Ok(ContractResult::Ok(to_json_binary(&r).unwrap()))
                } else {
                    SystemResult::Err(SystemError::NoSuchCode { code_id })
                }
            }
            other => SystemResult::Err(SystemError::UnsupportedRequest { kind: format!("{other:?}") }),
        }
    }
}

pub fn checksum(code_id: u64) -> Checksum {
    Checksum::generate(&code_id.to_be_bytes())
}

#[derive(Clone, Debug)]
pub enum Entry {
    Instantiate { sender: String, msg: Vec<u8>, funds: Vec<Coin> },
    Execute { sender: String, msg: Vec<u8>, funds: Vec<Coin> },
    Reply(Reply),
    Migrate { msg: Vec<u8> },
    OpenInit { channel: IbcChannel, origin: Origin },
    OpenTry { channel: IbcChannel },
    OpenAck { channel: IbcChannel, version: String },
    OpenConfirm { channel: IbcChannel },
    CloseInit { channel: IbcChannel, origin: Origin },
    CloseConfirm { channel: IbcChannel },
    Ack(IbcPacketAckMsg),
    Timeout(IbcPacketTimeoutMsg),
    Receive { packet: IbcPacket, rly: String },
}

impl Entry {
    pub fn name(&self) -> String {
        match self {
            Self::Instantiate { .. } => "instantiate".into(),
            Self::Execute { msg, .. } => {
                let k = serde_json::from_slice::<crate::step::XMsg>(msg).map_or("unknown", |m| m.kind());
                format!("execute:{k}")
            }
            Self::Reply(_) => "reply".into(),
            Self::Migrate { .. } => "migrate".into(),
            Self::OpenInit { .. } => "channel_open_init".into(),
            Self::OpenTry { .. } => "channel_open_try".into(),
            Self::OpenAck { .. } => "channel_open_ack".into(),
            Self::OpenConfirm { .. } => "channel_open_confirm".into(),
            Self::CloseInit { .. } => "channel_close_init".into(),
            Self::CloseConfirm { .. } => "channel_close_confirm".into(),
            Self::Ack(_) => "packet_ack".into(),
            Self::Timeout(_) => "packet_timeout".into(),
            Self::Receive { .. } => "packet_receive".into(),
        }
    }
}

#[derive(Debug)]
pub struct Resp {
    pub msgs: Vec<SubMsg>,
    pub events: Vec<Event>,
    pub open_version: Option<String>,
}

#[derive(Debug)]
pub enum HErr {
    Fail(String),
    Oog,
}

impl From<Response> for Resp {
    fn from(r: Response) -> Self {
        let mut events = r.events;
        if !r.attributes.is_empty() {
            let mut e = Event::new("wasm");
            e.attributes = r.attributes;
            events.push(e);
        }
        Self { msgs: r.messages, events, open_version: None }
    }
}
impl From<IbcBasicResponse> for Resp {
    fn from(r: IbcBasicResponse) -> Self {
        let mut events = r.events;
        if !r.attributes.is_empty() {
            let mut e = Event::new("wasm");
            e.attributes = r.attributes;
            events.push(e);
        }
        Self { msgs: r.messages, events, open_version: None }
    }
}

fn parse<T: serde::de::DeserializeOwned>(b: &[u8]) -> Result<T, String> {
    from_json(b).map_err(|e| format!("parse: {e}"))
}

fn run_entry(deps: DepsMut, env: Env, entry: &Entry) -> Result<Resp, String> {
    use cw_ica_controller::{contract, ibc::handshake, ibc::relay};
    let s = |e: cw_ica_controller::types::ContractError| e.to_string();
    let info = |a: &String, f: &Vec<Coin>| MessageInfo { sender: Addr::unchecked(a), funds: f.clone() };
    match entry {
        Entry::Instantiate { sender, msg, funds } => contract::instantiate(deps, env, info(sender, funds), parse(msg)?).map(Resp::from).map_err(s),
        Entry::Execute { sender, msg, funds } => contract::execute(deps, env, info(sender, funds), parse(msg)?).map(Resp::from).map_err(s),
        Entry::Reply(r) => contract::reply(deps, env, r.clone()).map(Resp::from).map_err(s),
        Entry::Migrate { msg } => contract::migrate(deps, env, parse(msg)?).map(Resp::from).map_err(s),
        Entry::OpenInit { channel, .. } => handshake::ibc_channel_open(deps, env, IbcChannelOpenMsg::new_init(channel.clone()))
            .map(|r| Resp { msgs: vec![], events: vec![], open_version: r.map(|r| r.version) })
            .map_err(s),
        Entry::OpenTry { channel } => handshake::ibc_channel_open(deps, env, IbcChannelOpenMsg::new_try(channel.clone(), ""))
            .map(|r| Resp { msgs: vec![], events: vec![], open_version: r.map(|r| r.version) })
            .map_err(s),
        Entry::OpenAck { channel, version } => {
            handshake::ibc_channel_connect(deps, env, IbcChannelConnectMsg::new_ack(channel.clone(), version.clone())).map(Resp::from).map_err(s)
        }
        Entry::OpenConfirm { channel } => {
            handshake::ibc_channel_connect(deps, env, IbcChannelConnectMsg::new_confirm(channel.clone())).map(Resp::from).map_err(s)
        }
        Entry::CloseInit { channel, .. } => {
            handshake::ibc_channel_close(deps, env, IbcChannelCloseMsg::new_init(channel.clone())).map(Resp::from).map_err(s)
        }
        Entry::CloseConfirm { channel } => {
            handshake::ibc_channel_close(deps, env, IbcChannelCloseMsg::new_confirm(channel.clone())).map(Resp::from).map_err(s)
        }
        Entry::Ack(a) => relay::ibc_packet_ack(deps, env, a.clone()).map(Resp::from).map_err(s),
        Entry::Timeout(t) => relay::ibc_packet_timeout(deps, env, t.clone()).map(Resp::from).map_err(s),
        Entry::Receive { packet, rly } => {
            match relay::ibc_packet_receive(deps, env, IbcPacketReceiveMsg::new(packet.clone(), Addr::unchecked(rly))) {
                Ok(r) => Ok(Resp { msgs: r.messages, events: r.events, open_version: None }),
                Err(_) => Err("refused".into()),
            }
        }
    }
}

/// One call of a controller entry point on a copy of its storage.
pub fn call(
    api: &MockApi,
    env: &Env,
    contracts: &Arc<BTreeMap<String, Contract>>,
    code_id: u64,
    store: Arc<Map>,
    entry: &Entry,
    limit: Option<u32>,
) -> (Result<Resp, HErr>, Arc<Map>, u32) {
    let mut st = SimStorage::new(store, limit);
    let querier = SimQuerier { api, env, contracts, code_id };
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _os = crate::seam::enter();
        let deps = DepsMut { storage: &mut st, api, querier: QuerierWrapper::new(&querier) };
        run_entry(deps, env.clone(), entry)
    }));
    let r = match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(HErr::Fail(e)),
        Err(p) if p.is::<OutOfGas>() => Err(HErr::Oog),
        Err(p) => Err(HErr::Fail(format!("panic: {}", panic_text(&p)))),
    };
    let ops = st.ops.get();
    (r, st.map, ops)
}

fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string())).unwrap_or_default()
}

fn raw_query(api: &MockApi, env: &Env, contracts: &Arc<BTreeMap<String, Contract>>, code_id: u64, ctl: &str, msg: &[u8]) -> Result<Binary, String> {
    let c = contracts.get(ctl).ok_or("no such contract")?;
    let st = SimStorage::new(c.store.clone(), None);
    let querier = SimQuerier { api, env, contracts, code_id };
    let r = catch_unwind(AssertUnwindSafe(|| {
        let deps = cosmwasm_std::Deps { storage: &st, api, querier: QuerierWrapper::new(&querier) };
        let m = parse(msg)?;
        let _os = crate::seam::enter();
        cw_ica_controller::contract::query(deps, env.clone(), m).map_err(|e| e.to_string())
    }));
    r.unwrap_or_else(|p| Err(format!("panic: {}", panic_text(&p))))
}

pub fn query(api: &MockApi, env: &Env, contracts: &Arc<BTreeMap<String, Contract>>, code_id: u64, ctl: &str, msg: &[u8]) -> Result<Value, String> {
    let b = raw_query(api, env, contracts, code_id, ctl, msg)?;
    serde_json::from_slice(&b).map_err(|e| e.to_string())
}

/// What the helper library's querier returns, re-serialised: (channel, state, ownership).
pub fn helper_queries(api: &MockApi, env: &Env, contracts: &Arc<BTreeMap<String, Contract>>, code_id: u64, ctl: &str) -> [Result<Value, String>; 3] {
    let q = SimQuerier { api, env, contracts, code_id };
    let w = QuerierWrapper::new(&q);
    let c = CwIcaControllerContract::new(Addr::unchecked(ctl));
    let h = c.query(&w);
    fn val<T: serde::Serialize>(r: Result<T, cosmwasm_std::StdError>) -> Result<Value, String> {
        r.map_err(|e| e.to_string()).and_then(|x| serde_json::to_value(&x).map_err(|e| e.to_string()))
    }
    [val(h.get_channel()), val(h.get_contract_state()), val(h.ownership())]
}

// ------------------------------------------------------------------ callback-counter

pub fn counter_store() -> Map {
    let mut st = SimStorage::new(Arc::new(Map::new()), None);
    let api = MockApi::default();
    let env = cosmwasm_std::testing::mock_env();
    let contracts = Arc::new(BTreeMap::new());
    let q = SimQuerier { api: &api, env: &env, contracts: &contracts, code_id: 0 };
    let deps = DepsMut { storage: &mut st, api: &api, querier: QuerierWrapper::new(&q) };
    let info = MessageInfo { sender: api.addr_make("user0"), funds: vec![] };
    callback_counter::contract::instantiate(deps, env.clone(), info, from_json(b"{}").unwrap()).unwrap();
    (*st.map).clone()
}

pub fn counter_exec(api: &MockApi, env: Env, store: Arc<Map>, sender: &str, msg: &[u8]) -> (Result<Vec<SubMsg>, String>, Arc<Map>) {
    let mut st = SimStorage::new(store, None);
    let contracts = Arc::new(BTreeMap::new());
    let e2 = env.clone();
    let q = SimQuerier { api, env: &e2, contracts: &contracts, code_id: 0 };
    let r = catch_unwind(AssertUnwindSafe(|| {
        let deps = DepsMut { storage: &mut st, api, querier: QuerierWrapper::new(&q) };
        let info = MessageInfo { sender: Addr::unchecked(sender), funds: vec![] };
        let m = parse(msg)?;
        let _os = crate::seam::enter();
        callback_counter::contract::execute(deps, env, info, m).map(|r| r.messages).map_err(|e| e.to_string())
    }));
    (r.unwrap_or_else(|p| Err(format!("panic: {}", panic_text(&p)))), st.map)
}

/// The callback as a receiver built with the macro (query and staking support) understands it.
pub fn decode_full(msg: &[u8]) -> Result<Value, String> {
    let m: callback_counter::msg::ExecuteMsg = parse(msg)?;
    serde_json::to_value(&m).map_err(|e| e.to_string())
}

/// What the library's acknowledgement type makes of an acknowledgement, if it is wrong.
pub fn ack_helpers(ack: &[u8]) -> Option<String> {
    use cw_ica_controller::ibc::types::packet::acknowledgement::Data;
    use prost::Message;
    let d: Data = from_json(ack).ok()?;
    let _os = crate::seam::enter();
    let t = match &d {
        Data::Error(_) => {
            let any = d.to_tx_msg_data().is_ok() || d.decode_module_query_safe_resp(0).is_ok() || d.decode_module_query_safe_resp_last_index().is_ok();
            return any.then(|| "an error acknowledgement is decoded as a result".to_string());
        }
        Data::Result(b) => crate::spec::TxMsgData::decode(b.as_slice()).ok().filter(|t| t.encode_to_vec() == b.as_slice())?,
    };
    let n = t.msg_responses.len();
    match d.to_tx_msg_data() {
        Ok(x) if x.msg_responses.len() == n && x.msg_responses.iter().zip(&t.msg_responses).all(|(p, q)| p.type_url == q.type_url && p.value == q.value) => {}
        x => return Some(format!("{n} responses are decoded as {x:?}")),
    }
    let mut got: Vec<_> = (0..n + 2).map(|i| (Some(i), d.decode_module_query_safe_resp(i))).collect();
    got.push((n.checked_sub(1), d.decode_module_query_safe_resp_last_index()));
    for (i, g) in got {
        let w = i.and_then(|i| t.msg_responses.get(i)).and_then(|a| crate::spec::QueryMsgResp::decode(a.value.as_slice()).ok());
        let g = g.ok().map(|g| crate::spec::QueryMsgResp { height: g.height, responses: g.responses.into_iter().map(Into::into).collect() });
        if g != w {
            return Some(format!("query response at {i:?} is decoded as {g:?}, is {w:?}"));
        }
    }
    None
}

pub fn counter_lists(m: &Arc<Map>) -> Value {
    let st = SimStorage::new(m.clone(), None);
    let api = MockApi::default();
    let env = cosmwasm_std::testing::mock_env();
    let contracts = Arc::new(BTreeMap::new());
    let q = SimQuerier { api: &api, env: &env, contracts: &contracts, code_id: 0 };
    let deps = Deps { storage: &st, api: &api, querier: QuerierWrapper::new(&q) };
    let ask = from_json(br#"{"get_callback_counter":{}}"#).ok();
    ask.and_then(|m| callback_counter::contract::query(deps, env.clone(), m).ok()).and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_default()
}

// ------------------------------------------------------------------ chain encodings

pub fn address2(api: &MockApi, code_id: u64, creator: &str, salt: &[u8]) -> Result<String, String> {
    let c = api.addr_canonicalize(creator).map_err(|e| e.to_string())?;
    let a = instantiate2_address(checksum(code_id).as_slice(), &c, salt).map_err(|e| e.to_string())?;
    api.addr_humanize(&a).map(|a| a.to_string()).map_err(|e| e.to_string())
}

pub fn parse_open_init(b: &Binary) -> Result<(String, OpenInitReq), String> {
    let m = MsgChannelOpenInit::decode(b.as_slice()).map_err(|e| e.to_string())?;
    let c = m.channel.ok_or("no channel")?;
    let cp = c.counterparty.unwrap_or_default();
    if c.state != 1 {
        return Err("channel state must be INIT".into());
    }
    let order = match c.ordering {
        1 => IbcOrder::Unordered,
        2 => IbcOrder::Ordered,
        _ => return Err("bad ordering".into()),
    };
    Ok((
        m.signer,
        OpenInitReq {
            port: m.port_id,
            conn: c.connection_hops.first().cloned().unwrap_or_default(),
            cp_port: cp.port_id,
            cp_chan: cp.channel_id,
            order,
            version: c.version,
            hops: c.connection_hops.len(),
        },
    ))
}

#[derive(Clone, PartialEq, prost::Message)]
struct OpenInitResp {
    #[prost(string, tag = "1")]
    channel_id: String,
    #[prost(string, tag = "2")]
    version: String,
}
#[derive(Clone, PartialEq, prost::Message)]
struct SendResp {
    #[prost(uint64, tag = "1")]
    sequence: u64,
}

pub fn open_init_resp(id: &str, version: &str) -> Vec<u8> {
    OpenInitResp { channel_id: id.into(), version: version.into() }.encode_to_vec()
}
pub fn send_resp(sequence: u64) -> Vec<u8> {
    SendResp { sequence }.encode_to_vec()
}
pub fn parse_close_init(b: &Binary) -> Result<(String, String, String), String> {
    let m = MsgChannelCloseInit::decode(b.as_slice()).map_err(|e| e.to_string())?;
    Ok((m.signer, m.port_id, m.channel_id))
}

pub fn stored_version(m: &Map) -> Option<(String, String)> {
    let v: Value = serde_json::from_slice(m.get(b"contract_info".as_slice())?).ok()?;
    Some((v["contract"].as_str()?.to_string(), v["version"].as_str()?.to_string()))
}

// ------------------------------------------------------------------ the helper library

pub fn helper_execute(ctl: &str, msg: &[u8]) -> Result<CosmosMsg, String> {
    let m: cmsg::ExecuteMsg = parse(msg)?;
    CwIcaControllerContract::new(Addr::unchecked(ctl)).execute(m).map_err(|e| e.to_string())
}
pub fn helper_migrate(ctl: &str, code: u64) -> Result<CosmosMsg, String> {
    CwIcaControllerContract::new(Addr::unchecked(ctl)).migrate(cmsg::MigrateMsg {}, code).map_err(|e| e.to_string())
}
pub fn helper_admin(ctl: &str, to: Option<&str>) -> CosmosMsg {
    let c = CwIcaControllerContract::new(Addr::unchecked(ctl));
    match to {
        Some(a) => c.update_admin(a),
        None => c.clear_admin(),
    }
}
#[allow(clippy::too_many_arguments)]
pub fn helper_instantiate(
    api: &MockApi,
    env: &Env,
    contracts: &Arc<BTreeMap<String, Contract>>,
    code_id: u64,
    msg: &[u8],
    label: &str,
    admin: Option<&str>,
    salt: Option<&str>,
) -> Result<(CosmosMsg, Option<String>), String> {
    let m: cmsg::InstantiateMsg = parse(msg)?;
    let code = CwIcaControllerCode::new(code_id);
    let q = SimQuerier { api, env, contracts, code_id };
    let w = QuerierWrapper::new(&q);
    match salt {
        None => code.instantiate(m, label, admin).map(|m| (m, None)).map_err(|e| e.to_string()),
        Some(s) => code.instantiate2(api, &w, env, m, label, admin, s).map(|(m, a)| (m, Some(a.to_string()))).map_err(|e| e.to_string()),
    }
}
