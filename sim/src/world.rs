//! The simulated world: controller chain (wasmd and IBC core stubs around the real contracts),
//! host chain, and the reference model that judges every controller call.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{
    Addr, Binary, Coin, CosmosMsg, Empty, Event, IbcAcknowledgement, IbcChannel, IbcEndpoint, IbcMsg,
    IbcOrder, IbcPacket, IbcPacketAckMsg, IbcPacketTimeoutMsg, IbcTimeout, MsgResponse,
    QueryRequest, Reply, ReplyOn, SubMsg, SubMsgResponse, SubMsgResult, Timestamp, WasmMsg,
};
use serde_json::{json, Value};

use crate::exec::{self, Entry, HErr, Resp};
use crate::host::{BState, ChainB, TryReq};
use crate::rng::{fnv, FNV0};
use crate::spec;
use crate::step::*;

pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Ctl,
    Probe(u8),
    Counter,
    Owner,
}

#[derive(Clone, Debug)]
pub struct Contract {
    pub kind: Kind,
    pub store: Arc<Map>,
    pub admin: Option<String>,
    pub code_id: u64,
    pub creator: String,
    pub label: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ASt {
    Init,
    Open,
    Closed,
}

#[derive(Clone, Debug)]
pub struct AChan {
    /// controller address
    pub ctl: String,
    pub conn: String,
    pub order: IbcOrder,
    pub state: ASt,
    pub version: String,
    pub cp_port: String,
    pub cp_chan: String,
    pub next_send: u64,
    pub next_ack: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PSt {
    InFlight,
    Acked,
    TimedOut,
}

#[derive(Clone, Debug)]
pub struct PacketRec {
    pub packet: IbcPacket,
    pub st: PSt,
    pub ctl: String,
    pub order: IbcOrder,
    pub queries: Vec<QueryRequest<Empty>>,
    pub callbacks: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Core {
    pub next_chan: u64,
    pub chans: BTreeMap<String, AChan>,
    pub packets: BTreeMap<(String, u64), Arc<PacketRec>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ica {
    pub address: String,
    pub channel: String,
    pub encoding: String,
}

/// Reference model of one controller.
#[derive(Clone, Debug)]
pub struct Model {
    pub owner: String,
    pub pending: Option<String>,
    pub expiry: Option<XExp>,
    pub cb: Option<String>,
    pub opts: Opts,
    pub channel: Option<(IbcChannel, bool)>,
    pub ica: Option<Ica>,
    pub name: String,
    pub version: String,
    pub migrations: u32,
    pub opened: u32,
    pub former: BTreeSet<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Probe {
    pub mode: PMode,
    pub calls: u64,
}

/// Everything on the controller chain that a transaction can change, and that rolls back with it.
#[derive(Clone, Debug)]
pub struct AState {
    pub height: u64,
    pub time: u64,
    pub contracts: Arc<BTreeMap<String, Contract>>,
    pub core: Arc<Core>,
    pub models: Arc<BTreeMap<String, Arc<Model>>>,
    pub probes: Arc<Vec<Probe>>,
    pub instances: u64,
    pub last_instance: Option<String>,
    /// controllers created through the owner contract, and the opening each last reported
    pub reg: Arc<Vec<(String, Value)>>,
}

#[derive(Clone, Debug)]
pub struct OpenInitReq {
    pub port: String,
    pub conn: String,
    pub cp_port: String,
    pub cp_chan: String,
    pub order: IbcOrder,
    pub version: String,
    pub hops: usize,
}

#[derive(Clone, Debug)]
pub enum Effect {
    OpenInit(OpenInitReq),
    CloseInit(String),
    Send { chan: String, data: Vec<u8>, timeout: IbcTimeout },
    Callback { to: String, msg: Vec<u8>, funds: usize },
    Other(String),
}

#[derive(Debug)]
pub struct Frame {
    pub ctl: String,
    pub effects: Vec<Effect>,
    pub external_failed: bool,
    pub spec: Option<Arc<SendSpec>>,
    pub events: Vec<Event>,
}

#[derive(Clone, Debug)]
pub enum Exp {
    OpenInit(Opts),
    CloseInit(String),
    Send { spec: Arc<SendSpec>, chan: String, ica: String, timeout: u64 },
    Callback { to: String, body: Value, queries: QExp },
}

/// What must be reported about the packet's queries.
#[derive(Clone, Debug)]
pub enum QExp {
    None,
    Error(Option<String>),
    Success { height: u64, responses: Vec<Value> },
    /// not a packet callback
    NotApplicable,
}

pub type Tags = Vec<&'static str>;

#[derive(Clone, Debug)]
pub enum Expect {
    Ok { effects: Vec<Exp>, tags: Tags, event: Option<Value> },
    Err { why: &'static str, tags: Tags },
    Any,
}

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Violation {
    pub tags: Vec<String>,
    pub kind: String,
    pub msg: String,
    pub step: usize,
}

#[derive(Clone, Debug)]
pub enum Origin {
    Contract(String),
    Outside,
}

#[derive(Clone, Debug)]
pub enum TxErr {
    Fail(String),
    Oog,
}

/// Self-contained transaction on the controller chain: everything it depends on besides chain state.
#[derive(Clone, Debug)]
pub enum ATx {
    Exec { sender: String, contract: String, msg: Vec<u8> },
    Msg { sender: String, msg: CosmosMsg },
    OpenInit { req: OpenInitReq },
    CloseInit { chan: String },
    OpenTry { ctl: String, conn: String },
    OpenConfirm { chan: String },
    Recv { chan: String, rly: String },
    OpenAck { chan: String, bchan: String, version: String },
    CloseConfirm { chan: String },
    StaleCloseConfirm { chan: String },
    Ack { chan: String, seq: u64, ack: Vec<u8>, rly: String },
    Timeout { chan: String, seq: u64, rly: String },
}

#[derive(Clone, Debug)]
pub struct TxEnv {
    pub btime: u64,
    pub oog: Option<u32>,
}

pub struct World {
    pub cfg: Cfg,
    pub a: AState,
    pub b: ChainB,
    pub api: MockApi,
    pub ctls: Vec<String>,
    pub cur_version: Option<(String, String)>,
    block_start: AState,
    block_log: Vec<(ATx, TxEnv, bool)>,
    pub frames: Vec<Frame>,
    pub violations: Vec<Violation>,
    pub step_no: usize,
    pub dry: bool,
    pub hash: u64,
    pub tx_btime: u64,
    ops: u32,
    limit: Option<u32>,
    pub tx_idx: u32,
    pub stats: BTreeMap<&'static str, u64>,
    pub calls: u64,
    pub min_time: u64,
    /// abstract states visited
    pub states: BTreeSet<u64>,
    pub has_owner: bool,
    /// smallest footprint seen per shape of the observable state, with no query packet unresolved
    quiet: BTreeMap<u64, usize>,
    pub trace: Option<Vec<String>>,
    /// how often each property was evaluated
    pub evals: BTreeMap<&'static str, u64>,
}

pub fn strip_nulls(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(
            o.iter().filter(|(_, x)| !x.is_null()).map(|(k, x)| (k.clone(), strip_nulls(x))).collect(),
        ),
        Value::Array(a) => Value::Array(a.iter().map(strip_nulls).collect()),
        x => x.clone(),
    }
}

pub fn metadata_ok(version: &str, conn: &str) -> Option<(String, String)> {
    let v: Value = serde_json::from_str(version).ok()?;
    let f = |k: &str| v.get(k).and_then(Value::as_str).map(str::to_string);
    let (ver, cc, _hc, addr, enc, tt) =
        (f("version")?, f("controller_connection_id")?, f("host_connection_id")?, f("address")?, f("encoding")?, f("tx_type")?);
    let ok = ver == "ics27-1"
        && cc == conn
        && enc == "proto3"
        && tt == "sdk_multi_msg"
        && !addr.is_empty()
        && addr.len() <= 128
        && addr.chars().all(char::is_alphanumeric);
    if ok {
        Some((addr, enc))
    } else {
        None
    }
}

fn expired(e: &Option<XExp>, height: u64, time: u64) -> bool {
    match e {
        None | Some(XExp::Never {}) => false,
        Some(XExp::AtHeight(h)) => height >= *h,
        Some(XExp::AtTime(t)) => time >= t.nanos(),
    }
}

pub fn channel_of(id: &str, c: &AChan) -> IbcChannel {
    IbcChannel::new(
        IbcEndpoint { port_id: format!("wasm.{}", c.ctl), channel_id: id.to_string() },
        IbcEndpoint { port_id: c.cp_port.clone(), channel_id: c.cp_chan.clone() },
        c.order.clone(),
        c.version.clone(),
        c.conn.clone(),
    )
}

struct MsgRet {
    data: Option<Vec<u8>>,
    url: &'static str,
}

impl World {
    pub fn new(cfg: Cfg) -> Self {
        let api = MockApi::default();
        let mut contracts = BTreeMap::new();
        let mk = |kind, store: Map| Contract {
            kind,
            store: Arc::new(store),
            admin: None,
            code_id: 900,
            creator: String::new(),
            label: String::new(),
        };
        for i in 0..3u8 {
            contracts.insert(api.addr_make(&format!("probe{i}")).to_string(), mk(Kind::Probe(i), Map::new()));
        }
        contracts.insert(api.addr_make("counter").to_string(), mk(Kind::Counter, exec::counter_store()));
        let a = AState {
            height: cfg.a_height,
            time: cfg.a_time,
            contracts: Arc::new(contracts),
            core: Arc::new(Core { next_chan: cfg.chan_start, ..Default::default() }),
            models: Arc::new(BTreeMap::new()),
            probes: Arc::new(vec![Probe::default(), Probe::default(), Probe::default()]),
            instances: 0,
            last_instance: None,
            reg: Arc::new(vec![]),
        };
        let b = ChainB::new(&cfg);
        let min_time = cfg.a_time;
        Self {
            block_start: a.clone(),
            a,
            b,
            api,
            ctls: vec![],
            cur_version: None,
            block_log: vec![],
            frames: vec![],
            violations: vec![],
            step_no: 0,
            dry: false,
            hash: FNV0,
            tx_btime: 0,
            ops: 0,
            limit: None,
            tx_idx: 0,
            stats: BTreeMap::new(),
            calls: 0,
            min_time,
            states: BTreeSet::new(),
            has_owner: false,
            quiet: BTreeMap::new(),
            trace: None,
            evals: BTreeMap::new(),
            cfg,
        }
    }

    pub fn stat(&mut self, k: &'static str) {
        if !self.dry {
            *self.stats.entry(k).or_default() += 1;
        }
    }

    pub fn ev(&mut self, tags: &[&'static str]) {
        for t in tags {
            *self.evals.entry(t).or_default() += 1;
        }
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if !self.dry {
            if let Some(t) = &mut self.trace {
                t.push(f());
            }
        }
    }

    pub fn violate(&mut self, tags: &[&str], kind: impl Into<String>, msg: impl Into<String>) {
        if self.violations.len() < 60 {
            self.violations.push(Violation {
                tags: tags.iter().map(|s| (*s).to_string()).collect(),
                kind: kind.into(),
                msg: format!("{}{}", if self.dry { "[look-ahead] " } else { "" }, msg.into()),
                step: self.step_no,
            });
        }
    }

    pub fn addr(&self, r: &AddrRef) -> String {
        match r {
            AddrRef::User(i) => self.make(&format!("user{i}"), i % 2 == 1),
            AddrRef::Rly(i) => self.make(&format!("relayer{i}"), i % 2 == 1),
            AddrRef::Probe(i) => self.api.addr_make(&format!("probe{}", i % 3)).to_string(),
            AddrRef::Counter => self.api.addr_make("counter").to_string(),
            AddrRef::Owner => self.api.addr_make("icaowner").to_string(),
            AddrRef::Ctl(i) => self.ctls.get(*i as usize).cloned().unwrap_or_else(|| "none".into()),
            AddrRef::Raw(s) => s.clone(),
        }
    }
    /// An account address, 20 bytes (as of keys) or 32 bytes (as of contracts and modules).
    fn make(&self, name: &str, short: bool) -> String {
        use cosmwasm_std::{Api, CanonicalAddr};
        let a = self.api.addr_make(name);
        if !short {
            return a.to_string();
        }
        let c = self.api.addr_canonicalize(a.as_str()).unwrap();
        self.api.addr_humanize(&CanonicalAddr::from(&c.as_slice()[..20])).unwrap().to_string()
    }
    pub fn rly(&self, i: u8) -> String {
        // anyone may relay: users, the callback contracts and the controller itself included
        self.addr(&match i {
            0..=2 => AddrRef::Rly(i),
            3..=5 => AddrRef::User(i - 3),
            6..=8 => AddrRef::Probe(i - 6),
            9 => AddrRef::Counter,
            _ => AddrRef::Ctl(0),
        })
    }
    pub fn model(&self, ctl: &str) -> Option<Arc<Model>> {
        self.a.models.get(ctl).cloned()
    }
    fn model_mut(&mut self, ctl: &str) -> &mut Model {
        Arc::make_mut(Arc::make_mut(&mut self.a.models).get_mut(ctl).unwrap())
    }
    fn core_mut(&mut self) -> &mut Core {
        Arc::make_mut(&mut self.a.core)
    }
    pub fn kind_of(&self, addr: &str) -> Option<Kind> {
        self.a.contracts.get(addr).map(|c| c.kind)
    }
    pub fn valid_addr(&self, s: &str) -> bool {
        use cosmwasm_std::Api;
        self.api.addr_validate(s).is_ok()
    }

    // ---------------------------------------------------------------- transactions

    pub fn commit(&mut self) {
        if self.dry {
            return;
        }
        self.block_start = self.a.clone();
        self.block_log.clear();
        self.tx_idx = 0;
    }

    /// Delivers one transaction: all of it happens, or none.
    pub fn deliver(&mut self, tx: &ATx, oog: Option<u32>) -> Result<(), TxErr> {
        let env = TxEnv { btime: self.b.time, oog };
        let r = self.run(tx, &env);
        if !self.dry {
            self.hash = fnv(&[u8::from(r.is_ok())], self.hash);
            self.block_log.push((tx.clone(), env, r.is_ok()));
            self.tx_idx += 1;
            if let Some(t) = &mut self.trace {
                t.push(match &r {
                    Ok(()) => "    -> ok".to_string(),
                    Err(TxErr::Oog) => "    -> out of gas".to_string(),
                    Err(TxErr::Fail(e)) => format!("    -> failed: {e}"),
                });
            }
        }
        r
    }

    fn run(&mut self, tx: &ATx, env: &TxEnv) -> Result<(), TxErr> {
        let snap = self.a.clone();
        self.frames.clear();
        self.ops = 0;
        self.limit = env.oog;
        self.tx_btime = env.btime;
        let r = self.run_inner(tx);
        self.frames.clear();
        if matches!(r, Err(TxErr::Oog)) {
            self.stat("out_of_gas");
        }
        if r.is_err() {
            self.a = snap;
        }
        r
    }

    fn run_inner(&mut self, tx: &ATx) -> Result<(), TxErr> {
        let fail = |s: &str| Err(TxErr::Fail(s.to_string()));
        match tx {
            ATx::Exec { sender, contract, msg } => {
                self.wasm_execute(sender, contract, msg)?;
                Ok(())
            }
            ATx::Msg { sender, msg } => {
                self.dispatch(sender, msg.clone())?;
                Ok(())
            }
            ATx::OpenInit { req } => {
                self.core_open_init(&Origin::Outside, req)?;
                Ok(())
            }
            ATx::CloseInit { chan } => self.core_close_init(&Origin::Outside, chan),
            ATx::OpenTry { ctl, conn } => {
                let id = format!("channel-{}", self.a.core.next_chan);
                let ch = IbcChannel::new(
                    IbcEndpoint { port_id: format!("wasm.{ctl}"), channel_id: id },
                    IbcEndpoint { port_id: "icahost".into(), channel_id: "channel-77".into() },
                    IbcOrder::Ordered,
                    "",
                    conn.clone(),
                );
                self.invoke(ctl, Entry::OpenTry { channel: ch })?;
                Ok(())
            }
            ATx::OpenConfirm { chan } => {
                let Some(c) = self.a.core.chans.get(chan).cloned() else { return fail("no channel") };
                self.invoke(&c.ctl, Entry::OpenConfirm { channel: channel_of(chan, &c) })?;
                Ok(())
            }
            ATx::Recv { chan, rly } => {
                let Some(c) = self.a.core.chans.get(chan).cloned() else { return fail("no channel") };
                let p = IbcPacket::new(
                    Binary::from(b"{}"),
                    IbcEndpoint { port_id: c.cp_port.clone(), channel_id: c.cp_chan.clone() },
                    IbcEndpoint { port_id: format!("wasm.{}", c.ctl), channel_id: chan.clone() },
                    1,
                    IbcTimeout::with_timestamp(Timestamp::from_nanos(self.a.time + 1_000_000_000)),
                );
                self.invoke(&c.ctl, Entry::Receive { packet: p, rly: rly.clone() })?;
                Ok(())
            }
            ATx::OpenAck { chan, bchan, version } => {
                let Some(c) = self.a.core.chans.get(chan).cloned() else { return fail("no channel") };
                if c.state != ASt::Init {
                    return fail("channel is not in INIT");
                }
                let mut ch = channel_of(chan, &c);
                ch.counterparty_endpoint.channel_id = bchan.clone();
                // ibc-go writes the channel before it calls the application
                let m = self.core_mut().chans.get_mut(chan).unwrap();
                m.state = ASt::Open;
                m.cp_chan = bchan.clone();
                m.version = version.clone();
                self.invoke(&c.ctl, Entry::OpenAck { channel: ch, version: version.clone() })?;
                Ok(())
            }
            ATx::CloseConfirm { chan } => {
                let Some(c) = self.a.core.chans.get(chan).cloned() else { return fail("no channel") };
                if c.state != ASt::Open {
                    return fail("channel is not open");
                }
                self.invoke(&c.ctl, Entry::CloseConfirm { channel: channel_of(chan, &c) })?;
                self.core_mut().chans.get_mut(chan).unwrap().state = ASt::Closed;
                Ok(())
            }
            ATx::StaleCloseConfirm { chan } => {
                let Some(c) = self.a.core.chans.get(chan).cloned() else { return fail("no channel") };
                if c.state == ASt::Open {
                    return fail("channel is open");
                }
                self.invoke(&c.ctl, Entry::CloseConfirm { channel: channel_of(chan, &c) })?;
                self.core_mut().chans.get_mut(chan).unwrap().state = ASt::Closed;
                Ok(())
            }
            ATx::Ack { chan, seq, ack, rly } => {
                let Some(c) = self.a.core.chans.get(chan).cloned() else { return fail("no channel") };
                let key = (chan.clone(), *seq);
                let Some(p) = self.a.core.packets.get(&key).cloned() else { return fail("no packet") };
                if p.st != PSt::InFlight {
                    return Ok(()); // duplicate relay: no-op
                }
                if !self.ack_allowed(c.state) {
                    return fail("channel is not open");
                }
                if c.order == IbcOrder::Ordered && c.next_ack != *seq {
                    return fail("out of order acknowledgement");
                }
                let core = self.core_mut();
                Arc::make_mut(core.packets.get_mut(&key).unwrap()).st = PSt::Acked;
                if c.order == IbcOrder::Ordered {
                    core.chans.get_mut(chan).unwrap().next_ack += 1;
                }
                let msg = IbcPacketAckMsg::new(IbcAcknowledgement::new(ack.clone()), p.packet.clone(), Addr::unchecked(rly));
                self.invoke(&p.ctl, Entry::Ack(msg))?;
                Ok(())
            }
            ATx::Timeout { chan, seq, rly } => {
                let key = (chan.clone(), *seq);
                let Some(p) = self.a.core.packets.get(&key).cloned() else { return fail("no packet") };
                if p.st != PSt::InFlight {
                    return Ok(());
                }
                let core = self.core_mut();
                Arc::make_mut(core.packets.get_mut(&key).unwrap()).st = PSt::TimedOut;
                if p.order == IbcOrder::Ordered {
                    core.chans.get_mut(chan).unwrap().state = ASt::Closed;
                }
                let msg = IbcPacketTimeoutMsg::new(p.packet.clone(), Addr::unchecked(rly));
                self.invoke(&p.ctl, Entry::Timeout(msg))?;
                Ok(())
            }
        }
    }

    /// Does the IBC layer let acknowledgements through on a channel in this state?
    pub fn ack_allowed(&self, s: ASt) -> bool {
        s == ASt::Open || (s == ASt::Closed && self.cfg.ack_on_closed)
    }

    fn core_open_init(&mut self, origin: &Origin, req: &OpenInitReq) -> Result<(String, String), TxErr> {
        let Some(ctl) = req.port.strip_prefix("wasm.").filter(|c| self.kind_of(c) == Some(Kind::Ctl)).map(str::to_string) else {
            return Err(TxErr::Fail("port not bound".into()));
        };
        if req.hops != 1 || !self.cfg.conns.iter().any(|c| c.0 == req.conn) {
            return Err(TxErr::Fail("connection not found".into()));
        }
        let id = format!("channel-{}", self.a.core.next_chan);
        self.core_mut().next_chan += 1;
        let mut ch = AChan {
            ctl: ctl.clone(),
            conn: req.conn.clone(),
            order: req.order.clone(),
            state: ASt::Init,
            version: req.version.clone(),
            cp_port: req.cp_port.clone(),
            cp_chan: req.cp_chan.clone(),
            next_send: self.cfg.first_seq(&id),
            next_ack: self.cfg.first_seq(&id),
        };
        let resp = self.invoke(&ctl, Entry::OpenInit { channel: channel_of(&id, &ch), origin: origin.clone() })?;
        if let Some(v) = resp {
            ch.version = v;
        }
        let version = ch.version.clone();
        self.core_mut().chans.insert(id.clone(), ch);
        Ok((id, version))
    }

    fn core_close_init(&mut self, origin: &Origin, chan: &str) -> Result<(), TxErr> {
        let Some(c) = self.a.core.chans.get(chan).cloned() else { return Err(TxErr::Fail("channel not found".into())) };
        if let Origin::Contract(x) = origin {
            if *x != c.ctl {
                return Err(TxErr::Fail("not the channel's owner".into()));
            }
        }
        if c.state == ASt::Closed {
            return Err(TxErr::Fail("channel is closed".into()));
        }
        self.invoke(&c.ctl, Entry::CloseInit { channel: channel_of(chan, &c), origin: origin.clone() })?;
        self.core_mut().chans.get_mut(chan).unwrap().state = ASt::Closed;
        Ok(())
    }

    fn core_send(&mut self, sender: &str, chan: &str, data: &[u8], timeout: &IbcTimeout) -> Result<u64, TxErr> {
        let fail = |s: &str| Err(TxErr::Fail(s.to_string()));
        let Some(c) = self.a.core.chans.get(chan).cloned() else { return fail("channel not found") };
        if c.ctl != sender {
            return fail("channel capability not owned");
        }
        if c.state != ASt::Open {
            return fail("channel is not open");
        }
        let ts = timeout.timestamp().map_or(0, |t| t.nanos());
        if ts == 0 && timeout.block().is_none() {
            return fail("packet without timeout");
        }
        if ts != 0 && ts <= self.tx_btime {
            return fail("timeout elapsed");
        }
        let seq = c.next_send;
        let packet = IbcPacket::new(
            Binary::from(data),
            IbcEndpoint { port_id: format!("wasm.{}", c.ctl), channel_id: chan.to_string() },
            IbcEndpoint { port_id: c.cp_port.clone(), channel_id: c.cp_chan.clone() },
            seq,
            timeout.clone(),
        );
        let queries = self.frames.last().and_then(|f| f.spec.clone()).map(|s| s.queries.clone()).unwrap_or_default();
        let rec = PacketRec { packet, st: PSt::InFlight, ctl: c.ctl.clone(), order: c.order.clone(), queries, callbacks: 0 };
        let core = self.core_mut();
        core.chans.get_mut(chan).unwrap().next_send += 1;
        core.packets.insert((chan.to_string(), seq), Arc::new(rec));
        Ok(seq)
    }

    fn effect(&mut self, sender: &str, e: impl FnOnce() -> Effect) {
        if let Some(f) = self.frames.last_mut() {
            if f.ctl == sender {
                f.effects.push(e());
            }
        }
    }

    fn dispatch(&mut self, sender: &str, msg: CosmosMsg) -> Result<MsgRet, TxErr> {
        let none = MsgRet { data: None, url: "" };
        #[allow(deprecated)]
        match msg {
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                self.effect(sender, || Effect::Callback { to: contract_addr.clone(), msg: msg.to_vec(), funds: funds.len() });
                let depth = self.frames.len();
                let r = self.wasm_execute(sender, &contract_addr, &msg);
                if r.is_err() {
                    self.frames.truncate(depth);
                    if let Some(f) = self.frames.last_mut() {
                        if f.ctl == sender {
                            f.external_failed = true;
                        }
                    }
                }
                r.map(|()| none)
            }
            CosmosMsg::Wasm(WasmMsg::Instantiate { admin, code_id, msg, label, .. }) => {
                self.effect(sender, || Effect::Other("instantiate".into()));
                let addr = self.api.addr_make(&format!("contract-{}", self.a.instances)).to_string();
                self.instantiate(sender, addr, code_id, admin, label, &msg)?;
                Ok(none)
            }
            CosmosMsg::Wasm(WasmMsg::Instantiate2 { admin, code_id, msg, label, salt, .. }) => {
                self.effect(sender, || Effect::Other("instantiate2".into()));
                let addr = exec::address2(&self.api, code_id, sender, &salt).map_err(TxErr::Fail)?;
                if self.a.contracts.contains_key(&addr) {
                    return Err(TxErr::Fail("address exists".into()));
                }
                self.instantiate(sender, addr, code_id, admin, label, &msg)?;
                Ok(none)
            }
            CosmosMsg::Wasm(WasmMsg::Migrate { contract_addr, new_code_id, msg }) => {
                self.effect(sender, || Effect::Other("migrate".into()));
                let c = self.admin_of(sender, &contract_addr)?;
                if c.kind != Kind::Ctl || new_code_id != self.cfg.code_id + 1 {
                    return Err(TxErr::Fail("no such code".into()));
                }
                self.invoke(&contract_addr, Entry::Migrate { msg: msg.to_vec() })?;
                Arc::make_mut(&mut self.a.contracts).get_mut(&contract_addr).unwrap().code_id = new_code_id;
                Ok(none)
            }
            CosmosMsg::Wasm(WasmMsg::UpdateAdmin { contract_addr, admin }) => {
                self.effect(sender, || Effect::Other("update admin".into()));
                self.admin_of(sender, &contract_addr)?;
                if !self.valid_addr(&admin) {
                    return Err(TxErr::Fail("bad address".into()));
                }
                Arc::make_mut(&mut self.a.contracts).get_mut(&contract_addr).unwrap().admin = Some(admin);
                Ok(none)
            }
            CosmosMsg::Wasm(WasmMsg::ClearAdmin { contract_addr }) => {
                self.effect(sender, || Effect::Other("clear admin".into()));
                self.admin_of(sender, &contract_addr)?;
                Arc::make_mut(&mut self.a.contracts).get_mut(&contract_addr).unwrap().admin = None;
                Ok(none)
            }
            CosmosMsg::Stargate { type_url, value } if type_url == "/ibc.core.channel.v1.MsgChannelOpenInit" => {
                let (signer, req) = exec::parse_open_init(&value).map_err(TxErr::Fail)?;
                self.effect(sender, || Effect::OpenInit(req.clone()));
                if signer != sender {
                    return Err(TxErr::Fail("contract is not the signer".into()));
                }
                let (id, version) = self.core_open_init(&Origin::Contract(sender.to_string()), &req)?;
                Ok(MsgRet { data: Some(exec::open_init_resp(&id, &version)), url: "/ibc.core.channel.v1.MsgChannelOpenInitResponse" })
            }
            CosmosMsg::Stargate { type_url, value } if type_url == "/ibc.core.channel.v1.MsgChannelCloseInit" => {
                let (signer, port, chan) = exec::parse_close_init(&value).map_err(TxErr::Fail)?;
                self.effect(sender, || Effect::CloseInit(chan.clone()));
                if signer != sender || port != format!("wasm.{sender}") {
                    return Err(TxErr::Fail("contract is not the signer".into()));
                }
                self.core_close_init(&Origin::Contract(sender.to_string()), &chan)?;
                Ok(none)
            }
            CosmosMsg::Ibc(IbcMsg::SendPacket { channel_id, data, timeout }) => {
                self.effect(sender, || Effect::Send { chan: channel_id.clone(), data: data.to_vec(), timeout: timeout.clone() });
                let seq = self.core_send(sender, &channel_id, &data, &timeout)?;
                Ok(MsgRet { data: Some(exec::send_resp(seq)), url: "/cosmwasm.wasm.v1.MsgIBCSendResponse" })
            }
            CosmosMsg::Ibc(IbcMsg::CloseChannel { channel_id }) => {
                self.effect(sender, || Effect::CloseInit(channel_id.clone()));
                self.core_close_init(&Origin::Contract(sender.to_string()), &channel_id)?;
                Ok(none)
            }
            other => {
                self.effect(sender, || Effect::Other(format!("{other:?}").chars().take(120).collect()));
                Ok(none)
            }
        }
    }

    fn admin_of(&self, sender: &str, contract: &str) -> Result<Contract, TxErr> {
        let c = self.a.contracts.get(contract).ok_or_else(|| TxErr::Fail("no such contract".into()))?;
        if c.admin.as_deref() != Some(sender) {
            return Err(TxErr::Fail("sender is not admin".into()));
        }
        Ok(c.clone())
    }

    fn instantiate(&mut self, sender: &str, addr: String, code_id: u64, admin: Option<String>, label: String, msg: &[u8]) -> Result<(), TxErr> {
        if code_id != self.cfg.code_id {
            return Err(TxErr::Fail("no such code".into()));
        }
        if admin.as_ref().is_some_and(|a| !self.valid_addr(a)) || label.is_empty() {
            return Err(TxErr::Fail("invalid instantiate message".into()));
        }
        self.a.instances += 1;
        Arc::make_mut(&mut self.a.contracts).insert(
            addr.clone(),
            Contract { kind: Kind::Ctl, store: Arc::new(Map::new()), admin, code_id, creator: sender.to_string(), label },
        );
        self.a.last_instance = Some(addr.clone());
        let funds = self.funds(msg);
        self.invoke(&addr, Entry::Instantiate { sender: sender.to_string(), msg: msg.to_vec(), funds })?;
        Ok(())
    }

    /// Money a sender attaches to a call; the controller has no use for it.
    fn funds(&self, msg: &[u8]) -> Vec<Coin> {
        let h = fnv(msg, self.cfg.salt);
        match (self.frames.is_empty(), h % 16) {
            (true, 0) => vec![cosmwasm_std::coin(1, "stake")],
            (true, 1) => vec![cosmwasm_std::coin(u128::from(h), "atom"), cosmwasm_std::coin(5, "ibc/0")],
            _ => vec![],
        }
    }

    fn wasm_execute(&mut self, sender: &str, contract: &str, msg: &[u8]) -> Result<(), TxErr> {
        match self.kind_of(contract) {
            None => Err(TxErr::Fail(format!("no such contract {contract}"))),
            Some(Kind::Probe(i)) => self.probe_exec(i, sender, contract, msg),
            Some(Kind::Ctl) => {
                let funds = self.funds(msg);
                self.invoke(contract, Entry::Execute { sender: sender.to_string(), msg: msg.to_vec(), funds }).map(|_| ())
            }
            Some(Kind::Counter | Kind::Owner) => self.invoke_plain(contract, sender, msg),
        }
    }

    /// A real auxiliary contract of the repository (not the one under the model).
    fn invoke_plain(&mut self, contract: &str, sender: &str, msg: &[u8]) -> Result<(), TxErr> {
        let c = self.a.contracts[contract].clone();
        let env = self.env(contract);
        let (r, store) = match c.kind {
            Kind::Counter => exec::counter_exec(&self.api, env, c.store.clone(), sender, msg),
            _ => crate::lean::exec(env, c.store.clone(), sender, msg, &self.api, self.cfg.code_id),
        };
        if self.kind_of(sender) == Some(Kind::Ctl) {
            self.judge_receiver(c.kind, contract, sender, msg, &r, &c.store, &store);
        }
        if c.kind == Kind::Owner {
            self.judge_owner(contract, sender, msg, &r, &store);
        }
        let resp = r.map_err(TxErr::Fail)?;
        Arc::make_mut(&mut self.a.contracts).get_mut(contract).unwrap().store = store;
        self.exec_submsgs(contract, resp)
    }

    fn probe_exec(&mut self, i: u8, sender: &str, contract: &str, msg: &[u8]) -> Result<(), TxErr> {
        let v: Value = serde_json::from_slice(msg).map_err(|e| TxErr::Fail(e.to_string()))?;
        if let Some(run) = v.get("run") {
            let items: Vec<(CosmosMsg, bool)> = serde_json::from_value(run["msgs"].clone()).map_err(|e| TxErr::Fail(e.to_string()))?;
            self.run_items(contract, items)?;
            if run["fail"] == json!(true) {
                return Err(TxErr::Fail("batch aborted by its sender".into()));
            }
            return Ok(());
        }
        let Some(cb) = v.get("receive_ica_callback") else { return Err(TxErr::Fail("unknown message".into())) };
        let kind = if cb.get("on_acknowledgement_packet_callback").is_some() {
            CbKind::Ack
        } else if cb.get("on_timeout_packet_callback").is_some() {
            CbKind::Timeout
        } else {
            CbKind::Open
        };
        let mode = self.a.probes[i as usize].mode.clone();
        let fails = match &mode {
            PMode::FailAll | PMode::Panic => true,
            PMode::Fail(k) => *k == kind,
            _ => false,
        };
        if fails {
            self.stat("callback_failure");
            return Err(TxErr::Fail("callback contract refuses".into()));
        }
        // the probe's durable account of what it was told, per packet
        if let Some(p) = cb.get("on_acknowledgement_packet_callback").or_else(|| cb.get("on_timeout_packet_callback")) {
            let ch = p["original_packet"]["src"]["channel_id"].as_str().unwrap_or_default().to_string();
            let seq = p["original_packet"]["sequence"].as_u64().unwrap_or_default();
            if let Some(r) = self.core_mut().packets.get_mut(&(ch, seq)) {
                Arc::make_mut(r).callbacks += 1;
            }
        }
        Arc::make_mut(&mut self.a.probes)[i as usize].calls += 1;
        if let PMode::Nested { on, items, once } = mode {
            if on == kind && self.kind_of(sender) == Some(Kind::Ctl) {
                self.stat("nested_call");
                if once {
                    Arc::make_mut(&mut self.a.probes)[i as usize].mode = PMode::Ok;
                }
                let items = self.items(&items);
                self.run_items(contract, items)?;
            }
        }
        Ok(())
    }

    pub fn items(&self, items: &[BatchItem]) -> Vec<(CosmosMsg, bool)> {
        items
            .iter()
            .map(|it| {
                let m = WasmMsg::Execute { contract_addr: self.addr(&AddrRef::Ctl(it.ctl)), msg: it.msg.to_vec().into(), funds: vec![] };
                (CosmosMsg::Wasm(m), it.catch)
            })
            .collect()
    }

    fn run_items(&mut self, contract: &str, items: Vec<(CosmosMsg, bool)>) -> Result<(), TxErr> {
        // guard against unbounded recursion of a contract that calls back into itself
        if self.frames.len() > 12 {
            return Err(TxErr::Fail("call depth".into()));
        }
        for (m, catch) in items {
            let snap = self.a.clone();
            let depth = self.frames.len();
            match self.dispatch(contract, m) {
                Ok(_) => {}
                Err(TxErr::Fail(_)) if catch => {
                    self.frames.truncate(depth);
                    self.a = snap;
                }
                Err(e) => return Err(e),
            }
        }
        Ok(())
    }

    fn exec_submsgs(&mut self, addr: &str, msgs: Vec<SubMsg>) -> Result<(), TxErr> {
        for sm in msgs {
            let snap = self.a.clone();
            let depth = self.frames.len();
            let r = if self.gas_starved(&sm) {
                // a callback contract that would accept, were it not for the limit put on it
                if let CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) = &sm.msg {
                    let (to, msg, funds) = (contract_addr.clone(), msg.to_vec(), funds.len());
                    self.effect(addr, || Effect::Callback { to, msg, funds });
                }
                if matches!(sm.reply_on, ReplyOn::Always | ReplyOn::Error) {
                    if let Some(f) = self.frames.last_mut() {
                        f.external_failed |= f.ctl == addr;
                    }
                }
                Err(TxErr::Fail("submessage ran out of its gas limit".into()))
            } else {
                self.dispatch(addr, sm.msg)
            };
            let reply = match r {
                Ok(ret) => {
                    if !matches!(sm.reply_on, ReplyOn::Always | ReplyOn::Success) {
                        continue;
                    }
                    #[allow(deprecated)]
                    SubMsgResult::Ok(SubMsgResponse {
                        events: vec![],
                        data: ret.data.clone().map(Binary::from),
                        msg_responses: ret.data.map(|d| MsgResponse { type_url: ret.url.to_string(), value: d.into() }).into_iter().collect(),
                    })
                }
                Err(TxErr::Fail(e)) => {
                    self.frames.truncate(depth);
                    if !matches!(sm.reply_on, ReplyOn::Always | ReplyOn::Error) {
                        return Err(TxErr::Fail(e));
                    }
                    self.a = snap;
                    SubMsgResult::Err(e)
                }
                Err(e) => return Err(e),
            };
            if self.kind_of(addr) == Some(Kind::Ctl) {
                self.invoke(addr, Entry::Reply(Reply { id: sm.id, payload: sm.payload, gas_used: 0, result: reply }))?;
            }
        }
        Ok(())
    }

    fn gas_starved(&mut self, sm: &SubMsg) -> bool {
        let CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, .. }) = &sm.msg else { return false };
        let Some(Kind::Probe(i)) = self.kind_of(contract_addr) else { return false };
        let starved = self.a.probes[i as usize].mode == PMode::Heavy && sm.gas_limit.is_some_and(|g| g < 1_000_000_000);
        if starved {
            self.stat("submessage_out_of_gas");
        }
        starved
    }

    pub fn env(&self, contract: &str) -> cosmwasm_std::Env {
        cosmwasm_std::Env {
            block: cosmwasm_std::BlockInfo { height: self.a.height, time: Timestamp::from_nanos(self.a.time), chain_id: "sim-1".into() },
            transaction: if self.cfg.tx_info { Some(cosmwasm_std::TransactionInfo { index: self.tx_idx }) } else { None },
            contract: cosmwasm_std::ContractInfo { address: Addr::unchecked(contract) },
        }
    }

    // ---------------------------------------------------------------- controller calls

    /// Calls the real controller, executes what it asks for, and judges the call against the model.
    /// Returns the version of an OpenInit.
    fn invoke(&mut self, addr: &str, entry: Entry) -> Result<Option<String>, TxErr> {
        self.calls += 1;
        let is_reply = matches!(entry, Entry::Reply(_));
        let expect = if is_reply { Expect::Any } else { self.expect(addr, &entry) };
        if !is_reply {
            let spec = match &entry {
                Entry::Execute { msg, .. } => match serde_json::from_slice::<XMsg>(msg) {
                    Ok(XMsg::SendCosmosMsgs(s)) => Some(Arc::new(s)),
                    _ => None,
                },
                _ => None,
            };
            self.frames.push(Frame { ctl: addr.to_string(), effects: vec![], external_failed: false, spec, events: vec![] });
        }
        let c = self.a.contracts[addr].clone();
        let env = self.env(addr);
        let remaining = self.limit.map(|l| l.saturating_sub(self.ops));
        let (res, store, ops) = exec::call(&self.api, &env, &self.a.contracts, self.cfg.code_id, c.store.clone(), &entry, remaining);
        self.ops += ops;
        if self.cfg.det > 0 && !matches!(res, Err(HErr::Oog)) {
            self.check_determinism(&env, &c.store, &entry, &res, &store);
        }
        let mut version = None;
        let outcome = match res {
            Ok(Resp { msgs, events, open_version }) => {
                version = open_version;
                Arc::make_mut(&mut self.a.contracts).get_mut(addr).unwrap().store = store;
                self.apply(addr, &entry, &expect);
                if let Some(f) = self.frames.last_mut() {
                    f.events.extend(events);
                }
                self.exec_submsgs(addr, msgs)
            }
            Err(HErr::Oog) => Err(TxErr::Oog),
            Err(HErr::Fail(e)) => Err(TxErr::Fail(e)),
        };
        if is_reply {
            return outcome.map(|()| None);
        }
        let frame = self.frames.pop().unwrap();
        self.judge(addr, &entry, &expect, &frame, &outcome, &version);
        outcome.map(|()| version)
    }

    fn check_determinism(&mut self, env: &cosmwasm_std::Env, store: &Arc<Map>, entry: &Entry, res: &Result<Resp, HErr>, after: &Arc<Map>) {
        let alt = 1 + self.calls % 23;
        // a second replica: other clock, environment and randomness, and with det 2 another thread
        let (r2, s2, _) = if self.cfg.det >= 2 {
            let (api, contracts, code, st, e, en) = (self.api, self.a.contracts.clone(), self.cfg.code_id, store.clone(), entry.clone(), env.clone());
            let run = move || {
                crate::seam::replica(alt);
                exec::call(&api, &en, &contracts, code, st, &e, None)
            };
            std::thread::Builder::new().name("replica-1".into()).spawn(run).expect("thread").join().unwrap_or((Err(HErr::Fail("panic".into())), Arc::new(Map::new()), 0))
        } else {
            let was = crate::seam::replica(alt);
            let r = exec::call(&self.api, env, &self.a.contracts, self.cfg.code_id, store.clone(), entry, None);
            crate::seam::replica(was);
            r
        };
        self.ev(&["C23"]);
        let d1 = format!("{res:?}");
        let d2 = format!("{r2:?}");
        if d1 != d2 || (res.is_ok() && *after != s2) {
            self.violate(&["C23"], "nondeterminism", format!("re-executing {} on the same state differs: {} / {}", entry.name(), short(&d1), short(&d2)));
        }
    }

    // ---------------------------------------------------------------- the reference model

    fn owner_tags(msg: &XMsg) -> Tags {
        match msg {
            XMsg::CreateChannel { .. } => vec!["C01", "C14", "C16"],
            XMsg::CloseChannel {} => vec!["C01", "C06"],
            XMsg::SendCosmosMsgs(_) => vec!["C01", "C07", "C08"],
            XMsg::UpdateCallbackAddress { .. } => vec!["C01", "C12", "C13"],
            XMsg::UpdateOwnership(_) => vec!["C01", "C02"],
        }
    }

    fn opts_work(&self, o: &Opts) -> Result<(), &'static str> {
        if !self.cfg.conns.iter().any(|c| c.0 == o.connection_id) {
            return Err("unknown connection");
        }
        if o.counterparty_port_id.as_deref().unwrap_or("icahost") != "icahost" {
            return Err("counterparty port is not icahost");
        }
        Ok(())
    }

    fn expect(&self, addr: &str, entry: &Entry) -> Expect {
        let ok = |effects: Vec<Exp>, tags: Tags| Expect::Ok { effects, tags, event: None };
        let err = |why: &'static str, tags: Tags| Expect::Err { why, tags };
        match entry {
            Entry::Instantiate { msg, .. } => {
                let Ok(v) = serde_json::from_slice::<Value>(msg) else { return Expect::Any };
                let Ok(o) = serde_json::from_value::<Opts>(v["channel_open_init_options"].clone()) else { return Expect::Any };
                for k in ["owner", "send_callbacks_to"] {
                    if let Some(s) = v[k].as_str() {
                        if !self.valid_addr(s) {
                            return err("invalid address at instantiation", if k == "owner" { vec!["C02"] } else { vec!["C12"] });
                        }
                    }
                }
                match self.opts_work(&o) {
                    Err("counterparty port is not icahost") => err("counterparty port is not icahost", vec!["C04", "C16"]),
                    Err(w) => err(w, vec!["C16"]),
                    Ok(()) => ok(vec![Exp::OpenInit(o)], vec!["C16", "C14", "C02"]),
                }
            }
            Entry::Execute { sender, msg, .. } => {
                let Ok(x) = serde_json::from_slice::<XMsg>(msg) else { return Expect::Any };
                let Some(m) = self.model(addr) else { return Expect::Any };
                self.expect_exec(addr, &m, sender, &x)
            }
            Entry::Migrate { .. } => {
                let Some(m) = self.model(addr) else { return Expect::Any };
                let Some((name, cur)) = self.cur_version.clone() else { return Expect::Any };
                if m.name != name {
                    return err("migration from another contract", vec!["C17"]);
                }
                let Ok(prev) = semver::Version::parse(&m.version) else { return err("unparsable stored version", vec!["C17"]) };
                let Ok(cur) = semver::Version::parse(&cur) else { return Expect::Any };
                if prev >= cur {
                    return err("migration is not an upgrade", vec!["C17"]);
                }
                if m.ica.as_ref().is_some_and(|i| i.encoding != "proto3") {
                    return err("channel encoding is not proto3", vec!["C17"]);
                }
                ok(vec![], vec!["C17"])
            }
            Entry::Reply(_) => Expect::Any,
            Entry::OpenInit { channel, origin } => {
                let by_self = matches!(origin, Origin::Contract(c) if c == addr);
                if !by_self {
                    return err("opening initiated by an outsider", vec!["C03"]);
                }
                if channel.counterparty_endpoint.port_id != "icahost" {
                    return err("opening towards another port", vec!["C04"]);
                }
                if self.model(addr).and_then(|m| m.channel.clone()).is_some_and(|c| c.1) {
                    return err("a channel is already open", vec!["C05"]);
                }
                ok(vec![], vec!["C14", "C16", "C04"])
            }
            Entry::OpenTry { .. } | Entry::OpenConfirm { .. } | Entry::Receive { .. } => err("initiated by the counterparty", vec!["C03"]),
            Entry::OpenAck { channel, version } => {
                let Some(m) = self.model(addr) else { return Expect::Any };
                let Some((ica, enc)) = metadata_ok(version, &channel.connection_id) else {
                    return err("invalid negotiated metadata", vec!["C04"]);
                };
                if m.channel.as_ref().is_some_and(|c| c.1) {
                    return err("another channel is open", vec!["C05", "C06"]);
                }
                let mut ch = channel.clone();
                ch.version.clone_from(version);
                let mut effects = vec![];
                if let Some(to) = &m.cb {
                    effects.push(Exp::Callback {
                        to: to.clone(),
                        body: json!({"on_channel_open_ack_callback": {
                            "channel": serde_json::to_value(&ch).unwrap(), "ica_address": ica, "tx_encoding": enc}}),
                        queries: QExp::NotApplicable,
                    });
                }
                ok(effects, vec!["C04", "C14"])
            }
            Entry::CloseInit { channel, origin } => {
                if !matches!(origin, Origin::Contract(c) if c == addr) {
                    return err("closing initiated by an outsider", vec!["C03"]);
                }
                let Some(m) = self.model(addr) else { return Expect::Any };
                match &m.channel {
                    Some((c, true)) if c == channel => ok(vec![], vec!["C06", "C01"]),
                    _ => Expect::Any,
                }
            }
            Entry::CloseConfirm { channel } => {
                let Some(m) = self.model(addr) else { return Expect::Any };
                match &m.channel {
                    Some((c, true)) if c == channel => ok(vec![], vec!["C06", "C14"]),
                    _ => Expect::Any,
                }
            }
            Entry::Ack(a) => {
                let Some(m) = self.model(addr) else { return Expect::Any };
                let p = &a.original_packet;
                let Some(rec) = self.a.core.packets.get(&(p.src.channel_id.clone(), p.sequence)) else { return Expect::Any };
                let Some(b) = self.b.recs.get(&(p.dest.channel_id.clone(), p.sequence)) else { return Expect::Any };
                let ackv: Value = serde_json::from_slice(&a.acknowledgement.data).unwrap();
                let mut attrs = json!({"packet_sequence": p.sequence.to_string(), "packet_src_port": p.src.port_id, "packet_src_channel": p.src.channel_id});
                if let Some(r) = ackv.get("result") {
                    attrs["packet_ack_base64"] = r.clone();
                } else {
                    attrs["error"] = ackv["error"].clone();
                }
                let q = if rec.queries.is_empty() {
                    QExp::None
                } else if let Some(e) = &b.error {
                    QExp::Error(Some(e.clone()))
                } else {
                    match &b.answers {
                        None => return Expect::Any, // the packet on the wire was wrong already
                        Some(ans) if ans.len() != rec.queries.len() => QExp::Error(None),
                        Some(ans) => match rec.queries.iter().zip(ans).map(|(q, a)| spec::reported(q, a)).collect::<Option<Vec<_>>>() {
                            Some(responses) => QExp::Success { height: b.height, responses },
                            None => QExp::Error(None),
                        },
                    }
                };
                let mut effects = vec![];
                if let Some(to) = &m.cb {
                    effects.push(Exp::Callback {
                        to: to.clone(),
                        body: json!({"on_acknowledgement_packet_callback": {
                            "ica_acknowledgement": ackv, "original_packet": serde_json::to_value(p).unwrap(), "relayer": a.relayer}}),
                        queries: q,
                    });
                }
                let mut tags = vec!["C15", "C12"];
                if !rec.queries.is_empty() {
                    tags.extend(["C10", "C11"]);
                }
                Expect::Ok { effects, tags, event: Some(attrs) }
            }
            Entry::Timeout(t) => {
                let Some(m) = self.model(addr) else { return Expect::Any };
                let mut effects = vec![];
                if let Some(to) = &m.cb {
                    effects.push(Exp::Callback {
                        to: to.clone(),
                        body: json!({"on_timeout_packet_callback": {
                            "original_packet": serde_json::to_value(&t.packet).unwrap(), "relayer": t.relayer}}),
                        queries: QExp::NotApplicable,
                    });
                }
                ok(effects, vec!["C15", "C06", "C12"])
            }
        }
    }

    fn expect_exec(&self, addr: &str, m: &Model, sender: &str, x: &XMsg) -> Expect {
        let tags = Self::owner_tags(x);
        let err = |why: &'static str, tags: Tags| Expect::Err { why, tags };
        let ok = |effects: Vec<Exp>| Expect::Ok { effects, tags: tags.clone(), event: None };
        if let XMsg::UpdateOwnership(a) = x {
            return match a {
                XAction::RenounceOwnership => err("renouncing", vec!["C02"]),
                XAction::TransferOwnership { .. } if sender != m.owner => err("proposal by a non-owner", vec!["C01", "C02"]),
                XAction::TransferOwnership { new_owner, .. } if !self.valid_addr(new_owner) => err("proposal of an invalid address", vec!["C02"]),
                XAction::TransferOwnership { .. } => ok(vec![]),
                XAction::AcceptOwnership => match &m.pending {
                    None => err("nothing to accept", vec!["C02", "C01"]),
                    Some(p) if p != sender => err("accepted by someone not proposed", vec!["C02", "C01"]),
                    Some(_) if expired(&m.expiry, self.a.height, self.a.time) => err("proposal expired", vec!["C02"]),
                    Some(_) => Expect::Ok { effects: vec![], tags: vec!["C02"], event: None },
                },
            };
        }
        if sender != m.owner {
            let mut t = vec!["C01"];
            if m.former.contains(sender) || m.pending.as_deref() == Some(sender) {
                t.push("C02");
            }
            return err("sender is not the owner", t);
        }
        match x {
            XMsg::CreateChannel { channel_open_init_options } => {
                let o = channel_open_init_options.clone().unwrap_or_else(|| m.opts.clone());
                if let Err(w) = self.opts_work(&o) {
                    return err(w, vec!["C04", "C16"]);
                }
                if m.channel.as_ref().is_some_and(|c| c.1) {
                    return err("a channel is already open", vec!["C05"]);
                }
                ok(vec![Exp::OpenInit(o)])
            }
            XMsg::CloseChannel {} => match &m.channel {
                Some((c, true)) => {
                    // the chain decides whether the channel may be closed
                    match self.a.core.chans.get(&c.endpoint.channel_id).map(|c| c.state) {
                        Some(ASt::Open) => ok(vec![Exp::CloseInit(c.endpoint.channel_id.clone())]),
                        _ => Expect::Any,
                    }
                }
                _ => err("no open channel to close", vec!["C06"]),
            },
            XMsg::UpdateCallbackAddress { callback_address } => match callback_address {
                Some(a) if !self.valid_addr(a) => err("invalid callback address", vec!["C12"]),
                _ => ok(vec![]),
            },
            XMsg::SendCosmosMsgs(s) => {
                let Some(ica) = &m.ica else { return err("no account yet", vec!["C07", "C04"]) };
                if ica.encoding != "proto3" {
                    return err("unsupported encoding", vec!["C07"]);
                }
                if s.messages.iter().any(|m| !spec::msg_supported(m)) {
                    return err("unsupported message kind", vec!["C07"]);
                }
                if s.queries.iter().any(|q| !spec::query_supported(q)) {
                    return err("unsupported query kind", vec!["C08"]);
                }
                let secs = s.timeout_seconds.unwrap_or(600);
                let Some(timeout) = secs.checked_mul(1_000_000_000).and_then(|n| n.checked_add(self.a.time)) else {
                    return err("timeout not representable", vec!["C09"]);
                };
                match self.a.core.chans.get(&ica.channel).map(|c| c.state) {
                    Some(ASt::Open) => {}
                    _ => return err("channel is not open", vec!["C06"]),
                }
                if timeout <= self.tx_btime {
                    return err("timeout already elapsed on the counterparty", vec!["C09"]);
                }
                let mut e = ok(vec![Exp::Send { spec: Arc::new(s.clone()), chan: ica.channel.clone(), ica: ica.address.clone(), timeout }]);
                if let Expect::Ok { tags, .. } = &mut e {
                    *tags = vec!["C01"];
                    if !s.messages.is_empty() || s.queries.is_empty() {
                        tags.push("C07");
                    }
                    if !s.queries.is_empty() {
                        tags.extend(["C08", "C10"]);
                    }
                    if secs != 600 {
                        tags.push("C09");
                    }
                    if m.opened > 1 {
                        tags.push("C14");
                    }
                }
                e
            }
            XMsg::UpdateOwnership(_) => unreachable!("{addr}"),
        }
    }

    /// Applies the model transition of a call the contract accepted.
    fn apply(&mut self, addr: &str, entry: &Entry, expect: &Expect) {
        match entry {
            Entry::Instantiate { sender, msg, .. } => {
                let v: Value = serde_json::from_slice(msg).unwrap_or_default();
                let Ok(opts) = serde_json::from_value::<Opts>(v["channel_open_init_options"].clone()) else { return };
                let (name, version) = exec::stored_version(&self.a.contracts[addr].store).unwrap_or_default();
                if self.cur_version.is_none() && !name.is_empty() {
                    self.cur_version = Some((name.clone(), version.clone()));
                }
                let m = Model {
                    owner: v["owner"].as_str().map_or_else(|| sender.clone(), str::to_string),
                    pending: None,
                    expiry: None,
                    cb: v["send_callbacks_to"].as_str().map(str::to_string),
                    opts,
                    channel: None,
                    ica: None,
                    name,
                    version,
                    migrations: 0,
                    opened: 0,
                    former: BTreeSet::new(),
                };
                Arc::make_mut(&mut self.a.models).insert(addr.to_string(), Arc::new(m));
            }
            _ if matches!(expect, Expect::Err { .. }) || self.model(addr).is_none() => {}
            Entry::Execute { sender, msg, .. } => {
                let Ok(x) = serde_json::from_slice::<XMsg>(msg) else { return };
                let sender = sender.clone();
                let m = self.model_mut(addr);
                match x {
                    XMsg::CreateChannel { channel_open_init_options: Some(o) } => m.opts = o,
                    XMsg::UpdateCallbackAddress { callback_address } => m.cb = callback_address,
                    XMsg::UpdateOwnership(XAction::TransferOwnership { new_owner, expiry }) => {
                        m.pending = Some(new_owner);
                        m.expiry = expiry;
                    }
                    XMsg::UpdateOwnership(XAction::AcceptOwnership) => {
                        let old = std::mem::replace(&mut m.owner, sender);
                        m.former.insert(old);
                        m.pending = None;
                        m.expiry = None;
                    }
                    _ => {}
                }
            }
            Entry::Migrate { .. } => {
                let cur = self.cur_version.clone();
                let m = self.model_mut(addr);
                if let Some((_, v)) = cur {
                    m.version = v;
                }
                m.migrations += 1;
            }
            Entry::OpenAck { channel, version } => {
                if let Some((address, encoding)) = metadata_ok(version, &channel.connection_id) {
                    let mut ch = channel.clone();
                    ch.version.clone_from(version);
                    let m = self.model_mut(addr);
                    m.ica = Some(Ica { address, channel: ch.endpoint.channel_id.clone(), encoding });
                    m.channel = Some((ch, true));
                    m.opened += 1;
                }
            }
            Entry::CloseInit { channel, .. } | Entry::CloseConfirm { channel } => {
                let m = self.model_mut(addr);
                if let Some((c, open)) = &mut m.channel {
                    if c.endpoint == channel.endpoint {
                        *open = false;
                    }
                }
            }
            Entry::Timeout(t) => {
                let src = t.packet.src.clone();
                let m = self.model_mut(addr);
                if let Some((c, open)) = &mut m.channel {
                    if c.endpoint == src && c.order == IbcOrder::Ordered {
                        *open = false;
                    }
                }
            }
            _ => {}
        }
    }

    // ---------------------------------------------------------------- judging a call

    fn migrated(&self, ctl: &str) -> bool {
        self.model(ctl).is_some_and(|m| m.migrations > 0)
    }

    pub fn reopen_tags(&self, ctl: &str) -> &'static [&'static str] {
        if self.migrated(ctl) {
            &["C14", "C17"]
        } else {
            &["C14"]
        }
    }

    fn judge(&mut self, addr: &str, entry: &Entry, expect: &Expect, frame: &Frame, outcome: &Result<(), TxErr>, version: &Option<String>) {
        let name = entry.name();
        if let Entry::Ack(a) = entry {
            self.ev(&["C21"]);
            if let Some(e) = exec::ack_helpers(a.acknowledgement.data.as_slice()) {
                self.violate(&["C21"], "ack_helper", e);
            }
        }
        match expect {
            Expect::Ok { tags, .. } | Expect::Err { tags, .. } if !matches!(outcome, Err(TxErr::Oog)) => self.ev(tags),
            _ => {}
        }
        if matches!(outcome, Err(TxErr::Oog)) || frame.external_failed {
            self.ev(&["C13"]);
        }
        match (expect, outcome) {
            (Expect::Any, _) | (_, Err(TxErr::Oog)) => {}
            (Expect::Err { why, tags }, Ok(())) => {
                self.violate(tags, format!("accepted:{name}"), format!("{name} accepted although: {why}"));
            }
            (Expect::Err { .. }, Err(_)) => {}
            (Expect::Ok { effects, tags, event }, r) => {
                if frame.external_failed && r.is_ok() {
                    self.violate(&["C13"], format!("swallowed:{name}"), format!("{name} went through although the callback contract refused the callback"));
                }
                if let Err(TxErr::Fail(e)) = r {
                    if !frame.external_failed {
                        let mut tags = tags.clone();
                        if self.migrated(addr) {
                            tags.push("C17");
                        }
                        self.violate(&tags, format!("refused:{name}"), format!("{name} refused: {}", short(e)));
                    }
                }
                self.judge_effects(addr, entry, effects, frame, r.is_ok());
                if r.is_ok() {
                    self.judge_events(entry, event.as_ref(), frame);
                }
                if let (Entry::OpenInit { channel, .. }, Ok(())) = (entry, r) {
                    let v = version.clone().unwrap_or_else(|| channel.version.clone());
                    if !channel.version.is_empty() {
                        let a: Value = serde_json::from_str(&v).unwrap_or_default();
                        let b: Value = serde_json::from_str(&channel.version).unwrap_or_default();
                        if a != b {
                            self.violate(&["C16", "C04"], "init_version", format!("opening answered with version {v}"));
                        }
                    }
                }
            }
        }
        if matches!(expect, Expect::Err { .. } | Expect::Any) && outcome.is_ok() {
            self.judge_events(entry, None, frame);
        }
    }

    fn judge_events(&mut self, entry: &Entry, want: Option<&Value>, frame: &Frame) {
        if want.is_some() {
            self.ev(&["C20"]);
        }
        let got: Vec<Value> = frame
            .events
            .iter()
            .filter(|e| e.ty == "acknowledge_packet" || e.attributes.iter().any(|a| a.key == "packet_ack_base64" || a.key == "packet_sequence"))
            .map(|e| e.attributes.iter().map(|a| (a.key.clone(), Value::String(a.value.clone()))).collect::<serde_json::Map<_, _>>().into())
            .collect();
        let dup = frame.events.iter().any(|e| {
            let keys: BTreeSet<_> = e.attributes.iter().map(|a| &a.key).collect();
            e.ty == "acknowledge_packet" && keys.len() != e.attributes.len()
        });
        let want: Vec<Value> = want.cloned().into_iter().collect();
        let ty_ok = frame.events.iter().filter(|e| e.ty == "acknowledge_packet").count() == want.len();
        if got != want || dup || !ty_ok {
            self.violate(&["C20"], format!("event:{}", entry.name()), format!("acknowledgement events {} instead of {}", short(&json!(got).to_string()), short(&json!(want).to_string())));
        }
    }

    fn judge_effects(&mut self, addr: &str, entry: &Entry, want: &[Exp], frame: &Frame, complete: bool) {
        let name = entry.name();
        for (i, got) in frame.effects.iter().enumerate() {
            let Some(w) = want.get(i) else {
                let tags: Tags = match got {
                    Effect::Callback { .. } => vec!["C12"],
                    Effect::Send { .. } => vec!["C07", "C08"],
                    Effect::OpenInit(_) => vec!["C16", "C03"],
                    Effect::CloseInit(_) => vec!["C03", "C06"],
                    Effect::Other(_) => vec!["C01", "C12"],
                };
                self.violate(&tags, format!("extra:{name}"), format!("{name} did something nobody asked for: {}", short(&format!("{got:?}"))));
                continue;
            };
            match (w, got) {
                (Exp::OpenInit(o), Effect::OpenInit(r)) => {
                    self.ev(&["C16"]);
                    self.judge_open_init(addr, o, r);
                }
                (Exp::CloseInit(c), Effect::CloseInit(g)) => {
                    if c != g {
                        self.violate(&["C06"], "close_target", format!("asked to close {g}, current channel is {c}"));
                    }
                }
                (Exp::Send { spec, chan, ica, timeout }, Effect::Send { chan: gc, data, timeout: gt }) => {
                    if chan != gc {
                        self.violate(&["C07", "C08", "C06"], "send_channel", format!("packet sent on {gc}, current channel is {chan}"));
                    }
                    for (tags, m) in spec::check_packet(&spec.messages, &spec.queries, &spec.packet_memo, ica, data) {
                        self.violate(&tags, "packet_content", m);
                    }
                    self.ev(&["C07", "C09"]);
                    if crate::lean::available() && !self.dry {
                        self.judge_lean_packet(addr, spec, chan, ica, *timeout);
                    }
                    let ts = gt.timestamp().map(|t| t.nanos());
                    if ts != Some(*timeout) || gt.block().is_some() {
                        self.violate(&["C09"], "packet_timeout", format!("packet timeout {gt:?}, asked for {timeout} at block time {}", self.a.time));
                    }
                }
                (Exp::Callback { to, body, queries }, Effect::Callback { to: gto, msg, funds }) => {
                    if to != gto {
                        self.violate(&["C12"], "callback_target", format!("callback sent to {gto}, configured is {to}"));
                    }
                    if *funds > 0 {
                        self.violate(&["C12"], "callback_funds", "callback carries funds");
                    }
                    self.judge_callback(addr, &name, body, queries, msg);
                }
                (w, got) => {
                    let mut tags: Tags = vec![];
                    for t in [exp_tags(w), eff_tags(got)] {
                        tags.extend(t);
                    }
                    self.violate(&tags, format!("other_effect:{name}"), format!("{name} did {} instead of {}", short(&format!("{got:?}")), short(&format!("{w:?}"))));
                }
            }
        }
        if complete && frame.effects.len() < want.len() {
            for w in &want[frame.effects.len()..] {
                let tags = exp_tags(w);
                self.violate(&tags, format!("missing:{name}"), format!("{name} succeeded without {}", short(&format!("{w:?}"))));
            }
        }
    }

    fn judge_open_init(&mut self, addr: &str, o: &Opts, r: &OpenInitReq) {
        let mut bad = vec![];
        let mut ck = |what: &str, a: String, b: String| {
            if a != b {
                bad.push(format!("{what} is {b}, should be {a}"));
            }
        };
        ck("port", format!("wasm.{addr}"), r.port.clone());
        ck("connection", o.connection_id.clone(), r.conn.clone());
        ck("counterparty port", o.counterparty_port_id.clone().unwrap_or_else(|| "icahost".into()), r.cp_port.clone());
        ck("counterparty channel", String::new(), r.cp_chan.clone());
        ck("ordering", format!("{:?}", o.channel_ordering.clone().unwrap_or(IbcOrder::Ordered)), format!("{:?}", r.order));
        let want = json!({"version": "ics27-1", "controller_connection_id": o.connection_id, "host_connection_id": o.counterparty_connection_id,
            "address": "", "encoding": "proto3", "tx_type": "sdk_multi_msg"});
        let got: Value = serde_json::from_str(&r.version).unwrap_or(Value::Null);
        ck("version metadata", want.to_string(), got.to_string());
        for b in bad {
            self.violate(&["C16"], "open_init_content", b);
        }
    }

    fn judge_callback(&mut self, addr: &str, name: &str, body: &Value, queries: &QExp, msg: &[u8]) {
        let Ok(v) = serde_json::from_slice::<Value>(msg) else {
            self.violate(&["C12", "C22"], "callback_json", "callback is not JSON");
            return;
        };
        let got = strip_nulls(&v);
        self.ev(&["C12", "C22"]);
        match exec::decode_full(msg) {
            Ok(d) if strip_nulls(&d) == got => {}
            Ok(d) => self.violate(&["C22"], "decode_full", format!("{name}: a receiver using the macro understands {} from {}", short(&d.to_string()), short(&got.to_string()))),
            Err(e) => self.violate(&["C22"], "decode_full", format!("{name}: a receiver using the macro cannot decode the callback: {e}")),
        }
        if let Some(d) = crate::lean::decode(msg) {
            let mut want = got.clone();
            if let Some(o) = want.pointer_mut("/receive_ica_callback/on_acknowledgement_packet_callback").and_then(Value::as_object_mut) {
                o.remove("query_result");
            }
            match d {
                Ok(d) if strip_nulls(&d) == want => {}
                Ok(d) => self.violate(&["C22"], "decode_lean", format!("{name}: a receiver without query support understands {} from {}", short(&d.to_string()), short(&got.to_string()))),
                Err(e) => self.violate(&["C22"], "decode_lean", format!("{name}: a receiver without query support cannot decode the callback: {e}")),
            }
        }
        let want = strip_nulls(&json!({ "receive_ica_callback": body }));
        let variant = body.as_object().unwrap().keys().next().unwrap().clone();
        let inner = got.pointer(&format!("/receive_ica_callback/{variant}"));
        let Some(inner) = inner.and_then(Value::as_object) else {
            self.violate(&["C12", "C22"], "callback_kind", format!("{name}: callback is {}", short(&got.to_string())));
            return;
        };
        let winner = want.pointer(&format!("/receive_ica_callback/{variant}")).unwrap().as_object().unwrap();
        for (k, w) in winner {
            let g = inner.get(k);
            if g != Some(w) {
                let mut tags = vec!["C12"];
                if g.is_none() {
                    tags.push("C22");
                }
                self.violate(&tags, format!("callback_field:{k}"), format!("{name}: callback says {k} = {}, truth is {}", short(&format!("{:?}", g)), short(&w.to_string())));
            }
        }
        for k in inner.keys() {
            if !winner.contains_key(k) && !(k == "query_result" && !matches!(queries, QExp::NotApplicable)) {
                self.violate(&["C12", "C22"], format!("callback_field:{k}"), format!("{name}: callback carries an unknown field {k}"));
            }
        }
        let q = inner.get("query_result");
        match (queries, q) {
            (QExp::NotApplicable, _) | (QExp::None, None) => {}
            (QExp::None, Some(x)) => self.violate(&["C10", "C12"], "query_result_presence", format!("packet without queries reported a query result {}", short(&x.to_string()))),
            (_, None) => {
                let mut tags = vec!["C10", "C11", "C12"];
                if self.migrated(addr) {
                    tags.push("C17");
                }
                self.violate(&tags, "query_result_presence", "packet with queries reported no query result".to_string());
            }
            (QExp::Error(e), Some(x)) => match x.get("error").and_then(Value::as_str) {
                None => self.violate(&["C11", "C10", "C12"], "query_result_error", format!("query result should be an error, is {}", short(&x.to_string()))),
                Some(s) => {
                    if e.as_ref().is_some_and(|e| e != s) {
                        self.violate(&["C12"], "query_result_error", format!("host error {e:?} reported as {s:?}"));
                    }
                }
            },
            (QExp::Success { height, responses }, Some(x)) => {
                let w = strip_nulls(&json!({"success": {"height": height, "responses": responses}}));
                if *x != w {
                    let n = x.pointer("/success/responses").and_then(Value::as_array).map(Vec::len);
                    let mut detail = format!("{} instead of {}", short(&x.to_string()), short(&w.to_string()));
                    if n == Some(responses.len()) {
                        for (i, r) in responses.iter().enumerate() {
                            let g = &x["success"]["responses"][i];
                            if *g != strip_nulls(r) {
                                detail = format!("response {i} is {}, host answered {}", short(&g.to_string()), short(&strip_nulls(r).to_string()));
                                break;
                            }
                        }
                    }
                    let mut tags = vec!["C11", "C10", "C12"];
                    if self.migrated(addr) {
                        tags.push("C17");
                    }
                    self.violate(&tags, "query_result_value", detail);
                }
            }
        }
    }

    /// The same messages put into a packet by a contract that uses the library by itself.
    fn judge_lean_packet(&mut self, addr: &str, s: &SendSpec, chan: &str, ica: &str, timeout: u64) {
        if s.messages.is_empty() {
            return;
        }
        self.ev(&["C21"]);
        let refused = s.messages.iter().any(|m| matches!(m, CosmosMsg::Staking(_) | CosmosMsg::Distribution(_)));
        match crate::lean::packet(&self.env(addr), &s.messages, &s.packet_memo, ica, chan, s.timeout_seconds) {
            Err(_) if refused => {}
            Err(e) => self.violate(&["C21"], "lean_packet", format!("packet without query support cannot be built: {}", short(&e))),
            Ok(_) if refused => self.violate(&["C21"], "lean_packet", "a packet was built from staking messages without staking support"),
            Ok(cosmwasm_std::IbcMsg::SendPacket { channel_id, data, timeout: t }) => {
                if channel_id != chan || t.timestamp().map(|t| t.nanos()) != Some(timeout) || t.block().is_some() {
                    self.violate(&["C21"], "lean_packet", format!("packet for {chan} until {timeout} is sent on {channel_id} until {t:?}"));
                }
                for (_, m) in spec::check_packet(&s.messages, &[], &s.packet_memo, ica, &data) {
                    self.violate(&["C21"], "lean_packet", m);
                }
            }
            Ok(m) => self.violate(&["C21"], "lean_packet", format!("packet became {}", short(&format!("{m:?}")))),
        }
    }

    /// A real receiver contract got a callback: it must have understood it.
    #[allow(clippy::too_many_arguments)]
    fn judge_receiver(&mut self, kind: Kind, contract: &str, sender: &str, msg: &[u8], r: &Result<Vec<SubMsg>, String>, before: &Arc<Map>, after: &Arc<Map>) {
        let v: Value = serde_json::from_slice(msg).unwrap_or_default();
        let sent = strip_nulls(&v["receive_ica_callback"]);
        let _ = contract;
        match kind {
            Kind::Counter => {
                if let Err(e) = r {
                    self.violate(&["C22"], "receiver_refused", format!("callback-counter refused a callback: {}", short(e)));
                    return;
                }
                let count = |m: &Arc<Map>| exec::counter_lists(m);
                if r.as_ref().is_ok_and(|m| !m.is_empty()) {
                    self.violate(&["C22"], "receiver_messages", format!("a callback made callback-counter send {}", short(&format!("{r:?}"))));
                }
                let (b, a) = (count(before), count(after));
                let ty = if sent.get("on_timeout_packet_callback").is_some() {
                    "timeout"
                } else if sent.pointer("/on_acknowledgement_packet_callback/ica_acknowledgement/result").is_some() {
                    "success"
                } else if sent.pointer("/on_acknowledgement_packet_callback/ica_acknowledgement/error").is_some() {
                    "error"
                } else {
                    ""
                };
                for k in ["success", "error", "timeout"] {
                    let (x, y) = (b[k].as_array().map_or(0, Vec::len), a[k].as_array().map_or(0, Vec::len));
                    let want = x + usize::from(k == ty);
                    let same = y >= x && (0..x).all(|i| a[k][i] == b[k][i]);
                    if y != want || !same {
                        self.violate(&["C22"], "receiver_count", format!("callback-counter {k} went from {x} to {y} on a {ty} callback"));
                    } else if k == ty {
                        let last = strip_nulls(a[k].as_array().unwrap().last().unwrap());
                        if last != sent {
                            self.violate(&["C22"], "receiver_content", format!("callback-counter understood {} from {}", short(&last.to_string()), short(&sent.to_string())));
                        }
                    }
                }
            }
            Kind::Owner => {
                let known = self.a.reg.iter().position(|x| x.0 == sender);
                match r {
                    Err(e) if known.is_some() => self.violate(&["C22"], "receiver_refused", format!("feature-lean owner contract refused a callback: {}", short(e))),
                    Err(_) => {}
                    Ok(_) => {
                        if let Some(o) = sent.get("on_channel_open_ack_callback") {
                            if let Some(m) = known.and_then(|id| crate::lean::open_mismatch(&self.env(contract), after, id, o)) {
                                self.violate(&["C22"], "receiver_content", m);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }

    /// One call to the owner contract, against the registry it should keep.
    fn judge_owner(&mut self, contract: &str, sender: &str, msg: &[u8], r: &Result<Vec<SubMsg>, String>, after: &Arc<Map>) {
        const T: &[&str] = &["C24"];
        self.ev(&["C24"]);
        let admin = self.addr(&AddrRef::User(0));
        let v: Value = serde_json::from_slice(msg).unwrap_or_default();
        let one = |r: &[SubMsg]| -> Option<CosmosMsg> {
            match r {
                [s] if s.reply_on == cosmwasm_std::ReplyOn::Never => Some(s.msg.clone()),
                _ => None,
            }
        };
        if let Some(c) = v.get("create_ica_contract") {
            match r {
                Ok(_) if sender != admin => self.violate(T, "owner_create_auth", format!("{sender} created a controller through the owner contract of {admin}")),
                Err(_) => {}
                Ok(m) => {
                    let opts = strip_nulls(&c["channel_open_init_options"]);
                    let ok = match one(m) {
                        Some(CosmosMsg::Wasm(WasmMsg::Instantiate2 { admin: a, code_id, label, msg, funds, salt })) => {
                            let b: Value = serde_json::from_slice(&msg).unwrap_or_default();
                            a.as_deref() == Some(contract)
                                && code_id == self.cfg.code_id
                                && !label.is_empty()
                                && funds.is_empty()
                                && c["salt"].as_str().map_or(true, |s| s.as_bytes() == salt.as_slice())
                                && b["owner"] == json!(contract)
                                && b["send_callbacks_to"] == json!(contract)
                                && strip_nulls(&b["channel_open_init_options"]) == opts
                        }
                        _ => false,
                    };
                    if !ok {
                        self.violate(T, "owner_create_msg", format!("creation {} became {}", short(&v.to_string()), short(&format!("{m:?}"))));
                    }
                    let n = self.a.reg.len();
                    match crate::lean::ctl_of(&self.env(contract), after, n as u64) {
                        Some(a) => Arc::make_mut(&mut self.a.reg).push((a, Value::Null)),
                        None => self.violate(T, "owner_registry", format!("controller {n} was created but is not listed")),
                    }
                }
            }
        } else if let Some(c) = v.get("send_predefined_action") {
            let target = c["ica_id"].as_u64().and_then(|i| self.a.reg.get(i as usize)).map(|x| x.0.clone());
            match (r, target) {
                (Ok(_), _) if sender != admin => self.violate(T, "owner_send_auth", format!("{sender} directed a controller of {admin}")),
                (Ok(m), None) => self.violate(T, "owner_send_unknown", format!("unknown controller {}: {}", c["ica_id"], short(&format!("{m:?}")))),
                (Err(e), Some(_)) if sender == admin => self.violate(T, "owner_send_refused", format!("the admin's action was refused: {}", short(e))),
                (Err(_), _) => {}
                (Ok(m), Some(t)) => {
                    let want = json!({"send_cosmos_msgs": {"messages": [{"bank": {"send": {"to_address": c["to_address"], "amount": [{"denom": "stake", "amount": "100"}]}}}]}});
                    let ok = match one(m) {
                        Some(CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds })) => {
                            let b: Value = serde_json::from_slice(&msg).unwrap_or_default();
                            let mut b = strip_nulls(&b);
                            if b.pointer("/send_cosmos_msgs/queries") == Some(&json!([])) {
                                b["send_cosmos_msgs"].as_object_mut().unwrap().remove("queries");
                            }
                            contract_addr == t && funds.is_empty() && b == want
                        }
                        _ => false,
                    };
                    if !ok {
                        self.violate(T, "owner_send_msg", format!("action on {t} became {}", short(&format!("{m:?}"))));
                    }
                }
            }
        } else if let Some(c) = v.get("receive_ica_callback") {
            let id = self.a.reg.iter().position(|x| x.0 == sender);
            match (r, id) {
                (Err(_), None) => {}
                (Err(e), Some(_)) => self.violate(T, "owner_callback_refused", format!("callback of its own controller refused: {}", short(e))),
                (Ok(_), None) => self.violate(T, "owner_callback_auth", format!("accepted a callback from {sender}, which it does not own")),
                (Ok(m), Some(id)) => {
                    if !m.is_empty() {
                        self.violate(T, "owner_callback_msgs", format!("a callback made it send {}", short(&format!("{m:?}"))));
                    }
                    if let Some(o) = c.get("on_channel_open_ack_callback") {
                        let s = json!({
                            "ica_id": id, "ica_addr": o["ica_address"], "tx_encoding": o["tx_encoding"],
                            "channel_state": {"channel": o["channel"], "channel_status": "STATE_OPEN"},
                        });
                        Arc::make_mut(&mut self.a.reg)[id].1 = s;
                    }
                }
            }
        } else if r.is_ok() {
            self.violate(T, "owner_unknown_msg", format!("accepted {}", short(&v.to_string())));
        }
        if r.is_ok() {
            self.check_registry(contract, after);
        }
    }

    /// What the owner contract answers must be what it was told.
    fn check_registry(&mut self, contract: &str, store: &Arc<Map>) {
        const T: &[&str] = &["C24"];
        self.ev(&["C24"]);
        let n = self.a.reg.len();
        let q = match crate::lean::registry(&self.env(contract), store, n + 2) {
            Ok(q) => q,
            Err(e) => {
                self.violate(T, "owner_query", format!("owner contract cannot answer: {}", short(&e)));
                return;
            }
        };
        let admin = self.addr(&AddrRef::User(0));
        if q["state"] != json!({"admin": admin, "ica_controller_code_id": self.cfg.code_id}) {
            self.violate(T, "owner_state", format!("owner contract reports {}, was created for {admin} and code {}", q["state"], self.cfg.code_id));
        }
        if q["count"] != json!(n) && !(n == 0 && q["count"].is_null()) {
            self.violate(T, "owner_count", format!("owner contract reports {} controllers, {n} were created", q["count"]));
        }
        for i in 0..n + 2 {
            let want = match self.a.reg.get(i) {
                Some((a, s)) => strip_nulls(&json!({"contract_addr": a, "ica_state": s})),
                None => Value::Null,
            };
            let got = strip_nulls(&q["icas"][i]);
            if got != want {
                self.violate(T, "owner_registry", format!("controller {i} is listed as {}, should be {}", short(&got.to_string()), short(&want.to_string())));
            }
        }
    }

    // ---------------------------------------------------------------- state checks

    pub fn check_state(&mut self) {
        for ctl in self.ctls.clone() {
            self.check_ctl(&ctl);
        }
        if self.has_owner {
            let contract = self.addr(&AddrRef::Owner);
            let store = self.a.contracts[&contract].store.clone();
            self.check_registry(&contract, &store);
            for (i, (ctl, s)) in self.a.reg.clone().iter().enumerate() {
                let Some(m) = self.model(ctl) else {
                    self.violate(&["C24"], "owner_registry", format!("controller {i} is listed as {ctl}, where there is none"));
                    continue;
                };
                if m.cb.as_ref() != Some(&contract) || m.owner != contract {
                    continue;
                }
                // its record is the controller's last opening
                let a = m.ica.as_ref().map(|x| (json!(x.channel), json!(x.address)));
                let b = if s.is_null() { None } else { Some((s["channel_state"]["channel"]["endpoint"]["channel_id"].clone(), s["ica_addr"].clone())) };
                if a != b {
                    self.violate(&["C24", "C12"], "owner_account", format!("controller {i} has account {a:?}, its owner contract knows {b:?}"));
                }
            }
        }
    }

    pub fn check_ctl(&mut self, ctl: &str) {
        let Some(m) = self.model(ctl) else { return };
        let q = |w: &Self, k: &str| {
            exec::query(&w.api, &w.env(ctl), &w.a.contracts, w.cfg.code_id, ctl, &serde_json::to_vec(&json!({ k: {} })).unwrap())
        };
        // channel
        let got = q(self, "get_channel");
        match (&m.channel, &got) {
            (None, Err(_)) => {}
            (None, Ok(v)) => self.violate(&["C18", "C06"], "query_channel", format!("reports a channel before the first opening: {}", short(&v.to_string()))),
            (Some(_), Err(e)) => self.violate(&["C18", "C06"], "query_channel", format!("channel query failed: {e}")),
            (Some((c, open)), Ok(v)) => {
                let st = if *open { "STATE_OPEN" } else { "STATE_CLOSED" };
                if v["channel_status"] != json!(st) {
                    self.violate(&["C06", "C18"], "channel_status", format!("channel {} reported {}, history says {st}", c.endpoint.channel_id, v["channel_status"]));
                }
                let want = serde_json::to_value(c).unwrap();
                if v["channel"] != want {
                    let mut tags = vec!["C18"];
                    if v["channel"]["endpoint"] != want["endpoint"] {
                        tags.extend(["C05", "C06"]);
                    } else {
                        tags.push("C04");
                    }
                    if m.migrations > 0 {
                        tags.push("C17");
                    }
                    self.violate(&tags, "channel_record", format!("channel reported {}, history says {}", short(&v["channel"].to_string()), short(&want.to_string())));
                }
            }
        }
        self.ev(&["C18", "C19"]);
        if m.channel.is_some() {
            self.ev(&["C06", "C05"]);
        }
        if self.cfg.helper_queries {
            self.ev(&["C21"]);
            let h = exec::helper_queries(&self.api, &self.env(ctl), &self.a.contracts, self.cfg.code_id, ctl);
            for (k, hv) in ["get_channel", "get_contract_state", "ownership"].into_iter().zip(h) {
                match (q(self, k), hv) {
                    (Ok(a), Ok(b)) if strip_nulls(&a) == strip_nulls(&b) => {}
                    (Err(_), Err(_)) => {}
                    (a, b) => self.violate(&["C21"], "helper_query", format!("{k} through the helper gives {}, the contract says {}", short(&format!("{b:?}")), short(&format!("{a:?}")))),
                }
            }
        }
        // contract state
        match q(self, "get_contract_state") {
            Err(e) => self.violate(&["C18"], "query_state", format!("state query failed: {e}")),
            Ok(v) => {
                let ica = m.ica.as_ref().map_or(Value::Null, |i| json!({"ica_address": i.address, "channel_id": i.channel, "encoding": i.encoding}));
                if v["ica_info"] != ica {
                    let mut tags = vec!["C18", "C04"];
                    if m.opened > 1 {
                        tags.extend(["C05", "C14"]);
                    }
                    if m.migrations > 0 {
                        tags.push("C17");
                    }
                    self.violate(&tags, "ica_info", format!("account info reported {}, history says {ica}", v["ica_info"]));
                }
                let cb = m.cb.as_ref().map_or(Value::Null, |s| json!(s));
                if v["callback_address"] != cb {
                    let mut tags = vec!["C18", "C12"];
                    if m.migrations > 0 {
                        tags.push("C17");
                    }
                    self.violate(&tags, "callback_address", format!("callback address reported {}, history says {cb}", v["callback_address"]));
                }
            }
        }
        // ownership
        match q(self, "ownership") {
            Err(e) => self.violate(&["C18", "C02"], "query_ownership", format!("ownership query failed: {e}")),
            Ok(v) => {
                let want = strip_nulls(&json!({"owner": m.owner, "pending_owner": m.pending, "pending_expiry": m.expiry}));
                if strip_nulls(&v) != want {
                    let mut tags = vec!["C02", "C18"];
                    if m.migrations > 0 {
                        tags.push("C17");
                    }
                    self.violate(&tags, "ownership", format!("ownership reported {v}, history says {want}"));
                }
            }
        }
        // the chain's view
        let core = self.a.core.clone();
        let open: Vec<&String> = core.chans.iter().filter(|(_, c)| c.ctl == ctl && c.state == ASt::Open).map(|(i, _)| i).collect();
        if open.len() > 1 {
            self.violate(&["C05"], "two_open", format!("channels {open:?} are open at once"));
        }
        if let Ok(v) = &got {
            let says_open = v["channel_status"] == json!("STATE_OPEN");
            let id = v["channel"]["endpoint"]["channel_id"].as_str().unwrap_or_default();
            let chain_open = core.chans.get(id).is_some_and(|c| c.state == ASt::Open);
            if says_open != chain_open {
                self.violate(&["C06"], "chain_disagrees", format!("controller says {id} is {}, the chain says {}", v["channel_status"], if chain_open { "open" } else { "not open" }));
            }
        }
        // footprint
        let store = self.a.contracts[ctl].store.clone();
        let keys = store.len();
        let bytes: usize = store.iter().map(|(k, v)| k.len() + v.len()).sum();
        let mut out = 0usize;
        let mut out_bytes = 0usize;
        for p in core.packets.values() {
            if p.ctl == ctl && p.st == PSt::InFlight && !p.queries.is_empty() {
                out += 1;
                out_bytes += 200 + p.packet.data.len() + 120 * p.queries.len();
            }
        }
        // what the contract legitimately remembers may itself be long (channel version, options)
        let seen = m.channel.as_ref().map_or(0, |c| serde_json::to_string(&c.0).unwrap().len())
            + m.ica.as_ref().map_or(0, |i| i.address.len() + i.channel.len() + i.encoding.len())
            + serde_json::to_string(&m.opts).unwrap().len();
        if keys > 9 + out || bytes > 4000 + out_bytes + 2 * seen {
            self.violate(&["C19"], "footprint", format!("{keys} keys, {bytes} bytes stored with {out} query packets unresolved"));
        }
        if out == 0 && !self.dry {
            // no query packet is unresolved: none of the queries may still be remembered
            let left = store.iter().find(|(k, v)| [k, v].iter().any(|x| x.windows(6).any(|y| y == b"Query/")));
            // the same observable state must not take more and more space
            let shape = json!([ctl, m.cb, m.ica.is_some(), m.owner, m.pending, m.version, m.name]).to_string();
            let lens = json!([
                m.ica.as_ref().map_or(0, |i| i.address.len() + i.channel.len() + i.encoding.len()),
                m.channel.as_ref().map_or(0, |c| serde_json::to_string(&c.0).unwrap().len()),
                serde_json::to_string(&m.expiry).unwrap().len(),
                serde_json::to_string(&m.opts).unwrap().len(),
                m.channel.as_ref().map(|c| c.1),
            ])
            .to_string();
            let mut h = fnv(lens.as_bytes(), fnv(shape.as_bytes(), FNV0));
            for k in store.keys() {
                h = fnv(k, h);
            }
            let least = self.quiet.entry(h).or_insert(bytes);
            *least = (*least).min(bytes);
            let least = *least;
            if bytes > least + 32 {
                self.violate(&["C19"], "footprint_growth", format!("{bytes} bytes stored where {least} sufficed for the same state earlier"));
            }
            if let Some((k, v)) = left {
                self.violate(&["C19"], "query_left_behind", format!("no query packet is unresolved, yet {} holds {}", short(&String::from_utf8_lossy(k)), short(&String::from_utf8_lossy(v))));
            }
        }
        // version record
        if let Some((n, v)) = exec::stored_version(&store) {
            if (n.clone(), v.clone()) != (m.name.clone(), m.version.clone()) {
                self.violate(&["C17"], "version_record", format!("stored version {n} {v}, should be {} {}", m.name, m.version));
            }
        }
        if !self.dry {
            let abs = format!(
                "{}{}{:?}{}{}{}{}{}",
                m.channel.as_ref().map_or(0, |c| 1 + u8::from(c.1)),
                m.opened.min(4),
                m.channel.as_ref().map(|c| c.0.order.clone()),
                m.pending.is_some(),
                m.cb.is_some(),
                m.migrations.min(2),
                core.chans.values().filter(|c| c.ctl == ctl && c.state == ASt::Init).count().min(3),
                {
                    let mut a = [0u8; 3];
                    for p in core.packets.values().filter(|p| p.ctl == ctl) {
                        let i = match (p.st, p.queries.is_empty()) {
                            (PSt::InFlight, true) => 0,
                            (PSt::InFlight, false) => 1,
                            _ => 2,
                        };
                        a[i] = (a[i] + 1).min(4);
                    }
                    format!("{a:?}")
                }
            );
            let h = fnv(abs.as_bytes(), FNV0);
            self.states.insert(h);
            self.hash = fnv(&h.to_le_bytes(), self.hash);
            for (k, v) in store.iter() {
                self.hash = fnv(v, fnv(k, self.hash));
            }
        }
    }

    // ---------------------------------------------------------------- steps

    /// Applies a step. Returns whether it was applicable.
    pub fn apply_step(&mut self, step: &Step) -> bool {
        self.note(|| format!("{}", serde_json::to_string(step).unwrap()));
        let done = self.apply_inner(step);
        if !self.dry {
            self.hash = fnv(step.kind().as_bytes(), fnv(&[u8::from(done)], self.hash));
        }
        if done {
            self.check_state();
            if self.cfg.battery > 0 && !matches!(step, Step::Settle) {
                self.battery();
            }
        }
        self.step_no += 1;
        done
    }

    /// A step taken while settling: judged, with the state checks, without look-ahead.
    pub fn settle_step(&mut self, step: &Step) -> bool {
        self.note(|| format!("  settle: {}", serde_json::to_string(step).unwrap()));
        let done = self.apply_inner(step);
        if done {
            self.check_state();
        }
        done
    }

    pub fn reported_account(&self, ctl: &str) -> Option<String> {
        let v = exec::query(&self.api, &self.env(ctl), &self.a.contracts, self.cfg.code_id, ctl, b"{\"get_contract_state\":{}}").ok()?;
        v["ica_info"]["ica_address"].as_str().map(str::to_string)
    }

    fn apply_inner(&mut self, step: &Step) -> bool {
        match step {
            Step::Deploy { via, by, owner, cb, opts, admin, label, oog } => self.deploy(via, by, owner, cb, opts, admin, label, *oog),
            Step::Exec { ctl, by, msg, helper, oog } => {
                let Some(c) = self.ctls.get(*ctl as usize).cloned() else { return false };
                let sender = self.addr(by);
                if oog.is_some() {
                    self.stat("gas_limit_set");
                }
                if *helper {
                    self.ev(&["C21"]);
                    match exec::helper_execute(&c, &msg.to_vec()) {
                        Err(e) => {
                            self.violate(&["C21"], "helper_execute", format!("helper cannot build {}: {e}", msg.kind()));
                        }
                        Ok(CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg: built, funds })) => {
                            let a = strip_nulls(&serde_json::from_slice(&built).unwrap_or_default());
                            let b = strip_nulls(&serde_json::to_value(msg).unwrap());
                            if contract_addr != c || !funds.is_empty() || a != b {
                                self.violate(&["C21"], "helper_execute", format!("helper built {} to {contract_addr}, asked {} to {c}", short(&a.to_string()), short(&b.to_string())));
                            }
                            let _ = self.deliver(&ATx::Exec { sender, contract: contract_addr, msg: built.to_vec() }, *oog);
                        }
                        Ok(o) => self.violate(&["C21"], "helper_execute", format!("helper built {}", short(&format!("{o:?}")))),
                    }
                } else {
                    let _ = self.deliver(&ATx::Exec { sender, contract: c, msg: msg.to_vec() }, *oog);
                }
                true
            }
            Step::OwnerSend { by, ica_id, to } => {
                if !self.has_owner {
                    return false;
                }
                let sender = self.addr(by);
                let contract = self.addr(&AddrRef::Owner);
                let msg = json!({"send_predefined_action": {"ica_id": ica_id, "to_address": to}});
                let before: usize = self.a.core.packets.len();
                let r = self.deliver(&ATx::Exec { sender: sender.clone(), contract: contract.clone(), msg: msg.to_string().into_bytes() }, None);
                let target = self.a.reg.get(*ica_id as usize).map(|x| x.0.clone());
                if let Some(t) = target {
                    let can = self.model(&t).is_some_and(|m| {
                        m.owner == contract
                            && m.ica.as_ref().is_some_and(|i| i.encoding == "proto3" && self.a.core.chans.get(&i.channel).is_some_and(|c| c.state == ASt::Open))
                            && self.a.time + 600_000_000_000 > self.b.time
                    });
                    if can && sender == self.addr(&AddrRef::User(0)) {
                        let n = self.a.core.packets.len();
                        if r.is_err() || n != before + 1 {
                            self.violate(&["C22"], "lean_send", format!("send built by a feature-lean owner contract: {}", short(&format!("{r:?}"))));
                        } else {
                            // the one new packet
                            let c = self.model(&t).unwrap().ica.clone().unwrap();
                            let seq = self.a.core.chans[&c.channel].next_send - 1;
                            let data = self.a.core.packets[&(c.channel.clone(), seq)].packet.data.clone();
                            let want = CosmosMsg::Bank(cosmwasm_std::BankMsg::Send { to_address: to.clone(), amount: vec![cosmwasm_std::coin(100, "stake")] });
                            for (_, m) in spec::check_packet(&[want], &[], &None, &c.address, &data) {
                                self.violate(&["C22"], "lean_send", m);
                            }
                        }
                    }
                }
                true
            }
            Step::OwnerRaw { by, msg } => {
                if !self.has_owner {
                    return false;
                }
                let sender = self.addr(by);
                let contract = self.addr(&AddrRef::Owner);
                let _ = self.deliver(&ATx::Exec { sender, contract, msg: msg.clone().into_bytes() }, None);
                true
            }
            Step::Batch { probe, items, fail } => {
                let contract = self.addr(&AddrRef::Probe(*probe));
                let msg = json!({"run": {"msgs": self.items(items), "fail": fail}});
                let sender = self.addr(&AddrRef::User(0));
                let _ = self.deliver(&ATx::Exec { sender, contract, msg: msg.to_string().into_bytes() }, None);
                true
            }
            Step::Mode { probe, mode } => {
                self.commit();
                Arc::make_mut(&mut self.a.probes)[(*probe % 3) as usize].mode = mode.clone();
                self.commit();
                true
            }
            Step::Migrate { ctl, by, helper, legacy } => {
                let Some(c) = self.ctls.get(*ctl as usize).cloned() else { return false };
                if let Some(l) = legacy {
                    self.quiet.clear();
                    self.make_legacy(&c, l);
                }
                let sender = self.addr(by);
                let code = self.cfg.code_id + 1;
                let msg = if *helper {
                    match exec::helper_migrate(&c, code) {
                        Ok(m) => m,
                        Err(e) => {
                            self.violate(&["C21"], "helper_migrate", e);
                            return true;
                        }
                    }
                } else {
                    CosmosMsg::Wasm(WasmMsg::Migrate { contract_addr: c.clone(), new_code_id: code, msg: Binary::from(b"{}") })
                };
                let before = self.a.contracts[&c].code_id;
                let is_admin = self.a.contracts[&c].admin.as_deref() == Some(sender.as_str());
                let want = is_admin && matches!(self.expect(&c, &Entry::Migrate { msg: vec![] }), Expect::Ok { .. });
                let fore = if want { self.foretell(&c) } else { vec![] };
                let r = self.deliver(&ATx::Msg { sender, msg }, None);
                if want && r.is_ok() {
                    self.ev(&["C17"]);
                    for (a, b) in fore.into_iter().zip(self.foretell(&c)) {
                        if a != b {
                            self.violate(&["C17", "C10", "C15"], "migration_changes_packet", format!("in-flight packet would have been processed as {}, after the migration as {}", short(&a), short(&b)));
                            break;
                        }
                    }
                }
                if *helper && want && (r.is_err() || self.a.contracts[&c].code_id != code) {
                    self.violate(&["C21"], "helper_migrate", format!("helper-built migration had no effect (code id {before})"));
                }
                true
            }
            Step::Admin { ctl, by, to } => {
                let Some(c) = self.ctls.get(*ctl as usize).cloned() else { return false };
                let sender = self.addr(by);
                self.ev(&["C21"]);
                let msg = exec::helper_admin(&c, to.as_deref());
                let is_admin = self.a.contracts[&c].admin.as_deref() == Some(sender.as_str());
                let valid = to.as_ref().map_or(true, |a| self.valid_addr(a));
                let others: Vec<_> = self.a.contracts.iter().filter(|(k, _)| **k != c).map(|(k, v)| (k.clone(), v.admin.clone())).collect();
                let r = self.deliver(&ATx::Msg { sender, msg }, None);
                if is_admin && valid && (r.is_err() || self.a.contracts[&c].admin != *to) {
                    self.violate(&["C21"], "helper_admin", format!("helper-built admin change left admin {:?}, asked {to:?}", self.a.contracts[&c].admin));
                }
                for (k, v) in others {
                    if self.a.contracts[&k].admin != v {
                        self.violate(&["C21"], "helper_admin", "helper-built admin change hit another contract");
                    }
                }
                true
            }
            Step::Rogue { kind, ctl, rly, chan } => self.rogue(kind, *ctl, *rly, chan),
            Step::Try { chan, meta } => {
                let Some(c) = self.a.core.chans.get(chan).cloned() else { return false };
                if c.state != ASt::Init {
                    return false;
                }
                let Some((_, b_conn)) = self.cfg.conns.iter().find(|x| x.0 == c.conn).cloned() else { return false };
                let req = TryReq {
                    a_chan: chan.clone(),
                    a_port: format!("wasm.{}", c.ctl),
                    a_conn: c.conn.clone(),
                    b_conn,
                    cp_port: c.cp_port.clone(),
                    order: c.order.clone(),
                    version: c.version.clone(),
                };
                if *meta != Meta::Valid {
                    self.stat("bad_metadata");
                }
                let cfg = self.cfg.clone();
                self.b.open_try(req, meta, &cfg).is_ok()
            }
            Step::OpenAck { bchan, rly: _, oog } => {
                let Some(b) = self.b.chans.get(bchan).cloned() else { return false };
                if b.state != BState::TryOpen {
                    return false;
                }
                let r = self.deliver(&ATx::OpenAck { chan: b.a_chan, bchan: bchan.clone(), version: b.version }, *oog);
                r.is_ok() || !self.dry
            }
            Step::Confirm { bchan } => {
                let Some(b) = self.b.chans.get(bchan) else { return false };
                let ok = b.state == BState::TryOpen && self.a.core.chans.get(&b.a_chan).is_some_and(|c| c.state != ASt::Init && c.cp_chan == *bchan);
                if ok {
                    self.b.confirm(bchan);
                }
                ok
            }
            Step::HostClose { bchan } => {
                let Some(b) = self.b.chans.get_mut(bchan) else { return false };
                if b.state != BState::Open {
                    return false;
                }
                b.state = BState::Closed;
                self.stat("host_close");
                true
            }
            Step::CloseConfirmB { bchan } => {
                let Some(b) = self.b.chans.get_mut(bchan) else { return false };
                let a = self.a.core.chans.get(&b.a_chan);
                if b.state == BState::Closed || !a.is_some_and(|c| c.state == ASt::Closed && c.cp_chan == *bchan) {
                    return false;
                }
                b.state = BState::Closed;
                true
            }
            Step::CloseConfirmA { chan, rly: _, oog } => {
                let Some(c) = self.a.core.chans.get(chan) else { return false };
                if c.state == ASt::Init || !self.b.chans.get(&c.cp_chan).is_some_and(|b| b.state == BState::Closed && b.a_chan == *chan) {
                    return false;
                }
                let _ = self.deliver(&ATx::CloseConfirm { chan: chan.clone() }, *oog);
                true
            }
            Step::Recv { chan, seq, host } => {
                let Some(p) = self.a.core.packets.get(&(chan.clone(), *seq)).cloned() else { return false };
                let bch = p.packet.dest.channel_id.clone();
                let Some(b) = self.b.chans.get(&bch) else { return false };
                let ts = p.packet.timeout.timestamp().map_or(u64::MAX, |t| t.nanos());
                if b.state != BState::Open || p.st == PSt::TimedOut || self.b.time >= ts || self.b.received.contains(&(bch.clone(), *seq)) {
                    return false;
                }
                if b.order == IbcOrder::Ordered && b.next_recv != *seq {
                    return false;
                }
                match host {
                    HostDo::Normal => {}
                    HostDo::Fail(_) => self.stat("host_error"),
                    HostDo::RawResult(_) => self.stat("odd_result"),
                    _ => self.stat("bad_query_response"),
                }
                let cfg = self.cfg.clone();
                self.b.recv(&bch, *seq, &p.packet.data, host, &cfg);
                true
            }
            Step::Ack { chan, seq, rly, oog } => {
                let Some(p) = self.a.core.packets.get(&(chan.clone(), *seq)).cloned() else { return false };
                let Some(rec) = self.b.recs.get(&(p.packet.dest.channel_id.clone(), *seq)).cloned() else { return false };
                if p.st != PSt::InFlight {
                    self.stat("duplicate_relay");
                }
                self.order_stats(chan, *seq, &p.ctl);
                let rly = self.rly(*rly);
                let _ = self.deliver(&ATx::Ack { chan: chan.clone(), seq: *seq, ack: rec.ack, rly }, *oog);
                true
            }
            Step::Timeout { chan, seq, rly, on_close, oog } => {
                if !self.can_timeout(chan, *seq, *on_close) {
                    return false;
                }
                let p = self.a.core.packets[&(chan.clone(), *seq)].clone();
                if p.st != PSt::InFlight {
                    self.stat("duplicate_relay");
                }
                self.stat(if *on_close { "timeout_on_close" } else { "packet_lost_or_late" });
                self.order_stats(chan, *seq, &p.ctl);
                let rly = self.rly(*rly);
                let _ = self.deliver(&ATx::Timeout { chan: chan.clone(), seq: *seq, rly }, *oog);
                true
            }
            Step::AdvA { dt, blocks } => {
                self.commit();
                self.a.time = self.a.time.saturating_add(*dt).min(u64::MAX / 4);
                self.a.height += (*blocks).max(1);
                if *dt > 3_600_000_000_000 {
                    self.stat("clock_jump");
                }
                self.commit();
                true
            }
            Step::Elsewhere { a, b } => {
                self.commit();
                self.core_mut().next_chan += a;
                self.b.next_chan += b;
                self.commit();
                true
            }
            Step::AdvB { dt } => {
                self.b.time = self.b.time.saturating_add(*dt).min(u64::MAX / 4);
                self.b.height += 1;
                if *dt > 3_600_000_000_000 {
                    self.stat("clock_jump");
                }
                true
            }
            Step::Crash => {
                self.crash();
                true
            }
            Step::Settle => {
                crate::settle::settle(self);
                true
            }
        }
    }

    /// What the controller would do now with each resolution of each of its in-flight packets.
    fn foretell(&mut self, ctl: &str) -> Vec<String> {
        let store = self.a.contracts[ctl].store.clone();
        let env = self.env(ctl);
        let rly = Addr::unchecked(self.rly(0));
        let mut v = vec![];
        let flying: Vec<_> = self.a.core.packets.values().filter(|p| p.ctl == ctl && p.st == PSt::InFlight).take(6).cloned().collect();
        for p in flying {
            let pk = &p.packet;
            let key = (pk.dest.channel_id.clone(), pk.sequence);
            let mut b = self.b.clone();
            if !b.recs.contains_key(&key) && b.chans.contains_key(&key.0) {
                b.recv(&key.0, key.1, &pk.data, &HostDo::Normal, &self.cfg);
            }
            let mut entries = vec![Entry::Timeout(IbcPacketTimeoutMsg::new(pk.clone(), rly.clone()))];
            if let Some(r) = b.recs.get(&key) {
                entries.push(Entry::Ack(IbcPacketAckMsg::new(IbcAcknowledgement::new(r.ack.clone()), pk.clone(), rly.clone())));
            }
            for e in entries {
                let (r, _, _) = exec::call(&self.api, &env, &self.a.contracts, self.cfg.code_id, store.clone(), &e, None);
                v.push(format!("{r:?}"));
            }
        }
        v
    }

    fn order_stats(&mut self, chan: &str, seq: u64, ctl: &str) {
        let older = self.a.core.packets.range((chan.to_string(), 0)..(chan.to_string(), seq)).any(|(_, p)| p.st == PSt::InFlight);
        if older {
            self.stat("reordered_delivery");
        }
        if self.model(ctl).is_some_and(|m| m.channel.as_ref().is_some_and(|c| c.0.endpoint.channel_id != chan)) {
            self.stat("stale_channel_delivery");
        }
    }

    /// Does the IBC layer let this timeout through?
    pub fn can_timeout(&self, chan: &str, seq: u64, on_close: bool) -> bool {
        let Some(p) = self.a.core.packets.get(&(chan.to_string(), seq)) else { return false };
        if p.st == PSt::Acked {
            return false;
        }
        let bch = &p.packet.dest.channel_id;
        let Some(b) = self.b.chans.get(bch) else { return false };
        if self.b.received.contains(&(bch.clone(), seq)) {
            return false;
        }
        if on_close {
            return b.state == BState::Closed;
        }
        let ts = p.packet.timeout.timestamp().map_or(u64::MAX, |t| t.nanos());
        if self.b.time < ts {
            return false;
        }
        self.a.core.chans[chan].state == ASt::Open || self.cfg.timeout_on_closed
    }

    fn rogue(&mut self, kind: &RogueKind, ctl: u8, rly: u8, chan: &Option<String>) -> bool {
        let Some(c) = self.ctls.get(ctl as usize).cloned() else { return false };
        let Some(m) = self.model(&c) else { return false };
        self.stat("rogue_relayer");
        let conn = m.opts.connection_id.clone();
        let tx = match kind {
            RogueKind::OpenInit { empty_version } => {
                let version = if *empty_version {
                    String::new()
                } else {
                    json!({"version":"ics27-1","controller_connection_id":conn,"host_connection_id":m.opts.counterparty_connection_id,
                        "address":"","encoding":"proto3","tx_type":"sdk_multi_msg"})
                    .to_string()
                };
                ATx::OpenInit {
                    req: OpenInitReq {
                        port: format!("wasm.{c}"),
                        conn,
                        cp_port: "icahost".into(),
                        cp_chan: String::new(),
                        order: m.opts.channel_ordering.clone().unwrap_or(IbcOrder::Ordered),
                        version,
                        hops: 1,
                    },
                }
            }
            RogueKind::CloseInit => {
                let id = chan.clone().or_else(|| m.channel.as_ref().map(|c| c.0.endpoint.channel_id.clone()));
                match id {
                    Some(chan) => ATx::CloseInit { chan },
                    None => return false,
                }
            }
            RogueKind::CloseConfirm => {
                let id = chan.clone().filter(|i| self.a.core.chans.get(i).is_some_and(|x| x.state != ASt::Open)).or_else(|| {
                    self.a.core.chans.iter().filter(|(_, x)| x.ctl == c && x.state != ASt::Open).map(|(i, _)| i.clone()).last()
                });
                match id {
                    Some(chan) => ATx::StaleCloseConfirm { chan },
                    None => return false,
                }
            }
            RogueKind::OpenTry => ATx::OpenTry { ctl: c, conn },
            RogueKind::OpenConfirm => match chan.clone().or_else(|| m.channel.as_ref().map(|c| c.0.endpoint.channel_id.clone())) {
                Some(chan) => ATx::OpenConfirm { chan },
                None => return false,
            },
            RogueKind::Recv => match chan.clone().or_else(|| m.channel.as_ref().map(|c| c.0.endpoint.channel_id.clone())) {
                Some(chan) => ATx::Recv { chan, rly: self.rly(rly) },
                None => return false,
            },
        };
        let _ = self.deliver(&tx, None);
        true
    }

    /// The node dies before committing its block; it restarts from durable state and replays.
    fn crash(&mut self) {
        self.stat("crash");
        self.ev(&["C23"]);
        let after = self.a.clone();
        let log = std::mem::take(&mut self.block_log);
        let (stats, trace) = (self.stats.clone(), self.trace.take());
        let nviol = self.violations.len();
        self.a = self.block_start.clone();
        let idx = self.tx_idx;
        self.tx_idx = 0;
        let mut diff = None;
        for (i, (tx, env, ok)) in log.iter().enumerate() {
            let r = self.run(tx, env);
            self.tx_idx += 1;
            if r.is_ok() != *ok && diff.is_none() {
                diff = Some(format!("transaction {i} of the block had outcome ok={ok}, replayed ok={}", r.is_ok()));
            }
        }
        self.tx_idx = idx;
        if diff.is_none() {
            for (k, c) in after.contracts.iter() {
                if self.a.contracts.get(k).map(|x| &x.store) != Some(&c.store) {
                    diff = Some(format!("storage of {k} differs after replaying the block"));
                }
            }
        }
        self.stats = stats;
        self.trace = trace;
        self.violations.truncate(nviol);
        self.block_log = log;
        if let Some(d) = diff {
            self.violate(&["C23"], "replay_differs", d);
            self.a = after;
        }
    }

    /// What a controller of an earlier release with this history has stored.
    fn released_layout(&self, ctl: &str) -> Map {
        let m = self.model(ctl).unwrap();
        let mut s = Map::new();
        let mut put = |k: &[u8], v: Value| {
            s.insert(k.to_vec(), v.to_string().into_bytes());
        };
        put(b"ownership", json!({"owner": m.owner, "pending_owner": m.pending, "pending_expiry": m.expiry}));
        let ica = m.ica.as_ref().map(|i| json!({"ica_address": i.address, "channel_id": i.channel, "encoding": i.encoding}));
        put(b"state", json!({"ica_info": ica, "callback_address": m.cb}));
        put(b"channel_open_init_options", serde_json::to_value(&m.opts).unwrap());
        if let Some((c, open)) = &m.channel {
            put(b"ica_channel", json!({"channel": c, "channel_status": if *open { "STATE_OPEN" } else { "STATE_CLOSED" }}));
        }
        put(b"allow_channel_open_init", json!(false));
        if self.a.contracts[ctl].store.contains_key(b"allow_channel_close_init".as_slice()) {
            put(b"allow_channel_close_init", json!(false));
        }
        for ((chan, seq), p) in &self.a.core.packets {
            if p.ctl == ctl && p.st == PSt::InFlight && !p.queries.is_empty() {
                let mut k = vec![0, 15];
                k.extend(b"pending_queries");
                k.extend((chan.len() as u16).to_be_bytes());
                k.extend(chan.as_bytes());
                k.extend(seq.to_be_bytes());
                put(&k, json!(p.queries.iter().filter_map(spec::query_path).collect::<Vec<_>>()));
            }
        }
        s
    }

    fn make_legacy(&mut self, ctl: &str, l: &Legacy) {
        self.commit();
        let mut store = (*self.a.contracts[ctl].store).clone();
        let Some((name, version)) = exec::stored_version(&store) else { return };
        if l.released {
            store = self.released_layout(ctl);
        }
        let name = l.name.clone().unwrap_or(name);
        let version = l.version.clone().unwrap_or(version);
        store.insert(b"contract_info".to_vec(), json!({"contract": name, "version": version}).to_string().into_bytes());
        if let Some(mut s) = store.get(b"state".as_slice()).and_then(|v| serde_json::from_slice::<Value>(v).ok()) {
            if l.extra_fields {
                s["admin"] = json!(self.model(ctl).map(|m| m.owner.clone()));
                s["allow_channel_open_init"] = json!(false);
                s["allow_channel_close_init"] = json!(false);
            }
            if l.encoding_json && s["ica_info"].is_object() {
                s["ica_info"]["encoding"] = json!("proto3json");
                if let Some(i) = &mut self.model_mut(ctl).ica {
                    i.encoding = "proto3json".into();
                }
            }
            store.insert(b"state".to_vec(), s.to_string().into_bytes());
        }
        if l.no_flags {
            store.remove(b"allow_channel_open_init".as_slice());
            store.remove(b"allow_channel_close_init".as_slice());
        }
        let m = self.model_mut(ctl);
        m.name = name;
        m.version = version;
        Arc::make_mut(&mut self.a.contracts).get_mut(ctl).unwrap().store = Arc::new(store);
        self.stat("legacy_state");
        self.commit();
    }

    #[allow(clippy::too_many_arguments)]
    fn deploy(&mut self, via: &Via, by: &AddrRef, owner: &Option<String>, cb: &Option<String>, opts: &Opts, admin: &Option<String>, label: &str, oog: Option<u32>) -> bool {
        if self.ctls.len() >= 4 {
            return false;
        }
        let sender = self.addr(by);
        let mut msg = json!({ "channel_open_init_options": opts });
        if let Some(o) = owner {
            msg["owner"] = json!(o);
        }
        if let Some(c) = cb {
            msg["send_callbacks_to"] = json!(c);
        }
        let bytes = msg.to_string().into_bytes();
        self.a.last_instance = None;
        let code_id = self.cfg.code_id;
        let r = match via {
            Via::Direct => {
                let m = CosmosMsg::Wasm(WasmMsg::Instantiate { admin: admin.clone(), code_id, msg: bytes.into(), funds: vec![], label: label.to_string() });
                self.deliver(&ATx::Msg { sender, msg: m }, oog)
            }
            Via::Helper | Via::Helper2 { .. } => {
                let salt = if let Via::Helper2 { salt } = via { Some(salt.as_str()) } else { None };
                let built = exec::helper_instantiate(&self.api, &self.env(&sender), &self.a.contracts, code_id, &bytes, label, admin.as_deref(), salt);
                self.ev(&["C21"]);
                let (m, predicted) = match built {
                    Ok(x) => x,
                    Err(_) if salt.is_some_and(|s| s.is_empty() || s.len() > 64) => return true,
                    Err(e) => {
                        self.violate(&["C21"], "helper_instantiate", format!("helper cannot build the instantiation: {e}"));
                        return true;
                    }
                };
                let run = json!({"run": {"msgs": [(m, false)], "fail": false}});
                let user = self.addr(&AddrRef::User(0));
                let clash = predicted.as_ref().is_some_and(|p| self.a.contracts.contains_key(p));
                let good = self.opts_work(opts).is_ok()
                    && owner.as_ref().map_or(true, |o| self.valid_addr(o))
                    && cb.as_ref().map_or(true, |o| self.valid_addr(o))
                    && admin.as_ref().map_or(true, |o| self.valid_addr(o))
                    && !label.is_empty()
                    && salt.map_or(true, |s| !s.is_empty() && s.len() <= 64)
                    && !clash
                    && oog.is_none();
                let r = self.deliver(&ATx::Exec { sender: user, contract: sender.clone(), msg: run.to_string().into_bytes() }, oog);
                if good && r.is_err() {
                    self.violate(&["C21"], "helper_instantiate", format!("helper-built instantiation failed: {}", short(&format!("{r:?}"))));
                }
                if r.is_ok() {
                    let got = self.a.last_instance.clone();
                    if predicted.is_some() && got != predicted {
                        self.violate(&["C21"], "instantiate2_address", format!("predicted {predicted:?}, chain assigned {got:?}"));
                    }
                    if let Some(a) = &got {
                        let c = &self.a.contracts[a];
                        if c.admin != *admin || c.label != label || c.creator != sender || c.code_id != code_id {
                            self.violate(&["C21"], "helper_instantiate", format!("contract created with admin {:?} label {:?}, asked {admin:?} {label:?}", self.a.contracts[a].admin, self.a.contracts[a].label));
                        }
                        let m = self.model(a).unwrap();
                        if owner.as_ref().unwrap_or(&sender) != &m.owner || *cb != m.cb || *opts != m.opts {
                            self.violate(&["C21"], "helper_instantiate", "helper-built instantiation message differs from the one asked for");
                        }
                    }
                }
                r
            }
            Via::Owner { salt } => {
                if !crate::lean::available() {
                    return false;
                }
                if !self.has_owner {
                    self.commit();
                    let addr = self.addr(&AddrRef::Owner);
                    let admin = self.addr(&AddrRef::User(0));
                    let named = self.cfg.salt % 2 == 0;
                    let creator = if named { self.addr(&AddrRef::User(1)) } else { admin.clone() };
                    for bad in ["", "not an address"] {
                        if crate::lean::init(self.env(&addr), &creator, Some(bad), code_id).is_ok() {
                            self.violate(&["C24"], "owner_bad_admin", format!("owner contract accepts {bad:?} as its admin"));
                        }
                    }
                    match crate::lean::init(self.env(&addr), &creator, if named { Some(&admin) } else { None }, code_id) {
                        Ok(store) => {
                            Arc::make_mut(&mut self.a.contracts).insert(
                                addr,
                                Contract { kind: Kind::Owner, store: Arc::new(store), admin: None, code_id: 901, creator: admin, label: "owner".into() },
                            );
                            self.has_owner = true;
                        }
                        Err(e) => {
                            self.violate(&["C22", "C24"], "lean_init", e);
                            return false;
                        }
                    }
                    self.commit();
                }
                let contract = self.addr(&AddrRef::Owner);
                let m = json!({"create_ica_contract": {"salt": salt, "channel_open_init_options": opts}});
                let user = self.addr(&AddrRef::User(0));
                let good = self.opts_work(opts).is_ok() && salt.as_ref().map_or(true, |s| !s.is_empty() && s.len() <= 64);
                let r = self.deliver(&ATx::Exec { sender: user, contract: contract.clone(), msg: m.to_string().into_bytes() }, None);
                let clash = matches!(&r, Err(TxErr::Fail(e)) if e.contains("address exists"));
                if good && !clash && r.is_err() {
                    self.violate(&["C22", "C21", "C24"], "lean_create", format!("owner contract cannot create a controller: {}", short(&format!("{r:?}"))));
                }
                if r.is_ok() {
                    let got = self.a.last_instance.clone().unwrap_or_default();
                    if self.a.reg.last().map(|x| &x.0) != Some(&got) {
                        self.violate(&["C21", "C24"], "instantiate2_address", format!("owner contract lists {:?} for the new controller {got}", self.a.reg.last()));
                    }
                }
                r
            }
        };
        if r.is_ok() {
            if let Some(a) = self.a.last_instance.clone() {
                self.ctls.push(a);
            }
        }
        true
    }

    // ---------------------------------------------------------------- one-step look-ahead

    /// Tries, on throw-away copies of the current state, what outsiders could attempt now, and (level
    /// 2) what the owner and the relayers could do next. Every attempt is judged like a real one.
    fn battery(&mut self) {
        self.dry = true;
        let base = self.a.clone();
        let n = self.step_no;
        for ci in 0..self.ctls.len() {
            let ctl = self.ctls[ci].clone();
            let Some(m) = self.model(&ctl) else { continue };
            let mut who: Vec<String> = (0..3).map(|i| self.addr(&AddrRef::User(i))).collect();
            who.extend(m.former.iter().cloned());
            who.extend(m.pending.iter().cloned());
            who.extend(m.cb.iter().cloned());
            who.push(self.rly(0));
            who.push(ctl.clone());
            who.extend(self.a.contracts[&ctl].admin.iter().cloned());
            who.sort();
            who.dedup();
            who.retain(|w| *w != m.owner);
            let (w0, conn) = (who[0].clone(), self.cfg.conns[n % self.cfg.conns.len()].clone());
            let a_msg = || vec![CosmosMsg::Bank(cosmwasm_std::BankMsg::Send { to_address: "x".into(), amount: cosmwasm_std::coins(1, "s") })];
            let a_query = || vec![QueryRequest::Bank(cosmwasm_std::BankQuery::Supply { denom: "s".into() })];
            let send = XMsg::SendCosmosMsgs(SendSpec {
                messages: if n % 4 < 2 { a_msg() } else { vec![] },
                queries: if n % 2 == 0 { a_query() } else { vec![] },
                packet_memo: if n % 3 == 0 { Some("m".into()) } else { None },
                timeout_seconds: [Some(1_000_000), None, Some(1)][(n / 2) % 3],
            });
            let opts = match n % 4 {
                0 | 1 => m.opts.clone(),
                2 => Opts { connection_id: conn.0, counterparty_connection_id: conn.1, counterparty_port_id: None, channel_ordering: None },
                _ => Opts { channel_ordering: Some(IbcOrder::Unordered), ..m.opts.clone() },
            };
            let msgs = [
                XMsg::CreateChannel { channel_open_init_options: None },
                XMsg::CreateChannel { channel_open_init_options: Some(opts) },
                XMsg::CloseChannel {},
                send.clone(),
                XMsg::UpdateCallbackAddress { callback_address: [None, m.cb.clone(), Some(w0.clone())][n % 3].clone() },
                XMsg::UpdateOwnership(XAction::TransferOwnership {
                    new_owner: [w0, m.owner.clone()][(n / 3) % 2].clone(),
                    expiry: if n % 2 == 0 { None } else { Some(XExp::AtHeight(u64::MAX)) },
                }),
                XMsg::UpdateOwnership(XAction::AcceptOwnership),
                XMsg::UpdateOwnership(XAction::RenounceOwnership),
            ];
            for k in 0..2 {
                let w = &who[(n * 2 + k) % who.len()];
                for x in &msgs {
                    let _ = self.deliver(&ATx::Exec { sender: w.clone(), contract: ctl.clone(), msg: x.to_vec() }, None);
                    self.a = base.clone();
                }
            }
            for kind in [RogueKind::OpenInit { empty_version: n % 2 == 0 }, RogueKind::CloseInit, RogueKind::OpenTry, RogueKind::OpenConfirm, RogueKind::Recv] {
                self.rogue(&kind, ci as u8, 0, &None);
                self.a = base.clone();
            }
            let others: Vec<String> = self.a.core.chans.iter().filter(|(_, c)| c.ctl == ctl && c.state != ASt::Closed).map(|(i, _)| i.clone()).collect();
            let stale: Vec<String> = self.a.core.chans.iter().filter(|(_, c)| c.ctl == ctl && c.state != ASt::Open).map(|(i, _)| i.clone()).take(4).collect();
            for c in stale {
                self.rogue(&RogueKind::CloseConfirm, ci as u8, 0, &Some(c));
                self.check_ctl(&ctl);
                self.a = base.clone();
            }
            for c in others {
                self.rogue(&RogueKind::CloseInit, ci as u8, 0, &Some(c));
                self.a = base.clone();
            }
            if self.cfg.battery >= 2 {
                for x in &msgs {
                    if self.deliver(&ATx::Exec { sender: m.owner.clone(), contract: ctl.clone(), msg: x.to_vec() }, None).is_ok() {
                        self.check_ctl(&ctl);
                        // whatever the owner just did, outsiders still cannot
                        let after = self.a.clone();
                        for kind in [RogueKind::OpenInit { empty_version: false }, RogueKind::CloseInit] {
                            self.rogue(&kind, ci as u8, 0, &None);
                            self.a = after.clone();
                        }
                    }
                    self.a = base.clone();
                }
            }
        }
        if self.cfg.battery >= 2 {
            for s in crate::settle::relay_options(self) {
                if matches!(s, Step::Ack { .. } | Step::Timeout { .. } | Step::OpenAck { .. } | Step::CloseConfirmA { .. }) {
                    self.apply_inner(&s);
                    self.check_state();
                    self.a = base.clone();
                }
            }
        }
        self.dry = false;
    }
}

fn exp_tags(e: &Exp) -> Tags {
    match e {
        Exp::OpenInit(_) => vec!["C16", "C14"],
        Exp::CloseInit(_) => vec!["C06"],
        Exp::Send { spec, .. } => {
            if spec.queries.is_empty() {
                vec!["C07"]
            } else {
                vec!["C07", "C08"]
            }
        }
        Exp::Callback { .. } => vec!["C12"],
    }
}
fn eff_tags(e: &Effect) -> Tags {
    match e {
        Effect::OpenInit(_) => vec!["C16"],
        Effect::CloseInit(_) => vec!["C06"],
        Effect::Send { .. } => vec!["C07"],
        Effect::Callback { .. } => vec!["C12"],
        Effect::Other(_) => vec!["C01"],
    }
}

pub fn short(s: &str) -> String {
    if s.chars().count() > 260 {
        format!("{}…", s.chars().take(260).collect::<String>())
    } else {
        s.to_string()
    }
}
