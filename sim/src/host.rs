//! The host chain: a stub of ibc-go core and the icahost module.

use std::collections::{BTreeMap, BTreeSet};

use cosmwasm_std::{Binary, IbcOrder};
use prost::Message;
use serde_json::{json, Value};

use crate::rng::mix;
use crate::spec::{self, Answer};
use crate::step::{Cfg, HostDo, Meta};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BState {
    TryOpen,
    Open,
    Closed,
}

#[derive(Clone, Debug)]
pub struct BChan {
    pub state: BState,
    pub a_chan: String,
    pub a_port: String,
    /// host-side connection id
    pub conn: String,
    pub order: IbcOrder,
    pub version: String,
    pub next_recv: u64,
    /// the negotiation answer was altered by a fault
    pub tampered: bool,
}

/// What happened to a packet on the host.
#[derive(Clone, Debug)]
pub struct BRec {
    pub ack: Vec<u8>,
    pub height: u64,
    /// set when the packet's query message was answered
    pub answers: Option<Vec<Answer>>,
    pub error: Option<String>,
    /// number of messages executed (without the query message)
    pub executed: usize,
}

#[derive(Clone, Debug)]
pub struct ChainB {
    pub height: u64,
    pub time: u64,
    pub next_chan: u64,
    pub chans: BTreeMap<String, BChan>,
    pub recs: BTreeMap<(String, u64), BRec>,
    /// (host connection, controller port) -> account
    pub accounts: BTreeMap<(String, String), String>,
    pub active: BTreeMap<(String, String), String>,
    pub received: BTreeSet<(String, u64)>,
}

const ALNUM: &[u8] = b"abcdefghijklmnopqrstuvwxyz0123456789";

pub fn account_address(conn: &str, port: &str, cfg: &Cfg) -> String {
    let mut h = mix(crate::rng::fnv(port.as_bytes(), crate::rng::fnv(conn.as_bytes(), cfg.salt)));
    let (prefix, len) = match cfg.addr_style {
        0 => ("cosmos1", 59 - 7),
        1 => ("", 128),
        2 => ("", 1),
        3 => ("OSMO", 40),
        4 => ("", 127),
        _ => ("neutron1", 60),
    };
    let mut s = prefix.to_string();
    for _ in 0..len {
        h = mix(h);
        s.push(ALNUM[(h % 36) as usize] as char);
    }
    s
}

pub struct TryReq {
    pub a_chan: String,
    pub a_port: String,
    pub a_conn: String,
    pub b_conn: String,
    pub cp_port: String,
    pub order: IbcOrder,
    pub version: String,
}

impl ChainB {
    pub fn new(cfg: &Cfg) -> Self {
        Self {
            height: cfg.b_height,
            time: cfg.b_time,
            next_chan: cfg.bchan_start,
            chans: BTreeMap::new(),
            recs: BTreeMap::new(),
            accounts: BTreeMap::new(),
            active: BTreeMap::new(),
            received: BTreeSet::new(),
        }
    }

    /// Would a conforming host accept this opening?
    pub fn check_try(&self, r: &TryReq) -> Result<(), String> {
        if r.cp_port != "icahost" {
            return Err("no such port".into());
        }
        let m: Value = serde_json::from_str(&r.version).map_err(|_| "bad metadata")?;
        let f = |k: &str| m.get(k).and_then(Value::as_str).unwrap_or("?").to_string();
        if f("version") != "ics27-1"
            || f("controller_connection_id") != r.a_conn
            || f("host_connection_id") != r.b_conn
            || f("encoding") != "proto3"
            || f("tx_type") != "sdk_multi_msg"
        {
            return Err("metadata not accepted by host".into());
        }
        if let Some(c) = self.active.get(&(r.b_conn.clone(), r.a_port.clone())) {
            if self.chans[c].state != BState::Closed {
                return Err("active channel exists".into());
            }
        }
        Ok(())
    }

    pub fn open_try(&mut self, r: TryReq, meta: &Meta, cfg: &Cfg) -> Result<String, String> {
        self.check_try(&r)?;
        let addr = self
            .accounts
            .entry((r.b_conn.clone(), r.a_port.clone()))
            .or_insert_with(|| account_address(&r.b_conn, &r.a_port, cfg))
            .clone();
        let mut m = json!({
            "version": "ics27-1",
            "controller_connection_id": r.a_conn,
            "host_connection_id": r.b_conn,
            "address": addr,
            "encoding": "proto3",
            "tx_type": "sdk_multi_msg",
        });
        let mut raw = None;
        match meta {
            Meta::Valid => {}
            Meta::Address(s) => m["address"] = json!(s),
            Meta::Version(s) => m["version"] = json!(s),
            Meta::ControllerConn(s) => m["controller_connection_id"] = json!(s),
            Meta::HostConn(s) => m["host_connection_id"] = json!(s),
            Meta::Encoding(s) => m["encoding"] = json!(s),
            Meta::TxType(s) => m["tx_type"] = json!(s),
            Meta::Missing(k) => {
                m.as_object_mut().unwrap().remove(k);
            }
            Meta::Raw(s) => raw = Some(s.clone()),
            Meta::Wrap(a, b) => raw = Some(format!("{a}{m}{b}")),
            Meta::Fee => raw = Some(format!("{{\"fee_version\":\"ics29-1\",\"app_version\":{}}}", json!(m.to_string()))),
        }
        let version = raw.unwrap_or_else(|| m.to_string());
        let id = format!("channel-{}", self.next_chan);
        self.next_chan += 1;
        self.chans.insert(
            id.clone(),
            BChan {
                state: BState::TryOpen,
                next_recv: cfg.first_seq(&r.a_chan),
                a_chan: r.a_chan,
                a_port: r.a_port,
                conn: r.b_conn,
                order: r.order,
                version,
                tampered: *meta != Meta::Valid,
            },
        );
        Ok(id)
    }

    pub fn confirm(&mut self, id: &str) {
        let c = self.chans.get_mut(id).unwrap();
        c.state = BState::Open;
        let key = (c.conn.clone(), c.a_port.clone());
        self.active.insert(key, id.to_string());
    }

    /// Executes a packet whose delivery the IBC layer has accepted.
    pub fn recv(&mut self, bchan: &str, seq: u64, data: &[u8], host: &HostDo, cfg: &Cfg) {
        self.height += 1;
        let c = self.chans.get_mut(bchan).unwrap();
        if c.order == IbcOrder::Ordered {
            c.next_recv += 1;
        }
        self.received.insert((bchan.to_string(), seq));
        let err = |s: String, height: u64| BRec {
            ack: serde_json::to_vec(&json!({ "error": s })).unwrap(),
            height,
            answers: None,
            error: Some(s),
            executed: 0,
        };
        let height = self.height;
        let rec = match (host, spec::open_packet(data)) {
            (HostDo::Fail(s), _) => err(s.clone(), height),
            (_, Err(e)) => err(format!("ABCI code: 1: error handling packet: {e}"), height),
            (host, Ok((tx, _))) => {
                let mut responses = vec![];
                let mut answers = None;
                let mut executed = 0;
                for m in &tx.messages {
                    if m.type_url == spec::QUERY_URL {
                        let q = spec::QueryMsg::decode(m.value.as_slice()).unwrap_or_default();
                        let mut ans: Vec<Answer> = q
                            .requests
                            .iter()
                            .enumerate()
                            .map(|(i, r)| {
                                let bad = matches!(host, HostDo::BadAmount(n) if *n as usize % q.requests.len() == i);
                                spec::answer(&r.path, &r.data, height, i, cfg.salt, bad)
                            })
                            .collect();
                        match host {
                            HostDo::Fewer => {
                                ans.pop();
                            }
                            HostDo::More => ans.push(Answer { bytes: vec![], typed: None }),
                            HostDo::NoResponses => ans.clear(),
                            HostDo::Garbage(n) => {
                                let i = *n as usize % ans.len().max(1);
                                if let Some(a) = ans.get_mut(i) {
                                    *a = Answer { bytes: vec![0x0a, 0xff], typed: None };
                                }
                            }
                            _ => {}
                        }
                        let resp = spec::QueryMsgResp { height, responses: ans.iter().map(|a| a.bytes.clone()).collect() };
                        responses.push(spec::AnyMsg { type_url: spec::QUERY_RESP_URL.into(), value: resp.encode_to_vec() });
                        answers = Some(ans);
                    } else {
                        executed += 1;
                        responses.push(spec::AnyMsg { type_url: format!("{}Response", m.type_url), value: if executed % 3 == 0 { vec![0xff, 0xff] } else { vec![] } });
                    }
                }
                let mut result = spec::TxMsgData { msg_responses: responses }.encode_to_vec();
                if let (HostDo::RawResult(v), None) = (host, &answers) {
                    result = v.clone();
                }
                BRec {
                    ack: serde_json::to_vec(&json!({ "result": Binary::from(result).to_base64() })).unwrap(),
                    height,
                    answers,
                    error: None,
                    executed,
                }
            }
        };
        self.recs.insert((bchan.to_string(), seq), rec);
    }
}
