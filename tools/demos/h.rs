//! A single controller on the mocked chain of cosmwasm-std, driven through its entry points.
#![allow(dead_code, deprecated)]
use std::panic::{catch_unwind, AssertUnwindSafe};

use anybuf::{Anybuf, Bufany};
use cosmwasm_std::testing::{message_info, mock_dependencies, mock_env, MockApi, MockQuerier, MockStorage};
use cosmwasm_std::{
    from_json, Addr, Binary, CosmosMsg, Env, Event, IbcAcknowledgement, IbcChannel,
    IbcChannelCloseMsg, IbcChannelConnectMsg, IbcChannelOpenMsg, IbcEndpoint, IbcMsg, IbcOrder,
    IbcPacket, IbcPacketAckMsg, IbcPacketTimeoutMsg, IbcTimeout, MsgResponse, Order, OwnedDeps, Reply, Storage,
    SubMsg, SubMsgResponse, SubMsgResult, WasmMsg,
};
use cw_ica_controller::{contract, ibc};

#[derive(Debug)]
pub struct Out {
    pub msgs: Vec<SubMsg>,
    pub events: Vec<Event>,
}

pub struct W {
    pub deps: OwnedDeps<MockStorage, MockApi, MockQuerier>,
    pub env: Env,
    pub owner: Addr,
    pub cb: Addr,
    pub port: String,
    seqs: std::collections::BTreeMap<String, u64>,
    payload: Binary,
}

pub const ADDR: &str = "cosmos1account";

pub fn meta(conn: &str, addr: &str) -> String {
    format!(
        r#"{{"version":"ics27-1","controller_connection_id":"{conn}","host_connection_id":"connection-1","address":"{addr}","encoding":"proto3","tx_type":"sdk_multi_msg"}}"#
    )
}

pub fn ack_ok(msg_responses: &[Vec<u8>]) -> String {
    let anys: Vec<Anybuf> = msg_responses
        .iter()
        .map(|r| Anybuf::new().append_string(1, "/x").append_bytes(2, r))
        .collect();
    let data = Binary::from(Anybuf::new().append_repeated_message(2, &anys).into_vec());
    format!(r#"{{"result":"{}"}}"#, data.to_base64())
}

pub fn answers(height: u64, responses: &[Vec<u8>]) -> Vec<u8> {
    Anybuf::new()
        .append_uint64(1, height)
        .append_repeated_bytes(2, responses)
        .into_vec()
}

pub fn balance_answer(amount: &str) -> Vec<u8> {
    Anybuf::new()
        .append_message(1, &Anybuf::new().append_string(1, "stake").append_string(2, amount))
        .into_vec()
}

pub const BALANCE: &str = r#"{"bank":{"balance":{"address":"cosmos1x","denom":"stake"}}}"#;

impl W {
    /// A fresh contract, instantiated with the given ordering (JSON) and maybe a callback address.
    pub fn new(ordering: &str, callbacks: bool) -> Self {
        let mut deps = mock_dependencies();
        let (owner, cb) = (deps.api.addr_make("owner"), deps.api.addr_make("callback"));
        let env = mock_env();
        let port = format!("wasm.{}", env.contract.address);
        let to = if callbacks { format!("\"{cb}\"") } else { "null".into() };
        let m = format!(
            r#"{{"owner":null,"channel_open_init_options":{},"send_callbacks_to":{to}}}"#,
            options("connection-0", ordering)
        );
        contract::instantiate(deps.as_mut(), env.clone(), message_info(&owner, &[]), from_json(m).unwrap())
            .unwrap();
        Self { deps, env, owner, cb, port, seqs: Default::default(), payload: Binary::default() }
    }

    pub fn user(&self, name: &str) -> Addr {
        self.deps.api.addr_make(name)
    }

    /// Runs one transaction: state is kept only on success, a panic is a failure.
    fn tx<T, X: std::fmt::Debug>(
        &mut self,
        f: impl FnOnce(&mut OwnedDeps<MockStorage, MockApi, MockQuerier>, Env) -> Result<T, X>,
    ) -> Result<T, String> {
        let before = self.dump();
        let env = self.env.clone();
        let r = match catch_unwind(AssertUnwindSafe(|| f(&mut self.deps, env))) {
            Ok(r) => r.map_err(|e| format!("{e:?}")),
            Err(_) => Err("panic".into()),
        };
        if r.is_err() {
            for (k, _) in self.dump() {
                self.deps.storage.remove(&k);
            }
            for (k, v) in before {
                self.deps.storage.set(&k, &v);
            }
        }
        r
    }

    pub fn dump(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
        self.deps.storage.range(None, None, Order::Ascending).collect()
    }

    pub fn exec(&mut self, sender: &Addr, json: &str) -> Result<Out, String> {
        let (info, msg) = (message_info(sender, &[]), from_json(json).map_err(|e| e.to_string())?);
        self.tx(|d, e| contract::execute(d.as_mut(), e, info, msg))
            .map(|r| Out { msgs: r.messages, events: r.events })
    }

    pub fn own(&mut self, json: &str) -> Result<Out, String> {
        let o = self.owner.clone();
        self.exec(&o, json)
    }

    pub fn query(&self, json: &str) -> String {
        let b = contract::query(self.deps.as_ref(), self.env.clone(), from_json(json).unwrap()).unwrap();
        String::from_utf8(b.to_vec()).unwrap()
    }

    pub fn channel(&self, id: &str, conn: &str, order: IbcOrder, version: &str) -> IbcChannel {
        IbcChannel::new(
            IbcEndpoint { port_id: self.port.clone(), channel_id: id.into() },
            IbcEndpoint { port_id: "icahost".into(), channel_id: format!("{id}0") },
            order,
            version,
            conn,
        )
    }

    pub fn init(&mut self, id: &str, conn: &str, order: IbcOrder) -> Result<(), String> {
        let channel = self.channel(id, conn, order, &meta(conn, ""));
        self.tx(|d, e| {
            ibc::handshake::ibc_channel_open(d.as_mut(), e, IbcChannelOpenMsg::OpenInit { channel })
        })
        .map(|_| ())
    }

    pub fn ack_open(&mut self, id: &str, conn: &str, order: IbcOrder, version: &str) -> Result<Out, String> {
        let channel = self.channel(id, conn, order, &meta(conn, ""));
        let counterparty_version = version.to_string();
        self.tx(|d, e| {
            ibc::handshake::ibc_channel_connect(
                d.as_mut(),
                e,
                IbcChannelConnectMsg::OpenAck { channel, counterparty_version },
            )
        })
        .map(|r| Out { msgs: r.messages, events: r.events })
    }

    pub fn open(&mut self, id: &str, conn: &str, order: IbcOrder) {
        self.init(id, conn, order.clone()).unwrap();
        self.ack_open(id, conn, order, &meta(conn, ADDR)).unwrap();
    }

    /// The chain's close-init (confirm: the counterparty closed) for a channel opened with `open`.
    pub fn close(&mut self, id: &str, conn: &str, order: IbcOrder, confirm: bool) -> Result<(), String> {
        let channel = self.channel(id, conn, order, &meta(conn, ADDR));
        let msg = if confirm {
            IbcChannelCloseMsg::CloseConfirm { channel }
        } else {
            IbcChannelCloseMsg::CloseInit { channel }
        };
        self.tx(|d, e| ibc::handshake::ibc_channel_close(d.as_mut(), e, msg)).map(|_| ())
    }

    /// Sends and delivers the reply; the packet as the chain records it.
    pub fn send(&mut self, messages: &str, queries: &str, rest: &str) -> Result<IbcPacket, String> {
        let out = self.own(&format!(
            r#"{{"send_cosmos_msgs":{{"messages":{messages},"queries":{queries}{rest}}}}}"#
        ))?;
        assert_eq!(out.msgs.len(), 1);
        let CosmosMsg::Ibc(IbcMsg::SendPacket { channel_id, data, timeout }) = out.msgs[0].msg.clone() else {
            panic!("no packet")
        };
        let seq = self.seqs.entry(channel_id.clone()).or_insert(0);
        *seq += 1;
        let seq = *seq;
        if queries != "[]" {
            let id = out.msgs[0].id;
            self.payload = out.msgs[0].payload.clone();
            let value: Binary = Anybuf::new().append_uint64(1, seq).into_vec().into();
            let type_url = "/ibc.core.channel.v1.MsgSendPacketResponse".to_string();
            let msg_responses = vec![MsgResponse { type_url, value: value.clone() }];
            let r = SubMsgResult::Ok(SubMsgResponse { events: vec![], data: Some(value), msg_responses });
            self.reply(id, r)?;
        }
        Ok(self.packet(&channel_id, seq, data, timeout))
    }

    pub fn reply(&mut self, id: u64, result: SubMsgResult) -> Result<(), String> {
        let r = Reply { id, gas_used: 0, payload: self.payload.clone(), result };
        self.tx(|d, e| contract::reply(d.as_mut(), e, r)).map(|_| ())
    }

    pub fn packet(&self, channel: &str, seq: u64, data: Binary, timeout: IbcTimeout) -> IbcPacket {
        IbcPacket::new(
            data,
            IbcEndpoint { port_id: self.port.clone(), channel_id: channel.into() },
            IbcEndpoint { port_id: "icahost".into(), channel_id: format!("{channel}0") },
            seq,
            timeout,
        )
    }

    pub fn ack(&mut self, p: &IbcPacket, json: &str) -> Result<Out, String> {
        let relayer = self.user("relayer");
        let m = IbcPacketAckMsg::new(IbcAcknowledgement::new(json.as_bytes().to_vec()), p.clone(), relayer);
        self.tx(|d, e| ibc::relay::ibc_packet_ack(d.as_mut(), e, m))
            .map(|r| Out { msgs: r.messages, events: r.events })
    }

    pub fn timeout(&mut self, p: &IbcPacket) -> Result<Out, String> {
        let relayer = self.user("relayer");
        let m = IbcPacketTimeoutMsg::new(p.clone(), relayer);
        self.tx(|d, e| ibc::relay::ibc_packet_timeout(d.as_mut(), e, m))
            .map(|r| Out { msgs: r.messages, events: r.events })
    }
}

pub fn options(conn: &str, ordering: &str) -> String {
    format!(
        r#"{{"connection_id":"{conn}","counterparty_connection_id":"connection-1","counterparty_port_id":null,"channel_ordering":{ordering}}}"#
    )
}

pub fn create(opts: &str) -> String {
    format!(r#"{{"create_channel":{{"channel_open_init_options":{opts}}}}}"#)
}

/// The (type url, value) pairs of a packet's transaction.
pub fn tx_msgs(p: &IbcPacket) -> Vec<(String, Vec<u8>)> {
    let json = String::from_utf8(p.data.to_vec()).unwrap();
    let data = json.split("\"data\":").nth(1).unwrap();
    let tx: Vec<u8> = if let Some(numbers) = data.strip_prefix('[') {
        let numbers = numbers.split(']').next().unwrap().split(',');
        numbers.filter(|n| !n.is_empty()).map(|n| n.trim().parse().unwrap()).collect()
    } else {
        Binary::from_base64(data.split('"').nth(1).unwrap()).unwrap().to_vec()
    };
    bytes_of(&tx, 1)
        .into_iter()
        .map(|a| {
            let b = Bufany::deserialize(&a).unwrap();
            (b.string(1).unwrap(), b.bytes(2).unwrap())
        })
        .collect()
}

/// All length-delimited occurrences of a field in a protobuf message.
pub fn bytes_of(mut m: &[u8], field: u64) -> Vec<Vec<u8>> {
    fn varint(m: &mut &[u8]) -> u64 {
        let (mut v, mut s) = (0u64, 0);
        loop {
            let b = m[0];
            *m = &m[1..];
            v |= u64::from(b & 0x7f) << s;
            s += 7;
            if b < 0x80 {
                return v;
            }
        }
    }
    let mut out = vec![];
    while !m.is_empty() {
        let key = varint(&mut m);
        match key & 7 {
            0 => {
                varint(&mut m);
            }
            1 => m = &m[8..],
            2 => {
                let n = varint(&mut m) as usize;
                if key >> 3 == field {
                    out.push(m[..n].to_vec());
                }
                m = &m[n..];
            }
            _ => m = &m[4..],
        }
    }
    out
}

/// The callback's JSON, if the response has exactly one message and it is an execute to `cb`.
pub fn callback(out: &Out) -> Option<String> {
    match out.msgs.as_slice() {
        [m] => match &m.msg {
            CosmosMsg::Wasm(WasmMsg::Execute { msg, .. }) => Some(String::from_utf8(msg.to_vec()).unwrap()),
            _ => None,
        },
        _ => None,
    }
}
