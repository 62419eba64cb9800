//! Concrete, serialisable steps of a run. A run is a `Cfg` and a list of `Step`s; no randomness is
//! consulted while steps are applied, so the pair is an exact replay.

use cosmwasm_std::{CosmosMsg, Empty, IbcOrder, QueryRequest, Timestamp};
use serde::{Deserialize, Deserializer, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum AddrRef {
    User(u8),
    Rly(u8),
    /// harness contract `n`
    Probe(u8),
    /// the real callback-counter contract
    Counter,
    /// the real cw-ica-owner contract (feature-lean build)
    Owner,
    Ctl(u8),
    Raw(String),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Opts {
    pub connection_id: String,
    pub counterparty_connection_id: String,
    pub counterparty_port_id: Option<String>,
    pub channel_ordering: Option<IbcOrder>,
}

fn null_default<'de, D, T>(d: D) -> Result<T, D::Error>
where
    D: Deserializer<'de>,
    T: Default + Deserialize<'de>,
{
    Ok(Option::<T>::deserialize(d)?.unwrap_or_default())
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct SendSpec {
    #[serde(deserialize_with = "null_default")]
    pub messages: Vec<CosmosMsg>,
    #[serde(default, deserialize_with = "null_default")]
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub queries: Vec<QueryRequest<Empty>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub packet_memo: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub timeout_seconds: Option<u64>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum XExp {
    AtHeight(u64),
    AtTime(Timestamp),
    Never {},
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum XAction {
    TransferOwnership {
        new_owner: String,
        expiry: Option<XExp>,
    },
    AcceptOwnership,
    RenounceOwnership,
}

/// The documented JSON interface of the controller, restated independently of its Rust types.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum XMsg {
    CreateChannel {
        #[serde(default, skip_serializing_if = "Option::is_none")]
        channel_open_init_options: Option<Opts>,
    },
    CloseChannel {},
    SendCosmosMsgs(SendSpec),
    UpdateCallbackAddress {
        callback_address: Option<String>,
    },
    UpdateOwnership(XAction),
}

impl XMsg {
    pub fn to_vec(&self) -> Vec<u8> {
        serde_json::to_vec(self).unwrap()
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Self::CreateChannel { .. } => "create_channel",
            Self::CloseChannel {} => "close_channel",
            Self::SendCosmosMsgs(_) => "send",
            Self::UpdateCallbackAddress { .. } => "update_callback",
            Self::UpdateOwnership(XAction::TransferOwnership { .. }) => "transfer_ownership",
            Self::UpdateOwnership(XAction::AcceptOwnership) => "accept_ownership",
            Self::UpdateOwnership(XAction::RenounceOwnership) => "renounce_ownership",
        }
    }
}

/// How the host chain answers the version negotiation of one OpenTry.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Meta {
    Valid,
    /// a well-formed answer naming another (valid) account
    Address(String),
    Version(String),
    ControllerConn(String),
    HostConn(String),
    Encoding(String),
    TxType(String),
    Missing(String),
    Raw(String),
    /// a valid answer with text before and after it
    Wrap(String, String),
    /// a valid answer wrapped in another middleware's version object
    Fee,
}

/// How the host treats one received packet.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum HostDo {
    Normal,
    /// error acknowledgement with this text, nothing executed
    Fail(String),
    /// answer queries, but drop the last response
    Fewer,
    /// answer queries, with one response too many
    More,
    /// no responses at all
    NoResponses,
    /// response `n` is undecodable
    Garbage(u8),
    /// response `n` holds an amount that is no number (where the kind has an amount)
    BadAmount(u8),
    /// success, with this literal result although the packet has no queries
    RawResult(Vec<u8>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct BatchItem {
    pub ctl: u8,
    pub msg: XMsg,
    /// the failure of this message does not abort the batch
    pub catch: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum CbKind {
    Ack,
    Timeout,
    Open,
}

/// Behaviour of a harness callback contract.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub enum PMode {
    #[default]
    Ok,
    FailAll,
    Fail(CbKind),
    Panic,
    /// accepts, but needs more gas than any limit put on the call
    Heavy,
    /// on a callback of this kind, run these (once if `once`)
    Nested {
        on: CbKind,
        items: Vec<BatchItem>,
        once: bool,
    },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum RogueKind {
    OpenInit { empty_version: bool },
    CloseInit,
    /// a close-confirmation of a channel that is not open on the chain
    CloseConfirm,
    OpenTry,
    OpenConfirm,
    Recv,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Via {
    Direct,
    /// by a harness contract using the helper library
    Helper,
    /// by a harness contract using the helper library's salted instantiation
    Helper2 { salt: String },
    /// by the real cw-ica-owner contract
    Owner { salt: Option<String> },
}

/// Rewrites the stored version record and state as an older release would have left it.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Legacy {
    pub name: Option<String>,
    pub version: Option<String>,
    /// extra fields in the state item, as older versions had
    pub extra_fields: bool,
    /// remove the one-shot permission items, which older versions kept elsewhere
    pub no_flags: bool,
    pub encoding_json: bool,
    /// everything stored is written anew in the layout of the releases up to this one
    #[serde(default)]
    pub released: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Step {
    Deploy {
        via: Via,
        by: AddrRef,
        owner: Option<String>,
        cb: Option<String>,
        opts: Opts,
        admin: Option<String>,
        label: String,
        oog: Option<u32>,
    },
    Exec {
        ctl: u8,
        by: AddrRef,
        msg: XMsg,
        /// built through the helper library
        helper: bool,
        oog: Option<u32>,
    },
    /// the real cw-ica-owner contract's own action
    OwnerSend {
        by: AddrRef,
        ica_id: u64,
        to: String,
    },
    /// anything else sent to the cw-ica-owner contract (not a creation by its admin)
    OwnerRaw {
        by: AddrRef,
        msg: String,
    },
    Batch {
        probe: u8,
        items: Vec<BatchItem>,
        fail: bool,
    },
    Mode {
        probe: u8,
        mode: PMode,
    },
    Migrate {
        ctl: u8,
        by: AddrRef,
        helper: bool,
        legacy: Option<Legacy>,
    },
    /// UpdateAdmin (Some) or ClearAdmin (None) through the helper library
    Admin {
        ctl: u8,
        by: AddrRef,
        to: Option<String>,
    },
    Rogue {
        kind: RogueKind,
        ctl: u8,
        rly: u8,
        chan: Option<String>,
    },
    Try {
        chan: String,
        meta: Meta,
    },
    OpenAck {
        bchan: String,
        rly: u8,
        oog: Option<u32>,
    },
    Confirm {
        bchan: String,
    },
    HostClose {
        bchan: String,
    },
    CloseConfirmB {
        bchan: String,
    },
    CloseConfirmA {
        chan: String,
        rly: u8,
        oog: Option<u32>,
    },
    Recv {
        chan: String,
        seq: u64,
        host: HostDo,
    },
    Ack {
        chan: String,
        seq: u64,
        rly: u8,
        oog: Option<u32>,
    },
    Timeout {
        chan: String,
        seq: u64,
        rly: u8,
        on_close: bool,
        oog: Option<u32>,
    },
    AdvA {
        dt: u64,
        blocks: u64,
    },
    AdvB {
        dt: u64,
    },
    /// other applications open channels on the two chains
    Elsewhere {
        a: u64,
        b: u64,
    },
    /// the node loses its uncommitted block and replays it from the last committed state
    Crash,
    /// faults stop; relayers drain everything; the owner reopens; one packet round-trips
    Settle,
}

impl Step {
    pub fn kind(&self) -> &'static str {
        match self {
            Self::Deploy { .. } => "deploy",
            Self::Exec { msg, .. } => msg.kind(),
            Self::OwnerSend { .. } => "owner_send",
            Self::OwnerRaw { .. } => "owner_raw",
            Self::Batch { .. } => "batch",
            Self::Mode { .. } => "mode",
            Self::Migrate { .. } => "migrate",
            Self::Admin { .. } => "admin",
            Self::Rogue { .. } => "rogue",
            Self::Try { .. } => "try",
            Self::OpenAck { .. } => "open_ack",
            Self::Confirm { .. } => "confirm",
            Self::HostClose { .. } => "host_close",
            Self::CloseConfirmB { .. } => "close_confirm_b",
            Self::CloseConfirmA { .. } => "close_confirm_a",
            Self::Recv { .. } => "recv",
            Self::Ack { .. } => "ack",
            Self::Timeout { .. } => "timeout",
            Self::AdvA { .. } => "adv_a",
            Self::AdvB { .. } => "adv_b",
            Self::Elsewhere { .. } => "elsewhere",
            Self::Crash => "crash",
            Self::Settle => "settle",
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Cfg {
    pub salt: u64,
    /// (controller-side, host-side) connection ids
    pub conns: Vec<(String, String)>,
    pub chan_start: u64,
    pub bchan_start: u64,
    /// first sequence of a new channel (1 on a fresh chain; larger stands for a long-lived channel)
    pub seq_start: u64,
    /// the same for every channel but the first
    #[serde(default)]
    pub seq_later: Option<u64>,
    pub a_time: u64,
    pub b_time: u64,
    pub a_height: u64,
    pub b_height: u64,
    /// the chain lets plain timeouts through on an already closed channel
    pub timeout_on_closed: bool,
    /// the chain lets acknowledgements through on an already closed channel
    #[serde(default)]
    pub ack_on_closed: bool,
    /// re-execute every controller call: 0 no, 1 in place, 2 on a fresh thread
    pub det: u8,
    /// one-step look-ahead after every step: 0 none, 1 outsiders, 2 also owner and relays
    pub battery: u8,
    /// env.transaction present
    pub tx_info: bool,
    /// shape of host account addresses
    pub addr_style: u8,
    /// compare the helper library's queries with the contract's after every step
    pub helper_queries: bool,
    pub code_id: u64,
}

impl Cfg {
    /// First sequence of the controller-side channel `id`.
    pub fn first_seq(&self, id: &str) -> u64 {
        match self.seq_later {
            Some(n) if id != format!("channel-{}", self.chan_start) => n,
            _ => self.seq_start,
        }
    }
}
