//! What a conforming host must find in a packet, restated from the documented interface and
//! compared with the bytes on the wire; and what the host answers.

use std::str::FromStr;

use cosmos_sdk_proto::{
    cosmos::{
        bank::v1beta1 as bank, base::query::v1beta1 as page, base::v1beta1::Coin as PCoin,
        distribution::v1beta1 as dist, gov, staking::v1beta1 as staking,
    },
    cosmwasm::wasm::v1 as wasm,
    Any,
};
use cosmwasm_std::{
    BankMsg, BankQuery, Binary, Coin, CosmosMsg, Decimal, DistributionMsg, Empty, GovMsg, IbcMsg,
    QueryRequest, StakingMsg, StakingQuery, Uint128, VoteOption, WasmMsg, WasmQuery,
};
use prost::Message;
use serde_json::{json, Value};

use crate::rng::{fnv, mix, Rng, FNV0};

#[derive(Clone, PartialEq, prost::Message)]
pub struct QueryReq {
    #[prost(string, tag = "1")]
    pub path: String,
    #[prost(bytes = "vec", tag = "2")]
    pub data: Vec<u8>,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct QueryMsg {
    #[prost(string, tag = "1")]
    pub signer: String,
    #[prost(message, repeated, tag = "2")]
    pub requests: Vec<QueryReq>,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct QueryMsgResp {
    #[prost(uint64, tag = "1")]
    pub height: u64,
    #[prost(bytes = "vec", repeated, tag = "2")]
    pub responses: Vec<Vec<u8>>,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct AnyMsg {
    #[prost(string, tag = "1")]
    pub type_url: String,
    #[prost(bytes = "vec", tag = "2")]
    pub value: Vec<u8>,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct Tx {
    #[prost(message, repeated, tag = "1")]
    pub messages: Vec<AnyMsg>,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct TxMsgData {
    #[prost(message, repeated, tag = "2")]
    pub msg_responses: Vec<AnyMsg>,
}

pub const QUERY_URL: &str = "/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafe";
pub const QUERY_RESP_URL: &str =
    "/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafeResponse";

fn coins(v: &[PCoin]) -> Value {
    v.iter().map(|c| json!([c.denom, c.amount])).collect()
}
fn coin(c: &Option<PCoin>) -> Value {
    c.as_ref().map_or(Value::Null, |c| json!([c.denom, c.amount]))
}
fn xcoins(v: &[Coin]) -> Value {
    v.iter().map(|c| json!([c.denom, c.amount.to_string()])).collect()
}
fn xcoin(c: &Coin) -> Value {
    json!([c.denom, c.amount.to_string()])
}

fn dec<M: Message + Default>(v: &[u8]) -> Result<M, String> {
    let m = M::decode(v).map_err(|e| format!("undecodable: {e}"))?;
    if m.encoded_len() != v.len() {
        return Err("unknown fields in message".into());
    }
    Ok(m)
}
fn b(v: &[u8]) -> String {
    Binary::from(v).to_base64()
}
fn vote(o: &VoteOption) -> i32 {
    match o {
        VoteOption::Yes => 1,
        VoteOption::Abstain => 2,
        VoteOption::No => 3,
        VoteOption::NoWithVeto => 4,
    }
}

/// What the host sees of one typed message: (kind, fields).
fn seen(any: &Any) -> Result<(String, Value), String> {
    let v = any.value.as_slice();
    Ok(match any.type_url.as_str() {
        "/cosmos.bank.v1beta1.MsgSend" => {
            let m: bank::MsgSend = dec(v)?;
            ("send".into(), json!({"actor": m.from_address, "to": m.to_address, "amount": coins(&m.amount)}))
        }
        "/ibc.applications.transfer.v1.MsgTransfer" => {
            use ibc_proto::ibc::apps::transfer::v1::MsgTransfer;
            let m = MsgTransfer::decode(v).map_err(|e| e.to_string())?;
            if m.encoded_len() != v.len() {
                return Err("unknown fields in message".into());
            }
            (
                "transfer".into(),
                json!({"actor": m.sender, "port": m.source_port, "chan": m.source_channel,
                    "token": m.token.as_ref().map(|c| json!([c.denom, c.amount])), "to": m.receiver,
                    "height": m.timeout_height.as_ref().and_then(|h| if h.revision_number == 0 && h.revision_height == 0 {None} else {Some(json!([h.revision_number, h.revision_height]))}),
                    "ts": m.timeout_timestamp, "memo": m.memo}),
            )
        }
        "/cosmwasm.wasm.v1.MsgExecuteContract" => {
            let m: wasm::MsgExecuteContract = dec(v)?;
            ("wexec".into(), json!({"actor": m.sender, "c": m.contract, "msg": b(&m.msg), "funds": coins(&m.funds)}))
        }
        "/cosmwasm.wasm.v1.MsgInstantiateContract" => {
            let m: wasm::MsgInstantiateContract = dec(v)?;
            ("winst".into(), json!({"actor": m.sender, "admin": m.admin, "code": m.code_id, "label": m.label, "msg": b(&m.msg), "funds": coins(&m.funds)}))
        }
        "/cosmwasm.wasm.v1.MsgInstantiateContract2" => {
            let m: wasm::MsgInstantiateContract2 = dec(v)?;
            ("winst2".into(), json!({"actor": m.sender, "admin": m.admin, "code": m.code_id, "label": m.label, "msg": b(&m.msg), "funds": coins(&m.funds), "salt": b(&m.salt), "fix": m.fix_msg}))
        }
        "/cosmwasm.wasm.v1.MsgMigrateContract" => {
            let m: wasm::MsgMigrateContract = dec(v)?;
            ("wmig".into(), json!({"actor": m.sender, "c": m.contract, "code": m.code_id, "msg": b(&m.msg)}))
        }
        "/cosmwasm.wasm.v1.MsgUpdateAdmin" => {
            let m: wasm::MsgUpdateAdmin = dec(v)?;
            ("wadm".into(), json!({"actor": m.sender, "admin": m.new_admin, "c": m.contract}))
        }
        "/cosmwasm.wasm.v1.MsgClearAdmin" => {
            let m: wasm::MsgClearAdmin = dec(v)?;
            ("wclr".into(), json!({"actor": m.sender, "c": m.contract}))
        }
        "/cosmos.gov.v1beta1.MsgVote" => {
            let m: gov::v1beta1::MsgVote = dec(v)?;
            ("vote".into(), json!({"actor": m.voter, "id": m.proposal_id, "o": m.option}))
        }
        "/cosmos.gov.v1.MsgVote" => {
            let m: gov::v1::MsgVote = dec(v)?;
            if !m.metadata.is_empty() {
                return Err("unexpected vote metadata".into());
            }
            ("vote".into(), json!({"actor": m.voter, "id": m.proposal_id, "o": m.option}))
        }
        "/cosmos.gov.v1.MsgVoteWeighted" => {
            let m: gov::v1::MsgVoteWeighted = dec(v)?;
            if !m.metadata.is_empty() {
                return Err("unexpected vote metadata".into());
            }
            let mut o = vec![];
            for w in &m.options {
                o.push(json!([w.option, Decimal::from_str(&w.weight).map_err(|e| e.to_string())?.atomics().to_string()]));
            }
            ("wvote".into(), json!({"actor": m.voter, "id": m.proposal_id, "o": o}))
        }
        "/cosmos.staking.v1beta1.MsgDelegate" => {
            let m: staking::MsgDelegate = dec(v)?;
            ("del".into(), json!({"actor": m.delegator_address, "v": m.validator_address, "a": coin(&m.amount)}))
        }
        "/cosmos.staking.v1beta1.MsgUndelegate" => {
            let m: staking::MsgUndelegate = dec(v)?;
            ("undel".into(), json!({"actor": m.delegator_address, "v": m.validator_address, "a": coin(&m.amount)}))
        }
        "/cosmos.staking.v1beta1.MsgBeginRedelegate" => {
            let m: staking::MsgBeginRedelegate = dec(v)?;
            ("redel".into(), json!({"actor": m.delegator_address, "src": m.validator_src_address, "dst": m.validator_dst_address, "a": coin(&m.amount)}))
        }
        "/cosmos.distribution.v1beta1.MsgWithdrawDelegatorReward" => {
            let m: dist::MsgWithdrawDelegatorReward = dec(v)?;
            ("wdr".into(), json!({"actor": m.delegator_address, "v": m.validator_address}))
        }
        "/cosmos.distribution.v1beta1.MsgSetWithdrawAddress" => {
            let m: dist::MsgSetWithdrawAddress = dec(v)?;
            ("swa".into(), json!({"actor": m.delegator_address, "to": m.withdraw_address}))
        }
        "/cosmos.distribution.v1beta1.MsgFundCommunityPool" => {
            let m: dist::MsgFundCommunityPool = dec(v)?;
            ("fcp".into(), json!({"actor": m.depositor, "a": coins(&m.amount)}))
        }
        other => return Err(format!("unexpected message type {other}")),
    })
}

/// What the owner asked for, in the same terms. `None`: the kind is documented as unsupported.
fn wanted(msg: &CosmosMsg, ica: &str) -> Option<(String, Value)> {
    Some(match msg {
        CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
            ("send".into(), json!({"actor": ica, "to": to_address, "amount": xcoins(amount)}))
        }
        CosmosMsg::Ibc(IbcMsg::Transfer { channel_id, to_address, amount, timeout, memo }) => (
            "transfer".into(),
            json!({"actor": ica, "port": "transfer", "chan": channel_id, "token": xcoin(amount), "to": to_address,
                "height": timeout.block().and_then(|h| if h.revision == 0 && h.height == 0 {None} else {Some(json!([h.revision, h.height]))}),
                "ts": timeout.timestamp().map_or(0, |t| t.nanos()), "memo": memo.clone().unwrap_or_default()}),
        ),
        CosmosMsg::Wasm(w) => match w {
            WasmMsg::Execute { contract_addr, msg, funds } => {
                ("wexec".into(), json!({"actor": ica, "c": contract_addr, "msg": b(msg), "funds": xcoins(funds)}))
            }
            WasmMsg::Instantiate { admin, code_id, msg, funds, label } => (
                "winst".into(),
                json!({"actor": ica, "admin": admin.clone().unwrap_or_default(), "code": code_id, "label": label, "msg": b(msg), "funds": xcoins(funds)}),
            ),
            WasmMsg::Instantiate2 { admin, code_id, label, msg, funds, salt } => (
                "winst2".into(),
                json!({"actor": ica, "admin": admin.clone().unwrap_or_default(), "code": code_id, "label": label, "msg": b(msg), "funds": xcoins(funds), "salt": b(salt), "fix": false}),
            ),
            WasmMsg::Migrate { contract_addr, new_code_id, msg } => {
                ("wmig".into(), json!({"actor": ica, "c": contract_addr, "code": new_code_id, "msg": b(msg)}))
            }
            WasmMsg::UpdateAdmin { contract_addr, admin } => {
                ("wadm".into(), json!({"actor": ica, "admin": admin, "c": contract_addr}))
            }
            WasmMsg::ClearAdmin { contract_addr } => ("wclr".into(), json!({"actor": ica, "c": contract_addr})),
            _ => return None,
        },
        CosmosMsg::Gov(GovMsg::Vote { proposal_id, option }) => {
            ("vote".into(), json!({"actor": ica, "id": proposal_id, "o": vote(option)}))
        }
        CosmosMsg::Gov(GovMsg::VoteWeighted { proposal_id, options }) => (
            "wvote".into(),
            json!({"actor": ica, "id": proposal_id, "o": options.iter().map(|o| json!([vote(&o.option), o.weight.atomics().to_string()])).collect::<Vec<_>>()}),
        ),
        CosmosMsg::Staking(s) => match s {
            StakingMsg::Delegate { validator, amount } => ("del".into(), json!({"actor": ica, "v": validator, "a": xcoin(amount)})),
            StakingMsg::Undelegate { validator, amount } => ("undel".into(), json!({"actor": ica, "v": validator, "a": xcoin(amount)})),
            StakingMsg::Redelegate { src_validator, dst_validator, amount } => {
                ("redel".into(), json!({"actor": ica, "src": src_validator, "dst": dst_validator, "a": xcoin(amount)}))
            }
            _ => return None,
        },
        CosmosMsg::Distribution(d) => match d {
            DistributionMsg::WithdrawDelegatorReward { validator } => ("wdr".into(), json!({"actor": ica, "v": validator})),
            DistributionMsg::SetWithdrawAddress { address } => ("swa".into(), json!({"actor": ica, "to": address})),
            DistributionMsg::FundCommunityPool { amount } => ("fcp".into(), json!({"actor": ica, "a": xcoins(amount)})),
            _ => return None,
        },
        _ => return None,
    })
}

pub fn msg_supported(msg: &CosmosMsg) -> bool {
    #[allow(deprecated)]
    if let CosmosMsg::Stargate { .. } = msg {
        return true;
    }
    wanted(msg, "").is_some()
}

fn check_msg(msg: &CosmosMsg, any: &AnyMsg, ica: &str) -> Result<(), String> {
    #[allow(deprecated)]
    if let CosmosMsg::Stargate { type_url, value } = msg {
        return if *type_url == any.type_url && value.as_slice() == any.value {
            Ok(())
        } else {
            Err(format!("raw message {type_url} altered (host sees {})", any.type_url))
        };
    }
    let w = wanted(msg, ica).ok_or("unsupported message kind was sent")?;
    let s = seen(&Any { type_url: any.type_url.clone(), value: any.value.clone() })?;
    if w == s {
        Ok(())
    } else {
        Err(format!("asked for {} {}, host sees {} {}", w.0, w.1, s.0, s.1))
    }
}

/// Path and arguments of a typed query. `None`: unsupported kind.
fn wanted_query(q: &QueryRequest<Empty>) -> Option<(&'static str, Value)> {
    Some(match q {
        QueryRequest::Bank(x) => match x {
            BankQuery::Balance { address, denom } => ("/cosmos.bank.v1beta1.Query/Balance", json!([address, denom])),
            BankQuery::AllBalances { address } => ("/cosmos.bank.v1beta1.Query/AllBalances", json!([address, null])),
            BankQuery::DenomMetadata { denom } => ("/cosmos.bank.v1beta1.Query/DenomMetadata", json!([denom])),
            BankQuery::AllDenomMetadata { pagination } => (
                "/cosmos.bank.v1beta1.Query/DenomsMetadata",
                json!([pagination.as_ref().map(|p| json!([p.key.as_ref().map_or_else(String::new, Binary::to_base64), p.limit, p.reverse, 0, false]))]),
            ),
            BankQuery::Supply { denom } => ("/cosmos.bank.v1beta1.Query/SupplyOf", json!([denom])),
            _ => return None,
        },
        QueryRequest::Wasm(x) => match x {
            WasmQuery::Raw { contract_addr, key } => ("/cosmwasm.wasm.v1.Query/RawContractState", json!([contract_addr, b(key)])),
            WasmQuery::Smart { contract_addr, msg } => ("/cosmwasm.wasm.v1.Query/SmartContractState", json!([contract_addr, b(msg)])),
            WasmQuery::ContractInfo { contract_addr } => ("/cosmwasm.wasm.v1.Query/ContractInfo", json!([contract_addr])),
            _ => return None,
        },
        QueryRequest::Staking(x) => match x {
            StakingQuery::Validator { address } => ("/cosmos.staking.v1beta1.Query/Validator", json!([address])),
            StakingQuery::AllValidators {} => ("/cosmos.staking.v1beta1.Query/Validators", json!(["", null])),
            StakingQuery::Delegation { delegator, validator } => ("/cosmos.staking.v1beta1.Query/Delegation", json!([delegator, validator])),
            StakingQuery::AllDelegations { delegator } => ("/cosmos.staking.v1beta1.Query/DelegatorDelegations", json!([delegator, null])),
            StakingQuery::BondedDenom {} => ("/cosmos.staking.v1beta1.Query/Params", json!([])),
            _ => return None,
        },
        _ => return None,
    })
}

fn pg(p: &Option<page::PageRequest>) -> Value {
    p.as_ref().map_or(Value::Null, |p| json!([b(&p.key), p.limit, p.reverse, p.offset, p.count_total]))
}

fn seen_query(path: &str, data: &[u8]) -> Result<Value, String> {
    Ok(match path {
        "/cosmos.bank.v1beta1.Query/Balance" => {
            let m: bank::QueryBalanceRequest = dec(data)?;
            json!([m.address, m.denom])
        }
        "/cosmos.bank.v1beta1.Query/AllBalances" => {
            let m: bank::QueryAllBalancesRequest = dec(data)?;
            json!([m.address, pg(&m.pagination)])
        }
        "/cosmos.bank.v1beta1.Query/DenomMetadata" => {
            let m: bank::QueryDenomMetadataRequest = dec(data)?;
            json!([m.denom])
        }
        "/cosmos.bank.v1beta1.Query/DenomsMetadata" => {
            let m: bank::QueryDenomsMetadataRequest = dec(data)?;
            json!([pg(&m.pagination)])
        }
        "/cosmos.bank.v1beta1.Query/SupplyOf" => {
            let m: bank::QuerySupplyOfRequest = dec(data)?;
            json!([m.denom])
        }
        "/cosmwasm.wasm.v1.Query/RawContractState" => {
            let m: wasm::QueryRawContractStateRequest = dec(data)?;
            json!([m.address, b(&m.query_data)])
        }
        "/cosmwasm.wasm.v1.Query/SmartContractState" => {
            let m: wasm::QuerySmartContractStateRequest = dec(data)?;
            json!([m.address, b(&m.query_data)])
        }
        "/cosmwasm.wasm.v1.Query/ContractInfo" => {
            let m: wasm::QueryContractInfoRequest = dec(data)?;
            json!([m.address])
        }
        "/cosmos.staking.v1beta1.Query/Validator" => {
            let m: staking::QueryValidatorRequest = dec(data)?;
            json!([m.validator_addr])
        }
        "/cosmos.staking.v1beta1.Query/Validators" => {
            let m: staking::QueryValidatorsRequest = dec(data)?;
            json!([m.status, pg(&m.pagination)])
        }
        "/cosmos.staking.v1beta1.Query/Delegation" => {
            let m: staking::QueryDelegationRequest = dec(data)?;
            json!([m.delegator_addr, m.validator_addr])
        }
        "/cosmos.staking.v1beta1.Query/DelegatorDelegations" => {
            let m: staking::QueryDelegatorDelegationsRequest = dec(data)?;
            json!([m.delegator_addr, pg(&m.pagination)])
        }
        "/cosmos.staking.v1beta1.Query/Params" => {
            if !data.is_empty() {
                return Err("arguments for a query without any".into());
            }
            json!([])
        }
        other => return Err(format!("unexpected query path {other}")),
    })
}

/// Path of a query, and whether it was given raw.
pub fn query_path(q: &QueryRequest<Empty>) -> Option<(String, bool)> {
    #[allow(deprecated)]
    if let QueryRequest::Stargate { path, .. } = q {
        return Some((path.clone(), true));
    }
    wanted_query(q).map(|x| (x.0.to_string(), false))
}

pub fn query_supported(q: &QueryRequest<Empty>) -> bool {
    #[allow(deprecated)]
    if let QueryRequest::Stargate { .. } = q {
        return true;
    }
    wanted_query(q).is_some()
}

fn check_query(q: &QueryRequest<Empty>, r: &QueryReq) -> Result<(), String> {
    #[allow(deprecated)]
    if let QueryRequest::Stargate { path, data } = q {
        return if *path == r.path && data.as_slice() == r.data {
            Ok(())
        } else {
            Err(format!("raw query {path} altered (host sees {})", r.path))
        };
    }
    let (path, args) = wanted_query(q).ok_or("unsupported query kind was sent")?;
    if path != r.path {
        return Err(format!("asked {path}, host sees {}", r.path));
    }
    let got = seen_query(&r.path, &r.data)?;
    if got == args {
        Ok(())
    } else {
        Err(format!("{path}: asked {args}, host sees {got}"))
    }
}

/// The packet payload as a conforming host reads it.
pub fn open_packet(data: &[u8]) -> Result<(Tx, Option<String>), String> {
    let v: Value = serde_json::from_slice(data).map_err(|e| format!("packet is not JSON: {e}"))?;
    let o = v.as_object().ok_or("packet is not an object")?;
    let mut bytes = None;
    let mut ty = false;
    let mut memo = None;
    for (k, x) in o {
        match k.as_str() {
            "type" => ty = *x == json!(1) || *x == json!("TYPE_EXECUTE_TX"),
            "data" => {
                bytes = match x {
                    Value::String(s) => Some(Binary::from_base64(s).map_err(|e| e.to_string())?.to_vec()),
                    Value::Array(a) => Some(
                        a.iter()
                            .map(|n| n.as_u64().and_then(|n| u8::try_from(n).ok()).ok_or("bad byte"))
                            .collect::<Result<Vec<u8>, _>>()?,
                    ),
                    _ => None,
                }
            }
            "memo" => memo = x.as_str().map(str::to_string),
            k => return Err(format!("unknown packet field {k}")),
        }
    }
    if !ty {
        return Err("packet type is not execute-tx".into());
    }
    let tx = Tx::decode(bytes.ok_or("packet without data")?.as_slice()).map_err(|e| format!("payload: {e}"))?;
    Ok((tx, memo))
}

/// Compares a packet with the request it was made from. Returns (property tags, message).
pub fn check_packet(
    messages: &[CosmosMsg],
    queries: &[QueryRequest<Empty>],
    memo: &Option<String>,
    ica: &str,
    data: &[u8],
) -> Vec<(Vec<&'static str>, String)> {
    let mut out = vec![];
    let (tx, got_memo) = match open_packet(data) {
        Ok(x) => x,
        Err(e) => return vec![(vec!["C07", "C08"], e)],
    };
    if memo.clone().unwrap_or_default() != got_memo.clone().unwrap_or_default() {
        out.push((vec!["C07"], format!("memo asked {memo:?}, sent {got_memo:?}")));
    }
    let want = messages.len() + usize::from(!queries.is_empty());
    if tx.messages.len() != want {
        let mut tags = vec![];
        let last_is_query = tx.messages.last().is_some_and(|m| m.type_url == QUERY_URL);
        if last_is_query == !queries.is_empty() {
            tags.push("C07");
        } else {
            tags.push("C08");
            if tx.messages.len() != messages.len() {
                tags.push("C07");
            }
        }
        out.push((tags, format!("{want} messages expected, host sees {}", tx.messages.len())));
    }
    for (i, m) in messages.iter().enumerate() {
        if let Some(a) = tx.messages.get(i) {
            if let Err(e) = check_msg(m, a, ica) {
                let mut tags = vec!["C07"];
                if a.type_url == QUERY_URL {
                    tags.push("C08");
                }
                out.push((tags, format!("message {i}: {e}")));
            }
        }
    }
    if !queries.is_empty() && tx.messages.len() == want {
        let a = &tx.messages[want - 1];
        if a.type_url != QUERY_URL {
            out.push((vec!["C08"], format!("last message is {}, not the query message", a.type_url)));
        } else {
            match dec::<QueryMsg>(&a.value) {
                Err(e) => out.push((vec!["C08"], e)),
                Ok(qm) => {
                    if qm.signer != ica {
                        out.push((vec!["C08"], format!("query signer {} is not the account {ica}", qm.signer)));
                    }
                    if qm.requests.len() != queries.len() {
                        out.push((vec!["C08"], format!("{} queries asked, host sees {}", queries.len(), qm.requests.len())));
                    }
                    for (i, (q, r)) in queries.iter().zip(&qm.requests).enumerate() {
                        if let Err(e) = check_query(q, r) {
                            out.push((vec!["C08"], format!("query {i}: {e}")));
                        }
                    }
                }
            }
        }
    }
    out
}

/// What the host answered to one request.
#[derive(Clone, Debug)]
pub struct Answer {
    pub bytes: Vec<u8>,
    /// the response a typed query must be reported with; `None`: must be reported as an error
    pub typed: Option<Value>,
}

fn amount(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "0".into(),
        1 => u128::MAX.to_string(),
        2 => (u128::from(u64::MAX) + u128::from(r.next())).to_string(),
        3 => "1".into(),
        _ => r.next().to_string(),
    }
}
fn word(r: &mut Rng) -> String {
    const W: &[&str] = &["uatom", "icahost", "0", "proto3", "null", "stake", "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2", "factory/a/b", "日本", "q\"uote", "", "back\\slash", "new\nline", "x", " lead", "trail ", "UPPER", "tab\t", "nul\0", "{\"a\":1}", "<&>", "😀"];
    let w = r.pick(W);
    if r.pct(40) {
        format!("{w}{}", r.below(1000))
    } else {
        (*w).to_string()
    }
}
fn pcoin(r: &mut Rng, bad: bool) -> PCoin {
    PCoin { denom: word(r), amount: if bad { (*r.pick(&["", "abc", "-5", "1.5", "340282366920938463463374607431768211456"])).to_string() } else { amount(r) } }
}
fn jc(c: &PCoin) -> Value {
    json!({"denom": c.denom, "amount": c.amount})
}
fn nlist(r: &mut Rng) -> usize {
    match r.below(10) {
        0 | 1 => 0,
        2..=5 => 1,
        6..=8 => 2 + r.idx(4),
        _ => 20 + r.idx(40),
    }
}
fn metadata(r: &mut Rng) -> (bank::Metadata, Value) {
    let m = bank::Metadata {
        description: word(r),
        denom_units: (0..r.idx(4)).map(|_| bank::DenomUnit { denom: word(r), exponent: if r.pct(20) { u32::MAX } else { r.below(30) as u32 }, aliases: (0..r.idx(3)).map(|_| word(r)).collect() }).collect(),
        base: word(r),
        display: word(r),
        name: word(r),
        symbol: word(r),
        uri: word(r),
        uri_hash: word(r),
    };
    let v = json!({"description": m.description, "base": m.base, "display": m.display, "name": m.name, "symbol": m.symbol,
        "uri": m.uri, "uri_hash": m.uri_hash,
        "denom_units": m.denom_units.iter().map(|u| json!({"denom": u.denom, "exponent": u.exponent, "aliases": u.aliases})).collect::<Vec<_>>()});
    (m, v)
}
fn rate(r: &mut Rng) -> String {
    match r.below(4) {
        0 => "0".into(),
        1 => "1000000000000000000".into(),
        _ => r.below(1_000_000_000_000_000_000).to_string(),
    }
}
fn validator(r: &mut Rng, bad: bool) -> (staking::Validator, Value) {
    let (a, m, c) = (rate(r), rate(r), rate(r));
    let op = word(r);
    let d = |s: &str| Decimal::from_str(s).unwrap().to_string();
    let v = json!({"address": op, "commission": d(&a), "max_commission": d(&m), "max_change_rate": d(&c)});
    let val = staking::Validator {
        operator_address: op,
        jailed: r.pct(20),
        tokens: amount(r),
        commission: Some(staking::Commission {
            commission_rates: Some(staking::CommissionRates { rate: if bad { "x".into() } else { a }, max_rate: m, max_change_rate: c }),
            update_time: None,
        }),
        ..Default::default()
    };
    (val, v)
}
fn delegation(r: &mut Rng, bad: bool) -> (staking::DelegationResponse, Value) {
    let c = pcoin(r, bad);
    let d = staking::Delegation { delegator_address: word(r), validator_address: word(r), shares: amount(r) };
    let v = json!({"delegator": d.delegator_address, "validator": d.validator_address, "amount": jc(&c)});
    (staking::DelegationResponse { delegation: Some(d), balance: Some(c) }, v)
}
fn blob(r: &mut Rng) -> Vec<u8> {
    match r.below(6) {
        0 => vec![],
        1 => b"{\"a\":1}".to_vec(),
        2 => vec![0],
        3 if r.pct(4) => (0..66_000).map(|i| (i % 251) as u8).collect(),
        3 => (0..200 + r.idx(400)).map(|_| r.next() as u8).collect(),
        _ => (0..1 + r.idx(20)).map(|_| r.next() as u8).collect(),
    }
}

/// The host's answer to one request at one height: a function of the request, the height and the
/// run's salt, so different packets asking the same question at different heights differ.
pub fn answer(path: &str, data: &[u8], height: u64, index: usize, salt: u64, bad_amount: bool) -> Answer {
    let h = mix(fnv(data, fnv(path.as_bytes(), FNV0)) ^ mix(height) ^ mix(salt ^ index as u64));
    let mut rng = Rng::new(h);
    let r = &mut rng;
    let none = r.pct(15);
    let bank = |v: Value| Some(json!({ "bank": v }));
    let wasm_ = |v: Value| Some(json!({ "wasm": v }));
    let stk = |v: Value| Some(json!({ "staking": v }));
    let ok = |x: Option<Value>, bad: bool| if bad { None } else { x };
    match path {
        "/cosmos.bank.v1beta1.Query/Balance" | "/cosmos.bank.v1beta1.Query/SupplyOf" => {
            let k = if path.ends_with("Balance") { "balance" } else { "supply" };
            let c = if none { None } else { Some(pcoin(r, bad_amount)) };
            let v = c.as_ref().map_or_else(|| json!({"denom": "", "amount": "0"}), jc);
            let bytes = if k == "balance" { bank::QueryBalanceResponse { balance: c.clone() }.encode_to_vec() } else { bank::QuerySupplyOfResponse { amount: c.clone() }.encode_to_vec() };
            Answer { bytes, typed: ok(bank(json!({ k: { "amount": v } })), bad_amount && c.is_some()) }
        }
        "/cosmos.bank.v1beta1.Query/AllBalances" => {
            let n = nlist(r);
            let cs: Vec<_> = (0..n).map(|i| pcoin(r, bad_amount && i == n - 1)).collect();
            let v: Vec<_> = cs.iter().map(jc).collect();
            let pagination = if r.pct(50) { Some(page::PageResponse { next_key: blob(r), total: r.below(100) }) } else { None };
            Answer { bytes: bank::QueryAllBalancesResponse { balances: cs, pagination }.encode_to_vec(), typed: ok(bank(json!({"all_balances": {"amount": v}})), bad_amount && n > 0) }
        }
        "/cosmos.bank.v1beta1.Query/DenomMetadata" => {
            let m = if none { None } else { Some(metadata(r)) };
            let v = m.as_ref().map_or_else(
                || json!({"description":"","denom_units":[],"base":"","display":"","name":"","symbol":"","uri":"","uri_hash":""}),
                |m| m.1.clone(),
            );
            Answer { bytes: bank::QueryDenomMetadataResponse { metadata: m.map(|m| m.0) }.encode_to_vec(), typed: bank(json!({"denom_metadata": {"metadata": v}})) }
        }
        "/cosmos.bank.v1beta1.Query/DenomsMetadata" => {
            let n = nlist(r) % 8;
            let ms: Vec<_> = (0..n).map(|_| metadata(r)).collect();
            let v: Vec<_> = ms.iter().map(|m| m.1.clone()).collect();
            let pagination = if r.pct(50) { Some(page::PageResponse { next_key: blob(r), total: r.below(100) }) } else { None };
            let key = pagination.as_ref().map(|p| b(&p.next_key));
            Answer {
                bytes: bank::QueryDenomsMetadataResponse { metadatas: ms.into_iter().map(|m| m.0).collect(), pagination }.encode_to_vec(),
                typed: bank(json!({"all_denom_metadata": {"metadata": v, "next_key": key}})),
            }
        }
        "/cosmwasm.wasm.v1.Query/ContractInfo" => {
            let info = wasm::ContractInfo {
                code_id: if r.pct(20) { u64::MAX } else { r.next() },
                creator: word(r),
                admin: if r.pct(40) { String::new() } else { format!("adm{}", word(r)) },
                label: word(r),
                ibc_port_id: if r.pct(40) { String::new() } else if r.pct(40) { (*r.pick(&["icahost", "wasm.", "transfer", " "])).to_string() } else { format!("wasm.{}", word(r)) },
                ..Default::default()
            };
            let opt = |s: &str| if s.is_empty() { Value::Null } else { json!(s) };
            let v = json!({"code_id": info.code_id, "creator": info.creator, "admin": opt(&info.admin), "pinned": false, "ibc_port": opt(&info.ibc_port_id)});
            let (ci, v) = if none { (None, Value::Null) } else { (Some(info), v) };
            Answer { bytes: wasm::QueryContractInfoResponse { address: word(r), contract_info: ci }.encode_to_vec(), typed: wasm_(json!({ "contract_info": v })) }
        }
        "/cosmwasm.wasm.v1.Query/RawContractState" => {
            let d = blob(r);
            let v = if d.is_empty() { Value::Null } else { json!(b(&d)) };
            Answer { bytes: wasm::QueryRawContractStateResponse { data: d }.encode_to_vec(), typed: wasm_(json!({ "raw_contract_state": v })) }
        }
        "/cosmwasm.wasm.v1.Query/SmartContractState" => {
            let d = blob(r);
            let v = json!(b(&d));
            Answer { bytes: wasm::QuerySmartContractStateResponse { data: d }.encode_to_vec(), typed: wasm_(json!({ "smart_contract_state": v })) }
        }
        "/cosmos.staking.v1beta1.Query/Validator" => {
            let v = if none { None } else { Some(validator(r, bad_amount)) };
            let j = v.as_ref().map_or(Value::Null, |v| v.1.clone());
            let bad = bad_amount && v.is_some();
            Answer { bytes: staking::QueryValidatorResponse { validator: v.map(|v| v.0) }.encode_to_vec(), typed: ok(stk(json!({"validator": {"validator": j}})), bad) }
        }
        "/cosmos.staking.v1beta1.Query/Validators" => {
            let n = nlist(r);
            let vs: Vec<_> = (0..n).map(|i| validator(r, bad_amount && i == 0)).collect();
            let j: Vec<_> = vs.iter().map(|v| v.1.clone()).collect();
            Answer { bytes: staking::QueryValidatorsResponse { validators: vs.into_iter().map(|v| v.0).collect(), pagination: None }.encode_to_vec(), typed: ok(stk(json!({"all_validators": {"validators": j}})), bad_amount && n > 0) }
        }
        "/cosmos.staking.v1beta1.Query/Delegation" => {
            let d = if none { None } else { Some(delegation(r, bad_amount)) };
            let j = d.as_ref().map_or(Value::Null, |d| d.1.clone());
            let bad = bad_amount && d.is_some();
            Answer { bytes: staking::QueryDelegationResponse { delegation_response: d.map(|d| d.0) }.encode_to_vec(), typed: ok(stk(json!({"delegation": {"delegation": j}})), bad) }
        }
        "/cosmos.staking.v1beta1.Query/DelegatorDelegations" => {
            let n = nlist(r);
            let ds: Vec<_> = (0..n).map(|i| delegation(r, bad_amount && i == n - 1)).collect();
            let j: Vec<_> = ds.iter().map(|d| d.1.clone()).collect();
            Answer { bytes: staking::QueryDelegatorDelegationsResponse { delegation_responses: ds.into_iter().map(|d| d.0).collect(), pagination: None }.encode_to_vec(), typed: ok(stk(json!({"all_delegations": {"delegations": j}})), bad_amount && n > 0) }
        }
        "/cosmos.staking.v1beta1.Query/Params" => {
            let denom = word(r);
            let typed = if none { None } else { stk(json!({"bonded_denom": {"denom": denom}})) };
            let params = if none { None } else { Some(staking::Params { bond_denom: denom, max_validators: 100, ..Default::default() }) };
            Answer { bytes: staking::QueryParamsResponse { params }.encode_to_vec(), typed }
        }
        _ => Answer { bytes: blob(r), typed: None },
    }
}

/// The response to report for one asked query, given the host's answer. `None`: error.
pub fn reported(q: &QueryRequest<Empty>, a: &Answer) -> Option<Value> {
    #[allow(deprecated)]
    if let QueryRequest::Stargate { path, .. } = q {
        return Some(json!({"stargate": {"data": b(&a.bytes), "path": path}}));
    }
    a.typed.clone()
}

pub fn valid_u128(s: &str) -> bool {
    Uint128::from_str(s).is_ok()
}
