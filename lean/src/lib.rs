//! C interface to the real cw-ica-owner contract: JSON in, JSON out.

use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{
    from_json, to_json_binary, Addr, Binary, Checksum, CodeInfoResponse, ContractResult, Deps, DepsMut, Empty, Env,
    MessageInfo, Order, Querier, QuerierResult, QuerierWrapper, QueryRequest, Record, Storage, SystemError,
    SystemResult, WasmQuery,
};
use serde_json::{json, Value};

struct Mem(BTreeMap<Vec<u8>, Vec<u8>>);

impl Storage for Mem {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.0.get(key).cloned()
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        self.0.insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        self.0.remove(key);
    }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        let mut v: Vec<Record> = self
            .0
            .iter()
            .filter(|(k, _)| start.map_or(true, |s| k.as_slice() >= s) && end.map_or(true, |e| k.as_slice() < e))
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect();
        if order == Order::Descending {
            v.reverse();
        }
        Box::new(v.into_iter())
    }
}

struct Q(u64);

impl Querier for Q {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        match from_json::<QueryRequest<Empty>>(bin) {
            Ok(QueryRequest::Wasm(WasmQuery::CodeInfo { code_id })) if code_id == self.0 => {
                let r = CodeInfoResponse::new(code_id, MockApi::default().addr_make("uploader"), Checksum::generate(&code_id.to_be_bytes()));
                SystemResult::Ok(ContractResult::Ok(to_json_binary(&r).unwrap()))
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest { kind: "query".into() }),
        }
    }
}

fn run(input: &Value) -> Result<Value, String> {
    let err = |e: &dyn std::fmt::Display| e.to_string();
    let bin = |v: &Value| Binary::from_base64(v.as_str().unwrap_or_default()).map_err(|e| e.to_string());
    let msg = bin(&input["msg"])?;
    if input["op"] == "decode" {
        let m: cw_ica_owner::msg::ExecuteMsg = from_json(&msg).map_err(|e| err(&e))?;
        return serde_json::to_value(&m).map_err(|e| err(&e));
    }
    let env: Env = serde_json::from_value(input["env"].clone()).map_err(|e| err(&e))?;
    if input["op"] == "packet" {
        // as a contract that drives an account by itself would build it
        use cw_ica_controller::ibc::types::{metadata::TxEncoding, packet::IcaPacketData};
        let messages: Vec<cosmwasm_std::CosmosMsg> = from_json(&msg).map_err(|e| err(&e))?;
        let memo = input["memo"].as_str().map(str::to_string);
        let text = |k: &str| input[k].as_str().unwrap_or_default().to_string();
        let p = IcaPacketData::from_cosmos_msgs(messages, &TxEncoding::Protobuf, memo, &text("ica")).map_err(|e| err(&e))?;
        let m = p.to_ibc_msg(&env, text("channel"), input["timeout"].as_u64()).map_err(|e| err(&e))?;
        return serde_json::to_value(&m).map_err(|e| err(&e));
    }
    let code_id = input["code_id"].as_u64().unwrap_or_default();
    let mut mem = Mem(BTreeMap::new());
    for kv in input["store"].as_array().into_iter().flatten() {
        mem.0.insert(bin(&kv[0])?.to_vec(), bin(&kv[1])?.to_vec());
    }
    let api = MockApi::default();
    let q = Q(code_id);
    if input["op"] == "registry" {
        let n = input["ids"].as_u64().unwrap_or_default();
        let deps = || Deps { storage: &mem, api: &api, querier: QuerierWrapper::new(&q) };
        let ask = |m: Value| -> Value {
            let r = from_json(m.to_string().as_bytes()).and_then(|m| cw_ica_owner::contract::query(deps(), env.clone(), m));
            r.ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_default()
        };
        let icas: Vec<Value> = (0..n).map(|i| ask(json!({"get_ica_contract_state": {"ica_id": i}}))).collect();
        return Ok(json!({"state": ask(json!({"get_contract_state": {}})), "count": ask(json!({"get_ica_count": {}})), "icas": icas}));
    }
    let info = MessageInfo { sender: Addr::unchecked(input["sender"].as_str().unwrap_or_default()), funds: vec![] };
    let deps = DepsMut { storage: &mut mem, api: &api, querier: QuerierWrapper::new(&q) };
    let r = if input["op"] == "init" {
        let m = from_json(&msg).map_err(|e| err(&e))?;
        cw_ica_owner::contract::instantiate(deps, env, info, m).map_err(|e| err(&e))?
    } else {
        let m = from_json(&msg).map_err(|e| err(&e))?;
        cw_ica_owner::contract::execute(deps, env, info, m).map_err(|e| err(&e))?
    };
    let store: Vec<_> = mem.0.iter().map(|(k, v)| json!([Binary::from(k.as_slice()).to_base64(), Binary::from(v.as_slice()).to_base64()])).collect();
    Ok(json!({"msgs": serde_json::to_value(&r.messages).map_err(|e| err(&e))?, "store": store}))
}

/// # Safety
/// `ptr` and `len` name a byte buffer; the result is released with `lean_free`.
#[no_mangle]
pub unsafe extern "C" fn lean_call(ptr: *const u8, len: usize, out_len: *mut usize) -> *mut u8 {
    let input: Value = serde_json::from_slice(std::slice::from_raw_parts(ptr, len)).unwrap_or_default();
    let r = catch_unwind(AssertUnwindSafe(|| run(&input))).unwrap_or_else(|_| Err("panic".into()));
    let out = match r {
        Ok(v) => json!({ "ok": v }),
        Err(e) => json!({ "err": e }),
    };
    let b = serde_json::to_vec(&out).unwrap().into_boxed_slice();
    *out_len = b.len();
    Box::into_raw(b).cast()
}

/// # Safety
/// `ptr` and `len` come from `lean_call`.
#[no_mangle]
pub unsafe extern "C" fn lean_free(ptr: *mut u8, len: usize) {
    drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(ptr, len)));
}

/// Panics inside the contract are outcomes, not noise.
#[no_mangle]
pub extern "C" fn lean_quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}
