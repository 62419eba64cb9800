//! The real cw-ica-owner contract, compiled against the library without query and staking support
//! (another feature set of the same crate, hence another shared object).

use std::ffi::{c_char, c_int, c_void, CString};
use std::sync::{Arc, OnceLock};

use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{Binary, CosmosMsg, Env, IbcMsg, SubMsg};
use serde_json::{json, Value};

use crate::world::Map;

extern "C" {
    fn dlopen(name: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
}

type Call = unsafe extern "C" fn(*const u8, usize, *mut usize) -> *mut u8;
type Free = unsafe extern "C" fn(*mut u8, usize);

static LIB: OnceLock<Option<(Call, Free)>> = OnceLock::new();

pub fn load(path: &str) -> bool {
    LIB.get_or_init(|| unsafe {
        let p = CString::new(path).ok()?;
        let h = dlopen(p.as_ptr(), 2);
        if h.is_null() {
            return None;
        }
        let sym = |n: &str| {
            let n = CString::new(n).unwrap();
            dlsym(h, n.as_ptr())
        };
        let (c, f, q) = (sym("lean_call"), sym("lean_free"), sym("lean_quiet"));
        if c.is_null() || f.is_null() || q.is_null() {
            return None;
        }
        std::mem::transmute::<*mut c_void, extern "C" fn()>(q)();
        Some((std::mem::transmute::<*mut c_void, Call>(c), std::mem::transmute::<*mut c_void, Free>(f)))
    })
    .is_some()
}

pub fn available() -> bool {
    matches!(LIB.get(), Some(Some(_)))
}

fn raw(input: &Value) -> Result<Value, String> {
    let Some(Some((call, free))) = LIB.get() else { return Err("not loaded".into()) };
    let b = serde_json::to_vec(input).unwrap();
    let out: Value = unsafe {
        let mut n = 0usize;
        let p = call(b.as_ptr(), b.len(), &mut n);
        let v = serde_json::from_slice(std::slice::from_raw_parts(p, n)).unwrap_or_default();
        free(p, n);
        v
    };
    match out.get("ok") {
        Some(v) => Ok(v.clone()),
        None => Err(out["err"].as_str().unwrap_or("?").to_string()),
    }
}

fn b64(v: &[u8]) -> String {
    Binary::from(v).to_base64()
}

fn call(op: &str, env: &Env, store: &Map, sender: &str, msg: &[u8], code_id: u64) -> Result<(Vec<SubMsg>, Map), String> {
    let st: Vec<_> = store.iter().map(|(k, v)| json!([b64(k), b64(v)])).collect();
    let out = raw(&json!({"op": op, "env": env, "store": st, "sender": sender, "msg": b64(msg), "code_id": code_id}))?;
    let msgs: Vec<SubMsg> = serde_json::from_value(out["msgs"].clone()).map_err(|e| e.to_string())?;
    let d = |v: &Value| Binary::from_base64(v.as_str().unwrap_or_default()).unwrap_or_default().to_vec();
    let map = out["store"].as_array().into_iter().flatten().map(|kv| (d(&kv[0]), d(&kv[1]))).collect();
    Ok((msgs, map))
}

/// The callback as a receiver without query support understands it. `None`: not loaded.
pub fn decode(msg: &[u8]) -> Option<Result<Value, String>> {
    if !available() {
        return None;
    }
    Some(raw(&json!({"op": "decode", "msg": b64(msg)})))
}

pub fn init(env: Env, sender: &str, admin: Option<&str>, code_id: u64) -> Result<Map, String> {
    let mut msg = json!({"ica_controller_code_id": code_id});
    if let Some(a) = admin {
        msg["admin"] = json!(a);
    }
    call("init", &env, &Map::new(), sender, msg.to_string().as_bytes(), code_id).map(|x| x.1)
}

/// The packet a contract using the library without query and staking support builds.
pub fn packet(env: &Env, messages: &[CosmosMsg], memo: &Option<String>, ica: &str, channel: &str, timeout: Option<u64>) -> Result<IbcMsg, String> {
    let msg = serde_json::to_vec(messages).map_err(|e| e.to_string())?;
    let v = raw(&json!({"op": "packet", "env": env, "msg": b64(&msg), "memo": memo, "ica": ica, "channel": channel, "timeout": timeout}))?;
    serde_json::from_value(v).map_err(|e| e.to_string())
}

/// What the owner contract answers about itself and its first `ids` controllers (null: refused).
pub fn registry(env: &Env, store: &Map, ids: usize) -> Result<Value, String> {
    let st: Vec<_> = store.iter().map(|(k, v)| json!([b64(k), b64(v)])).collect();
    raw(&json!({"op": "registry", "env": env, "store": st, "msg": "", "ids": ids}))
}

pub fn exec(env: Env, store: Arc<Map>, sender: &str, msg: &[u8], _api: &MockApi, code_id: u64) -> (Result<Vec<SubMsg>, String>, Arc<Map>) {
    match call("exec", &env, &store, sender, msg, code_id) {
        Ok((m, s)) => (Ok(m), Arc::new(s)),
        Err(e) => (Err(e), store),
    }
}

/// The address listed under `id`.
pub fn ctl_of(env: &Env, m: &Map, id: u64) -> Option<String> {
    let q = registry(env, m, id as usize + 1).ok()?;
    q["icas"][id as usize]["contract_addr"].as_str().map(str::to_string)
}

pub fn open_mismatch(env: &Env, m: &Map, id: usize, o: &Value) -> Option<String> {
    let q = registry(env, m, id + 1).ok()?;
    let s = &q["icas"][id]["ica_state"];
    let got = json!({"channel": s["channel_state"]["channel"], "ica_address": s["ica_addr"], "tx_encoding": s["tx_encoding"]});
    if got == *o {
        None
    } else {
        Some(format!("owner contract recorded {got}, callback said {o}"))
    }
}
