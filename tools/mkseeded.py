#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ for chosen entries of mutants.py, each with a demonstration."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
import importlib
M = [e for n in ('', 2, 3, 4, 5, 6) for e in importlib.import_module(f'mutants{n}').M]
HERE = os.path.dirname(os.path.abspath(__file__))
MUT = {i: e for i, p, e in M}
O = 'IbcOrder::Ordered'; U = 'IbcOrder::Unordered'
CLOSE = r'''r#"{"close_channel":{}}"#'''
# id -> (property, needs, breaks, body)
S = {}
def s(i, p, needs, breaks, body): S[i] = (p, needs, breaks, body)

s('reopen-by-anyone', 'C01', 'a channel that was opened and then closed, and a stranger asking to create a channel without options',
  'anyone can make the controller start a new channel once its channel is closed', r'''
    let mut w = W::new("null", false);
    w.open("channel-0", "connection-0", IbcOrder::Ordered);
    w.own(r#"{"close_channel":{}}"#).unwrap();
    w.close("channel-0", "connection-0", IbcOrder::Ordered, false).unwrap();
    let x = w.user("stranger");
    assert!(w.exec(&x, &create("null")).is_err());
''')
s('pending-owner-sends', 'C01', 'a hand-over that was proposed and not yet accepted, and a send by the proposed owner',
  'a proposed owner commands the interchain account before accepting', r'''
    let mut w = W::new("null", false);
    w.open("channel-0", "connection-0", IbcOrder::Ordered);
    let x = w.user("next");
    w.own(&format!(r#"{{"update_ownership":{{"transfer_ownership":{{"new_owner":"{x}","expiry":null}}}}}}"#)).unwrap();
    assert!(w.exec(&x, r#"{"send_cosmos_msgs":{"messages":[],"queries":[]}}"#).is_err());
''')
s('same-proposal-ignored', 'C02', 'two proposals of the same new owner with different deadlines, and an acceptance between the two deadlines',
  'the latest proposal is not the one that counts: its deadline is ignored', r'''
    let mut w = W::new("null", false);
    let x = w.user("next");
    let h = w.env.block.height;
    w.own(&format!(r#"{{"update_ownership":{{"transfer_ownership":{{"new_owner":"{x}","expiry":null}}}}}}"#)).unwrap();
    w.own(&format!(r#"{{"update_ownership":{{"transfer_ownership":{{"new_owner":"{x}","expiry":{{"at_height":{}}}}}}}}}"#, h + 5)).unwrap();
    w.env.block.height += 10;
    assert!(w.exec(&x, r#"{"update_ownership":"accept_ownership"}"#).is_err());
''')
s('close-flag-left', 'C03', 'the owner closes a channel, a new one is opened, and a stranger submits a close of the new one directly to the chain',
  'one close request of the owner authorises every later close', r'''
    let mut w = W::new("null", false);
    w.open("channel-0", "connection-0", IbcOrder::Ordered);
    w.own(r#"{"close_channel":{}}"#).unwrap();
    w.close("channel-0", "connection-0", IbcOrder::Ordered, false).unwrap();
    w.own(&create("null")).unwrap();
    w.open("channel-1", "connection-0", IbcOrder::Ordered);
    assert!(w.close("channel-1", "connection-0", IbcOrder::Ordered, false).is_err());
''')
s('addr-len-chars', 'C04', 'a counterparty answering with an account address of at most 128 letters that take more than 128 bytes',
  'over-long account addresses are accepted', r'''
    let mut w = W::new("null", false);
    w.init("channel-0", "connection-0", IbcOrder::Ordered).unwrap();
    let v = meta("connection-0", &"é".repeat(100));
    assert!(w.ack_open("channel-0", "connection-0", IbcOrder::Ordered, &v).is_err());
    let v = meta("connection-0", &"a".repeat(128));
    assert!(w.ack_open("channel-0", "connection-0", IbcOrder::Ordered, &v).is_ok());
''')
s('init-per-connection', 'C05', 'an open channel and a request to create another one over a different connection',
  'a second channel handshake starts while a channel is open', r'''
    let mut w = W::new("null", false);
    w.open("channel-0", "connection-0", IbcOrder::Ordered);
    let _ = w.own(&create(&options("connection-7", "null")));
    assert!(w.init("channel-1", "connection-7", IbcOrder::Ordered).is_err());
''')
s('confirm-any-channel', 'C06', 'two handshakes in progress of which one completes, then the close of the other one by the counterparty is relayed',
  'the close of another channel marks the open channel as closed', r'''
    let mut w = W::new("null", false);
    w.init("channel-0", "connection-0", IbcOrder::Ordered).unwrap();
    w.own(&create("null")).unwrap();
    w.init("channel-1", "connection-0", IbcOrder::Ordered).unwrap();
    w.ack_open("channel-0", "connection-0", IbcOrder::Ordered, &meta("connection-0", ADDR)).unwrap();
    let _ = w.close("channel-1", "connection-0", IbcOrder::Ordered, true);
    assert!(w.query(r#"{"get_channel":{}}"#).contains("STATE_OPEN"));
''')
s('confirm-noop-unordered', 'C06', 'an unordered channel that the counterparty closes',
  'the controller goes on reporting a closed channel as open', r'''
    let mut w = W::new("\"ORDER_UNORDERED\"", false);
    w.open("channel-0", "connection-0", IbcOrder::Unordered);
    w.close("channel-0", "connection-0", IbcOrder::Unordered, true).unwrap();
    assert!(w.query(r#"{"get_channel":{}}"#).contains("STATE_CLOSED"));
''')
s('transfer-one-timeout', 'C07', 'an IBC transfer message with both a height and a timestamp timeout',
  'the timestamp timeout of the transfer the account executes is lost', r'''
    let mut w = W::new("null", false);
    w.open("channel-0", "connection-0", IbcOrder::Ordered);
    let p = w.send(r#"[{"ibc":{"transfer":{"channel_id":"channel-9","to_address":"x","amount":{"denom":"d","amount":"5"},"timeout":{"block":{"revision":1,"height":20},"timestamp":"1700000000000000001"}}}}]"#, "[]", "").unwrap();
    let m = tx_msgs(&p);
    assert_eq!(m.len(), 1);
    let t = anybuf::Bufany::deserialize(&m[0].1).unwrap();
    assert_eq!(t.uint64(7), Some(1700000000000000001));
    assert_eq!(t.message(6).unwrap().uint64(2), Some(20));
''')
s('page-limit-zero', 'C08', 'a paginated query with limit zero (host default) and some other page argument',
  'the pagination of the query is dropped', r'''
    let mut w = W::new("null", false);
    w.open("channel-0", "connection-0", IbcOrder::Ordered);
    let p = w.send("[]", r#"[{"bank":{"all_denom_metadata":{"pagination":{"key":null,"limit":0,"reverse":true}}}}]"#, "").unwrap();
    let m = tx_msgs(&p);
    let r = bytes_of(&m[0].1, 2);
    assert_eq!(r.len(), 1);
    let d = bytes_of(&r[0], 2).pop().unwrap();
    let d = anybuf::Bufany::deserialize(&d).unwrap();
    assert_eq!(d.message(1).and_then(|pg| pg.bool(5)), Some(true));
''')
s('timeout-saturating', 'C09', 'a requested timeout that is not representable in nanoseconds',
  'a timeout that cannot be represented is clamped instead of refused', r'''
    let mut w = W::new("null", false);
    w.open("channel-0", "connection-0", IbcOrder::Ordered);
    assert!(w.send("[]", "[]", &format!(r#","timeout_seconds":{}"#, u64::MAX / 1_000_000_000)).is_err());
    assert!(w.send("[]", "[]", &format!(r#","timeout_seconds":{}"#, u64::MAX)).is_err());
    let p = w.send("[]", "[]", r#","timeout_seconds":7"#).unwrap();
    assert_eq!(p.timeout.timestamp(), Some(w.env.block.time.plus_seconds(7)));
''')
s('timeout-forgets-current', 'C10', 'a packet of an earlier channel timing out while a query packet with the same sequence is in flight on the current channel',
  'the query result of the current packet is lost', r'''
    let mut w = W::new("\"ORDER_UNORDERED\"", true);
    w.open("channel-0", "connection-0", IbcOrder::Unordered);
    let p0 = w.send("[]", &format!("[{BALANCE}]"), "").unwrap();
    w.close("channel-0", "connection-0", IbcOrder::Unordered, true).unwrap();
    w.own(&create("null")).unwrap();
    w.open("channel-1", "connection-0", IbcOrder::Unordered);
    let p1 = w.send("[]", &format!("[{BALANCE}]"), "").unwrap();
    assert_eq!(p0.sequence, p1.sequence);
    w.timeout(&p0).unwrap();
    let o = w.ack(&p1, &ack_ok(&[answers(3, &[balance_answer("12")])])).unwrap();
    assert!(callback(&o).unwrap().contains("\"success\""));
''')
s('zip-only', 'C11', 'a host that returns more query responses than were asked for',
  'a wrong number of responses is reported as a success', r'''
    let mut w = W::new("null", true);
    w.open("channel-0", "connection-0", IbcOrder::Ordered);
    let p = w.send("[]", &format!("[{BALANCE}]"), "").unwrap();
    let o = w.ack(&p, &ack_ok(&[answers(3, &[balance_answer("12"), balance_answer("13")])])).unwrap();
    let c = callback(&o).unwrap();
    let qr = c.split("\"query_result\":").nth(1).unwrap();
    assert!(qr.starts_with("{\"error\""), "{c}");
''')
s('coin-u64', 'C11', 'a balance above 2^64 reported by the host',
  'large coin amounts are reported wrongly', r'''
    let mut w = W::new("null", true);
    w.open("channel-0", "connection-0", IbcOrder::Ordered);
    let p = w.send("[]", &format!("[{BALANCE}]"), "").unwrap();
    let a = u128::MAX.to_string();
    let o = w.ack(&p, &ack_ok(&[answers(3, &[balance_answer(&a)])])).unwrap();
    assert!(callback(&o).unwrap().contains(&a));
''')
s('timeout-callback-current-only', 'C12', 'a packet of an earlier channel that times out after a new channel was opened',
  'the callback for that timeout is not made', r'''
    let mut w = W::new("\"ORDER_UNORDERED\"", true);
    w.open("channel-0", "connection-0", IbcOrder::Unordered);
    let p0 = w.send("[]", "[]", "").unwrap();
    w.close("channel-0", "connection-0", IbcOrder::Unordered, true).unwrap();
    w.own(&create("null")).unwrap();
    w.open("channel-1", "connection-0", IbcOrder::Unordered);
    let o = w.timeout(&p0).unwrap();
    assert!(callback(&o).unwrap().contains("on_timeout_packet_callback"));
''')
s('timeout-callback-swallowed', 'C13', 'a timeout whose callback fails',
  'the timeout is processed although its callback failed, and cannot be relayed again', r'''
    let mut w = W::new("\"ORDER_UNORDERED\"", true);
    w.open("channel-0", "connection-0", IbcOrder::Unordered);
    let p = w.send("[]", "[]", "").unwrap();
    let o = w.timeout(&p).unwrap();
    assert_eq!(o.msgs.len(), 1);
    if matches!(o.msgs[0].reply_on, ReplyOn::Error | ReplyOn::Always) {
        let id = o.msgs[0].id;
        assert!(w.reply(id, SubMsgResult::Err("callback failed".into())).is_err());
    }
''')
s('same-account-required', 'C14', 'a channel closed and a new one created over another connection, where the host assigns another account',
  'the new channel can never open', r'''
    let mut w = W::new("null", false);
    w.open("channel-0", "connection-0", IbcOrder::Ordered);
    w.close("channel-0", "connection-0", IbcOrder::Ordered, true).unwrap();
    w.own(&create(&options("connection-7", "null"))).unwrap();
    w.init("channel-1", "connection-7", IbcOrder::Ordered).unwrap();
    w.ack_open("channel-1", "connection-7", IbcOrder::Ordered, &meta("connection-7", "cosmos1other")).unwrap();
''')
s('timeout-old-channel-closed', 'C15', 'a packet of a first channel that times out when a second channel has been opened and closed again',
  'the packet of the first channel cannot be resolved', r'''
    let mut w = W::new("null", false);
    w.open("channel-0", "connection-0", IbcOrder::Unordered);
    let a = w.send("[]", "[]", "").unwrap();
    w.close("channel-0", "connection-0", IbcOrder::Unordered, true).unwrap();
    w.own(&create("null")).unwrap();
    w.open("channel-1", "connection-0", IbcOrder::Unordered);
    w.close("channel-1", "connection-0", IbcOrder::Unordered, true).unwrap();
    w.timeout(&a).unwrap();
''')
s('expiry-keeps-longer', 'C02', 'a proposal with a deadline followed by a new proposal without one, accepted after the first deadline',
  'the deadline of a proposal that was replaced still counts', r'''
    let mut w = W::new("null", false);
    let x = w.user("next");
    let h = w.env.block.height;
    w.own(&format!(r#"{{"update_ownership":{{"transfer_ownership":{{"new_owner":"{x}","expiry":{{"at_height":{}}}}}}}}}"#, h + 5)).unwrap();
    w.own(&format!(r#"{{"update_ownership":{{"transfer_ownership":{{"new_owner":"{x}","expiry":null}}}}}}"#)).unwrap();
    w.env.block.height += 10;
    assert!(w.exec(&x, r#"{"update_ownership":"accept_ownership"}"#).is_ok());
''')
s('confirm-allows-close', 'C03', 'a channel closed by the counterparty, a new one opened, and a stranger submitting its close directly to the chain',
  'one close by the counterparty authorises a later close by anyone', r'''
    let mut w = W::new("null", false);
    w.open("channel-0", "connection-0", IbcOrder::Unordered);
    w.close("channel-0", "connection-0", IbcOrder::Unordered, true).unwrap();
    w.own(&create("null")).unwrap();
    w.open("channel-1", "connection-0", IbcOrder::Unordered);
    assert!(w.close("channel-1", "connection-0", IbcOrder::Unordered, false).is_err());
''')
s('reopen-same-order', 'C14', 'a closed channel and a new one requested with the other ordering',
  'a controller whose ordered channel closed can never be given an unordered one', r'''
    let mut w = W::new("null", false);
    w.open("channel-0", "connection-0", IbcOrder::Ordered);
    w.close("channel-0", "connection-0", IbcOrder::Ordered, true).unwrap();
    w.own(&create(&options("connection-0", "\"ORDER_UNORDERED\""))).unwrap();
    w.open("channel-1", "connection-0", IbcOrder::Unordered);
''')
s('two-query-sends-per-block', 'C10', 'two packets with queries sent in one block, the second answered',
  'the answers of the second packet are not returned', r'''
    let q = r#"[{"bank":{"all_balances":{"address":"a"}}}]"#;
    let mut w = W::new("null", true);
    w.open("channel-0", "connection-0", IbcOrder::Unordered);
    let a = w.send("[]", q, "").unwrap();
    let b = w.send("[]", q, "").unwrap();
    for p in [b, a] {
        let out = w.ack(&p, &ack_ok(&[answers(5, &[vec![]])])).unwrap();
        assert!(callback(&out).unwrap().contains("query_result"));
    }
''')
s('migrate-drops-expired', 'C17', 'a proposed hand-over whose deadline has passed and a migration',
  'a migration changes the ownership record', r'''
    let mut w = W::new("null", false);
    let x = w.user("next");
    let h = w.env.block.height;
    w.own(&format!(r#"{{"update_ownership":{{"transfer_ownership":{{"new_owner":"{x}","expiry":{{"at_height":{}}}}}}}}}"#, h + 5)).unwrap();
    w.env.block.height += 10;
    let before = w.query(r#"{"ownership":{}}"#);
    let name = cw2::get_contract_version(w.deps.as_ref().storage).unwrap().contract;
    cw2::set_contract_version(w.deps.as_mut().storage, name, "0.1.0").unwrap();
    let e = w.env.clone();
    cw_ica_controller::contract::migrate(w.deps.as_mut(), e, cosmwasm_std::from_json("{}").unwrap()).unwrap();
    assert_eq!(before, w.query(r#"{"ownership":{}}"#));
''')
s('event-seq-hex', 'C20', 'a packet whose sequence number exceeds 4294967295',
  'the event does not name the packet', r'''
    let mut w = W::new("null", false);
    w.open("channel-0", "connection-0", IbcOrder::Unordered);
    let mut p = w.send("[]", "[]", "").unwrap();
    p.sequence = 5_000_000_000;
    let out = w.ack(&p, r#"{"result":"AA=="}"#).unwrap();
    assert!(out.events.iter().any(|e| e.attributes.iter().any(|a| a.value == "5000000000")));
''')
s('ordering-inherited', 'C16', 'options naming an ordering once, followed by new options naming none',
  'the new options are not used as given: the old ordering is kept', r'''
    let mut w = W::new("\"ORDER_UNORDERED\"", false);
    let mut v = W::new("null", false);
    let a = w.own(&create(&options("connection-0", "null"))).unwrap();
    let b = v.own(&create(&options("connection-0", "null"))).unwrap();
    assert_eq!(a.msgs, b.msgs);
    assert_eq!(w.own(&create("null")).unwrap().msgs, b.msgs);
''')
s('semver-build', 'C17', 'a newer contract version with build metadata in its version string, migrated to this code',
  'migration accepts a downgrade', r'''
    let mut w = W::new("null", false);
    for v in ["0.20.0", "0.20.1", "0.21.0+mainnet", "1.0.0+1"] {
        let name = cw2::get_contract_version(w.deps.as_ref().storage).unwrap().contract;
        cw2::set_contract_version(w.deps.as_mut().storage, name, v).unwrap();
        let e = w.env.clone();
        assert!(cw_ica_controller::contract::migrate(w.deps.as_mut(), e, cosmwasm_std::from_json("{}").unwrap()).is_err(), "{v}");
    }
''')
s('state-hides-closed', 'C18', 'a state query after the channel was closed',
  'the contract-state query denies the account that is recorded', r'''
    let mut w = W::new("null", false);
    w.open("channel-0", "connection-0", IbcOrder::Ordered);
    w.close("channel-0", "connection-0", IbcOrder::Ordered, true).unwrap();
    assert!(w.query(r#"{"get_contract_state":{}}"#).contains(ADDR));
''')
s('timeout-pending-with-callback', 'C19', 'a query packet that times out while no callback address is configured',
  'the record of the queries stays stored for ever', r'''
    let mut w = W::new("\"ORDER_UNORDERED\"", false);
    w.open("channel-0", "connection-0", IbcOrder::Unordered);
    let before = w.dump().len();
    let p = w.send("[]", &format!("[{BALANCE}]"), "").unwrap();
    w.timeout(&p).unwrap();
    assert_eq!(w.dump().len(), before);
''')
s('event-error-trim', 'C20', 'an error acknowledgement whose text begins or ends with white space',
  'the published error text differs from the acknowledgement', r'''
    let mut w = W::new("null", false);
    w.open("channel-0", "connection-0", IbcOrder::Ordered);
    let p = w.send("[]", "[]", "").unwrap();
    let o = w.ack(&p, r#"{"error":" boom "}"#).unwrap();
    assert!(o.events[0].attributes.iter().any(|a| a.value == " boom "));
''')
s('inst2-salt-hash', 'C21', 'a salt that begins or ends with white space',
  'the predicted address is not the one the chain assigns', r'''
    let mut w = W::new("null", false);
    let creator = w.user("chain");
    w.deps.querier.update_wasm(move |q| match q {
        WasmQuery::CodeInfo { code_id } => {
            let r = CodeInfoResponse::new(*code_id, creator.clone(), Checksum::generate(b"code"));
            SystemResult::Ok(ContractResult::Ok(cosmwasm_std::to_json_binary(&r).unwrap()))
        }
        _ => panic!(),
    });
    let msg: cw_ica_controller::types::msg::InstantiateMsg = cosmwasm_std::from_json(format!(
        r#"{{"owner":null,"channel_open_init_options":{},"send_callbacks_to":null}}"#, options("connection-0", "null"))).unwrap();
    let env = { let mut e = w.env.clone(); e.contract.address = w.user("parent"); e };
    let code = cw_ica_controller::helpers::CwIcaControllerCode::new(4);
    for salt in ["a", " b", "c\n", ""] {
        if salt.is_empty() { continue; }
        let d = w.deps.as_ref();
        let (m, addr) = code.instantiate2(d.api, &d.querier, &env, msg.clone(), "l", None::<String>, salt).unwrap();
        let CosmosMsg::Wasm(WasmMsg::Instantiate2 { salt, .. }) = m else { panic!() };
        let c = d.api.addr_canonicalize(env.contract.address.as_str()).unwrap();
        let a = cosmwasm_std::instantiate2_address(Checksum::generate(b"code").as_slice(), &c, &salt).unwrap();
        assert_eq!(d.api.addr_humanize(&a).unwrap(), addr);
    }
''')
s('queries-required', 'C22', 'a send built by a contract whose library has no query support, so without a queries field',
  'such sends are refused', r'''
    let mut w = W::new("null", false);
    w.open("channel-0", "connection-0", IbcOrder::Ordered);
    w.own(r#"{"send_cosmos_msgs":{"messages":[],"packet_memo":"m","timeout_seconds":5}}"#).unwrap();
''')
s('hash-order', 'C23', 'a send with three different kinds of messages and no memo, executed on two nodes (or twice)',
  'nodes compute different packets for the same transaction', r'''
    let mut seen: Vec<Binary> = vec![];
    for _ in 0..12 {
        let mut w = W::new("null", false);
        w.open("channel-0", "connection-0", IbcOrder::Ordered);
        let p = w.send(r#"[{"bank":{"send":{"to_address":"a","amount":[]}}},{"gov":{"vote":{"proposal_id":1,"option":"yes"}}},{"staking":{"delegate":{"validator":"v","amount":{"denom":"d","amount":"1"}}}},{"distribution":{"withdraw_delegator_reward":{"validator":"v"}}}]"#, "[]", "").unwrap();
        seen.push(p.data);
    }
    assert!(seen.iter().all(|d| *d == seen[0]));
''')

HEAD = '''#![allow(deprecated, unused_imports)]
mod h;
use cosmwasm_std::{
    Api, Binary, Checksum, CodeInfoResponse, ContractResult, CosmosMsg, IbcOrder, ReplyOn,
    SubMsgResult, SystemResult, WasmMsg, WasmQuery,
};
use h::*;

#[test]
fn demo() {'''

def main():
    out = os.path.join(HERE, '..', 'seeded'); os.makedirs(out, exist_ok=True)
    for i, (p, needs, breaks, body) in S.items():
        d = f'{out}/{p.lower()}-{i}'; os.makedirs(d, exist_ok=True)
        diff = ''
        for f in dict.fromkeys(x[0] for x in MUT[i]):
            src = open(f'/repo/{f}').read(); new = src
            for ff, o, n in MUT[i]:
                if ff == f:
                    assert new.count(o) >= 1, (i, o)
                    new = new.replace(o, n, 1)
            open('/tmp/mk.a', 'w').write(src); open('/tmp/mk.b', 'w').write(new)
            r = subprocess.run(['diff', '-u', '--label', 'a/' + f, '--label', 'b/' + f, '/tmp/mk.a', '/tmp/mk.b'], capture_output=True, text=True)
            diff += f'diff --git a/{f} b/{f}\n' + r.stdout
        open(f'{d}/patch.diff', 'w').write(diff)
        shutil.copy(f'{HERE}/demos/h.rs', f'{d}/h.rs'); shutil.copy(f'{HERE}/demos/demo.sh', f'{d}/demo.sh'); os.chmod(f'{d}/demo.sh', 0o755)
        open(f'{d}/demo.rs', 'w').write(HEAD + body + '}\n')
        json.dump({'property': p, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    print(len(S))
main()
