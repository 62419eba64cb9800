//! Faults stop: relayers drain everything, owners reopen, one packet makes the round trip.

use std::sync::Arc;

use cosmwasm_std::{BankMsg, BankQuery, CosmosMsg, IbcOrder, QueryRequest};

use crate::host::BState;
use crate::step::*;
use crate::world::{short, ASt, ATx, Kind, PSt, World};

/// Every relay step the IBC layer would let through now.
pub fn relay_options(w: &World) -> Vec<Step> {
    let mut v = vec![];
    for (id, b) in &w.b.chans {
        let a = w.a.core.chans.get(&b.a_chan);
        if b.state == BState::TryOpen {
            if a.is_some_and(|a| a.state == ASt::Init) {
                v.push(Step::OpenAck { bchan: id.clone(), rly: 0, oog: None });
            } else if a.is_some_and(|a| a.cp_chan == *id) {
                v.push(Step::Confirm { bchan: id.clone() });
            }
        }
        if b.state != BState::Closed && a.is_some_and(|a| a.state == ASt::Closed && a.cp_chan == *id) {
            v.push(Step::CloseConfirmB { bchan: id.clone() });
        }
        if b.state == BState::Closed && a.is_some_and(|a| a.state == ASt::Open && a.cp_chan == *id) {
            v.push(Step::CloseConfirmA { chan: b.a_chan.clone(), rly: 0, oog: None });
        }
    }
    let mut n = 0;
    for ((chan, seq), p) in &w.a.core.packets {
        if p.st != PSt::InFlight {
            continue;
        }
        let bch = &p.packet.dest.channel_id;
        let ac = &w.a.core.chans[chan];
        if w.b.recs.contains_key(&(bch.clone(), *seq)) {
            if w.ack_allowed(ac.state) && (ac.order == IbcOrder::Unordered || ac.next_ack == *seq) {
                v.push(Step::Ack { chan: chan.clone(), seq: *seq, rly: (n % 2) as u8, oog: None });
            }
        } else {
            let ts = p.packet.timeout.timestamp().map_or(u64::MAX, |t| t.nanos());
            if let Some(b) = w.b.chans.get(bch) {
                if b.state == BState::Open && w.b.time < ts && (b.order == IbcOrder::Unordered || b.next_recv == *seq) {
                    v.push(Step::Recv { chan: chan.clone(), seq: *seq, host: HostDo::Normal });
                }
            }
            if w.can_timeout(chan, *seq, false) {
                v.push(Step::Timeout { chan: chan.clone(), seq: *seq, rly: 1, on_close: false, oog: None });
            } else if w.can_timeout(chan, *seq, true) {
                v.push(Step::Timeout { chan: chan.clone(), seq: *seq, rly: 1, on_close: true, oog: None });
            }
        }
        n += 1;
    }
    v
}

fn digest(w: &World) -> (usize, usize, usize, usize, usize) {
    (
        w.a.core.packets.values().filter(|p| p.st == PSt::InFlight).count(),
        w.a.core.chans.values().filter(|c| c.state == ASt::Open).count(),
        w.a.core.chans.values().filter(|c| c.state == ASt::Closed).count(),
        w.b.chans.values().map(|c| c.state as usize).sum(),
        w.b.recs.len(),
    )
}

fn drain(w: &mut World) {
    let bound = 20 + 4 * (w.a.core.packets.len() + w.b.chans.len());
    for _ in 0..bound {
        let before = digest(w);
        for s in relay_options(w) {
            w.settle_step(&s);
        }
        if digest(w) == before {
            break;
        }
    }
    for ((chan, seq), p) in w.a.core.packets.clone() {
        if p.st != PSt::InFlight {
            continue;
        }
        let ac = &w.a.core.chans[&chan];
        let acked = w.b.recs.contains_key(&(p.packet.dest.channel_id.clone(), seq));
        let can_ack = acked && w.ack_allowed(ac.state) && (ac.order == IbcOrder::Unordered || ac.next_ack == seq);
        if can_ack || w.can_timeout(&chan, seq, false) || w.can_timeout(&chan, seq, true) {
            w.violate(&["C15"], "unresolved_packet", format!("packet {chan}/{seq} stays unresolved although the chain can {} it", if can_ack { "acknowledge" } else { "time out" }));
        }
    }
}

pub fn settle(w: &mut World) {
    w.commit();
    for p in Arc::make_mut(&mut w.a.probes).iter_mut() {
        p.mode = PMode::Ok;
    }
    let t = w.a.time.max(w.b.time) + 5_000_000_000;
    let (da, db) = (t - w.a.time, t - w.b.time);
    w.settle_step(&Step::AdvB { dt: db });
    w.settle_step(&Step::AdvA { dt: da, blocks: 3 });
    w.ev(&["C13", "C14", "C15"]);
    for ctl in w.ctls.clone() {
        let Some(m) = w.model(&ctl) else { continue };
        let usable = match m.cb.as_ref().map(|c| w.kind_of(c)) {
            None => true,
            Some(Some(Kind::Probe(_) | Kind::Counter)) => true,
            Some(Some(Kind::Owner)) => w.a.reg.iter().any(|x| x.0 == ctl),
            _ => false,
        };
        if !usable {
            let to = w.addr(&AddrRef::Probe(0));
            owner_exec(w, &ctl, &XMsg::UpdateCallbackAddress { callback_address: Some(to) });
        }
    }
    drain(w);
    w.check_state();
    for ctl in w.ctls.clone() {
        reopen(w, &ctl);
        round_trip(w, &ctl);
    }
    drain(w);
    for ((chan, seq), p) in w.a.core.packets.clone() {
        if p.callbacks > 1 {
            w.violate(&["C12"], "callback_twice", format!("packet {chan}/{seq} was called back {} times", p.callbacks));
        }
    }
}

fn owner_exec(w: &mut World, ctl: &str, msg: &XMsg) -> bool {
    let Some(m) = w.model(ctl) else { return false };
    w.note(|| format!("  owner: {}", String::from_utf8_lossy(&msg.to_vec())));
    let r = w.deliver(&ATx::Exec { sender: m.owner.clone(), contract: ctl.to_string(), msg: msg.to_vec() }, None);
    w.check_ctl(ctl);
    r.is_ok()
}

fn workable(w: &World, o: &Opts) -> bool {
    w.cfg.conns.iter().any(|c| c.0 == o.connection_id && c.1 == o.counterparty_connection_id)
        && o.counterparty_port_id.as_deref().unwrap_or("icahost") == "icahost"
}

fn reopen(w: &mut World, ctl: &str) {
    let Some(m) = w.model(ctl) else { return };
    let mut m = m;
    if m.channel.as_ref().is_some_and(|c| c.1) {
        if m.ica.as_ref().is_some_and(|i| i.encoding != "proto3") {
            owner_exec(w, ctl, &XMsg::CloseChannel {});
            drain(w);
            m = w.model(ctl).unwrap();
            // an opening that was still under way may have completed meanwhile
            if m.channel.as_ref().is_some_and(|c| c.1) {
                return;
            }
        } else {
            return;
        }
    }
    let opts = if workable(w, &m.opts) {
        None
    } else {
        let c = w.cfg.conns[0].clone();
        Some(Opts { connection_id: c.0, counterparty_connection_id: c.1, counterparty_port_id: None, channel_ordering: None })
    };
    let id = format!("channel-{}", w.a.core.next_chan);
    let old = m.ica.clone();
    if !owner_exec(w, ctl, &XMsg::CreateChannel { channel_open_init_options: opts }) {
        w.violate(w.reopen_tags(ctl), "cannot_reopen", format!("owner cannot create a channel on {} (never opened: {})", short(ctl), old.is_none()));
        return;
    }
    let bid = format!("channel-{}", w.b.next_chan);
    if !w.settle_step(&Step::Try { chan: id.clone(), meta: Meta::Valid }) {
        w.violate(w.reopen_tags(ctl), "cannot_reopen", format!("the host refuses the opening of {id}"));
        return;
    }
    w.settle_step(&Step::OpenAck { bchan: bid.clone(), rly: 0, oog: None });
    if w.a.core.chans.get(&id).map(|c| c.state) != Some(ASt::Open) {
        w.violate(w.reopen_tags(ctl), "cannot_reopen", format!("opening of {id} does not complete"));
        return;
    }
    w.settle_step(&Step::Confirm { bchan: bid });
    let c = &w.a.core.chans[&id];
    let b_conn = w.cfg.conns.iter().find(|x| x.0 == c.conn).unwrap().1.clone();
    let want = w.b.accounts.get(&(b_conn, format!("wasm.{ctl}"))).cloned();
    let got = w.reported_account(ctl);
    if want.is_none() || got != want {
        w.violate(&["C14"], "other_account", format!("after reopening the account is {got:?}, the host's is {want:?}"));
    }
}

fn round_trip(w: &mut World, ctl: &str) {
    let Some(m) = w.model(ctl) else { return };
    let Some((ch, true)) = m.channel.clone() else { return };
    let id = ch.endpoint.channel_id;
    let seq = w.a.core.chans[&id].next_send;
    let send = XMsg::SendCosmosMsgs(SendSpec {
        messages: vec![CosmosMsg::Bank(BankMsg::Send { to_address: "settle".into(), amount: cosmwasm_std::coins(7, "stake") })],
        queries: vec![QueryRequest::Bank(BankQuery::Balance { address: "settle".into(), denom: "stake".into() })],
        packet_memo: None,
        timeout_seconds: None,
    });
    let fail = |w: &mut World, why: &str| w.violate(&["C14"], "no_round_trip", format!("after faults stopped, on {id}: {why}"));
    if !owner_exec(w, ctl, &send) || !w.a.core.packets.contains_key(&(id.clone(), seq)) {
        return fail(w, "send refused");
    }
    if !w.settle_step(&Step::Recv { chan: id.clone(), seq, host: HostDo::Normal }) {
        return fail(w, "packet cannot be received");
    }
    w.settle_step(&Step::Ack { chan: id.clone(), seq, rly: 1, oog: None });
    let p = &w.a.core.packets[&(id.clone(), seq)];
    if p.st != PSt::Acked {
        return fail(w, "acknowledgement not accepted");
    }
    let probe = m.cb.as_ref().is_some_and(|c| matches!(w.kind_of(c), Some(Kind::Probe(_))));
    if probe && p.callbacks != 1 {
        fail(w, "no callback for the acknowledgement");
    }
}
