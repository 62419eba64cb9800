//! Seeded scheduler: decides configuration, workload, interleaving, delays and faults of one run.

use std::collections::VecDeque;

use cosmwasm_std::{
    coin, BankMsg, BankQuery, Binary, Coin, CosmosMsg, Decimal, DistributionMsg, Empty, GovMsg,
    IbcMsg, IbcOrder, IbcQuery, IbcTimeout, IbcTimeoutBlock, PageRequest, QueryRequest, StakingMsg,
    StakingQuery, Timestamp, VoteOption, WasmMsg, WasmQuery, WeightedVoteOption,
};

use crate::host::BState;
use crate::rng::Rng;
use crate::settle::relay_options;
use crate::step::*;
use crate::world::{ASt, Kind, PSt, World};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Profile {
    Mixed,
    Auth,
    Handshake,
    Channels,
    Packets,
    Queries,
    Content,
    Callbacks,
    Migration,
    Deploy,
    Long,
    Calm,
    /// the same thing many times over: thresholds, evictions, wrapped counters
    Crowd,
}

impl Profile {
    pub const ALL: [Self; 13] = [
        Self::Mixed,
        Self::Auth,
        Self::Handshake,
        Self::Channels,
        Self::Packets,
        Self::Queries,
        Self::Content,
        Self::Callbacks,
        Self::Migration,
        Self::Deploy,
        Self::Long,
        Self::Calm,
        Self::Crowd,
    ];
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Act {
    Deploy,
    Create,
    CreateOpts,
    CreateBad,
    Close,
    Send,
    SendQ,
    SendBad,
    Callback,
    Transfer,
    Accept,
    Renounce,
    Outsider,
    Batch,
    ModeFail,
    ModeNested,
    ModeOk,
    Migrate,
    Admin,
    Rogue,
    Try,
    TryBad,
    OpenAck,
    Confirm,
    HostClose,
    CloseA,
    CloseB,
    Recv,
    RecvBad,
    Ack,
    Timeout,
    AnyRelay,
    Dup,
    Expire,
    AdvA,
    AdvB,
    Boundary,
    Elsewhere,
    Crash,
    OwnerSend,
    /// bring the controller to an open channel by the shortest honest path
    Open,
    /// resolve everything pending by the shortest honest path (one relay)
    Flush,
}

use Act::*;

const ACTS: &[(Act, u64)] = &[
    (Deploy, 1),
    (Create, 4),
    (CreateOpts, 3),
    (CreateBad, 1),
    (Close, 3),
    (Send, 7),
    (SendQ, 9),
    (SendBad, 2),
    (Callback, 3),
    (Transfer, 3),
    (Accept, 3),
    (Renounce, 1),
    (Outsider, 3),
    (Batch, 3),
    (ModeFail, 3),
    (ModeNested, 2),
    (ModeOk, 4),
    (Migrate, 2),
    (Admin, 1),
    (Rogue, 3),
    (Try, 5),
    (TryBad, 2),
    (OpenAck, 6),
    (Confirm, 5),
    (HostClose, 1),
    (CloseA, 2),
    (CloseB, 3),
    (Recv, 9),
    (RecvBad, 3),
    (Ack, 9),
    (Timeout, 4),
    (AnyRelay, 8),
    (Dup, 2),
    (Expire, 3),
    (AdvA, 3),
    (AdvB, 3),
    (Boundary, 1),
    (Elsewhere, 1),
    (Crash, 2),
    (OwnerSend, 0),
    (Open, 5),
    (Flush, 3),
];

fn boost(p: Profile, a: Act) -> u64 {
    let hit: &[Act] = match p {
        Profile::Mixed | Profile::Long | Profile::Calm | Profile::Crowd => &[],
        Profile::Auth => &[Transfer, Accept, Boundary, Outsider, Renounce, Rogue, Callback, Open],
        Profile::Handshake => &[Create, CreateOpts, CreateBad, Try, TryBad, OpenAck, Confirm, ModeFail, ModeOk, Rogue],
        Profile::Channels => &[Create, CreateOpts, Close, HostClose, CloseA, CloseB, Open, Timeout, Expire, SendQ, Rogue, Crash],
        Profile::Packets => &[Send, SendQ, Recv, RecvBad, Ack, Timeout, Expire, AnyRelay, Dup, AdvA, AdvB],
        Profile::Queries => &[SendQ, Recv, RecvBad, Ack, AnyRelay, SendBad, Batch],
        Profile::Content => &[Send, SendQ, SendBad, Recv, Ack, AdvA, AdvB],
        Profile::Callbacks => &[Callback, ModeFail, ModeNested, ModeOk, Send, SendQ, Recv, Ack, Timeout, Expire, OpenAck, Crash],
        Profile::Migration => &[Migrate, SendQ, Recv, Ack, Timeout, Transfer, Callback, Admin],
        Profile::Deploy => &[Deploy, Admin, Migrate, OwnerSend, Callback, Create, Transfer, Open],
    };
    if hit.contains(&a) {
        4
    } else {
        1
    }
}

/// Multi-step schedules worth reaching more often than a random walk would.
const MACROS: &[&[Act]] = &[
    // two handshakes at once
    &[Create, Create, Try, Try, OpenAck, OpenAck, Confirm, SendQ, Recv, Ack],
    &[CreateOpts, CreateOpts, Try, OpenAck, Try, OpenAck, Confirm, Confirm],
    &[Create, Create, Create, Try, Try, Try, OpenAck, Close, OpenAck, OpenAck, Confirm],
    // old channel's packets resolved after a new channel opened
    &[Open, SendQ, SendQ, Close, CloseB, Open, SendQ, Timeout, Timeout, Recv, Ack],
    &[Open, SendQ, Send, SendQ, Recv, Expire, Timeout, CloseB, Open, SendQ, Recv, Timeout, Timeout, Ack],
    &[Open, SendQ, HostClose, CloseA, Open, SendQ, Recv, Timeout, Ack, Flush],
    &[Open, SendQ, SendQ, Recv, Close, CloseB, Open, SendQ, Send, Recv, Recv, Ack, Ack, Timeout],
    // callback failure, then recovery
    &[Open, SendQ, Recv, ModeFail, Ack, Ack, ModeOk, Ack, SendQ, Recv, Ack],
    &[Open, SendQ, Expire, ModeFail, Timeout, ModeOk, Timeout],
    &[Create, Try, ModeFail, OpenAck, ModeOk, OpenAck, Confirm, Send, Recv, Ack],
    &[Open, SendQ, Recv, ModeFail, Ack, Callback, Ack],
    &[Open, SendQ, Recv, ModeFail, Ack, Send, SendQ, Ack, ModeOk, Ack, Recv, Ack],
    // bad handshake, then a good one
    &[Close, CloseB, Create, TryBad, OpenAck, OpenAck, Create, Try, OpenAck, Confirm, SendQ],
    &[TryBad, OpenAck, Try, OpenAck, Confirm],
    &[CreateBad, Create, CreateOpts, Try, OpenAck, Confirm],
    &[Open, CreateBad, CreateOpts, Close, CloseB, Create, Try, OpenAck],
    // ownership
    &[Transfer, Boundary, Accept, Send, Transfer, Accept],
    &[Transfer, Transfer, Accept, Outsider, Accept],
    &[Open, SendQ, Transfer, Accept, Recv, Ack, SendQ, Outsider, Recv, Ack],
    &[Transfer, Migrate, Accept, Outsider],
    &[Transfer, Callback, Close, Accept, Create],
    // rogue relayers around each permission
    &[CreateBad, Rogue, CreateOpts, Rogue, Rogue, Try, Rogue, OpenAck, Rogue, Confirm],
    &[Open, Close, Rogue, Create, Rogue, Rogue],
    &[Open, Rogue, Close, Rogue, CloseB, Create, Rogue, Try, OpenAck, Rogue],
    // pipelining of queries
    &[Open, SendQ, SendQ, SendQ, SendQ, Recv, Recv, Recv, Recv, Ack, Ack, Ack, Ack],
    &[Open, SendQ, Send, SendQ, RecvBad, RecvBad, Recv, Ack, Ack, Ack],
    &[Open, SendQ, SendBad, SendQ, SendBad, Recv, Recv, Ack, Ack],
    &[Open, SendBad, Send, Recv, Ack, SendQ, Recv, Ack],
    &[Open, Batch, Batch, Recv, Recv, Recv, Ack, Ack, Ack],
    // migration in the middle
    &[Open, SendQ, SendQ, Recv, Migrate, Ack, Recv, Ack, SendQ, Recv, Ack],
    &[Open, SendQ, Expire, Migrate, Timeout, Open, SendQ, Recv, Ack],
    &[Open, Callback, Migrate, SendQ, Recv, Ack, Close, Create, Try, OpenAck],
    &[Create, Try, Migrate, OpenAck, Confirm, SendQ, Recv, Ack],
    // callback address changes while in flight
    &[Open, SendQ, Callback, Recv, Callback, Ack],
    &[Open, Send, SendQ, Recv, Callback, Expire, Timeout, Callback, Open],
    &[Create, Try, Callback, OpenAck],
    // crash between
    &[Open, SendQ, Crash, Recv, Ack, Crash, SendQ, Recv, Crash, Ack],
    // reopening many times
    &[Open, Close, CloseB, Open, Close, CloseB, Open, SendQ, Recv, Ack],
    &[Open, Send, Expire, Timeout, CloseB, Open, Send, Expire, Timeout, CloseB, Open, SendQ, Recv, Ack],
    // channel and sequence numbers that read alike
    &[Open, SendQ, SendQ, SendQ, Close, CloseB, Elsewhere, Open, SendQ, SendQ, Recv, Recv, Ack, Timeout, Ack, Timeout],
    &[Open, SendQ, SendQ, Expire, Timeout, CloseB, Elsewhere, Open, SendQ, Recv, Timeout, Ack],
    // reentrancy
    &[ModeNested, Open, SendQ, Recv, Ack, SendQ, Expire, Timeout],
    &[Open, ModeNested, SendQ, Recv, Ack, Recv, Ack],
    &[Open, ModeNested, SendQ, Expire, Timeout, Try, OpenAck, Confirm],
];

pub struct Gen<'a> {
    pub r: Rng,
    profile: Profile,
    weights: Vec<(Act, u64)>,
    total: u64,
    queue: VecDeque<Act>,
    faults: bool,
    pub w: World,
    pub steps: Vec<Step>,
    stop: &'a dyn Fn(&World) -> bool,
    macro_pct: u64,
    often_owned: bool,
    salts: u64,
}

pub fn gen_cfg(r: &mut Rng, p: Profile, prop: &str) -> Cfg {
    let all = [("connection-0", "connection-1"), ("connection-7", "connection-7"), ("connection-10", "connection-0"), ("connection-1", "connection-0")];
    let n = 1 + r.idx(3);
    let start = r.idx(all.len());
    let conns = (0..n).map(|i| all[(start + i) % all.len()]).map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let a_time = match r.below(8) {
        0 => 1_700_000_000_000_000_000,
        1 => 1_000_000_000,
        _ => 1_571_797_419_879_305_533 + r.below(1 << 60) / 8,
    };
    let skew = *r.pick(&[0i64, 0, 0, 5_000_000_000, -30_000_000_000, 590_000_000_000, 601_000_000_000, -3_600_000_000_000, 1]);
    let b_time = a_time.saturating_add_signed(skew).max(1);
    let det = match r.below(100) {
        0..=79 => 0,
        80..=95 => 1,
        _ => 2,
    };
    let det = if prop == "C23" { det.max(1 + u8::from(r.pct(15))) } else { det };
    let battery = if matches!(p, Profile::Long | Profile::Content | Profile::Crowd) {
        0
    } else {
        match r.below(10) {
            0..=5 => 0,
            6 | 7 => 1,
            _ => 2,
        }
    };
    // one in eight: the first channel's number and sequences read like a later channel's
    let alike = if r.pct(12) { Some((1 + r.below(30), 1 + r.below(9), 1 + r.below(6))) } else { None };
    let battery = if matches!(prop, "C01" | "C03") && !matches!(p, Profile::Long | Profile::Crowd) && r.pct(60) { battery.max(1) } else { battery };
    Cfg {
        salt: r.next(),
        conns,
        chan_start: alike.map_or(*r.pick(&[0, 0, 1, 9, 99, 1000, 4_294_967_296]), |x| x.0),
        bchan_start: *r.pick(&[0, 0, 3, 10, 255]),
        seq_start: alike.map_or(*r.pick(&[1, 1, 1, 1, 1, 1, 5, 120, 126, 250, 254, 16_380, 65_530, 4_294_967_290, 1 << 40]), |x| x.1 * 10 + x.2),
        seq_later: alike.map(|x| x.2).or(if r.pct(20) { Some(1) } else { None }),
        a_time,
        b_time,
        a_height: *r.pick(&[1, 100, 12_345, 9_999_999]),
        b_height: *r.pick(&[1, 500, 12_345_678, u64::from(u32::MAX) + 7]),
        timeout_on_closed: r.pct(60),
        ack_on_closed: r.pct(30),
        det,
        battery,
        tx_info: r.pct(90),
        addr_style: if r.pct(50) { 0 } else { r.below(6) as u8 },
        helper_queries: r.pct(if prop == "C21" { 60 } else { 5 }),
        code_id: *r.pick(&[1, 7, 1000, 4_294_967_295]),
    }
}

impl<'a> Gen<'a> {
    pub fn new(seed: u64, profile: Profile, prop: &str, stop: &'a dyn Fn(&World) -> bool) -> Self {
        let mut r = Rng::new(seed);
        let cfg = gen_cfg(&mut r, profile, prop);
        let mut weights = vec![];
        for (a, base) in ACTS {
            // swarm: every run has its own mix
            let m = *r.pick(&[0, 1, 2, 2, 3, 6]);
            let m = if profile == Profile::Calm && matches!(a, ModeFail | Crash | HostClose | RecvBad | TryBad | CreateBad | Migrate) { 0 } else { m };
            let mut x = base * m * boost(profile, *a);
            if *a == OwnerSend && crate::lean::available() && profile == Profile::Deploy {
                x = if prop == "C24" { 60 } else { 8 };
            }
            if x > 0 {
                weights.push((*a, x));
            }
        }
        if weights.is_empty() {
            weights.push((AnyRelay, 1));
        }
        let total = weights.iter().map(|x| x.1).sum();
        let faults = profile != Profile::Calm && r.pct(85);
        let macro_pct = *r.pick(&[0, 5, 15, 30]);
        let often_owned = prop == "C24" && r.pct(80);
        Self { w: World::new(cfg), r, profile, weights, total, queue: VecDeque::new(), faults, steps: vec![], stop, macro_pct, often_owned, salts: 0 }
    }

    pub fn run(&mut self) {
        let n = match self.profile {
            Profile::Long => 150 + self.r.idx(150),
            Profile::Crowd => 0,
            Profile::Content => 8 + self.r.idx(25),
            _ => 12 + self.r.idx(45),
        };
        for _ in 0..4 {
            let s = self.deploy(true);
            self.emit(s);
            if !self.w.ctls.is_empty() {
                break;
            }
        }
        if self.w.ctls.is_empty() {
            let c = self.w.cfg.conns[0].clone();
            self.emit(Step::Deploy {
                via: Via::Direct,
                by: AddrRef::User(0),
                owner: None,
                cb: None,
                opts: Opts { connection_id: c.0, counterparty_connection_id: c.1, counterparty_port_id: None, channel_ordering: None },
                admin: None,
                label: "l".into(),
                oog: None,
            });
        }
        if self.w.ctls.is_empty() {
            return; // no controller can be deployed at all; the judge has said why
        }
        if self.r.pct(if matches!(self.profile, Profile::Handshake | Profile::Deploy) { 30 } else { 75 }) {
            self.queue.push_back(Open);
        }
        let n = if self.profile == Profile::Crowd { self.crowd() } else { n };
        let mut tries = 0;
        while self.steps.len() < n && tries < n * 6 {
            tries += 1;
            if (self.stop)(&self.w) {
                return;
            }
            let act = self.queue.pop_front().unwrap_or_else(|| self.pick_act());
            if act == Open {
                self.open_next();
                continue;
            }
            if let Some(s) = self.resolve(act) {
                self.emit(s);
            }
        }
        if !self.r.pct(8) {
            self.emit(Step::Settle);
        }
    }

    /// Queues one pattern repeated many times; returns the length of the run.
    fn crowd(&mut self) -> usize {
        let k = match self.r.below(20) {
            0..=9 => 8 + self.r.idx(6),
            10..=14 => 15 + self.r.idx(4),
            15..=17 => 31 + self.r.idx(4),
            18 => 63 + self.r.idx(6),
            _ => 99 + self.r.idx(4),
        };
        let rep = |m: &[Act], k: usize| m.iter().copied().cycle().take(m.len() * k).collect::<Vec<_>>();
        let few = k.min(40);
        let mut q = vec![];
        match self.r.below(15) {
            // many packets in flight at once, resolved afterwards
            0..=3 => {
                let k = if self.r.pct(50) { k } else { *self.r.pick(&[33, 67, 67, 101, 130]) };
                q.push(Open);
                let plain = if self.r.pct(50) { 0 } else { 20 };
                for _ in 0..k + k / 16 {
                    q.push(if self.r.pct(plain) { Send } else { SendQ });
                }
                match self.r.below(4) {
                    0 => {
                        q.extend([Expire, Expire]);
                        q.extend(rep(&[Timeout], k));
                    }
                    1 => {
                        q.extend([Close, CloseB, Open]);
                        q.extend(rep(&[SendQ], few));
                        q.extend(rep(&[AnyRelay], k + few));
                    }
                    _ => {
                        q.extend(rep(&[Recv], k));
                        q.extend(rep(&[Ack], k));
                    }
                }
            }
            4 | 5 => q = rep(&[Open, SendQ, Close, CloseB], few),
            6 => {
                q = rep(&[Create], k);
                q.extend([Try, OpenAck, Open, SendQ, Recv, Ack]);
            }
            7 => {
                q = rep(&[Create, TryBad, OpenAck], few);
                q.extend([Open, SendQ, Recv, Ack]);
            }
            8 => {
                q.extend([Open, SendQ, Recv, ModeFail]);
                q.extend(rep(&[Ack], k));
                q.extend([ModeOk, Ack, SendQ, Recv, Ack]);
            }
            9 => q = rep(&[Transfer, Accept], few),
            10 => {
                q.push(Open);
                q.extend(rep(&[SendQ, RecvBad, Ack], few));
                q.extend([SendQ, Recv, Ack]);
            }
            11 => {
                q.push(Open);
                q.extend(rep(&[SendQ, Recv, Ack], k));
            }
            12 => q = rep(if self.r.pct(50) { &[Open, SendQ, Expire, Timeout, CloseB] } else { &[Open, HostClose, CloseA] }, few),
            // one packet unresolved while the sequence number moves past 256
            13 => {
                q.extend([Open, SendQ]);
                q.extend(rep(&[Send], 248));
                q.extend(rep(&[SendQ], 36));
                q.extend(rep(&[Recv, Ack], 6));
            }
            _ => {
                q.push(Open);
                q.extend(rep(&[Callback, SendQ, Recv, Ack, Migrate], few.min(20)));
            }
        }
        let n = q.len() + q.iter().filter(|a| **a == Open).count() * 3 + self.steps.len() + self.r.idx(12);
        self.queue.extend(q);
        n
    }

    fn emit(&mut self, s: Step) {
        self.steps.push(s.clone());
        self.w.apply_step(&s);
    }

    fn pick_act(&mut self) -> Act {
        if self.r.pct(self.macro_pct) {
            let m = *self.r.pick(MACROS);
            let skip = if self.r.pct(20) { Some(self.r.idx(m.len())) } else { None };
            for (i, a) in m.iter().enumerate() {
                if Some(i) == skip {
                    continue;
                }
                self.queue.push_back(*a);
                if self.r.pct(5) {
                    let extra = self.weighted();
                    self.queue.push_back(extra);
                }
            }
            return self.queue.pop_front().unwrap();
        }
        self.weighted()
    }

    fn weighted(&mut self) -> Act {
        let mut x = self.r.below(self.total);
        for (a, w) in &self.weights {
            if x < *w {
                return *a;
            }
            x -= w;
        }
        AnyRelay
    }

    /// The next step towards an open channel, if none is open.
    fn open_next(&mut self) {
        let ci = self.ctl();
        let ctl = self.w.ctls[ci as usize].clone();
        let m = self.w.model(&ctl).unwrap();
        let port = format!("wasm.{ctl}");
        if let Some((c, true)) = &m.channel {
            let b = c.counterparty_endpoint.channel_id.clone();
            if self.w.b.chans.get(&b).is_some_and(|x| x.state == BState::TryOpen) {
                self.emit(Step::Confirm { bchan: b });
            }
            return;
        }
        // the host's previous channel has to be closed first
        let stale: Vec<String> = relay_options(&self.w).into_iter().filter_map(|s| if let Step::CloseConfirmB { bchan } = s { Some(bchan) } else { None }).collect();
        for b in stale {
            if self.w.b.chans[&b].a_port == port {
                self.emit(Step::CloseConfirmB { bchan: b });
            }
        }
        let init = self.w.a.core.chans.iter().filter(|(_, c)| c.ctl == ctl && c.state == ASt::Init).map(|(i, _)| i.clone()).last();
        let chan = match init {
            Some(c) if self.r.pct(70) => c,
            _ => {
                let id = format!("channel-{}", self.w.a.core.next_chan);
                let o = if self.good_opts(&m.opts) && self.r.pct(70) { None } else { Some(self.opts(true)) };
                let s = self.exec(ci, AddrRef::Raw(m.owner.clone()), XMsg::CreateChannel { channel_open_init_options: o });
                self.emit(s);
                if !self.w.a.core.chans.contains_key(&id) {
                    return;
                }
                id
            }
        };
        let b = format!("channel-{}", self.w.b.next_chan);
        self.emit(Step::Try { chan, meta: Meta::Valid });
        if self.w.b.chans.contains_key(&b) {
            let rly = self.r.below(2) as u8;
            self.emit(Step::OpenAck { bchan: b.clone(), rly, oog: None });
            if self.r.pct(92) {
                self.emit(Step::Confirm { bchan: b });
            }
        }
    }

    fn good_opts(&self, o: &Opts) -> bool {
        self.w.cfg.conns.iter().any(|c| c.0 == o.connection_id && c.1 == o.counterparty_connection_id)
            && o.counterparty_port_id.as_deref().unwrap_or("icahost") == "icahost"
    }

    fn ctl(&mut self) -> u8 {
        self.r.idx(self.w.ctls.len()) as u8
    }
    fn user(&mut self) -> AddrRef {
        AddrRef::User(self.r.below(4) as u8)
    }
    fn oog(&mut self) -> Option<u32> {
        if self.faults && self.r.pct(4) {
            Some(self.r.below(14) as u32)
        } else {
            None
        }
    }
    fn exec(&mut self, ctl: u8, by: AddrRef, msg: XMsg) -> Step {
        let helper = self.r.pct(if self.profile == Profile::Deploy { 60 } else { 8 });
        let oog = self.oog();
        Step::Exec { ctl, by, msg, helper, oog }
    }
    fn owner_of(&self, ctl: u8) -> AddrRef {
        let m = self.w.model(&self.w.ctls[ctl as usize]).unwrap();
        AddrRef::Raw(m.owner.clone())
    }
    /// Usually the owner, sometimes somebody else.
    fn by(&mut self, ctl: u8) -> AddrRef {
        if self.r.pct(94) {
            self.owner_of(ctl)
        } else {
            self.stranger(ctl)
        }
    }
    fn stranger(&mut self, ctl: u8) -> AddrRef {
        let a = self.w.ctls[ctl as usize].clone();
        let m = self.w.model(&a).unwrap();
        let mut v: Vec<AddrRef> = (0..4).map(AddrRef::User).collect();
        v.extend((0..3).map(AddrRef::Probe));
        v.push(AddrRef::Rly(0));
        v.push(AddrRef::Counter);
        v.push(AddrRef::Raw(a.clone()));
        for x in m.former.iter().chain(m.pending.iter()).chain(m.cb.iter()).chain(self.w.a.contracts[&a].admin.iter()) {
            v.push(AddrRef::Raw(x.clone()));
            v.push(AddrRef::Raw(x.clone()));
        }
        v.push(AddrRef::Raw(m.owner.to_uppercase()));
        v.push(AddrRef::Raw(format!("{}x", m.owner)));
        self.r.pick(&v).clone()
    }

    fn opts(&mut self, good: bool) -> Opts {
        let c = self.w.cfg.conns[self.r.idx(self.w.cfg.conns.len())].clone();
        let mut o = Opts {
            connection_id: c.0,
            counterparty_connection_id: c.1,
            counterparty_port_id: if self.r.pct(60) { None } else { Some("icahost".into()) },
            channel_ordering: match self.r.below(10) {
                0..=3 => None,
                4..=5 => Some(IbcOrder::Ordered),
                _ => Some(IbcOrder::Unordered),
            },
        };
        if !good {
            match self.r.below(6) {
                0 | 1 => o.connection_id = (*self.r.pick(&["connection-404", "", "connection-00", "x", " "])).to_string(),
                2 | 3 => o.counterparty_port_id = Some((*self.r.pick(&["transfer", "icahost2", "", "icacontroller", "ICAHOST", "icahost ", "xicahost", "icahos"])).to_string()),
                _ => o.counterparty_connection_id = (*self.r.pick(&["connection-55", "", "x", " connection-1", "CONNECTION-1", "07-tendermint-0", "é"])).to_string(),
            }
        }
        o
    }

    fn label_text(&mut self) -> String {
        match self.r.below(9) {
            0 => "L".repeat(128),
            1 => format!("{}-{}", self.word(), self.r.below(100)),
            2 => " padded ".to_string(),
            _ => (*self.r.pick(&["ica", "a label", "日本", "l\"q", "x", "ICA Controller", "a/b:c"])).to_string(),
        }
    }

    /// Calls the owner contract must refuse, or must not be confused by.
    fn owner_raw(&mut self) -> Step {
        let w = &self.w;
        let reg = w.a.reg.clone();
        let pick = if reg.is_empty() { None } else { Some(self.r.pick(&reg).clone()) };
        let by = match self.r.below(10) {
            0 => AddrRef::User(0),
            1 | 2 => AddrRef::User(1),
            3 => AddrRef::User(2),
            4 => AddrRef::Rly(0),
            5 | 6 => AddrRef::Probe(self.r.below(3) as u8),
            7 => AddrRef::Owner,
            8 => AddrRef::Counter,
            // a controller that is not one of its own
            _ => match w.ctls.iter().position(|c| reg.iter().all(|x| x.0 != *c)) {
                Some(i) => AddrRef::Ctl(i as u8),
                None => AddrRef::User(3),
            },
        };
        let mut chan = pick.as_ref().map_or(serde_json::Value::Null, |p| p.1["channel_state"]["channel"].clone());
        if chan.is_null() {
            chan = serde_json::json!({
                "endpoint": {"port_id": "wasm.x", "channel_id": "channel-0"},
                "counterparty_endpoint": {"port_id": "icahost", "channel_id": "channel-1"},
                "order": "ORDER_ORDERED", "version": "", "connection_id": "connection-0",
            });
        }
        let opts = &w.cfg;
        let msg = match self.r.below(7) {
            0 | 1 => serde_json::json!({"receive_ica_callback": {"on_channel_open_ack_callback": {
                "channel": chan, "ica_address": "cosmos1thief", "tx_encoding": "proto3"}}}),
            2 => serde_json::json!({"receive_ica_callback": {"on_timeout_packet_callback": {
                "original_packet": {"data": "e30=", "src": chan["endpoint"], "dest": chan["counterparty_endpoint"], "sequence": 1,
                    "timeout": {"block": null, "timestamp": "1"}},
                "relayer": "r"}}}),
            3 => serde_json::json!({"send_predefined_action": {"ica_id": self.r.below(4), "to_address": "cosmos1thief"}}),
            4 if by != AddrRef::User(0) => serde_json::json!({"create_ica_contract": {"salt": format!("raw{}", self.r.below(1000)),
                "channel_open_init_options": {"connection_id": opts.conns[0].0, "counterparty_connection_id": opts.conns[0].1}}}),
            5 => serde_json::json!({"receive_ica_callback": {}}),
            _ => serde_json::json!({"update_admin": {"admin": "x"}}),
        };
        Step::OwnerRaw { by, msg: msg.to_string() }
    }

    fn deploy(&mut self, first: bool) -> Step {
        let helperish = self.profile == Profile::Deploy;
        let via = match self.r.below(if helperish { 10 } else { 20 }) {
            0..=2 => Via::Helper,
            3..=5 => {
                self.salts += 1;
                let n = self.salts;
                let salt = match self.r.below(14) {
                    10 => format!(" lead{n}"),
                    11 => format!("trail{n} "),
                    12 => format!("MiXed{n}"),
                    13 => format!("a b\t{n}\n"),
                    0 => String::new(),
                    1 => "s".repeat(64),
                    2 => "s".repeat(65),
                    3 => "same".into(),
                    4 => "1700000000".into(),
                    5 => format!("sål\"t{n}"),
                    _ => format!("salt{n}"),
                };
                Via::Helper2 { salt }
            }
            k if helperish && crate::lean::available() && (k == 6 || k == 7 || self.often_owned) => {
                self.salts += 1;
                Via::Owner { salt: if self.r.pct(30) { None } else { Some(format!("os{}", self.salts)) } }
            }
            _ => Via::Direct,
        };
        let by = match via {
            Via::Direct => {
                if self.r.pct(70) {
                    AddrRef::User(0)
                } else {
                    AddrRef::Probe(self.r.below(3) as u8)
                }
            }
            _ => AddrRef::Probe(self.r.below(3) as u8),
        };
        let w = &self.w;
        let valid = [w.addr(&AddrRef::User(0)), w.addr(&AddrRef::User(1)), w.addr(&AddrRef::Probe(0)), w.addr(&AddrRef::Probe(0)), w.addr(&AddrRef::Probe(1))];
        let owner = match self.r.below(20) {
            0..=6 => None,
            7..=17 => Some(self.r.pick(&valid).clone()),
            18 if !first => Some(self.bad_addr()),
            _ => Some(w.addr(&AddrRef::Counter)),
        };
        let cb = self.cb_addr();
        let good = self.r.pct(if first { 92 } else { 75 });
        let opts = self.opts(good);
        let admin = match self.r.below(10) {
            0..=2 => None,
            3..=7 => Some(self.w.addr(&AddrRef::User(3))),
            8 => Some(self.w.addr(&AddrRef::User(0))),
            _ => Some(self.w.addr(&AddrRef::Probe(2))),
        };
        let label = self.label_text();
        let oog = if !first { self.oog() } else { None };
        Step::Deploy { via, by, owner, cb, opts, admin, label, oog }
    }

    fn bad_addr(&mut self) -> String {
        (*self.r.pick(&["", "x", "cosmwasm1invalid", "not an address", "COSMWASM1QQQ", "cosmos1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqnrql8a"])).to_string()
    }

    fn cb_addr(&mut self) -> Option<String> {
        let r = match self.r.below(24) {
            0..=4 => return None,
            5..=13 => AddrRef::Probe(0),
            14..=16 => AddrRef::Probe(1),
            17..=20 => AddrRef::Counter,
            21 => AddrRef::User(2),
            22 => return Some(self.bad_addr()),
            _ => AddrRef::Probe(2),
        };
        Some(self.w.addr(&r))
    }

    // ------------------------------------------------------------ values

    fn coin(&mut self) -> Coin {
        let amount = match self.r.below(8) {
            0 => 0,
            1 => u128::MAX,
            2 => u128::from(u64::MAX) + 1,
            3 => 1,
            _ => u128::from(self.r.next() >> self.r.below(60)),
        };
        let denom = self.word();
        coin(amount, denom)
    }
    fn coins(&mut self) -> Vec<Coin> {
        let n = match self.r.below(10) {
            0 => 0,
            1..=5 => 1,
            6..=8 => 2 + self.r.idx(3),
            _ => 12,
        };
        (0..n).map(|_| self.coin()).collect()
    }
    fn word(&mut self) -> String {
        const W: &[&str] = &["stake", "uatom", "cosmos1abc", "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2", "", "日本語", "q\"uo\\te", "new\nline", "a b", "é", " lead", "trail ", "UPPER", "tab\t", "nul\0", "cosmosvaloper1abc", "factory/cosmos1abc/sub", "0", "null", "{\"a\":1}", "<&>", "😀"];
        match self.r.below(60) {
            0 => {
                let n = *self.r.pick(&[32, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1024, 5000]);
                return "w".repeat(n);
            }
            // addresses that mean something here: an account, a controller, an owner
            1 => {
                if let Some(a) = self.w.b.accounts.values().next() {
                    return a.clone();
                }
            }
            2 => {
                if let Some(c) = self.w.ctls.first() {
                    return c.clone();
                }
            }
            3 => return self.w.addr(&AddrRef::User(self.r.below(3) as u8)),
            _ => {}
        }
        let w = *self.r.pick(W);
        if self.r.pct(50) {
            format!("{w}{}", self.r.below(100))
        } else {
            w.to_string()
        }
    }
    fn blob(&mut self) -> Binary {
        let v: Vec<u8> = match self.r.below(30) {
            0 => vec![b'x'; *self.r.pick(&[64, 255, 256, 257, 1000, 5000])],
            1..=3 => vec![],
            4..=6 => b"{}".to_vec(),
            7..=9 => b"{\"a\":\"b\"}".to_vec(),
            10..=12 => (0..=255).collect(),
            13..=15 => vec![0; 1 + self.r.idx(4)],
            _ => (0..1 + self.r.idx(24)).map(|_| self.r.next() as u8).collect(),
        };
        v.into()
    }
    fn num(&mut self) -> u64 {
        match self.r.below(8) {
            0 => 0,
            1 => u64::MAX,
            2 => 1,
            3 => 1 << 63,
            4 => self.r.below(300),
            5 => *self.r.pick(&[127, 128, 255, 256, 65_535, 65_536, 4_294_967_295, 4_294_967_296, 9_007_199_254_740_993, 9_223_372_036_854_775_807]),
            _ => self.r.next() >> self.r.below(63),
        }
    }
    fn vote(&mut self) -> VoteOption {
        match self.r.below(4) {
            0 => VoteOption::Yes,
            1 => VoteOption::No,
            2 => VoteOption::Abstain,
            _ => VoteOption::NoWithVeto,
        }
    }
    fn opt_word(&mut self) -> Option<String> {
        if self.r.pct(40) {
            None
        } else {
            Some(self.word())
        }
    }

    #[allow(deprecated)]
    pub fn msg(&mut self) -> CosmosMsg {
        match self.r.below(22) {
            0 | 1 => CosmosMsg::Bank(BankMsg::Send { to_address: self.word(), amount: self.coins() }),
            2 | 3 => {
                let timeout = match self.r.below(4) {
                    0 => IbcTimeout::with_timestamp(Timestamp::from_nanos(self.num())),
                    1 => IbcTimeout::with_block(IbcTimeoutBlock { revision: self.num(), height: self.num() }),
                    _ => IbcTimeout::with_both(IbcTimeoutBlock { revision: self.r.below(3), height: self.num() }, Timestamp::from_nanos(self.num())),
                };
                CosmosMsg::Ibc(IbcMsg::Transfer { channel_id: self.word(), to_address: self.word(), amount: self.coin(), timeout, memo: self.opt_word() })
            }
            4 | 5 => CosmosMsg::Wasm(WasmMsg::Execute { contract_addr: self.word(), msg: self.blob(), funds: self.coins() }),
            6 => CosmosMsg::Wasm(WasmMsg::Instantiate { admin: self.opt_word(), code_id: self.num(), msg: self.blob(), funds: self.coins(), label: self.word() }),
            7 => CosmosMsg::Wasm(WasmMsg::Instantiate2 { admin: self.opt_word(), code_id: self.num(), label: self.word(), msg: self.blob(), funds: self.coins(), salt: self.blob() }),
            8 => CosmosMsg::Wasm(WasmMsg::Migrate { contract_addr: self.word(), new_code_id: self.num(), msg: self.blob() }),
            9 => CosmosMsg::Wasm(WasmMsg::UpdateAdmin { contract_addr: self.word(), admin: self.word() }),
            10 => CosmosMsg::Wasm(WasmMsg::ClearAdmin { contract_addr: self.word() }),
            11 => CosmosMsg::Gov(GovMsg::Vote { proposal_id: self.num(), option: self.vote() }),
            12 => {
                let n = 1 + self.r.idx(4);
                let options = (0..n)
                    .map(|_| WeightedVoteOption {
                        option: self.vote(),
                        weight: match self.r.below(4) {
                            0 => Decimal::one(),
                            1 => Decimal::zero(),
                            2 => Decimal::raw(1),
                            _ => Decimal::raw(u128::from(self.r.below(1_000_000_000_000_000_000))),
                        },
                    })
                    .collect();
                CosmosMsg::Gov(GovMsg::VoteWeighted { proposal_id: self.num(), options })
            }
            13 => CosmosMsg::Staking(StakingMsg::Delegate { validator: self.word(), amount: self.coin() }),
            14 => CosmosMsg::Staking(StakingMsg::Undelegate { validator: self.word(), amount: self.coin() }),
            15 => {
                let src_validator = self.word();
                let dst_validator = if self.r.pct(10) { src_validator.clone() } else { self.word() };
                CosmosMsg::Staking(StakingMsg::Redelegate { src_validator, dst_validator, amount: self.coin() })
            }
            16 => CosmosMsg::Distribution(DistributionMsg::WithdrawDelegatorReward { validator: self.word() }),
            17 => CosmosMsg::Distribution(DistributionMsg::SetWithdrawAddress { address: self.word() }),
            18 => CosmosMsg::Distribution(DistributionMsg::FundCommunityPool { amount: self.coins() }),
            _ => {
                let type_url = match self.r.below(8) {
                    3 => self.word(),
                    4 => (*self.r.pick(&["cosmos.bank.v1beta1.MsgSend", "type.googleapis.com/cosmos.bank.v1beta1.MsgSend", "", "/", "//x", "/cosmos.bank.v1beta1.MsgSend ", "/icq.v1.MsgX", "/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafe"])).to_string(),
                    0 => "/cosmos.bank.v1beta1.MsgSend".to_string(),
                    1 => crate::spec::QUERY_RESP_URL.to_string(),
                    2 => "/ibc.core.channel.v1.MsgChannelOpenInit".to_string(),
                    _ => format!("/{}", self.word()),
                };
                CosmosMsg::Stargate { type_url, value: self.blob() }
            }
        }
    }

    pub fn bad_msg(&mut self) -> CosmosMsg {
        match self.r.below(4) {
            0 => CosmosMsg::Bank(BankMsg::Burn { amount: self.coins() }),
            1 => CosmosMsg::Ibc(IbcMsg::SendPacket { channel_id: self.word(), data: self.blob(), timeout: IbcTimeout::with_timestamp(Timestamp::from_nanos(self.num())) }),
            2 => CosmosMsg::Ibc(IbcMsg::CloseChannel { channel_id: self.word() }),
            _ => CosmosMsg::Custom(Empty {}),
        }
    }

    #[allow(deprecated)]
    pub fn query(&mut self) -> QueryRequest<Empty> {
        match self.r.below(20) {
            0 | 1 => QueryRequest::Bank(BankQuery::Balance { address: self.word(), denom: self.word() }),
            2 => QueryRequest::Bank(BankQuery::AllBalances { address: self.word() }),
            3 => QueryRequest::Bank(BankQuery::DenomMetadata { denom: self.word() }),
            4 => {
                let pagination = if self.r.pct(40) {
                    None
                } else {
                    Some(PageRequest {
                        key: if self.r.pct(50) { None } else { Some(self.blob()) },
                        limit: *self.r.pick(&[0, 1, 100, u32::MAX]),
                        reverse: self.r.pct(50),
                    })
                };
                QueryRequest::Bank(BankQuery::AllDenomMetadata { pagination })
            }
            5 | 6 => QueryRequest::Bank(BankQuery::Supply { denom: self.word() }),
            7 => QueryRequest::Wasm(WasmQuery::Raw { contract_addr: self.word(), key: self.blob() }),
            8 => QueryRequest::Wasm(WasmQuery::Smart { contract_addr: self.word(), msg: self.blob() }),
            9 => QueryRequest::Wasm(WasmQuery::ContractInfo { contract_addr: self.word() }),
            10 => QueryRequest::Staking(StakingQuery::Validator { address: self.word() }),
            11 => QueryRequest::Staking(StakingQuery::AllValidators {}),
            12 => QueryRequest::Staking(StakingQuery::Delegation { delegator: self.word(), validator: self.word() }),
            13 => QueryRequest::Staking(StakingQuery::AllDelegations { delegator: self.word() }),
            14 => QueryRequest::Staking(StakingQuery::BondedDenom {}),
            _ => {
                let path = match self.r.below(10) {
                    6 => self.word(),
                    7 => (*self.r.pick(&["cosmos.bank.v1beta1.Query/Balance", "", "/", "//cosmos.bank.v1beta1.Query/Balance", "/cosmos.bank.v1beta1.Query/Balance ", "/COSMOS.BANK.V1BETA1.QUERY/BALANCE"])).to_string(),
                    8 => (*self.r.pick(&["/cosmos.bank.v1beta1.Query/AllBalances", "/cosmos.bank.v1beta1.Query/SupplyOf", "/cosmos.staking.v1beta1.Query/Validator", "/cosmwasm.wasm.v1.Query/SmartContractState", "/cosmwasm.wasm.v1.Query/ContractInfo", "/cosmos.bank.v1beta1.Query/DenomsMetadata", "/cosmos.staking.v1beta1.Query/Delegation"])).to_string(),
                    0 | 1 => "/cosmos.bank.v1beta1.Query/Balance".to_string(),
                    2 => "/cosmos.staking.v1beta1.Query/Params".to_string(),
                    3 => "/cosmwasm.wasm.v1.Query/RawContractState".to_string(),
                    _ => format!("/{}", self.word()),
                };
                QueryRequest::Stargate { path, data: self.blob() }
            }
        }
    }

    pub fn bad_query(&mut self) -> QueryRequest<Empty> {
        match self.r.below(4) {
            0 => QueryRequest::Custom(Empty {}),
            1 => QueryRequest::Ibc(IbcQuery::PortId {}),
            2 => QueryRequest::Wasm(WasmQuery::CodeInfo { code_id: self.num() }),
            _ => QueryRequest::Distribution(cosmwasm_std::DistributionQuery::DelegatorValidators { delegator_address: self.word() }),
        }
    }

    fn count(&mut self, min: usize) -> usize {
        min + match self.r.below(20) {
            0..=9 => self.r.idx(2),
            10..=17 => 1 + self.r.idx(3),
            18 => 4 + self.r.idx(8),
            _ if self.r.pct(85) => 12 + self.r.idx(30),
            _ => 60 + self.r.idx(240),
        }
    }

    fn timeout(&mut self) -> Option<u64> {
        let now = self.w.a.time;
        let max = (u64::MAX - now) / 1_000_000_000;
        match self.r.below(22) {
            0..=7 => None,
            8 => Some(600),
            9 => Some(1),
            10 => Some(59),
            11..=13 => Some(1 + self.r.below(3600)),
            14 => Some(86_400 * 14),
            15 if self.r.pct(30) => Some(0),
            16 if self.r.pct(40) => Some(*self.r.pick(&[max, max + 1, max - 1, u64::MAX, u64::MAX / 1_000_000_000, u64::MAX / 1_000_000_000 + 1, 18_446_744_073_709_551])),
            17 => {
                // close to what the host's clock allows
                let d = self.w.b.time.saturating_sub(now) / 1_000_000_000;
                Some(d + self.r.below(3))
            }
            18 => Some(1 << self.r.below(34)),
            19 => Some(*self.r.pick(&[60, 599, 601, 3600, 86_400, 604_800, 2_592_000, 31_536_000, 315_360_000, 4_294_967_296])),
            _ => Some(3600),
        }
    }

    fn memo(&mut self) -> Option<String> {
        match self.r.below(10) {
            0..=5 => None,
            6 => Some(String::new()),
            7 => {
                let n = *self.r.pick(&[1, 64, 255, 256, 257, 300, 1000, 4096, 33_000]);
                Some("m".repeat(n))
            }
            _ => Some(self.word()),
        }
    }

    fn send_spec(&mut self, with_q: bool, bad: bool) -> SendSpec {
        let small = matches!(self.profile, Profile::Channels | Profile::Long | Profile::Auth | Profile::Crowd);
        let nm = if with_q && self.r.pct(35) {
            0
        } else if small {
            1
        } else {
            self.count(usize::from(!with_q))
        };
        let nq = if with_q { if small { 1 + self.r.idx(3) } else { self.count(1) } } else { 0 };
        let mut messages: Vec<CosmosMsg> = (0..nm).map(|_| self.msg()).collect();
        if nm > 1 && self.r.pct(15) {
            let m = messages[0].clone();
            messages.push(m);
        }
        let mut queries: Vec<QueryRequest<Empty>> = (0..nq).map(|_| self.query()).collect();
        if nq > 1 && self.r.pct(20) {
            let q = queries[0].clone();
            queries.push(q);
        }
        let mut packet_memo = self.memo();
        let mut timeout_seconds = self.timeout();
        if bad {
            match self.r.below(5) {
                0 | 1 => {
                    let i = self.r.idx(messages.len() + 1);
                    let m = self.bad_msg();
                    messages.insert(i, m);
                }
                2 | 3 => {
                    let i = self.r.idx(queries.len() + 1);
                    let q = self.bad_query();
                    queries.insert(i, q);
                }
                _ => {
                    packet_memo = None;
                    timeout_seconds = Some(u64::MAX - self.r.below(3));
                }
            }
        }
        SendSpec { messages, queries, packet_memo, timeout_seconds }
    }

    fn expiry(&mut self) -> Option<XExp> {
        let (h, t) = (self.w.a.height, self.w.a.time);
        match self.r.below(8) {
            0..=2 => None,
            3 => Some(XExp::Never {}),
            4 | 5 => Some(XExp::AtHeight(h + self.r.below(4))),
            _ => Some(XExp::AtTime(Timestamp::from_nanos(t + self.r.below(4) * 5_000_000_000))),
        }
    }

    fn owner_msg(&mut self, ci: u8) -> XMsg {
        match self.r.below(14) {
            0 => XMsg::CreateChannel { channel_open_init_options: None },
            1 => {
                let good = self.r.pct(80);
                XMsg::CreateChannel { channel_open_init_options: Some(self.opts(good)) }
            }
            2 => XMsg::CloseChannel {},
            3 => XMsg::UpdateCallbackAddress { callback_address: self.cb_addr() },
            4 => {
                let to = self.candidate(ci);
                XMsg::UpdateOwnership(XAction::TransferOwnership { new_owner: to, expiry: self.expiry() })
            }
            5 => XMsg::UpdateOwnership(XAction::AcceptOwnership),
            6 => XMsg::UpdateOwnership(XAction::RenounceOwnership),
            7..=9 => {
                let bad = self.r.pct(15);
                XMsg::SendCosmosMsgs(self.send_spec(false, bad))
            }
            _ => {
                let bad = self.r.pct(15);
                XMsg::SendCosmosMsgs(self.send_spec(true, bad))
            }
        }
    }

    fn candidate(&mut self, ci: u8) -> String {
        match self.r.below(12) {
            0 => self.bad_addr(),
            1 => self.w.ctls[ci as usize].clone(),
            2 => {
                let AddrRef::Raw(s) = self.owner_of(ci) else { unreachable!() };
                s
            }
            3..=6 => self.w.addr(&AddrRef::Probe((self.steps.len() % 3) as u8)),
            n => self.w.addr(&AddrRef::User((n % 4) as u8)),
        }
    }

    fn batch_items(&mut self, ci: u8) -> Vec<BatchItem> {
        let x = |msg: XMsg, catch: bool| BatchItem { ctl: ci, msg, catch };
        let close = || XMsg::CloseChannel {};
        let create = || XMsg::CreateChannel { channel_open_init_options: None };
        match self.r.below(9) {
            0 => vec![x(close(), true), x(create(), true), x(create(), true)],
            1 => vec![x(create(), true), x(create(), true)],
            2 => {
                let (a, b, c) = (self.send_spec(true, false), self.send_spec(true, false), self.send_spec(false, false));
                vec![x(XMsg::SendCosmosMsgs(a), true), x(XMsg::SendCosmosMsgs(b), true), x(XMsg::SendCosmosMsgs(c), true)]
            }
            3 => {
                // a send that fails on the chain after the contract prepared it, then a good one
                let mut a = self.send_spec(true, false);
                a.timeout_seconds = Some(0);
                let (b, c) = (self.send_spec(false, false), self.send_spec(true, false));
                vec![x(XMsg::SendCosmosMsgs(a), true), x(XMsg::SendCosmosMsgs(b), true), x(XMsg::SendCosmosMsgs(c), true)]
            }
            4 => {
                let a = self.send_spec(true, false);
                vec![x(XMsg::SendCosmosMsgs(a), true), x(close(), true)]
            }
            5 => vec![x(close(), true), x(close(), true), x(create(), true)],
            6 => {
                let o = self.opts(false);
                vec![x(XMsg::CreateChannel { channel_open_init_options: Some(o) }, true), x(create(), true)]
            }
            _ => {
                let n = 1 + self.r.idx(4);
                (0..n)
                    .map(|_| {
                        let msg = self.owner_msg(ci);
                        let catch = self.r.pct(60);
                        BatchItem { ctl: ci, msg, catch }
                    })
                    .collect()
            }
        }
    }

    fn host_bad(&mut self) -> HostDo {
        match self.r.below(10) {
            0..=2 => {
                let e = match self.r.below(6) {
                    4 | 5 => (*self.r.pick(&["packet timeout", "timeout", "channel closed", "ABCI code: 11: out of gas", "out of gas", "ABCI code: 1: error handling packet: see events for details", "unauthorized", "error", "ok", "{\"error\":\"x\"}", "{\"result\":\"AQ==\"}", " ", "null", "0", "insufficient funds"])).to_string(),
                    0 => String::new(),
                    1 => "ABCI code: 5: error handling packet: see events for details".into(),
                    2 => "err \"quoted\" \\ 日本\n".into(),
                    _ => self.word(),
                };
                HostDo::Fail(e)
            }
            3 => HostDo::Fewer,
            4 => HostDo::More,
            5 => HostDo::NoResponses,
            6 => HostDo::Garbage(self.r.below(6) as u8),
            7 => HostDo::BadAmount(self.r.below(6) as u8),
            8 => HostDo::RawResult((0..self.r.idx(12)).map(|_| self.r.next() as u8).collect()),
            _ => HostDo::Fail("xy".repeat(1 + self.r.idx(1200))),
        }
    }

    fn meta_bad(&mut self) -> Meta {
        let conn = self.w.cfg.conns.last().map(|c| c.0.clone()).unwrap_or_default();
        match self.r.below(24) {
            21 | 22 => {
                const P: &[&str] = &["", " ", "\n", "x", "ics27-1", "v", "\u{feff}", "[", "(", "\"", "0", "{", "null"];
                const S: &[&str] = &["", " ", "\n\t", "x", "]", ")", "\"", "}", ";", ",", "0", "{}"];
                if self.r.pct(20) {
                    return Meta::Wrap(String::new(), " ".repeat(*self.r.pick(&[1, 64, 300, 1000, 5000])));
                }
                Meta::Wrap((*self.r.pick(P)).to_string(), (*self.r.pick(S)).to_string())
            }
            23 => Meta::Fee,
            18 => Meta::HostConn("9".repeat(*self.r.pick(&[20, 128, 129, 300, 2000]))),
            19 => Meta::HostConn((*self.r.pick(&["connection-404", "", "connection-0", "x"])).to_string()),
            0 => Meta::Address(String::new()),
            1 => Meta::Address("a".repeat(129)),
            2 => Meta::Address("a".repeat(128)),
            3 => Meta::Address((*self.r.pick(&["cosmos1-abc", "cos mos", "cosmos1_a", "a/b", "cosmos1é", "١٢٣", "a\n", "日本"])).to_string()),
            4 => Meta::Address("osmo1otheraccount".into()),
            5 => Meta::Version((*self.r.pick(&["ics27-2", "", "ics20-1", "ICS27-1", "ics27-1 "])).to_string()),
            6 => {
                let c = self.w.cfg.conns[self.r.idx(self.w.cfg.conns.len())].0.clone();
                Meta::ControllerConn(match self.r.below(8) {
                    0 => "connection-404".into(),
                    1 => String::new(),
                    2 => "connection-".into(),
                    3 => format!("{c}0"),
                    4 => format!(" {c}"),
                    5 => format!("{c} "),
                    6 => c.to_uppercase(),
                    _ => c[..c.len() - 1].to_string(),
                })
            }
            7 => Meta::ControllerConn(conn),
            8 | 9 => Meta::Encoding((*self.r.pick(&["proto3json", "", "amino", "PROTO3", "proto3 "])).to_string()),
            10 => Meta::TxType((*self.r.pick(&["", "sdk_single_msg", "SDK_MULTI_MSG", "sdk_multi_msg "])).to_string()),
            11 | 12 => Meta::Missing((*self.r.pick(&["version", "controller_connection_id", "host_connection_id", "address", "encoding", "tx_type"])).to_string()),
            13 => Meta::Address("A1b2".repeat(32)),
            14 => Meta::Address(format!("{}é", "a".repeat(126))),
            15 => Meta::Address(format!("{}é", "a".repeat(127))),
            _ => Meta::Raw((*self.r.pick(&["", "{}", "null", "ics27-1", "[]", "{\"version\":\"ics27-1\"", "{\"version\":1}"])).to_string()),
        }
    }

    fn relay_of(&mut self, f: impl Fn(&Step) -> bool) -> Option<Step> {
        let v: Vec<Step> = relay_options(&self.w).into_iter().filter(f).collect();
        if v.is_empty() {
            return None;
        }
        let s = self.r.pick(&v).clone();
        Some(self.dress(s))
    }

    /// Relayer identity, gas limit and host behaviour of a relay step.
    fn dress(&mut self, s: Step) -> Step {
        let who = if self.r.pct(90) { self.r.below(3) } else { 3 + self.r.below(8) } as u8;
        let og = self.oog();
        match s {
            Step::OpenAck { bchan, .. } => Step::OpenAck { bchan, rly: who, oog: og },
            Step::CloseConfirmA { chan, .. } => Step::CloseConfirmA { chan, rly: who, oog: og },
            Step::Ack { chan, seq, .. } => Step::Ack { chan, seq, rly: who, oog: og },
            Step::Timeout { chan, seq, on_close, .. } => Step::Timeout { chan, seq, rly: who, on_close, oog: og },
            Step::Recv { chan, seq, host } => {
                let host = if self.faults && self.r.pct(15) { self.host_bad() } else { host };
                Step::Recv { chan, seq, host }
            }
            s => s,
        }
    }

    fn legacy(&mut self) -> Option<Legacy> {
        if self.r.pct(20) {
            return None;
        }
        let cur = self.w.cur_version.clone().map(|c| c.1).unwrap_or_default();
        let version = match self.r.below(16) {
            0..=4 => Some((*self.r.pick(&["0.19.0", "0.1.0", "0.9.9", "0.3.0", "0.19.12"])).to_string()),
            5 => Some(format!("{cur}-rc.1")),
            6 => Some(cur.clone()),
            7 => Some(format!("{cur}+build")),
            8 => Some((*self.r.pick(&["1.0.0", "0.20.1", "0.100.0", "10.0.0", "0.21.0-alpha"])).to_string()),
            9 => Some((*self.r.pick(&["", "v0.19.0", "0.19", "abc", "0.19.0.1", "00.1.0"])).to_string()),
            10..=13 => Some(format!("0.{}.{}", self.r.below(20), self.r.below(12))),
            _ => Some("0.2.0".into()),
        };
        let name = if self.r.pct(10) { Some((*self.r.pick(&["crates.io:cw-ica-owner", "cw-ica-controller", "crates.io:cw20-base", "crates.io:cw-ica-controller-fork", "crates.io:cw-ica-controller2", "crates.io:CW-ICA-Controller", "crates.io:cw-ica-controlle", " crates.io:cw-ica-controller", "other:cw-ica-controller", ""])).to_string()) } else { None };
        Some(Legacy { name, version, extra_fields: self.r.pct(30), no_flags: self.r.pct(20), encoding_json: self.r.pct(6), released: self.r.pct(50) })
    }

    // ------------------------------------------------------------ actions to steps

    fn resolve(&mut self, act: Act) -> Option<Step> {
        let ci = self.ctl();
        let ctl = self.w.ctls[ci as usize].clone();
        let m = self.w.model(&ctl)?;
        Some(match act {
            Deploy => {
                if self.w.ctls.len() >= 3 {
                    return None;
                }
                self.deploy(false)
            }
            Create => {
                let by = self.by(ci);
                self.exec(ci, by, XMsg::CreateChannel { channel_open_init_options: None })
            }
            CreateOpts => {
                let by = self.by(ci);
                let o = self.opts(true);
                self.exec(ci, by, XMsg::CreateChannel { channel_open_init_options: Some(o) })
            }
            CreateBad => {
                let by = self.by(ci);
                let o = self.opts(false);
                self.exec(ci, by, XMsg::CreateChannel { channel_open_init_options: Some(o) })
            }
            Close => {
                let by = self.by(ci);
                self.exec(ci, by, XMsg::CloseChannel {})
            }
            Send | SendQ | SendBad => {
                let by = self.by(ci);
                let q = act == SendQ || (act == SendBad && self.r.pct(60));
                let s = self.send_spec(q, act == SendBad);
                self.exec(ci, by, XMsg::SendCosmosMsgs(s))
            }
            Callback => {
                let by = self.by(ci);
                let callback_address = self.cb_addr();
                self.exec(ci, by, XMsg::UpdateCallbackAddress { callback_address })
            }
            Transfer => {
                let by = self.by(ci);
                let new_owner = self.candidate(ci);
                let expiry = self.expiry();
                self.exec(ci, by, XMsg::UpdateOwnership(XAction::TransferOwnership { new_owner, expiry }))
            }
            Accept => {
                let by = match &m.pending {
                    Some(p) if self.r.pct(85) => AddrRef::Raw(p.clone()),
                    _ => self.stranger(ci),
                };
                self.exec(ci, by, XMsg::UpdateOwnership(XAction::AcceptOwnership))
            }
            Renounce => {
                let by = self.by(ci);
                self.exec(ci, by, XMsg::UpdateOwnership(XAction::RenounceOwnership))
            }
            Outsider => {
                let by = self.stranger(ci);
                let msg = self.owner_msg(ci);
                self.exec(ci, by, msg)
            }
            Batch => {
                let probe = match self.w.kind_of(&m.owner) {
                    Some(Kind::Probe(i)) => i,
                    _ => return None,
                };
                let items = self.batch_items(ci);
                Step::Batch { probe, items, fail: self.r.pct(10) }
            }
            ModeFail | ModeNested | ModeOk => {
                let probe = match m.cb.as_ref().and_then(|c| self.w.kind_of(c)) {
                    Some(Kind::Probe(i)) => i,
                    _ if act == ModeOk => self.r.below(3) as u8,
                    _ => return None,
                };
                let mode = match act {
                    ModeOk => PMode::Ok,
                    ModeFail => match self.r.below(5) {
                        0 => PMode::Heavy,
                        1 => PMode::FailAll,
                        2 => PMode::Fail(CbKind::Ack),
                        3 => PMode::Fail(CbKind::Timeout),
                        _ => PMode::Fail(CbKind::Open),
                    },
                    _ => {
                        let on = match self.r.below(4) {
                            0 | 1 => CbKind::Ack,
                            2 => CbKind::Timeout,
                            _ => CbKind::Open,
                        };
                        let mut items = match (&on, self.r.below(3)) {
                            (CbKind::Timeout, 0 | 1) => vec![BatchItem { ctl: ci, msg: XMsg::CreateChannel { channel_open_init_options: None }, catch: self.r.pct(50) }],
                            (_, 0) => vec![BatchItem { ctl: ci, msg: XMsg::CloseChannel {}, catch: true }],
                            _ => self.batch_items(ci),
                        };
                        items.truncate(3);
                        PMode::Nested { on, items, once: self.r.pct(70) }
                    }
                };
                Step::Mode { probe, mode }
            }
            Migrate => {
                let admin = self.w.a.contracts[&ctl].admin.clone();
                let by = match admin {
                    Some(a) if self.r.pct(90) => AddrRef::Raw(a),
                    _ => self.stranger(ci),
                };
                let helper = self.r.pct(30);
                let legacy = self.legacy();
                Step::Migrate { ctl: ci, by, helper, legacy }
            }
            Admin => {
                let admin = self.w.a.contracts[&ctl].admin.clone();
                let by = match admin {
                    Some(a) if self.r.pct(85) => AddrRef::Raw(a),
                    _ => self.stranger(ci),
                };
                let to = match self.r.below(6) {
                    0 => None,
                    1 => Some(self.bad_addr()),
                    _ => Some(self.candidate(ci)),
                };
                Step::Admin { ctl: ci, by, to }
            }
            Rogue => {
                let kind = match self.r.below(10) {
                    8 | 9 => RogueKind::CloseConfirm,
                    0..=2 => RogueKind::OpenInit { empty_version: self.r.pct(40) },
                    3 | 4 => RogueKind::CloseInit,
                    5 => RogueKind::OpenTry,
                    6 => RogueKind::OpenConfirm,
                    _ => RogueKind::Recv,
                };
                let chans: Vec<String> = self.w.a.core.chans.iter().filter(|(_, c)| c.ctl == ctl).map(|(i, _)| i.clone()).collect();
                let chan = if chans.is_empty() || self.r.pct(60) { None } else { Some(self.r.pick(&chans).clone()) };
                Step::Rogue { kind, ctl: ci, rly: self.r.below(3) as u8, chan }
            }
            Try | TryBad => {
                let v: Vec<String> = self.w.a.core.chans.iter().filter(|(_, c)| c.state == ASt::Init).map(|(i, _)| i.clone()).collect();
                if v.is_empty() {
                    return None;
                }
                let chan = self.r.pick(&v).clone();
                let meta = if act == TryBad { self.meta_bad() } else { Meta::Valid };
                Step::Try { chan, meta }
            }
            OpenAck => return self.relay_of(|s| matches!(s, Step::OpenAck { .. })),
            Confirm => return self.relay_of(|s| matches!(s, Step::Confirm { .. })),
            HostClose => {
                let v: Vec<String> = self.w.b.chans.iter().filter(|(_, c)| c.state == BState::Open).map(|(i, _)| i.clone()).collect();
                if v.is_empty() {
                    return None;
                }
                Step::HostClose { bchan: self.r.pick(&v).clone() }
            }
            CloseA => return self.relay_of(|s| matches!(s, Step::CloseConfirmA { .. })),
            CloseB => return self.relay_of(|s| matches!(s, Step::CloseConfirmB { .. })),
            Recv => return self.relay_of(|s| matches!(s, Step::Recv { .. })),
            RecvBad => {
                let s = self.relay_of(|s| matches!(s, Step::Recv { .. }))?;
                let Step::Recv { chan, seq, .. } = s else { return None };
                Step::Recv { chan, seq, host: self.host_bad() }
            }
            Ack => return self.relay_of(|s| matches!(s, Step::Ack { .. })),
            Timeout => {
                if let Some(s) = self.relay_of(|s| matches!(s, Step::Timeout { .. })) {
                    return Some(s);
                }
                return None;
            }
            AnyRelay | Flush => return self.relay_of(|_| true),
            Dup => {
                let v: Vec<(String, u64, PSt)> = self.w.a.core.packets.iter().filter(|(_, p)| p.st != PSt::InFlight).map(|((c, s), p)| (c.clone(), *s, p.st)).collect();
                if v.is_empty() {
                    let b: Vec<String> = self.w.b.chans.keys().cloned().collect();
                    if b.is_empty() {
                        return None;
                    }
                    return Some(Step::OpenAck { bchan: self.r.pick(&b).clone(), rly: 1, oog: None });
                }
                let (chan, seq, st) = self.r.pick(&v).clone();
                if st == PSt::Acked {
                    Step::Ack { chan, seq, rly: 1, oog: None }
                } else {
                    Step::Timeout { chan, seq, rly: 1, on_close: false, oog: None }
                }
            }
            Expire => {
                // let the host's clock pass the timeout of some packet in flight
                let now = self.w.b.time;
                let mut v: Vec<u64> = vec![];
                for ((_, s), p) in &self.w.a.core.packets {
                    if p.st == PSt::InFlight && !self.w.b.received.contains(&(p.packet.dest.channel_id.clone(), *s)) {
                        let ts = p.packet.timeout.timestamp().map_or(u64::MAX, |t| t.nanos());
                        if ts > now && ts - now < 60 * 86_400 * 1_000_000_000 {
                            v.push(ts - now);
                        }
                    }
                }
                if v.is_empty() {
                    return None;
                }
                let d = *self.r.pick(&v);
                let dt = match self.r.below(4) {
                    0 => d,
                    1 => d - 1,
                    _ => d + self.r.below(5_000_000_000),
                };
                if self.r.pct(70) {
                    self.queue.push_front(Timeout);
                }
                Step::AdvB { dt }
            }
            AdvA => {
                let dt = match self.r.below(10) {
                    0..=5 => 1_000_000_000 + self.r.below(9_000_000_000),
                    6 => 1,
                    7 => 601_000_000_000,
                    8 => self.w.b.time.saturating_sub(self.w.a.time),
                    _ if self.faults => 86_400_000_000_000 * (1 + self.r.below(30)),
                    _ => 5_000_000_000,
                };
                let blocks = if dt > 60_000_000_000 && self.r.pct(60) { dt / 6_000_000_000 } else { 1 + self.r.below(3) };
                Step::AdvA { dt, blocks }
            }
            AdvB => {
                let dt = match self.r.below(8) {
                    0..=4 => 1_000_000_000 + self.r.below(9_000_000_000),
                    5 => 61_000_000_000,
                    6 => self.w.a.time.saturating_sub(self.w.b.time),
                    _ if self.faults => 86_400_000_000_000 * (1 + self.r.below(10)),
                    _ => 5_000_000_000,
                };
                Step::AdvB { dt }
            }
            Boundary => {
                // exactly at, or one short of, the pending deadline
                let (h, t) = (self.w.a.height, self.w.a.time);
                match &m.expiry {
                    Some(XExp::AtHeight(x)) if *x > h => Step::AdvA { dt: 5_000_000_000, blocks: (*x - h - u64::from(self.r.pct(40))).max(1) },
                    Some(XExp::AtTime(x)) if x.nanos() > t => Step::AdvA { dt: x.nanos() - t - u64::from(self.r.pct(40)), blocks: 1 },
                    _ => return None,
                }
            }
            Crash => {
                if !self.faults {
                    return None;
                }
                Step::Crash
            }
            Elsewhere => {
                let at = self.w.a.core.next_chan;
                let a = match self.r.below(4) {
                    // continue at a number that has the first one as a prefix
                    0..=2 if self.w.cfg.seq_later.is_some() => (self.w.cfg.chan_start * 10 + self.w.cfg.seq_start / 10 % 10).saturating_sub(at),
                    0 => self.r.below(10),
                    1 => 100 - at % 100,
                    2 => 10 - at % 10,
                    _ => self.r.below(100_000),
                };
                Step::Elsewhere { a, b: self.r.below(30) }
            }
            OwnerSend if self.r.pct(35) => self.owner_raw(),
            OwnerSend => {
                let by = if self.r.pct(90) { AddrRef::User(0) } else { self.user() };
                Step::OwnerSend { by, ica_id: self.r.below(3), to: self.word() }
            }
            Open => return None,
        })
    }
}
