//! The simulated world around one real connection parser: two simulated TCP directions whose bytes
//! are cut, delayed, interleaved, lost or truncated by the seeded scheduler, and the application that
//! drives the parser through its public API.
use crate::clock;
use crate::rec;
use crate::rng::Src;
use crate::stats;
use crate::wire::*;
use htp::config::{Config, HtpServerPersonality};
use htp::connection_parser::{ConnectionParser, HtpStreamState, ParserData};
use std::mem::MaybeUninit;
use time::OffsetDateTime;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum St {
    New,
    Open,
    Closed,
    Error,
    Tunnel,
    DataOther,
    Stop,
    Data,
}
pub fn st(s: HtpStreamState) -> St {
    match s {
        HtpStreamState::NEW => St::New,
        HtpStreamState::OPEN => St::Open,
        HtpStreamState::CLOSED => St::Closed,
        HtpStreamState::ERROR => St::Error,
        HtpStreamState::TUNNEL => St::Tunnel,
        HtpStreamState::DATA_OTHER => St::DataOther,
        HtpStreamState::STOP => St::Stop,
        HtpStreamState::DATA => St::Data,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Dir {
    Q,
    R,
}

thread_local! {
    static TRACE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Print every scheduled step as it happens (the step is flushed before the code under test runs on
/// when it may crash).
pub fn trace_live() {
    TRACE.with(|t| t.set(true));
}
pub fn trace(f: impl FnOnce() -> String) {
    if TRACE.with(|t| t.get()) {
        println!("{}", f());
    }
}
pub fn show(b: &[u8]) -> String {
    let mut o = String::from("\"");
    for c in b.iter().take(400) {
        match c {
            b'\r' => o.push_str("\\r"),
            b'\n' => o.push_str("\\n"),
            b'\t' => o.push_str("\\t"),
            b'"' => o.push_str("\\\""),
            b'\\' => o.push_str("\\\\"),
            0x20..=0x7e => o.push(*c as char),
            _ => o.push_str(&format!("\\x{:02x}", c)),
        }
    }
    o.push('"');
    if b.len() > 400 {
        o.push_str(&format!("...({} bytes)", b.len()));
    }
    o
}

pub const PERS: [HtpServerPersonality; 10] = [
    HtpServerPersonality::MINIMAL,
    HtpServerPersonality::GENERIC,
    HtpServerPersonality::IDS,
    HtpServerPersonality::IIS_4_0,
    HtpServerPersonality::IIS_5_0,
    HtpServerPersonality::IIS_5_1,
    HtpServerPersonality::IIS_6_0,
    HtpServerPersonality::IIS_7_0,
    HtpServerPersonality::IIS_7_5,
    HtpServerPersonality::APACHE_2,
];

#[derive(Clone, Copy, Debug)]
pub struct Knobs {
    pub pers: usize,
    pub req_decomp: bool,
    pub resp_decomp: bool,
    pub auto_destroy: bool,
    pub flush_incomplete: bool,
    pub field_limit: usize,
    pub max_tx: u32,
    pub parse_urlenc: bool,
    pub time_limit: Option<u32>,
    pub time_freq: Option<u32>,
    pub bomb_limit: Option<u64>,
    pub bomb_ratio: Option<u64>,
    pub layer_limit: Option<Option<u32>>,
    pub lzma_layers: Option<Option<u32>>,
    pub lzma_mem: Option<usize>,
    pub log_level: Option<u8>,
    pub no_auth: bool,
}
impl Default for Knobs {
    fn default() -> Self {
        Knobs {
            pers: 0,
            req_decomp: true,
            resp_decomp: true,
            auto_destroy: false,
            flush_incomplete: false,
            field_limit: 18000,
            max_tx: 512,
            parse_urlenc: false,
            time_limit: None,
            time_freq: None,
            bomb_limit: None,
            bomb_ratio: None,
            layer_limit: None,
            lzma_layers: None,
            lzma_mem: None,
            log_level: None,
            no_auth: false,
        }
    }
}
impl Knobs {
    pub fn draw(s: &mut Src) -> Knobs {
        let mut k = Knobs { pers: s.usz(10), ..Default::default() };
        k.req_decomp = !s.chance(1, 4);
        k.resp_decomp = !s.chance(1, 5);
        k.auto_destroy = s.chance(1, 3);
        k.flush_incomplete = s.chance(1, 4);
        k.parse_urlenc = s.chance(1, 4);
        k
    }
    pub fn config(&self) -> Config {
        let mut c = Config::default();
        let _ = c.set_server_personality(PERS[self.pers]);
        c.set_request_decompression(self.req_decomp);
        c.response_decompression_enabled = self.resp_decomp;
        c.set_tx_auto_destroy(self.auto_destroy);
        c.set_flush_incomplete(self.flush_incomplete);
        c.set_field_limit(self.field_limit);
        c.max_tx = self.max_tx;
        c.set_parse_urlencoded(self.parse_urlenc);
        if let Some(v) = self.time_limit {
            c.compression_options.set_time_limit(v);
        }
        if let Some(v) = self.time_freq {
            c.compression_options.set_time_test_freq(v);
        }
        if let Some(v) = self.bomb_limit {
            c.compression_options.set_bomb_limit(v);
        }
        if let Some(v) = self.bomb_ratio {
            c.compression_options.set_bomb_ratio(v);
        }
        if let Some(v) = self.layer_limit {
            c.set_decompression_layer_limit(v);
        }
        if let Some(v) = self.lzma_layers {
            c.compression_options.set_lzma_layers(v);
        }
        if let Some(v) = self.lzma_mem {
            c.compression_options.set_lzma_memlimit(v);
        }
        c.log_level = level(self.log_level.unwrap_or(3));
        c.parse_request_auth = !self.no_auth;
        c
    }
}
pub fn level(n: u8) -> htp::log::HtpLogLevel {
    use htp::log::HtpLogLevel::*;
    match n {
        0 => NONE,
        1 => ERROR,
        2 => WARNING,
        3 => NOTICE,
        4 => INFO,
        5 => DEBUG,
        _ => DEBUG2,
    }
}

pub fn now_ts() -> Option<OffsetDateTime> {
    OffsetDateTime::from_unix_timestamp_nanos(clock::real() as i128).ok()
}

/// The application's view of a parser: the Rust API, or the C API.
pub trait Api {
    fn open(&mut self);
    fn data(&mut self, d: Dir, b: &[u8]) -> St;
    fn gap(&mut self, d: Dir, n: usize) -> St;
    fn consumed(&self, d: Dir) -> usize;
    fn close(&mut self);
    fn request_close(&mut self);
    fn tx_size(&self) -> usize;
    fn tx(&self, i: usize) -> Option<rec::Snap>;
    fn destroy_tx(&mut self, i: usize);
    fn counters(&self) -> (i64, i64);
    /// the memory of the parser object moves to another address
    fn relocate(&mut self) {}
    /// (code, level) of all pending log messages
    fn logs(&mut self) -> Vec<(String, String)> {
        vec![]
    }
}

pub struct RustApi {
    slots: Vec<Box<MaybeUninit<ConnectionParser>>>,
    ts: bool,
    /// when the last chunk of each direction was handed over
    pub last: [Option<OffsetDateTime>; 2],
}
impl RustApi {
    pub fn new(mut c: Config, ts: bool) -> RustApi {
        rec::install(&mut c);
        Self::bare(c, ts)
    }
    pub fn bare(c: Config, ts: bool) -> RustApi {
        RustApi { slots: vec![Box::new(MaybeUninit::new(ConnectionParser::new(c)))], ts, last: [None; 2] }
    }
    pub fn p(&self) -> &ConnectionParser {
        unsafe { self.slots.last().unwrap().assume_init_ref() }
    }
    pub fn pm(&mut self) -> &mut ConnectionParser {
        unsafe { self.slots.last_mut().unwrap().assume_init_mut() }
    }
    pub fn pipelined(&self) -> bool {
        self.p().conn.flags & htp::connection::ConnectionFlags::PIPELINED != 0
    }
    fn ts(&self) -> Option<OffsetDateTime> {
        if self.ts {
            now_ts()
        } else {
            None
        }
    }
}
impl Drop for RustApi {
    fn drop(&mut self) {
        let mut b = self.slots.pop().unwrap();
        unsafe { b.assume_init_drop() }
    }
}
impl Api for RustApi {
    fn open(&mut self) {
        let ts = self.ts();
        self.pm().open(
            Some("10.0.0.1".parse().unwrap()),
            Some(32768),
            Some("10.0.0.2".parse().unwrap()),
            Some(80),
            ts,
        )
    }
    fn data(&mut self, d: Dir, b: &[u8]) -> St {
        let ts = self.ts();
        self.last[d as usize] = ts;
        match d {
            Dir::Q => st(self.pm().request_data(ParserData::from(b), ts)),
            Dir::R => st(self.pm().response_data(ParserData::from(b), ts)),
        }
    }
    fn gap(&mut self, d: Dir, n: usize) -> St {
        let ts = self.ts();
        match d {
            Dir::Q => st(self.pm().request_data(ParserData::from(n), ts)),
            Dir::R => st(self.pm().response_data(ParserData::from(n), ts)),
        }
    }
    fn consumed(&self, d: Dir) -> usize {
        match d {
            Dir::Q => self.p().request_data_consumed(),
            Dir::R => self.p().response_data_consumed(),
        }
    }
    fn close(&mut self) {
        let ts = self.ts();
        self.pm().close(ts)
    }
    fn request_close(&mut self) {
        let ts = self.ts();
        self.pm().request_close(ts)
    }
    fn tx_size(&self) -> usize {
        self.p().tx_size()
    }
    fn tx(&self, i: usize) -> Option<rec::Snap> {
        self.p().tx(i).map(rec::snap)
    }
    fn destroy_tx(&mut self, i: usize) {
        self.pm().remove_tx(i)
    }
    fn counters(&self) -> (i64, i64) {
        (self.p().conn.request_data_counter as i64, self.p().conn.response_data_counter as i64)
    }
    fn relocate(&mut self) {
        let mut nb: Box<MaybeUninit<ConnectionParser>> = Box::new(MaybeUninit::uninit());
        let old = self.slots.last_mut().unwrap();
        unsafe {
            std::ptr::copy_nonoverlapping(old.as_ptr(), nb.as_mut_ptr(), 1);
            // poison the old location: whoever still points there finds garbage, every time
            std::ptr::write_bytes(old.as_mut_ptr() as *mut u8, 0xdd, std::mem::size_of::<ConnectionParser>());
        }
        self.slots.push(nb);
    }
    fn logs(&mut self) -> Vec<(String, String)> {
        self.p()
            .conn
            .get_logs()
            .into_iter()
            .map(|l| (format!("{:?}", l.msg.code), format!("{:?}", l.msg.level)))
            .collect()
    }
}

/// One API call the application made, and what came back.
#[derive(Clone, Debug)]
pub struct Call {
    pub op: Op,
    pub st: Option<St>,
    pub consumed: usize,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Seg(Dir, usize, usize), // bytes [a,b) of the direction's stream
    Gap(Dir, usize, usize),
    Close,
    ReqClose,
    Relocate,
    Destroy(usize),
}

/// Segmentation / interleaving policy of a run.
#[derive(Clone, Debug)]
pub struct Policy {
    pub qmode: usize,
    pub rmode: usize,
    pub depth: usize,
    pub bias: u64, // 0..=10, weight of the request direction
    pub wait100: bool,
    pub early: bool,
    pub relocate: bool,
    pub half_close: bool,
    pub close: bool,
    /// the client does not wait for the answer to its CONNECT
    pub optimistic: bool,
    /// the server may answer bytes that the observer has deferred
    pub eager: bool,
}
impl Policy {
    pub fn draw(s: &mut Src) -> Policy {
        Policy {
            qmode: s.usz(7),
            rmode: s.usz(7),
            depth: *s.pick(&[1usize, 2, 100, 3]),
            bias: *s.pick(&[5u64, 9, 1, 7, 3]),
            wait100: !s.chance(1, 3),
            early: s.chance(1, 5),
            relocate: false,
            half_close: s.chance(1, 5),
            close: !s.chance(1, 4),
            optimistic: false,
            eager: false,
        }
    }
}

/// How many bytes of `avail` (first byte at `pos`) the network delivers as the next segment.
pub fn seg_len(s: &mut Src, mode: usize, pos: usize, avail: usize, marks: &[usize], total: usize) -> usize {
    if avail <= 1 {
        return avail;
    }
    let mut mode = mode;
    if mode == 6 {
        mode = *s.pick(&[0usize, 2, 3, 4, 5]);
    }
    let n = match mode {
        0 => avail,
        1 => {
            // byte by byte while affordable
            if total <= 2500 {
                1
            } else {
                s.range(1, 9)
            }
        }
        2 => s.range(1, avail),
        3 => s.range(1, avail.min(12)),
        4 | 5 => {
            // at or next to a structural boundary
            let i = marks.partition_point(|m| *m <= pos);
            let span = if mode == 4 { 4 } else { 30 };
            let cand = &marks[i..marks.len().min(i + span)];
            if cand.is_empty() {
                avail
            } else {
                let m = *s.pick(cand) as i64 + *s.pick(&[0i64, 1, -1]);
                (m - pos as i64).max(1) as usize
            }
        }
        _ => s.range(1, avail),
    };
    // keep the number of segments of long streams bounded
    let n = if total > 20_000 && !s.chance(1, 8) { n.max(s.range(1, total / 1000)) } else { n };
    n.clamp(1, avail)
}

pub struct Run<'a, A: Api> {
    pub api: A,
    pub conv: &'a Conv,
    pub conn: usize,
    pub qpos: usize,
    pub rpos: usize,
    pub qblocked: bool,
    pub rblocked: bool,
    pub calls: Vec<Call>,
    pub pol: Policy,
    pub qdead: Option<St>,
    pub rdead: Option<St>,
    pub qclosed: bool,
    pub stuck: Option<String>,
    retries: usize,
    qdefer: bool,
    /// bytes the client has put on the wire, deferred ones included
    pub qoff: usize,
    /// planned losses: (direction, from, to)
    pub gaps: Vec<(Dir, usize, usize)>,
    /// how much more than the end of the stream the last loss takes (what follows is never seen)
    pub over: (usize, usize),
    /// the bytes mean nothing: no side waits for the other
    pub ungated: bool,
    /// where each stream breaks off
    pub cut: (usize, usize),
}

impl<'a, A: Api> Run<'a, A> {
    pub fn new(api: A, conv: &'a Conv, conn: usize, pol: Policy) -> Self {
        Run {
            api, conv, conn, qpos: 0, rpos: 0, qblocked: false, rblocked: false, calls: vec![], pol, qdead: None,
            rdead: None, qclosed: false, stuck: None, retries: 0, qdefer: false, qoff: 0, gaps: vec![],
            ungated: false,
            over: (0, 0),
            cut: (conv.q.len(), conv.r.len()),
        }
    }
    fn enter(&self) {
        rec::with(|r| {
            r.conn = self.conn;
            r.call = self.calls.len();
        });
    }
    pub fn open(&mut self) {
        self.enter();
        self.api.open();
    }
    /// end of what the server may have sent, given what the client's bytes have reached it
    pub fn r_limit(&self) -> usize {
        if self.ungated {
            return self.cut.1;
        }
        let mut lim = 0;
        let sent = if self.pol.eager { self.qpos.max(self.qoff) } else { self.qpos };
        let n = self.conv.ex.len();
        for (i, e) in self.conv.ex.iter().enumerate() {
            let headed = sent >= e.q.m.head_end;
            if sent >= e.q.m.end {
                lim = e.r.m.end;
                if i + 1 == n && self.tail_open(sent) {
                    lim = self.conv.r.len();
                }
                continue;
            }
            if e.kind == XK::Normal {
                // (a refusal that comes before any of a body the client holds back ends the request)
                let refuses = e.q.expect && (400..500).contains(&e.r.status) && self.qpos <= e.q.m.head_end;
                if headed && self.pol.early && !refuses {
                    lim = e.r.m.end;
                    // and nothing keeps it from saying more
                    for x in self.conv.ex[i + 1..].iter().take_while(|x| x.kind == XK::Unsol) {
                        lim = x.r.m.end;
                    }
                } else if headed && e.r.interim > 0 {
                    lim = e.r.interim_heads.last().unwrap().1;
                }
            }
            break;
        }
        lim.min(self.cut.1)
    }
    /// may the server talk inside the tunnel?  After an upgrade at once, after CONNECT the client
    /// speaks first.
    fn tail_open(&self, sent: usize) -> bool {
        match self.conv.ex.last().map(|e| e.kind) {
            Some(XK::Accepted) => sent >= self.conv.decide,
            _ => true,
        }
    }
    /// end of what the client may have sent, given what it has received
    pub fn q_limit(&self) -> usize {
        if self.ungated {
            return self.cut.0;
        }
        let done = self.conv.ex.iter().filter(|e| e.r.m.end <= self.rpos && e.r.framing != Framing::Close).count();
        let n = self.conv.ex.len();
        let last = (done + self.pol.depth).min(n);
        let mut lim = if last == 0 { 0 } else { self.conv.ex[last - 1].q.m.end };
        if last == n {
            lim = self.conv.q.len();
        }
        for e in &self.conv.ex {
            // what the client has to see before it says anything more
            let hold = match e.kind {
                XK::Unsol => self.rpos < e.r.m.line_end,
                XK::Reject => self.rpos < e.r.m.head_end,
                XK::Upgrade => self.rpos < e.r.m.head_end,
                XK::Accepted => self.rpos < e.r.m.head_end && !self.pol.optimistic,
                _ => false,
            };
            if hold {
                lim = lim.min(e.q.m.end);
                break;
            }
        }
        if self.pol.wait100 {
            for e in &self.conv.ex {
                if e.r.interim > 0 && self.rpos < e.r.interim_heads.last().unwrap().1 {
                    lim = lim.min(e.q.m.head_end);
                    break;
                }
            }
        }
        lim.min(self.cut.0)
    }
    /// a planned loss that starts here
    fn gap_here(&self, d: Dir) -> Option<(usize, usize)> {
        let p = if d == Dir::Q { self.qpos } else { self.rpos };
        self.gaps.iter().find(|g| g.0 == d && g.1 <= p && p < g.2).map(|g| (p, g.2))
    }
    pub fn gap(&mut self, d: Dir, n: usize) -> St {
        self.enter();
        let a = if d == Dir::Q { self.qpos } else { self.rpos };
        trace(|| format!("t={}us conn{} {:?} lost [{}..{})", clock::mono() / 1000, self.conn, d, a, a + n));
        let over = match d {
            Dir::Q if a + n == self.conv.q.len() => self.over.0,
            Dir::R if a + n == self.conv.r.len() => self.over.1,
            _ => 0,
        };
        if over > 0 {
            stats::hit("fault.loss_past_message");
            trace(|| format!("    and {} bytes more", over));
        }
        let s = self.api.gap(d, n + over);
        let c = self.api.consumed(d);
        trace(|| format!("    -> {:?}, consumed {}", s, c));
        stats::hit(if d == Dir::Q { "fault.bytes_lost_q" } else { "fault.bytes_lost_r" });
        self.calls.push(Call { op: Op::Gap(d, a, a + n + over), st: Some(s), consumed: c });
        match d {
            Dir::Q => {
                self.qpos += n;
                self.qoff = self.qoff.max(self.qpos);
            }
            Dir::R => self.rpos += n,
        }
        s
    }
    /// Repeat a step of another run.
    pub fn exec(&mut self, op: &Op) {
        match op {
            Op::Seg(d, a, b) => {
                match d {
                    Dir::Q => self.qpos = *a,
                    Dir::R => self.rpos = *a,
                }
                self.feed(*d, b - a);
            }
            Op::Gap(d, a, b) => {
                match d {
                    Dir::Q => self.qpos = *a,
                    Dir::R => self.rpos = *a,
                }
                self.gap(*d, b - a);
            }
            Op::Close => self.close(),
            Op::ReqClose => self.req_close(),
            Op::Relocate => self.relocate(),
            Op::Destroy(i) => self.destroy(*i),
        }
    }
    pub fn destroy(&mut self, i: usize) {
        stats::hit("fault.destroy_tx");
        self.enter();
        trace(|| format!("conn{} application destroys transaction {}", self.conn, i));
        self.api.destroy_tx(i);
        self.calls.push(Call { op: Op::Destroy(i), st: None, consumed: 0 });
    }
    pub fn feed(&mut self, d: Dir, n: usize) -> St {
        self.enter();
        let (a, b) = match d {
            Dir::Q => (self.qpos, self.qpos + n),
            Dir::R => (self.rpos, self.rpos + n),
        };
        let seg = match d {
            Dir::Q => &self.conv.q[a..b],
            Dir::R => &self.conv.r[a..b],
        };
        trace(|| format!("t={}us conn{} {:?} deliver [{}..{}) {}", clock::mono() / 1000, self.conn, d, a, b, show(seg)));
        let s = self.api.data(d, seg);
        let c = self.api.consumed(d);
        trace(|| format!("    -> {:?}, consumed {}", s, c));
        self.count(d, a, b, s);
        self.calls.push(Call { op: Op::Seg(d, a, b), st: Some(s), consumed: c });
        let adv = if s == St::DataOther { c.min(n) } else { n };
        if adv > 0 {
            self.retries = 0;
        }
        match d {
            Dir::Q => {
                self.qpos += adv;
                self.qoff = self.qoff.max(b);
                self.qblocked = s == St::DataOther;
                self.qdefer = self.qblocked;
                if adv > 0 || !self.qblocked {
                    self.rblocked = false;
                }
                if !matches!(s, St::Data | St::DataOther) {
                    self.qdead.get_or_insert(s);
                }
            }
            Dir::R => {
                self.rpos += adv;
                self.rblocked = s == St::DataOther;
                self.qblocked = false;
                if !matches!(s, St::Data | St::DataOther) {
                    self.rdead.get_or_insert(s);
                }
            }
        }
        s
    }
    /// what the network and the application really did to the parser in this call
    fn count(&self, d: Dir, a: usize, b: usize, s: St) {
        let (whole, cut, empty) = match d {
            Dir::Q => (self.conv.q.len(), "fault.segment_cut_q", "fault.empty_chunk_q"),
            Dir::R => (self.conv.r.len(), "fault.segment_cut_r", "fault.empty_chunk_r"),
        };
        if a == b {
            stats::hit(empty);
        } else if b < whole && !self.conv.ex.iter().any(|e| b == if d == Dir::Q { e.q.m.end } else { e.r.m.end }) {
            stats::hit(cut);
        }
        if let Some(Op::Seg(o, ..)) = self.calls.last().map(|c| &c.op) {
            if *o != d {
                stats::hit("fault.direction_switch");
            }
        }
        match s {
            St::DataOther => stats::hit("fault.chunk_deferred"),
            St::Tunnel => stats::hit("probe.answered_tunnel"),
            St::Error => stats::hit("probe.answered_error"),
            St::Stop => stats::hit("probe.answered_stop"),
            _ => {}
        }
    }
    pub fn close(&mut self) {
        stats::hit(if self.done() { "probe.close_at_end" } else { "fault.close_midway" });
        self.enter();
        trace(|| format!("t={}us conn{} connection closed", clock::mono() / 1000, self.conn));
        self.api.close();
        self.calls.push(Call { op: Op::Close, st: None, consumed: 0 });
        self.qclosed = true;
    }
    pub fn req_close(&mut self) {
        stats::hit("fault.half_close");
        self.enter();
        trace(|| format!("t={}us conn{} client half-closes", clock::mono() / 1000, self.conn));
        self.api.request_close();
        self.calls.push(Call { op: Op::ReqClose, st: None, consumed: 0 });
        self.qclosed = true;
    }
    pub fn relocate(&mut self) {
        stats::hit("fault.relocate");
        self.enter();
        self.api.relocate();
        trace(|| format!("conn{} parser object moved in memory", self.conn));
        self.calls.push(Call { op: Op::Relocate, st: None, consumed: 0 });
    }
    pub fn pending(&self) -> (usize, usize) {
        let q = if self.qblocked { 0 } else { self.q_limit().saturating_sub(self.qpos) };
        let r = if self.rblocked { 0 } else { self.r_limit().saturating_sub(self.rpos) };
        (q, r)
    }
    pub fn done(&self) -> bool {
        self.qpos >= self.cut.0 && self.rpos >= self.cut.1
    }
    /// Deliver one segment chosen by the scheduler; false when nothing can be delivered.
    pub fn step(&mut self, s: &mut Src) -> bool {
        let (q, r) = self.pending();
        if q == 0 && r == 0 {
            if !self.done() && self.retries < 2 && (self.qblocked || self.rblocked) {
                // nothing else to offer: hand over the rest of the deferred chunk again
                self.retries += 1;
                self.qblocked = false;
                self.rblocked = false;
                return self.step(s);
            }
            if !self.done() {
                self.stuck.get_or_insert(format!(
                    "no progress possible: q {}/{} blocked {} r {}/{} blocked {}",
                    self.qpos, self.conv.q.len(), self.qblocked, self.rpos, self.conv.r.len(), self.rblocked
                ));
            }
            return false;
        }
        let d = if q > 0 && r > 0 {
            if self.pol.eager && self.qdefer {
                // what had to wait is offered again as soon as the other direction has moved
                Dir::Q
            } else if s.below(10) < self.pol.bias {
                Dir::Q
            } else {
                Dir::R
            }
        } else if q > 0 {
            Dir::Q
        } else {
            Dir::R
        };
        let n = match d {
            // the application hands over the whole rest of the chunk that had to wait
            Dir::Q if self.pol.eager && self.qdefer => self.qoff - self.qpos,
            Dir::Q => seg_len(s, self.pol.qmode, self.qpos, q, &self.conv.qmarks, self.conv.q.len()),
            Dir::R => seg_len(s, self.pol.rmode, self.rpos, r, &self.conv.rmarks, self.conv.r.len()),
        };
        let (at, cuts) = if d == Dir::Q { (self.qpos, &self.conv.qcut) } else { (self.rpos, &self.conv.rcut) };
        let n = cuts.iter().find(|c| **c > at).map_or(n, |c| n.min(c - at));
        if self.pol.relocate && s.chance(1, 4) {
            self.relocate();
        }
        clock::advance(1000 * (1 + s.below(50_000)));
        if let Some((a, b)) = self.gap_here(d) {
            let n = if s.chance(1, 4) { s.range(1, b - a) } else { b - a };
            self.gap(d, n);
            return true;
        }
        let here = if d == Dir::Q { self.qpos } else { self.rpos };
        let next = self.gaps.iter().filter(|g| g.0 == d && g.1 > here).map(|g| g.1 - here).min().unwrap_or(n);
        let n = n.min(next);
        self.feed(d, n);
        if d == Dir::Q && self.pol.half_close && self.qpos == self.cut.0 && !self.qclosed && !self.qblocked {
            self.req_close();
        }
        true
    }
    /// Deliver bytes whose meaning the conversation does not describe: exchange by exchange (they end at `ends`), a
    /// response only after its request, requests as deep in the pipeline as the policy allows.
    pub fn lockstep(&mut self, s: &mut Src, ends: &[(usize, usize)]) {
        for _ in 0..20_000 {
            let answered = ends.iter().take_while(|e| e.1 <= self.rpos).count();
            let asked = ends.iter().take_while(|e| e.0 <= self.qpos).count();
            let qn = ends[(answered + self.pol.depth - 1).min(ends.len() - 1)].0.saturating_sub(self.qpos);
            let rn = if asked == 0 { 0 } else { ends[asked - 1].1 - self.rpos };
            if qn == 0 && rn == 0 {
                break;
            }
            let q = qn > 0 && (rn == 0 || s.below(10) < self.pol.bias);
            clock::advance(1000 * (1 + s.below(50_000)));
            if q {
                let len = seg_len(s, self.pol.qmode, self.qpos, qn, &self.conv.qmarks, self.conv.q.len());
                self.feed(Dir::Q, len);
            } else {
                let len = seg_len(s, self.pol.rmode, self.rpos, rn, &self.conv.rmarks, self.conv.r.len());
                self.feed(Dir::R, len);
            }
        }
    }
    /// Run the whole conversation to the end.
    pub fn complete(&mut self, s: &mut Src) {
        let mut steps = 0;
        while self.step(s) {
            steps += 1;
            if self.qdead.is_some() && self.rdead.is_some() {
                break;
            }
            if steps > 200_000 {
                self.stuck = Some("step cap".into());
                break;
            }
        }
        if self.conv.closes || self.conv.open_end || self.pol.close {
            if self.pol.relocate && s.flip() {
                self.relocate();
            }
            self.close();
        }
    }
}
