//! C24: several consumers on one connection.  Every registered callback hears every event, in the
//! order of registration, until one of them objects; callbacks a transaction carries hear that
//! transaction only; what the application attaches to a transaction or connection stays attached.
use crate::capi::Extra;
use crate::drive::*;
use crate::hostile;
use crate::multi::{advance, fresh, traffic};
use crate::props::*;
use crate::rec::{Verdict, K, KINDS, P};
use crate::rng::Src;
use crate::stats;
use htp::config::Config;
use htp::connection_parser::{ConnectionParser, ParserData};
use htp::transaction::{Data, Transaction};
use htp::HtpStatus;
use std::cell::RefCell;

type R = Result<(), String>;
const T: usize = 8; // slots >= T: callbacks carried by a transaction

#[derive(Clone, Debug)]
struct E {
    slot: usize,
    kind: usize,
    tx: usize,
    p: P,
    v: Verdict,
    /// a transaction callback registered just before this entry, (kind, slot)
    reg: Vec<(usize, usize)>,
}
#[derive(Clone, Copy)]
struct Fault {
    slot: usize,
    kind: usize,
    nth: usize,
    v: Verdict,
}
#[derive(Clone, Copy)]
struct Reg {
    /// during which callback of which transaction
    at: usize,
    tx: usize,
    kind: usize,
    slot: usize,
    ext: bool,
    done: bool,
}
#[derive(Default)]
struct H {
    log: Vec<E>,
    faults: Vec<Fault>,
    regs: Vec<Reg>,
    seen: [[usize; 18]; 10],
    per_tx: Vec<usize>,
    bad: Option<String>,
    /// the connection is being closed after a consumer stopped it: the parser takes up its work where
    /// the consumer had it stop, with a fresh transaction where the old one is gone
    over: bool,
    connp: usize,
}
thread_local! {
    static HK: RefCell<H> = RefCell::new(H::default());
}
struct Mine {
    tx: usize,
    n: usize,
}
const QB: usize = K::ReqBody as usize;
const RB: usize = K::RespBody as usize;

fn hear(slot: usize, kind: usize, tx: &mut Transaction, p: P) -> Verdict {
    HK.with(|h| {
        let mut h = h.borrow_mut();
        let h = &mut *h;
        // user data
        let ix = tx.index;
        if h.per_tx.len() <= ix {
            h.per_tx.resize(ix + 1, 0);
        }
        let before = h.per_tx[ix];
        h.per_tx[ix] += 1;
        match tx.user_data_mut::<Mine>() {
            None => {
                if before > 0 && !h.over {
                    h.bad.get_or_insert(format!("user-data-lost|transaction {}: the user data is gone in a {:?} callback", ix, KINDS[kind]));
                }
                let m = Mine { tx: ix, n: before + 1 };
                tx.set_user_data(Box::new(m));
            }
            Some(m) => {
                if m.tx != ix || m.n != before {
                    let t = format!("user-data-mixed|transaction {} carries the user data of transaction {} with count {} instead of {}", ix, m.tx, m.n, before);
                    h.bad.get_or_insert(t);
                }
                m.n = before + 1;
            }
        }
        let n = h.seen[slot][kind];
        h.seen[slot][kind] += 1;
        let v = h.faults.iter().find(|f| f.slot == slot && f.kind == kind && f.nth == n).map(|f| f.v).unwrap_or(Verdict::Ok);
        let mut reg = vec![];
        for g in h.regs.iter_mut().filter(|g| !g.done && g.at == kind && g.tx == ix) {
            g.done = true;
            // the same function may be registered for several transactions, never twice for one here
            match (g.kind == QB, g.slot - T, g.ext) {
                (true, 0, false) => tx.register_request_body_data(n_data::<8, QB>),
                (true, 0, true) => tx.hook_request_body_data.register_extern(e_data::<8, QB>),
                (true, _, false) => tx.register_request_body_data(n_data::<9, QB>),
                (true, _, true) => tx.hook_request_body_data.register_extern(e_data::<9, QB>),
                (false, 0, false) => tx.hook_response_body_data.register(n_data::<8, RB>),
                (false, 0, true) => unsafe { htp::c_api::transaction::htp_tx_register_response_body_data(tx, e_data::<8, RB>) },
                (false, _, false) => tx.hook_response_body_data.register(n_data::<9, RB>),
                (false, _, true) => unsafe { htp::c_api::transaction::htp_tx_register_response_body_data(tx, e_data::<9, RB>) },
            }
            reg.push((g.kind, g.slot));
        }
        if h.log.len() > 200_000 {
            panic!("event storm");
        }
        h.log.push(E { slot, kind, tx: tx.index, p, v, reg });
        v
    })
}
fn ptr(c: *const ConnectionParser) {
    HK.with(|h| {
        let mut h = h.borrow_mut();
        if c as usize != h.connp {
            h.bad.get_or_insert("connp|a callback was handed another connection parser".into());
        }
    })
}
fn res(v: Verdict) -> Result<(), HtpStatus> {
    match v {
        Verdict::Ok => Ok(()),
        Verdict::Declined => Err(HtpStatus::DECLINED),
        Verdict::Error => Err(HtpStatus::ERROR),
        Verdict::Stop => Err(HtpStatus::STOP),
    }
}
fn st(v: Verdict) -> HtpStatus {
    res(v).err().unwrap_or(HtpStatus::OK)
}
fn n_tx<const S: usize, const Q: usize>(tx: &mut Transaction) -> Result<(), HtpStatus> {
    res(hear(S, Q, tx, P::No))
}
unsafe extern "C" fn e_tx<const S: usize, const Q: usize>(c: *const ConnectionParser, tx: *mut Transaction) -> HtpStatus {
    ptr(c);
    st(hear(S, Q, &mut *tx, P::No))
}
fn n_data<const S: usize, const Q: usize>(tx: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> {
    res(hear(S, Q, tx, crate::rec::payload(d)))
}
unsafe extern "C" fn e_data<const S: usize, const Q: usize>(c: *const ConnectionParser, d: *mut Data) -> HtpStatus {
    ptr(c);
    let tx = htp::c_api::transaction::htp_tx_data_tx(d) as *mut Transaction;
    st(hear(S, Q, &mut *tx, crate::rec::payload_c(d)))
}
fn install<const S: usize>(c: &mut Config, mask: u32, ext: u32) {
    macro_rules! one {
        ($k:ident, $f:ident, $hook:ident, $n:ident, $e:ident) => {
            if mask & (1 << (K::$k as u32)) != 0 {
                if ext & (1 << (K::$k as u32)) != 0 {
                    c.$hook.register_extern($e::<S, { K::$k as usize }>);
                } else {
                    c.$f($n::<S, { K::$k as usize }>);
                }
            }
        };
    }
    one!(ReqStart, register_request_start, hook_request_start, n_tx, e_tx);
    if mask & (1 << (K::ReqUriNorm as u32)) != 0 {
        c.hook_request_uri_normalize.register(n_tx::<S, { K::ReqUriNorm as usize }>);
    }
    one!(ReqLine, register_request_line, hook_request_line, n_tx, e_tx);
    one!(ReqHeaderData, register_request_header_data, hook_request_header_data, n_data, e_data);
    one!(ReqHeaders, register_request_headers, hook_request_headers, n_tx, e_tx);
    one!(ReqBody, register_request_body_data, hook_request_body_data, n_data, e_data);
    one!(ReqTrailerData, register_request_trailer_data, hook_request_trailer_data, n_data, e_data);
    one!(ReqTrailer, register_request_trailer, hook_request_trailer, n_tx, e_tx);
    one!(ReqComplete, register_request_complete, hook_request_complete, n_tx, e_tx);
    one!(RespStart, register_response_start, hook_response_start, n_tx, e_tx);
    one!(RespLine, register_response_line, hook_response_line, n_tx, e_tx);
    one!(RespHeaderData, register_response_header_data, hook_response_header_data, n_data, e_data);
    one!(RespHeaders, register_response_headers, hook_response_headers, n_tx, e_tx);
    one!(RespBody, register_response_body_data, hook_response_body_data, n_data, e_data);
    one!(RespTrailerData, register_response_trailer_data, hook_response_trailer_data, n_data, e_data);
    one!(RespTrailer, register_response_trailer, hook_response_trailer, n_tx, e_tx);
    one!(RespComplete, register_response_complete, hook_response_complete, n_tx, e_tx);
    one!(TxComplete, register_transaction_complete, hook_transaction_complete, n_tx, e_tx);
}

pub fn several(s: &mut Src) -> R {
    let k = if s.flip() { hostile::wild_knobs(s) } else { Knobs::draw(s) };
    let x = Extra::draw(s);
    let mut cfg: Config = k.config();
    x.rust(&mut cfg);
    let n = if s.chance(1, 8) { s.range(4, T) } else { s.range(1, 3) };
    let all = (1u32 << 18) - 1;
    let mut masks = vec![];
    for l in 0..n {
        let mask = match s.usz(4) {
            0 => s.below(1 << 18) as u32,
            _ => all,
        };
        let ext = match s.usz(3) {
            0 => 0,
            1 => all,
            _ => s.below(1 << 18) as u32,
        };
        masks.push(mask);
        match l {
            0 => install::<0>(&mut cfg, mask, ext),
            1 => install::<1>(&mut cfg, mask, ext),
            2 => install::<2>(&mut cfg, mask, ext),
            3 => install::<3>(&mut cfg, mask, ext),
            4 => install::<4>(&mut cfg, mask, ext),
            5 => install::<5>(&mut cfg, mask, ext),
            6 => install::<6>(&mut cfg, mask, ext),
            _ => install::<7>(&mut cfg, mask, ext),
        }
    }
    trace(|| format!("{} consumers, masks {:x?}, config {:?} {:?}", n, masks, k, x));
    let t = traffic(s, &k);
    trace(|| format!("client bytes {}", show(&t.conv.q)));
    trace(|| format!("server bytes {}", show(&t.conv.r)));
    let mut h = H::default();
    while h.faults.len() < 2 && s.chance(1, 3) {
        let f = Fault { slot: *s.pick(&[0, 1, 2, T, T + 1, n - 1]), kind: s.usz(18), nth: s.usz(3), v: *s.pick(&[Verdict::Declined, Verdict::Error, Verdict::Stop]) };
        trace(|| format!("fault: consumer {} {:?} #{} answers {:?}", f.slot, KINDS[f.kind], f.nth, f.v));
        h.faults.push(f);
    }
    while h.regs.len() < 4 && s.flip() {
        let g = Reg { at: s.usz(18), tx: s.usz(3), kind: if s.flip() { QB } else { RB }, slot: T + s.usz(2), ext: s.flip(), done: false };
        if h.regs.iter().any(|o| o.tx == g.tx && o.kind == g.kind && o.slot == g.slot) {
            break;
        }
        trace(|| format!("transaction {} gets a {:?} callback of its own (slot {}) at its {:?}", g.tx, KINDS[g.kind], g.slot, KINDS[g.at]));
        h.regs.push(g);
    }
    HK.with(|x| *x.borrow_mut() = h);
    let mut run = fresh(&cfg, &t, 0);
    let mine = s.below(1000);
    run.api.pm().set_user_data(Box::new(mine));
    loop {
        let at = run.api.p() as *const _ as usize;
        HK.with(|h| h.borrow_mut().connp = at);
        if run.pol.half_close {
            HK.with(|h| {
                let mut h = h.borrow_mut();
                h.over = h.log.iter().any(|e| e.v == Verdict::Stop || e.v == Verdict::Error);
            });
        }
        if !advance(s, &mut run, &t) {
            break;
        }
        if run.api.p().user_data::<u64>() != Some(&mine) {
            return Err("connection-user-data|the connection lost its user data".into());
        }
    }
    HK.with(|h| {
        let mut h = h.borrow_mut();
        h.over = h.log.iter().any(|e| e.v == Verdict::Stop || e.v == Verdict::Error);
    });
    run.close();
    if run.api.p().user_data::<u64>() != Some(&mine) {
        return Err("connection-user-data|the connection lost its user data".into());
    }
    note(&run, &[]);
    let h = HK.with(|h| std::mem::take(&mut *h.borrow_mut()));
    for e in &h.log {
        trace(|| format!("  consumer {} {:?} tx{} {:?} -> {:?}{}", e.slot, KINDS[e.kind], e.tx, e.p, e.v, if e.reg.is_empty() { String::new() } else { format!(" registers {:?}", e.reg) }));
        if e.v != Verdict::Ok {
            stats::hit("fault.callback_verdict");
        }
        if e.slot >= T {
            stats::hit("probe.transaction_callback");
        }
        stats::hist(((e.kind as u64) << 50) ^ ((e.tx as u64) << 30) ^ e.slot as u64);
    }
    if let Some(b) = h.bad {
        return Err(b);
    }
    // replay the history against the registration order
    let mut own: Vec<(usize, usize, usize)> = vec![];
    let mut i = 0;
    while i < h.log.len() {
        let e = &h.log[i];
        let mut want: Vec<usize> = own.iter().filter(|o| o.0 == e.tx && o.1 == e.kind).map(|o| o.2).collect();
        want.extend((0..n).filter(|l| masks[*l] & (1 << e.kind) != 0));
        for (j, w) in want.iter().enumerate() {
            let Some(g) = h.log.get(i) else {
                return Err(format!("unheard|{:?} of transaction {}: consumer {} heard nothing", KINDS[e.kind], e.tx, w));
            };
            if g.kind != e.kind || g.tx != e.tx || g.p != e.p || g.slot != *w {
                let what = if j == 0 { "order" } else { "unheard" };
                return Err(format!("{}|{:?} of transaction {}: consumer {} was to hear of it, next heard was consumer {} {:?} of transaction {}", what, KINDS[e.kind], e.tx, w, g.slot, KINDS[g.kind], g.tx));
            }
            for (kind, slot) in &g.reg {
                own.push((g.tx, *kind, *slot));
            }
            i += 1;
            if g.v == Verdict::Error || g.v == Verdict::Stop {
                break;
            }
        }
    }
    Ok(())
}
