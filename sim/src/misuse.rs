//! C32: calls that mean nothing (an empty chunk, a second opening, a look at what is not there, the removal of what does
//! not exist) are refused, and the history goes on as if they had not been made.
use crate::drive::*;
use crate::hostile;
use crate::oracle::{describe, same};
use crate::props::*;
use crate::rec::{self, CbFault, Verdict, KINDS};
use crate::rng::Src;
use crate::stats;
use crate::wire::*;

type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum M {
    Empty(Dir),
    EmptyGap(Dir),
    Open,
    Remove(usize),
    Look(usize),
    Active,
}

pub fn misuse(s: &mut Src) -> R {
    let wild = s.chance(1, 3);
    let mut feats = Feats::draw(s);
    feats.big = feats.big && s.chance(1, 4);
    let mut k = if wild { hostile::wild_knobs(s) } else { Knobs::draw(s) };
    k.log_level = Some(3);
    let pol = Policy::draw(s);
    let conv = if wild {
        hostile::streams(s, &feats, &k)
    } else {
        let o = GenOpts { max_ex: 5, max_headers: 4, req_decomp: k.req_decomp, resp_decomp: k.resp_decomp, anom: "", lead: s.chance(1, 4) };
        gen_conv(s, &feats, &o)
    };
    trace(|| format!("config {:?}", k));
    trace(|| format!("client bytes {}", show(&conv.q)));
    trace(|| format!("server bytes {}", show(&conv.r)));
    let mut faults = vec![];
    if s.chance(1, 6) {
        let f = CbFault { conn: 0, kind: *s.pick(&KINDS), nth: s.usz(3), verdict: *s.pick(&[Verdict::Error, Verdict::Stop]) };
        trace(|| format!("fault: {:?} #{} answers {:?}", f.kind, f.nth, f.verdict));
        stats::hit("fault.callback_verdict");
        faults.push(f);
    }
    let prep = || {
        rec::reset();
        rec::with(|r| r.faults = faults.clone());
    };
    prep();
    let mut a = Run::new(RustApi::new(k.config(), true), &conv, 0, pol.clone());
    a.ungated = wild;
    a.open();
    let lossy = wild && s.chance(1, 4);
    let mut steps = 0;
    loop {
        if lossy && s.chance(1, 8) {
            let d = if s.flip() { Dir::Q } else { Dir::R };
            let left = if d == Dir::Q { conv.q.len() - a.qpos } else { conv.r.len() - a.rpos };
            if left > 0 {
                let n = s.range(1, left);
                a.gap(d, n);
            }
        }
        if s.chance(1, 16) && a.api.tx_size() > 0 {
            let i = s.usz(a.api.tx_size());
            // (looking at a destroyed transaction the parser still is in would bring it back)
            let p = a.api.p();
            let active = i == p.request_index() || i == p.response_index();
            if !active && a.api.tx(i).is_some_and(|t| t.q_complete && t.r_complete) {
                a.destroy(i);
            }
        }
        steps += 1;
        if steps > 20_000 || !a.step(s) || (a.qdead.is_some() && a.rdead.is_some()) {
            break;
        }
    }
    if s.chance(4, 5) {
        a.close();
    }
    let ea = rec::take();
    note(&a, &ea);
    // the same history with calls in between that mean nothing
    prep();
    trace(|| "the same with meaningless calls in between:".to_string());
    let mut b = Run::new(RustApi::new(k.config(), true), &conv, 0, pol);
    b.open();
    let rate = s.range(2, 8) as u64;
    let mut map = vec![];
    let mut gone: Vec<usize> = vec![];
    // answers the two directions gave last that stay, and whether they are closed
    let mut stay: [Option<St>; 2] = [None, None];
    let mut maybe = [false; 2];
    let (mut shut, mut over) = ([false; 2], false);
    let mut refused = 0;
    let mut opened = 0;
    for i in 0..=a.calls.len() {
        while s.chance(1, rate) {
            let d = if s.flip() { Dir::Q } else { Dir::R };
            let m = match s.usz(6) {
                0 => M::Empty(d),
                1 => M::EmptyGap(d),
                2 => M::Open,
                3 => M::Remove(*s.pick(&[b.api.tx_size() + 7, 1 << 40, usize::MAX, gone.last().copied().unwrap_or(usize::MAX)])),
                4 => M::Look(*s.pick(&[b.api.tx_size() + 7, usize::MAX])),
                _ => M::Active,
            };
            match m {
                M::Empty(d) | M::EmptyGap(d) if !shut[d as usize] => {
                    let n = rec::with(|r| r.evs.len());
                    let at = b.calls.len();
                    let x = if m == M::Empty(d) { b.feed(d, 0) } else { b.gap(d, 0) };
                    debug_assert!(b.calls.len() == at + 1);
                    map.push(usize::MAX);
                    let want = stay[d as usize].filter(|x| *x != St::Tunnel).unwrap_or(St::Closed);
                    if x != want && !(maybe[d as usize] && x == St::Closed) {
                        return Err(format!("empty|an empty chunk in {:?} was answered {:?}, not {:?}", d, x, want));
                    }
                    if rec::with(|r| r.evs.len()) != n {
                        return Err(format!("empty|an empty chunk in {:?} caused callbacks", d));
                    }
                    refused += (x == St::Closed) as usize;
                    stats::hit("fault.meaningless_empty");
                }
                M::Open if !over => {
                    trace(|| "application opens the connection again".to_string());
                    b.api.pm().open(None, Some(1), None, Some(2), now_ts());
                    opened += 1;
                    stats::hit("fault.meaningless_open");
                }
                // (a close after STOP may take up a destroyed transaction again)
                M::Remove(i) if b.api.p().tx(i).is_none() => {
                    trace(|| format!("application removes transaction {} that is not there", i));
                    b.api.pm().remove_tx(i);
                    stats::hit("fault.meaningless_remove");
                }
                M::Look(i) => {
                    if b.api.p().tx(i).is_some() || b.api.pm().tx_mut(i).is_some() {
                        return Err(format!("look|there is a transaction {}", i));
                    }
                }
                M::Active => {
                    trace(|| "application looks at the active transactions".to_string());
                    let p = b.api.pm();
                    let (qi, ri) = (p.request_index(), p.response_index());
                    if p.request().is_some_and(|t| t.index != qi) || p.response().is_some_and(|t| t.index != ri) {
                        return Err("active|the active transaction is not the one".into());
                    }
                    stats::hit("fault.look_at_active");
                }
                _ => {}
            }
        }
        let Some(c) = a.calls.get(i) else { break };
        b.exec(&c.op);
        map.push(i);
        match &c.op {
            Op::Seg(d, ..) | Op::Gap(d, ..) => {
                if let Some(x) = c.st.filter(|x| matches!(x, St::Error | St::Stop | St::Tunnel)) {
                    // (a loss that cannot be taken up is refused without ending the direction)
                    maybe[*d as usize] |= matches!(c.op, Op::Gap(..));
                    stay[*d as usize] = Some(x);
                }
            }
            Op::Close => {
                shut = [true; 2];
                over = true;
            }
            Op::ReqClose => shut[0] = true,
            Op::Destroy(i) => gone.push(*i),
            _ => {}
        }
    }
    let eb = rec::take();
    for (x, (y, i)) in b.calls.iter().zip(&map).filter(|x| *x.1 != usize::MAX).map(|x| (&a.calls[*x.1], x)) {
        if x.st != y.st || x.consumed != y.consumed {
            return Err(format!("status|call {}: {:?}/{} became {:?}/{}", i, x.st, x.consumed, y.st, y.consumed));
        }
    }
    for (x, y) in ea.iter().zip(&eb) {
        if !same(x, y) || map.get(y.call) != Some(&x.call) {
            return Err(format!("event|{} became {}", describe(x), describe(y)));
        }
    }
    if ea.len() != eb.len() {
        return Err(format!("event|{} callbacks became {}", ea.len(), eb.len()));
    }
    if a.api.counters() != b.api.counters() {
        return Err(format!("counters|{:?} became {:?}", a.api.counters(), b.api.counters()));
    }
    let (p, q) = (a.api.p(), b.api.p());
    if p.conn.flags != q.conn.flags || p.conn.client_port != q.conn.client_port || p.conn.server_addr != q.conn.server_addr || p.conn.client_addr != q.conn.client_addr || p.conn.server_port != q.conn.server_port {
        return Err("connection|its flags or addresses changed".into());
    }
    for i in 0..a.api.tx_size().max(b.api.tx_size()) {
        let f = |r: &Run<RustApi>| r.api.p().tx(i).filter(|t| t.is_started()).map(rec::snap);
        if f(&a) != f(&b) {
            return Err(format!("transaction|{} changed", i));
        }
    }
    // what was refused is logged, each time, and nothing else is
    let mut la = a.api.logs();
    let mut lb = b.api.logs();
    for (code, n) in [("ZERO_LENGTH_DATA_CHUNKS", refused), ("CONNECTION_ALREADY_OPEN", opened)] {
        let c = |l: &Vec<(String, String)>| l.iter().filter(|l| l.0 == code).count();
        if c(&lb) - c(&la) != n {
            return Err(format!("log|{} logged {} times for {} calls", code, c(&lb) - c(&la), n));
        }
    }
    for l in [&mut la, &mut lb] {
        l.retain(|l| !matches!(l.0.as_str(), "ZERO_LENGTH_DATA_CHUNKS" | "CONNECTION_ALREADY_OPEN" | "PARSER_STATE_ERROR"));
    }
    if la != lb {
        return Err(format!("log|{} messages became {}", la.len(), lb.len()));
    }
    Ok(())
}
