//! Scenarios with injected faults.
use crate::drive::*;
use crate::oracle::{self, describe, same};
use crate::props::*;
use crate::rec::{self, CbFault, Ev, Verdict, K, P};
use crate::rng::Src;
use crate::stats;
use crate::wire::*;

type R = Result<(), String>;

fn show_events(evs: &[Ev]) {
    for e in evs {
        trace(|| format!("  call {} {}", e.call, describe(e)));
    }
}

/// C06: flow control, consumption and byte counters.
pub fn flow(s: &mut Src) -> R {
    if s.chance(1, 6) {
        // what was deferred may turn out to be the inside of a tunnel
        return tunnel(s);
    }
    let su = setup(s, 8, &|s, f, _, p| {
        f.connect = s.chance(2, 3);
        f.reject = s.chance(1, 4);
        f.big = false;
        p.optimistic = true;
        p.eager = s.flip();
        p.depth = *s.pick(&[1usize, 2, 3, 5, 100]);
    });
    let mut run = Run::new(RustApi::new(su.knobs.config(), true), &su.conv, 0, su.pol.clone());
    crate::clock::advance(1000 * s.below(1 << 24));
    let t0 = now_ts().unwrap();
    run.open();
    // opening it again changes nothing
    if s.chance(1, 4) {
        crate::clock::advance(5_000_000_000);
        run.api.pm().open(None, Some(1), None, Some(2), now_ts());
    }
    run.complete(s);
    let evs = rec::take();
    note(&run, &evs);
    show_events(&evs);
    oracle::healthy(&run)?;
    oracle::flow(&run)?;
    let c = &run.api.p().conn;
    let who = (c.client_addr.map(|a| a.to_string()), c.client_port, c.server_addr.map(|a| a.to_string()), c.server_port);
    if who != (Some("10.0.0.1".into()), Some(32768), Some("10.0.0.2".into()), Some(80)) {
        return Err(format!("addresses|the connection is between {:?}", who));
    }
    if c.open_timestamp != t0 {
        return Err(format!("open-time|opened at {:?}, not at {:?}", c.open_timestamp, t0));
    }
    if run.calls.iter().any(|c| c.op == Op::Close) && c.close_timestamp != now_ts().unwrap() {
        return Err(format!("close-time|closed at {:?}, not at {:?}", c.close_timestamp, now_ts()));
    }
    let ended = now_ts().unwrap();
    for (what, last, got) in [("request", run.api.last[0], run.api.p().request_timestamp), ("response", run.api.last[1], run.api.p().response_timestamp)] {
        if last.is_some_and(|t| got != t && got != ended) {
            return Err(format!("chunk-time|the last {what} chunk came at {:?}, the parser says {:?}", last, got));
        }
    }
    let n = run.api.tx_size();
    oracle::meta(&su.conv, &evs, 0, n, &|i| run.api.tx(i))?;
    oracle::bodies(&su.conv, &evs, 0)?;
    oracle::lifecycle(&su.conv, &evs, 0)
}

/// C10: tunnels.
pub fn tunnel(s: &mut Src) -> R {
    let mut feats = Feats::draw(s);
    feats.big = feats.big && s.chance(1, 3);
    feats.lzma = feats.lzma && !feats.big;
    feats.switch = s.chance(1, 3);
    let knobs = Knobs::draw(s);
    let mut pol = Policy::draw(s);
    pol.optimistic = s.flip();
    pol.half_close = false;
    let tun = *s.pick(&[Tun::Http, Tun::Opaque, Tun::Upgrade]);
    // what the server says in an opaque tunnel before the observer has seen the client speak is
    // taken for more of the CONNECT's response (by design)
    pol.eager = tun == Tun::Http && s.flip();
    let o = GenOpts { max_ex: 3, max_headers: 3, req_decomp: knobs.req_decomp, resp_decomp: knobs.resp_decomp, anom: "", lead: false };
    let conv = gen_tunnel(s, &feats, &o, tun);
    trace(|| format!("config {:?}", knobs));
    trace(|| format!("policy {:?} tunnel {:?}", pol, tun));
    trace(|| format!("client bytes {}", show(&conv.q)));
    trace(|| format!("server bytes {}", show(&conv.r)));
    let mut run = Run::new(RustApi::new(knobs.config(), true), &conv, 0, pol);
    run.open();
    run.complete(s);
    let evs = rec::take();
    note(&run, &evs);
    show_events(&evs);
    oracle::tunnel(&run, &evs, 0)?;
    oracle::flow(&run)?;
    let n = run.api.tx_size();
    if tun == Tun::Http {
        oracle::meta(&conv, &evs, 0, n, &|i| run.api.tx(i))?;
        oracle::bodies(&conv, &evs, 0)?;
        oracle::lifecycle(&conv, &evs, 0)?;
    } else {
        oracle::meta(&conv, &evs, 0, conv.ex.len(), &|i| run.api.tx(i))?;
        oracle::order(&evs, 0, Some(&conv))?;
    }
    stats::hit(match tun {
        Tun::Http => "probe.http-in-connect",
        Tun::Opaque => "probe.opaque-connect",
        Tun::Upgrade => "probe.upgrade",
    });
    if tun == Tun::Upgrade {
        if let Some(e) = evs.iter().rev().find(|e| e.kind == K::RespHeaders && e.tx + 1 == conv.ex.len()) {
            let s = e.snap.as_ref().unwrap();
            if s.h2 != conv.h2 {
                return Err(format!("h2|is_http_2_upgrade is {} want {}", s.h2, conv.h2));
            }
        }
    }
    Ok(())
}

/// C05: what a callback returns decides what happens next, and nothing else does.
pub fn verdicts(s: &mut Src) -> R {
    let mut su = setup(s, 6, &|s, f, _, p| {
        f.connect = s.chance(1, 4);
        f.reject = false;
        f.unsol = false;
        f.big = f.big && s.chance(1, 4);
        p.optimistic = s.flip();
    });
    // where one direction has to wait for the other, stopping one may hold up the other
    let mut linked = su.conv.ex.iter().any(|x| connect(x.kind));
    if s.chance(1, 6) {
        let tun = *s.pick(&[Tun::Http, Tun::Opaque, Tun::Upgrade]);
        let o = GenOpts { max_ex: 3, max_headers: 3, req_decomp: su.knobs.req_decomp, resp_decomp: su.knobs.resp_decomp, anom: "", lead: false };
        su.conv = gen_tunnel(s, &su.feats, &o, tun);
        su.pol.half_close = false;
        su.pol.eager = false;
        trace(|| format!("instead: client bytes {}", show(&su.conv.q)));
        trace(|| format!("instead: server bytes {}", show(&su.conv.r)));
        linked = true;
    }
    let mut a = Run::new(RustApi::new(su.knobs.config(), true), &su.conv, 0, su.pol.clone());
    a.open();
    a.complete(s);
    let ea = rec::take();
    note(&a, &ea);
    if !linked {
        oracle::healthy(&a)?;
    }
    // which callbacks misbehave
    let pickable: Vec<usize> = (0..ea.len())
        .filter(|i| {
            let e = &ea[*i];
            // these are reported, their verdict has no effect by design
            !matches!(e.kind, K::ReqStart | K::ReqHeaderData | K::ReqTrailerData | K::RespHeaderData | K::RespTrailerData)
        })
        .collect();
    let mode = s.usz(3);
    let nth = |i: usize| ea[..i].iter().filter(|e| e.kind == ea[i].kind).count();
    rec::reset();
    let mut hit: Option<usize> = None;
    let verdict;
    if mode == 0 {
        verdict = Verdict::Declined;
        for i in 0..ea.len() {
            if s.chance(1, 3) {
                let f = CbFault { conn: 0, kind: ea[i].kind, nth: nth(i), verdict };
                rec::with(|r| r.faults.push(f));
                stats::hit("fault.declined");
            }
        }
    } else {
        verdict = if mode == 1 { Verdict::Stop } else { Verdict::Error };
        let i = pickable[s.usz(pickable.len())];
        let f = CbFault { conn: 0, kind: ea[i].kind, nth: nth(i), verdict };
        trace(|| format!("fault: callback {} (event {}) answers {:?}", describe(&ea[i]), i, verdict));
        rec::with(|r| r.faults.push(f));
        hit = Some(i);
    }
    let mut b = Run::new(RustApi::new(su.knobs.config(), true), &su.conv, 0, su.pol.clone());
    b.open();
    for c in &a.calls {
        b.exec(&c.op);
    }
    let eb = rec::take();
    show_events(&eb);
    let hit = match hit {
        None => {
            // DECLINED: "not interested" changes nothing
            if ea.len() != eb.len() {
                return Err(format!("declined-count|{} callbacks, {} when some answer DECLINED", ea.len(), eb.len()));
            }
            for (x, y) in ea.iter().zip(&eb) {
                if !same(x, y) || x.call != y.call {
                    return Err(format!("declined-differs|{} became {} when callbacks answer DECLINED", describe(x), describe(y)));
                }
            }
            for (x, y) in a.calls.iter().zip(&b.calls) {
                if x.st != y.st || x.consumed != y.consumed {
                    return Err(format!("declined-status|{:?}: {:?} became {:?}", x.op, x.st, y.st));
                }
            }
            return Ok(());
        }
        Some(h) => h,
    };
    stats::hit(if verdict == Verdict::Stop { "fault.stop" } else { "fault.error" });
    // everything up to and including the faulty callback is as before
    for i in 0..=hit {
        match eb.get(i) {
            Some(y) if same(&ea[i], y) => {}
            y => {
                return Err(format!("prefix|event {}: {} became {}", i, describe(&ea[i]), y.map(describe).unwrap_or("nothing".into())))
            }
        }
    }
    let fe = &ea[hit];
    let (dir, closing) = match &a.calls[fe.call].op {
        Op::Seg(d, ..) => (*d, false),
        _ => (Dir::Q, true),
    };
    if closing {
        return Ok(());
    }
    // coded body data: the verdict reaches the stream through the decompressor, as an error
    let coded = match fe.kind {
        K::ReqBody => su.knobs.req_decomp && !su.conv.ex[fe.tx].q.codings.is_empty(),
        K::RespBody => su.knobs.resp_decomp && !su.conv.ex[fe.tx].r.codings.is_empty(),
        _ => false,
    };
    if fe.p == P::End {
        return Ok(());
    }
    if coded {
        let done = if fe.kind == K::ReqBody { K::ReqComplete } else { K::RespComplete };
        if let Some(y) = eb[hit + 1..].iter().find(|e| e.kind == fe.kind && e.tx == fe.tx && e.p != P::End) {
            return Err(format!("coded-after|{} in call {} after a callback answered {:?}", describe(y), y.call, verdict));
        }
        // what a decoder held back to the end of the message is handed over when that is already settled
        // (LZMA holds back all it can)
        let x = &su.conv.ex[fe.tx];
        let codings = if fe.kind == K::ReqBody { &x.q.codings } else { &x.r.codings };
        if codings.contains(&Coding::Lzma) || ea.iter().any(|e| e.call == fe.call && e.tx == fe.tx && e.kind == done) {
            return Ok(());
        }
        stats::hit("probe.coded_verdict");
    }
    let want = if verdict == Verdict::Stop && !coded { St::Stop } else { St::Error };
    let mut closed = false;
    for (i, c) in b.calls.iter().enumerate() {
        if matches!(c.op, Op::Close) || (matches!(c.op, Op::ReqClose) && dir == Dir::Q) {
            closed = true;
        }
        if i < fe.call {
            if c.st != a.calls[i].st {
                return Err(format!("status-before|call {}: {:?} became {:?} before the fault", i, a.calls[i].st, c.st));
            }
            continue;
        }
        if closed {
            continue;
        }
        if let Op::Seg(d, ..) = &c.op {
            if *d == dir && c.st != Some(want) {
                return Err(format!("status-after|call {} answered {:?} after a callback answered {:?}", i, c.st, verdict));
            }
            if *d != dir && c.st == Some(want) && !linked {
                return Err(format!("other-direction|call {} in the other direction answered {:?}", i, c.st));
            }
        }
    }
    for y in &eb[hit + 1..] {
        let d = match &b.calls[y.call].op {
            Op::Seg(d, ..) => *d,
            _ => continue,
        };
        if d == dir {
            return Err(format!("after-stop|{} in call {} after a callback answered {:?}", describe(y), y.call, verdict));
        }
    }
    if linked {
        stats::hit("probe.linked-directions");
        return Ok(());
    }
    // the other direction goes on as if nothing had happened, as far as it does not depend on this one
    let keep = |e: &&Ev| match dir {
        Dir::R => e.kind.is_req(),
        Dir::Q => e.kind.is_resp() && e.tx < fe.tx,
    };
    let strip = |e: &Ev| {
        let mut e = e.clone();
        if let Some(s) = e.snap.as_mut() {
            // the other side of the same transaction legitimately differs
            let mut k = rec::Snap::default();
            match dir {
                Dir::R => {
                    k.method = s.method.clone();
                    k.uri = s.uri.clone();
                    k.headers = s.headers.clone();
                    k.q_msg_len = s.q_msg_len;
                    k.q_ent_len = s.q_ent_len;
                    k.q_tc = s.q_tc.clone();
                    k.host = s.host.clone();
                }
                Dir::Q => {
                    k.r_status = s.r_status.clone();
                    k.r_headers = s.r_headers.clone();
                    k.r_msg_len = s.r_msg_len;
                    k.r_ent_len = s.r_ent_len;
                    k.r_tc = s.r_tc.clone();
                }
            }
            **s = k;
        }
        e
    };
    let close_at = a.calls.iter().position(|c| matches!(c.op, Op::Close | Op::ReqClose)).unwrap_or(usize::MAX);
    let xs: Vec<Ev> = ea.iter().filter(keep).filter(|e| e.call < close_at).map(strip).collect();
    let ys: Vec<Ev> = eb.iter().filter(keep).filter(|e| e.call < close_at).map(strip).collect();
    for i in 0..xs.len().max(ys.len()) {
        match (xs.get(i), ys.get(i)) {
            (Some(x), Some(y)) if same(x, y) => {}
            (x, y) => {
                return Err(format!(
                    "other-events|{} became {} in the direction that was not stopped",
                    x.map(describe).unwrap_or("nothing".into()), y.map(describe).unwrap_or("nothing".into())
                ))
            }
        }
    }
    Ok(())
}

fn quiet(f: &mut Feats) {
    f.connect = false;
    f.reject = false;
    f.unsol = false;
}

/// C11: the network loses bytes inside bodies.
pub fn gaps(s: &mut Src) -> R {
    if s.chance(1, 6) {
        return outside(s);
    }
    if s.chance(1, 8) {
        return giant(s);
    }
    let su = setup(s, 6, &|s, f, _, _| {
        quiet(f);
        f.chunked = f.chunked && s.chance(1, 3);
        f.big = f.big && s.chance(1, 4);
    });
    let mut cand: Vec<(Dir, usize, usize)> = vec![];
    for x in &su.conv.ex {
        if x.q.framing == Framing::Cl && x.q.m.body_end > x.q.m.head_end {
            cand.push((Dir::Q, x.q.m.head_end, x.q.m.body_end));
        }
        if matches!(x.r.framing, Framing::Cl | Framing::Close) && x.r.m.body_end > x.r.m.head_end {
            cand.push((Dir::R, x.r.m.head_end, x.r.m.body_end));
        }
    }
    let mut gaps: Vec<(Dir, usize, usize)> = vec![];
    if !cand.is_empty() {
        for _ in 0..s.range(1, 4) {
            let (d, a, b) = *s.pick(&cand);
            let (g, h) = match s.usz(5) {
                0 => (a, b),
                1 => (a, s.range(a + 1, b)),
                2 => (s.range(a, b - 1), b),
                _ => {
                    let g = s.range(a, b - 1);
                    (g, s.range(g + 1, b))
                }
            };
            if !gaps.iter().any(|x| x.0 == d && x.1 < h && g < x.2) {
                gaps.push((d, g, h));
            }
        }
    }
    trace(|| format!("planned losses {:?}", gaps));
    let mut run = Run::new(RustApi::new(su.knobs.config(), true), &su.conv, 0, su.pol.clone());
    run.gaps = gaps.clone();
    // a loss that takes the end of the last body may take what follows as well
    let (lq, lr) = (su.conv.q.len(), su.conv.r.len());
    let end = |d: Dir, n: usize| {
        gaps.iter().any(|g| g.0 == d && g.2 == n)
            && su.conv.ex.iter().any(|x| match d {
                Dir::Q => x.q.framing == Framing::Cl && x.q.m.body_end == n,
                Dir::R => x.r.framing == Framing::Cl && x.r.m.body_end == n,
            })
    };
    if end(Dir::Q, lq) && s.flip() {
        run.over.0 = s.range(1, 2000);
    }
    if end(Dir::R, lr) && s.flip() {
        run.over.1 = s.range(1, 2000);
    }
    run.open();
    run.complete(s);
    let evs = rec::take();
    note(&run, &evs);
    show_events(&evs);
    if let Some(s) = &run.stuck {
        return Err(format!("stuck|{}", s));
    }
    for c in &run.calls {
        match (&c.op, c.st) {
            (Op::Seg(d, a, b), Some(x)) if x != St::Data => return Err(format!("status|{:?} [{}..{}) answered {:?}", d, a, b, x)),
            (Op::Gap(d, a, b), Some(x)) => {
                let b = &(*b).min(if *d == Dir::Q { lq } else { lr });
                let ends = su.conv.ex.iter().any(|x| *b == if *d == Dir::Q { x.q.m.body_end } else { x.r.m.body_end });
                if x != St::Data && !(ends && x == St::Closed) {
                    return Err(format!("gap-status|{:?} [{}..{}) lost inside a body, answered {:?}", d, a, b, x));
                }
                if c.consumed != b - a {
                    return Err(format!("gap-consumed|{:?} [{}..{}) lost inside a body, {} bytes consumed", d, a, b, c.consumed));
                }
            }
            _ => {}
        }
    }
    let moved = |d: Dir| run.calls.iter().map(|c| match &c.op { Op::Seg(x, a, b) | Op::Gap(x, a, b) if *x == d => (b - a) as i64, _ => 0 }).sum::<i64>();
    let (want, got) = ((moved(Dir::Q), moved(Dir::R)), run.api.counters());
    if want != got {
        return Err(format!("gap-counters|the connection counts {}/{} bytes, {}/{} passed or were lost", got.0, got.1, want.0, want.1));
    }
    let n = run.api.tx_size();
    oracle::meta_ign(&su.conv, &evs, 0, n, &|i| run.api.tx(i), oracle::MISSING | oracle::REQ_MISSING | oracle::RESP_MISSING)?;
    oracle::lifecycle(&su.conv, &evs, 0)?;
    oracle::lost(&su.conv, &evs, 0, &gaps)
}

/// C11: bodies of any declared length, most of which is lost.
fn giant(s: &mut Src) -> R {
    let k = Knobs::draw(s);
    let mut api = RustApi::new(k.config(), true);
    rec::reset();
    trace(|| format!("config {:?}", k));
    api.open();
    let mut call = 0;
    let n = s.range(1, 3);
    // for each message its declared length and what was sent of it (None: lost)
    let mut want: Vec<[Vec<(u64, bool)>; 2]> = vec![];
    let (mut moved, mut fill) = ([0u64; 2], 0u8);
    for i in 0..n {
        let mut both = [vec![], vec![]];
        for d in [Dir::Q, Dir::R] {
            let len = match s.usz(4) {
                0 => s.range(1, 30) as u64,
                1 => *s.pick(&[65_535u64, 65_536, 1 << 20, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1]),
                2 => s.below(1 << 40) + 1,
                _ => *s.pick(&[1u64 << 40, 1 << 48, 1 << 60]),
            };
            let head = if d == Dir::Q { format!("POST /{} HTTP/1.1\r\nHost: h\r\nContent-Length: {}\r\n\r\n", i, len) } else { format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", len) };
            let mut put = |api: &mut RustApi, b: Result<&[u8], usize>, last: bool| {
                rec::with(|r| r.call = call);
                call += 1;
                let (st, l) = match b {
                    Ok(b) => (api.data(d, b), b.len()),
                    Err(n) => (api.gap(d, n), n),
                };
                trace(|| format!("{:?} {} -> {:?}", d, match b { Ok(b) => show(b), Err(n) => format!("{} bytes lost", n) }, st));
                moved[d as usize] += l as u64;
                if st != St::Data && !(last && st == St::Closed && b.is_err()) {
                    return Err(format!("status|{:?}: {:?}", d, st));
                }
                if api.consumed(d) != l {
                    return Err(format!("gap-consumed|{:?}: {} of {} bytes consumed", d, api.consumed(d), l));
                }
                Ok(())
            };
            put(&mut api, Ok(head.as_bytes()), false)?;
            let mut left = len;
            while left > 0 {
                let m = left.min(s.range(1, 20) as u64);
                if left <= 40 && s.flip() || s.chance(1, 3) {
                    fill = fill.wrapping_add(7);
                    let b = vec![b'a' + fill % 26; m as usize];
                    put(&mut api, Ok(&b), false)?;
                    left -= m;
                    both[d as usize].push((m, true));
                } else {
                    let m = match s.usz(3) {
                        0 => left,
                        1 => left - left.min(s.below(20)),
                        _ => s.below(left),
                    }
                    .max(1);
                    put(&mut api, Err(m as usize), m == left)?;
                    left -= m;
                    both[d as usize].push((m, false));
                }
            }
        }
        want.push(both);
    }
    api.close();
    stats::hit("probe.giant_body");
    let evs = rec::take();
    show_events(&evs);
    let got = api.counters();
    if (got.0 as u64, got.1 as u64) != (moved[0], moved[1]) {
        return Err(format!("gap-counters|the connection counts {}/{} bytes, {}/{} passed or were lost", got.0, got.1, moved[0], moved[1]));
    }
    for (i, both) in want.iter().enumerate() {
        let t = oracle::of(&evs, 0, i);
        for (d, kb, kc) in [(0, K::ReqBody, K::ReqComplete), (1, K::RespBody, K::RespComplete)] {
            let mut got: Vec<(u64, bool)> = vec![];
            let mut w: Vec<(u64, bool)> = vec![];
            let add = |v: &mut Vec<(u64, bool)>, n: u64, real: bool| match v.last_mut() {
                Some(x) if x.1 == real => x.0 += n,
                _ if n == 0 => {}
                _ => v.push((n, real)),
            };
            for e in t.iter().filter(|e| e.kind == kb) {
                match &e.p {
                    P::Bytes(b) => add(&mut got, b.len() as u64, true),
                    P::Gap(n) => add(&mut got, *n as u64, false),
                    _ => {}
                }
            }
            for (n, real) in &both[d] {
                add(&mut w, *n, *real);
            }
            if got != w {
                return Err(format!("gap-body|transaction {} direction {}: {:?} instead of {:?} (bytes, passed)", i, d, got, w));
            }
            let c = t.iter().filter(|e| e.kind == kc).count();
            if c != 1 {
                return Err(format!("gap-complete|transaction {} direction {}: complete {} times", i, d, c));
            }
        }
        let x = t.iter().find(|e| e.kind == K::TxComplete).and_then(|e| e.snap.as_ref()).ok_or(format!("gap-complete|transaction {} never completed", i))?;
        let sum = |d: usize| both[d].iter().map(|x| x.0).sum::<u64>();
        if x.q_msg_len != sum(0) || x.r_msg_len != sum(1) {
            return Err(format!("gap-length|transaction {}: {} and {} instead of {} and {}", i, x.q_msg_len, x.r_msg_len, sum(0), sum(1)));
        }
    }
    Ok(())
}

/// C11: losses outside bodies end the reading of that direction, and nothing is made up for them.
fn outside(s: &mut Src) -> R {
    let su = setup(s, 5, &|s, f, _, p| {
        quiet(f);
        f.big = false;
        f.chunked = f.chunked || s.flip();
        p.half_close = false;
    });
    let mut cand: Vec<(Dir, usize, usize)> = vec![];
    for x in &su.conv.ex {
        cand.push((Dir::Q, x.q.m.start + 1, x.q.m.head_end - 1));
        cand.push((Dir::R, x.r.m.start + 1, x.r.m.head_end - 1));
        if x.q.framing == Framing::Chunked {
            cand.push((Dir::Q, x.q.m.head_end, x.q.m.end - 1));
        }
        if x.r.framing == Framing::Chunked {
            cand.push((Dir::R, x.r.m.head_end, x.r.m.end - 1));
        }
    }
    let (d, a, b) = *s.pick(&cand);
    let p = s.range(a, b);
    let n = s.range(1, 3000);
    let mut run = Run::new(RustApi::new(su.knobs.config(), true), &su.conv, 0, su.pol.clone());
    match d {
        Dir::Q => run.cut.0 = p,
        Dir::R => run.cut.1 = p,
    }
    trace(|| format!("{:?}: {} bytes are lost at {}", d, n, p));
    run.open();
    while run.step(s) {}
    let (q, r) = (run.qpos, run.rpos);
    if p == if d == Dir::Q { q } else { r } {
        let at = run.calls.len();
        let st = run.gap(d, n);
        stats::hit("fault.loss_outside_body");
        if !matches!(st, St::Closed | St::Error) || run.calls[at].consumed != 0 {
            return Err(format!("loss-outside|{:?}: {} bytes lost at {}, outside any body, answered {:?}, {} consumed", d, n, p, st, run.calls[at].consumed));
        }
        if let Some(e) = rec::with(|r| r.evs.iter().find(|e| e.call == at && matches!(e.p, P::Gap(_))).map(describe)) {
            return Err(format!("loss-reported|{:?}: {} bytes lost at {}, outside any body, reported as {}", d, n, p, e));
        }
    }
    run.close();
    let evs = rec::take();
    note(&run, &evs);
    show_events(&evs);
    let left = run.api.tx_size();
    oracle::partial(&su.conv, &evs, 0, q, r, left, su.knobs.flush_incomplete)
}

/// C12: the connection breaks off at any point.
pub fn truncate(s: &mut Src) -> R {
    let su = setup(s, 6, &|s, f, _, p| {
        quiet(f);
        f.big = f.big && s.chance(1, 4);
        p.half_close = s.chance(1, 3);
    });
    let at = |s: &mut Src, n: usize, marks: &[usize]| match s.usz(4) {
        0 => n,
        1 if !marks.is_empty() => {
            let m = *s.pick(marks) as i64 + *s.pick(&[0i64, 1, -1, 2]);
            (m.max(0) as usize).min(n)
        }
        _ => s.range(0, n),
    };
    // one direction may have come to an end before that, because a callback said so
    let dead = s.chance(1, 5);
    let mut stopped = false;
    if dead {
        let kind = *s.pick(&[
            K::ReqLine, K::ReqHeaders, K::ReqBody, K::ReqTrailer, K::RespStart, K::RespLine, K::RespHeaders, K::RespBody, K::RespTrailer,
        ]);
        let verdict = if s.flip() { Verdict::Stop } else { Verdict::Error };
        stopped = verdict == Verdict::Stop;
        let f = CbFault { conn: 0, kind, nth: s.usz(4), verdict };
        trace(|| format!("fault: {:?} callback number {} answers {:?}", kind, f.nth, verdict));
        rec::with(|r| r.faults.push(f));
        stats::hit(if verdict == Verdict::Stop { "fault.stop" } else { "fault.error" });
    }
    let mut run = Run::new(RustApi::new(su.knobs.config(), true), &su.conv, 0, su.pol.clone());
    run.cut = (at(s, su.conv.q.len(), &su.conv.qmarks), at(s, su.conv.r.len(), &su.conv.rmarks));
    trace(|| format!("streams break off at {:?} of ({}, {})", run.cut, su.conv.q.len(), su.conv.r.len()));
    run.open();
    let n = s.range(0, 3);
    let steps = if n == 0 { s.range(0, 60) } else { 100_000 };
    let mut i = 0;
    while i < steps && run.step(s) {
        i += 1;
    }
    run.close();
    stats::hit(if run.qpos < su.conv.q.len() || run.rpos < su.conv.r.len() { "fault.early_close" } else { "probe.full" });
    let evs = rec::take();
    note(&run, &evs);
    show_events(&evs);
    // what is left afterwards
    let started: Vec<usize> = (0..su.conv.ex.len())
        .filter(|i| evs.iter().any(|e| e.tx == *i && matches!(e.kind, K::ReqStart | K::RespStart)))
        .collect();
    for i in &started {
        let n = evs.iter().filter(|e| e.tx == *i && e.kind == K::TxComplete).count();
        // (after STOP the close takes up reading where it was left: a callback may be asked again)
        if (n > 1 && !stopped) || (n == 0 && su.knobs.flush_incomplete) {
            return Err(format!("flush|tx{} had started, transaction_complete fired {} times (incomplete ones flushed: {})", i, n, su.knobs.flush_incomplete));
        }
        match (run.api.tx(*i).is_some(), su.knobs.auto_destroy) {
            (false, false) => return Err(format!("vanished|tx{} had started and is gone after the close", i)),
            (true, true) if su.knobs.flush_incomplete && !dead => return Err(format!("left|tx{} was flushed and is still there", i)),
            _ => {}
        }
    }
    if dead {
        return Ok(());
    }
    for c in &run.calls {
        if let (Op::Seg(d, a, b), Some(x)) = (&c.op, c.st) {
            if x != St::Data {
                return Err(format!("status|{:?} [{}..{}) of a well-formed conversation answered {:?}", d, a, b, x));
            }
        }
    }
    let n = run.api.tx_size();
    oracle::partial(&su.conv, &evs, 0, run.qpos, run.rpos, n, su.knobs.flush_incomplete)
}

/// C16: the parser object moves in memory between calls (a growing table of connections).
pub fn relocate(s: &mut Src) -> R {
    let mut su = setup(s, 6, &|s, f, k, p| {
        f.coding = true;
        f.req_coding = s.flip();
        k.resp_decomp = true;
        k.req_decomp = s.flip();
        f.unsol = s.chance(1, 4);
        f.big = false;
        p.relocate = true;
        p.close = true;
    });
    let tun = s.chance(1, 8);
    if tun {
        let t = *s.pick(&[Tun::Http, Tun::Opaque, Tun::Upgrade]);
        let o = GenOpts { max_ex: 3, max_headers: 3, req_decomp: su.knobs.req_decomp, resp_decomp: su.knobs.resp_decomp, anom: "", lead: false };
        su.conv = gen_tunnel(s, &su.feats, &o, t);
        su.pol.half_close = false;
        trace(|| format!("instead: client bytes {}", show(&su.conv.q)));
        trace(|| format!("instead: server bytes {}", show(&su.conv.r)));
    }
    let mut run = Run::new(RustApi::new(su.knobs.config(), true), &su.conv, 0, su.pol.clone());
    run.open();
    run.complete(s);
    let evs = rec::take();
    note(&run, &evs);
    show_events(&evs);
    if tun {
        oracle::tunnel(&run, &evs, 0)?;
    } else {
        oracle::healthy(&run)?;
        let n = run.api.tx_size();
        oracle::meta(&su.conv, &evs, 0, n, &|i| run.api.tx(i))?;
        oracle::bodies(&su.conv, &evs, 0)?;
        oracle::lifecycle(&su.conv, &evs, 0)?;
    }
    // and the same history as a parser that stayed where it was
    rec::reset();
    let mut b = Run::new(RustApi::new(su.knobs.config(), true), &su.conv, 0, su.pol.clone());
    b.open();
    let mut map = vec![];
    for (i, c) in run.calls.iter().enumerate() {
        if c.op != Op::Relocate {
            map.push(i);
            b.exec(&c.op);
        }
    }
    let eb = rec::take();
    if evs.len() != eb.len() {
        return Err(format!("relocation|{} callbacks, {} when the parser does not move", evs.len(), eb.len()));
    }
    for (x, y) in evs.iter().zip(&eb) {
        if !same(x, y) || x.call != map[y.call] {
            return Err(format!("relocation|{} became {} when the parser moves", describe(y), describe(x)));
        }
    }
    Ok(())
}

/// C23: what is wrong is flagged, where it is wrong, and the rest is read as ever.
pub fn odd(s: &mut Src) -> R {
    let mut feats = Feats::draw(s);
    feats.big = false;
    let knobs = Knobs::draw(s);
    let pol = Policy::draw(s);
    use htp::config::HtpUnwanted::{self, *};
    let unw: Vec<HtpUnwanted> = (0..5).map(|_| *s.pick(&[IGNORE, CODE_400, CODE_404])).collect();
    let mut cfg = knobs.config();
    cfg.set_requestline_leading_whitespace_unwanted(unw[0]);
    cfg.set_url_encoding_invalid_unwanted(unw[1]);
    cfg.decoder_cfg.nul_encoded_unwanted = unw[2];
    cfg.set_control_chars_unwanted(unw[3]);
    cfg.decoder_cfg.utf8_invalid_unwanted = unw[4];
    let o = GenOpts { max_ex: 4, max_headers: 3, req_decomp: knobs.req_decomp, resp_decomp: knobs.resp_decomp, anom: "", lead: unw[0] != IGNORE };
    let conv = gen_odd(s, &feats, &o);
    trace(|| format!("config {:?}", knobs));
    trace(|| format!("policy {:?}", pol));
    trace(|| format!("client bytes {}", show(&conv.q)));
    trace(|| format!("server bytes {}", show(&conv.r)));
    trace(|| format!("expected statuses for white space, escape, NUL, control, utf-8: {:?}", unw));
    let mut run = Run::new(RustApi::new(cfg, true), &conv, 0, pol);
    run.open();
    run.complete(s);
    let evs = rec::take();
    note(&run, &evs);
    oracle::healthy(&run)?;
    for x in &conv.ex {
        for a in [x.q.wrong.anom, x.r.wrong.anom] {
            if !a.is_empty() {
                stats::kind("fault.anomaly_", a);
            }
        }
    }
    for (i, x) in conv.ex.iter().enumerate() {
        let first = |l: &[HtpUnwanted]| l.iter().copied().find(|u| *u != IGNORE).unwrap_or(IGNORE);
        let want = match x.q.wrong.anom {
            "leadws" if i == 0 && !x.q.escaped => unw[0],
            "path-enc" => unw[1],
            "path-nul" => first(&[unw[3], unw[2]]),
            "path-utf8" => unw[4],
            a if a.starts_with("path-") || x.q.escaped => continue,
            _ => IGNORE,
        };
        for e in oracle::of(&evs, 0, i).iter().filter(|e| matches!(e.kind, K::ReqLine | K::TxComplete)) {
            let got = &e.snap.as_ref().unwrap().expected;
            if *got != format!("{:?}", want) {
                return Err(format!("expected-status|tx{}: a server is expected to answer {} instead of {:?} ({})", i, got, want, x.q.wrong.anom));
            }
        }
    }
    let n = run.api.tx_size();
    oracle::meta(&conv, &evs, 0, n, &|i| run.api.tx(i))?;
    oracle::bodies(&conv, &evs, 0)?;
    oracle::lifecycle(&conv, &evs, 0)?;
    oracle::raw(&conv, &evs, 0)
}
