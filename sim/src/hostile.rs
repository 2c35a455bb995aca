//! Adversarial traffic: byte streams that are mutated, spliced or plain noise, an application that
//! meets every fault, and the laws that hold for any history whatsoever.
use crate::drive::*;
use crate::oracle::describe;
use crate::props::*;
use crate::rec::{self, CbFault, Ev, Verdict, K, KINDS, P};
use crate::rng::{mix, Src};
use crate::stats;
use crate::wire::*;

type R = Result<(), String>;

pub const SOUP: &[&[u8]] = &[
    b"GET ", b"POST ", b"HEAD ", b"CONNECT ", b"PUT / HTTP/1.1\r\n", b"GET / HTTP/1.1\r\n", b"CONNECT a:1 HTTP/1.1\r\n\r\n", b"/",
    b"http://u:p@h:99999/p?q#f", b" HTTP/1.1\r\n", b" HTTP/1.0\r\n", b" HTTP/0.9\r\n", b" HTTP/9.9\r\n", b" HTTP/1.", b"\r\n", b"\n", b"\r", b"\r\r\n", b"\n\r", b"\r\n\r\n",
    b" ", b"\t", b":", b": ", b"\0", b"Host: a\r\n", b"Host: [::1]:x\r\n", b"Host:\r\n", b"Content-Length: 5\r\n", b"Content-Length: 0\r\n",
    b"Content-Length: -1\r\n", b"Content-Length: 99999999999999999999\r\n", b"Content-Length: 9223372036854775807\r\n", b"Content-Length: 18446744073709551615\r\n", b"Content-Length: 3, 4\r\n",
    b"Transfer-Encoding: chunked\r\n", b"Transfer-Encoding: xchunked\r\n", b"Transfer-Encoding: gzip, chunked\r\n", b"Content-Encoding: gzip\r\n", b"Content-Encoding: deflate\r\n",
    b"Content-Encoding: lzma\r\n", b"Content-Encoding: gzip, deflate, gzip, x\r\n", b"Content-Encoding: inflate\r\n", b"Content-Type: application/x-www-form-urlencoded\r\n", b"Content-Type: \r\n",
    b"Content-Type: multipart/form-data; boundary=x\r\n", b"Expect: 100-continue\r\n", b"Authorization: Basic ====\r\n", b"Authorization: Digest username=\"\r\n", b"Authorization: Bearer\r\n", b"Upgrade: h2c\r\n",
    b"Connection: upgrade\r\n", b"HTTP/1.1 200 OK\r\n", b"HTTP/1.1 100 Continue\r\n", b"HTTP/1.1 100 Continue\r\n\r\n", b"HTTP/1.1 101 Sw\r\n\r\n", b"HTTP/1.1 204\r\n\r\n", b"HTTP/1.1 304 x\r\n", b"HTTP/1.1 999999 x\r\n", b"HTTP/1.1 -2 x\r\n", b"HTTP/1.0 200\r\n",
    b"HTTP/", b"HTTP/1.1 407 a\r\n", b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc", b"0\r\n\r\n", b"0\r\n", b"5\r\nhello\r\n", b"ffffffff\r\n", b"7fffffffffffffff\r\n", b"-5\r\n", b"zz\r\n", b"5;x=y\r\n", b"a=b&c=%41%u00e9%zz+&=&", b"%u", b"%", b"%u12",
    b"\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\x03", b"\x78\x9c", b"]\0\0\x80\0\xff\xff\xff\xff\xff\xff\xff\xff", b"\xff\xfe", b"aaaaaaaaaaaaaaaa", b"@", b"\xc0\xaf", b"\\..\\..", b"/%2e%2e/%c0%af", b" folded\r\n", b"\tfolded: x\r\n", b"X\r\n", b": novalue\r\n", b"X y: z\r\n",
];

fn soup(s: &mut Src, max: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..s.range(0, max) {
        v.extend_from_slice(*s.pick(SOUP));
    }
    v
}

/// damage a byte stream in a few places
pub fn mutate(s: &mut Src, v: &mut Vec<u8>, marks: &[usize]) {
    for _ in 0..s.range(0, 5) {
        let n = v.len();
        let at = |s: &mut Src| {
            if n == 0 {
                0
            } else if !marks.is_empty() && s.chance(2, 3) {
                let m = *s.pick(marks) as i64 + *s.pick(&[0i64, 1, -1, 2]);
                (m.max(0) as usize).min(n)
            } else {
                s.range(0, n)
            }
        };
        let p = at(s).min(v.len());
        match s.usz(8) {
            0 => {
                if p < v.len() {
                    v[p] = *s.pick(&[b'\r', b'\n', b' ', b':', 0, b'\t', b'0', b'-', 0xff, b'%', b'/', b'a']);
                }
            }
            1 => {
                let t = *s.pick(SOUP);
                v.splice(p..p, t.iter().copied());
            }
            2 => {
                let e = (p + s.range(1, 12)).min(v.len());
                v.drain(p..e);
            }
            3 => {
                let e = at(s).min(v.len());
                let (a, b) = (p.min(e), p.max(e));
                let c: Vec<u8> = v[a..b].to_vec();
                v.splice(a..a, c);
            }
            4 => v.truncate(p),
            5 => {
                let e = at(s).min(v.len());
                let (a, b) = (p.min(e), p.max(e));
                v.drain(a..b);
            }
            6 => {
                if p < v.len() {
                    v[p] ^= 1 << s.usz(8);
                }
            }
            _ => {
                let c = *s.pick(&[b'a', b' ', b'\n', b'\r', 0u8, b':', b'\t', b'0']);
                let k = *s.pick(&[1usize, 2, 40, 400, 3000]);
                v.splice(p..p, std::iter::repeat(c).take(k));
            }
        }
        if v.len() > 60_000 {
            v.truncate(60_000);
        }
    }
}

/// Two byte streams with no promise whatsoever.
pub fn streams(s: &mut Src, feats: &Feats, k: &Knobs) -> Conv {
    let mode = s.weighted(&[6, 3, 1]);
    let mut c = match mode {
        0 => {
            let o = GenOpts { max_ex: 4, max_headers: 4, req_decomp: k.req_decomp, resp_decomp: k.resp_decomp, anom: "", lead: false };
            let mut c = if s.chance(1, 4) {
                let t = *s.pick(&[Tun::Http, Tun::Opaque, Tun::Upgrade]);
                gen_tunnel(s, feats, &o, t)
            } else {
                gen_conv(s, feats, &o)
            };
            let (qm, rm) = (std::mem::take(&mut c.qmarks), std::mem::take(&mut c.rmarks));
            mutate(s, &mut c.q, &qm);
            mutate(s, &mut c.r, &rm);
            c.qmarks = qm;
            c.rmarks = rm;
            c
        }
        1 => {
            let q = soup(s, 24);
            let r = soup(s, 24);
            Conv { q, r, ..Default::default() }
        }
        _ => {
            let (a, b) = (s.below(1 << 30), s.below(1 << 30));
            let (n, m) = (s.range(0, 300), s.range(0, 300));
            let noise = |z: u64, n: usize| (0..n as u64).map(|i| mix(z ^ i) as u8).collect::<Vec<u8>>();
            Conv { q: noise(a, n), r: noise(b, m), ..Default::default() }
        }
    };
    c.ex.clear();
    c.closes = false;
    c.open_end = false;
    for v in [&mut c.qmarks, &mut c.rmarks] {
        if v.is_empty() {
            v.push(1);
        }
    }
    let (ql, rl) = (c.q.len(), c.r.len());
    c.qmarks.extend(c.q.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0 + 1));
    c.rmarks.extend(c.r.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0 + 1));
    c.qmarks.retain(|x| *x <= ql);
    c.rmarks.retain(|x| *x <= rl);
    c.qmarks.sort();
    c.qmarks.dedup();
    c.rmarks.sort();
    c.rmarks.dedup();
    c
}

pub fn wild_knobs(s: &mut Src) -> Knobs {
    let mut k = Knobs::draw(s);
    if s.flip() {
        k.field_limit = *s.pick(&[18000usize, 1, 20, 100, 1000]);
        k.max_tx = *s.pick(&[512u32, 1, 2, 5]);
        k.time_limit = *s.pick(&[None, Some(100u32), Some(0), Some(5000)]);
        k.time_freq = *s.pick(&[None, Some(1u32), Some(7)]);
        k.bomb_limit = *s.pick(&[None, Some(100u64), Some(0), Some(5000)]);
        k.bomb_ratio = *s.pick(&[None, Some(1u64), Some(0), Some(50)]);
        k.layer_limit = *s.pick(&[None, Some(None), Some(Some(0u32)), Some(Some(1)), Some(Some(3))]);
        k.lzma_layers = *s.pick(&[None, Some(None), Some(Some(0u32)), Some(Some(2))]);
        k.lzma_mem = *s.pick(&[None, Some(0usize), Some(4096), Some(1 << 20)]);
        k.log_level = *s.pick(&[None, Some(0u8), Some(1), Some(6)]);
    }
    k
}

/// C18: whatever arrives, however it arrives.
pub fn hostile(s: &mut Src) -> R {
    let mut feats = Feats::draw(s);
    feats.big = feats.big && s.chance(1, 4);
    let k = wild_knobs(s);
    let x = crate::capi::Extra::draw(s);
    let mut cfg = k.config();
    x.rust(&mut cfg);
    let pol = Policy::draw(s);
    let conv = streams(s, &feats, &k);
    trace(|| format!("config {:?} {:?}", k, x));
    trace(|| format!("policy {:?}", pol));
    trace(|| format!("client bytes {}", show(&conv.q)));
    trace(|| format!("server bytes {}", show(&conv.r)));
    if s.chance(1, 4) {
        crate::clock::set_costs(vec![*s.pick(&[1_000u64, 1_000_000, 100_000_000])]);
        stats::hit("fault.slow_clock");
    }
    let nfaults = if s.chance(1, 3) { s.range(1, 3) } else { 0 };
    for _ in 0..nfaults {
        let kind = *s.pick(&KINDS);
        let nth = s.usz(4);
        let verdict = *s.pick(&[Verdict::Declined, Verdict::Error, Verdict::Stop]);
        trace(|| format!("fault: {:?} #{} answers {:?}", kind, nth, verdict));
        rec::with(|r| r.faults.push(CbFault { conn: 0, kind, nth, verdict }));
        stats::hit("fault.callback_verdict");
    }
    let lossy = s.chance(1, 4);
    let destroy = s.chance(1, 5);
    let empty = s.chance(1, 8);
    let mut run = Run::new(RustApi::new(cfg, true), &conv, 0, pol);
    run.ungated = true;
    if !s.chance(1, 20) {
        run.open();
    }
    let mut steps = 0;
    loop {
        steps += 1;
        if steps > 20_000 {
            return Err("stuck|the streams were not consumed within 20000 calls".into());
        }
        if lossy && s.chance(1, 8) {
            let d = if s.flip() { Dir::Q } else { Dir::R };
            let left = match d {
                Dir::Q => conv.q.len() - run.qpos,
                Dir::R => conv.r.len() - run.rpos,
            };
            if left > 0 {
                let n = s.range(1, left);
                run.gap(d, n);
            }
        }
        if destroy && s.chance(1, 6) {
            let n = run.api.tx_size();
            if n > 0 {
                // the application lets go of transactions it has seen completed
                let i = s.usz(n);
                if run.api.tx(i).is_some_and(|t| t.q_complete && t.r_complete) {
                    run.destroy(i);
                }
            }
        }
        if empty && s.chance(1, 8) {
            let d = if s.flip() { Dir::Q } else { Dir::R };
            run.feed(d, 0);
        }
        if s.chance(1, 300) {
            run.req_close();
        }
        if !run.step(s) {
            break;
        }
        if s.chance(1, 400) {
            break;
        }
    }
    // the application takes what it can get
    for d in [Dir::Q, Dir::R] {
        let left = match d {
            Dir::Q => conv.q.len() - run.qpos,
            Dir::R => conv.r.len() - run.rpos,
        };
        if left > 0 && s.flip() {
            run.feed(d, left);
        }
    }
    run.close();
    if s.chance(1, 10) {
        // stragglers after the close
        for _ in 0..s.range(1, 3) {
            let d = if s.flip() { Dir::Q } else { Dir::R };
            let n = match d {
                Dir::Q => conv.q.len(),
                Dir::R => conv.r.len(),
            };
            if n > 0 {
                match d {
                    Dir::Q => run.qpos = 0,
                    Dir::R => run.rpos = 0,
                }
                run.feed(d, n);
                stats::hit("fault.late_data");
            }
        }
        run.close();
    }
    let evs = rec::take();
    note(&run, &evs);
    show_events(&evs);
    laws(&run, &evs, &k)?;
    let n = run.api.tx_size();
    for i in 0..n {
        let _ = run.api.tx(i);
    }
    Ok(())
}

pub fn show_events(evs: &[Ev]) {
    for e in evs {
        trace(|| format!("  call {} {}", e.call, describe(e)));
    }
}

/// What holds for every history.
pub fn laws<A: Api>(run: &Run<A>, evs: &[Ev], k: &Knobs) -> R {
    let mut dead: [Option<St>; 2] = [None, None];
    let mut fed = [0usize; 2];
    for (i, c) in run.calls.iter().enumerate() {
        let (d, a, b) = match &c.op {
            Op::Seg(d, a, b) | Op::Gap(d, a, b) => (*d, *a, *b),
            Op::Close => {
                dead = [None, None];
                continue;
            }
            Op::ReqClose => {
                dead[0] = None;
                continue;
            }
            _ => continue,
        };
        fed[d as usize] += b - a;
        let s = c.st.unwrap();
        if c.consumed > b - a {
            return Err(format!("consumed|call {}: {} of {} bytes consumed", i, c.consumed, b - a));
        }
        if matches!(s, St::New | St::Open) {
            return Err(format!("status|call {} answered {:?}", i, s));
        }
        if s == St::Data && c.consumed != b - a {
            return Err(format!("data-consumed|call {}: DATA but {} of {} bytes consumed", i, c.consumed, b - a));
        }
        if s == St::DataOther && c.consumed >= b - a {
            return Err(format!("other-consumed|call {}: DATA_OTHER but {} of {} bytes consumed", i, c.consumed, b - a));
        }
        let x = &mut dead[d as usize];
        if let Some(p) = x {
            if s != *p && !(*p == St::Tunnel && s == St::Closed && a == b) {
                return Err(format!("sticky|call {}: {:?} answered {:?} after {:?}", i, d, s, p));
            }
            if let Some(e) = evs.iter().find(|e| e.call == i) {
                return Err(format!("dead-event|call {}: {} after the {:?} direction answered {:?}", i, describe(e), d, p));
            }
        }
        if matches!((s, &c.op), (St::Error | St::Stop | St::Tunnel, Op::Seg(..))) {
            *x = Some(s);
        }
    }
    // conservation: nothing is reported that was not received
    let sum = |k: K| -> usize {
        evs.iter()
            .filter(|e| e.kind == k)
            .map(|e| match &e.p {
                P::Bytes(b) => b.len(),
                P::Gap(n) => *n,
                _ => 0,
            })
            .sum()
    };
    let (q, r) = (sum(K::ReqBody), sum(K::RespBody));
    if !k.req_decomp && q > fed[0] {
        return Err(format!("invented|{} bytes of request body reported, {} bytes received", q, fed[0]));
    }
    if !k.resp_decomp && r > fed[1] {
        return Err(format!("invented|{} bytes of response body reported, {} bytes received", r, fed[1]));
    }
    let (q, r) = (sum(K::ReqHeaderData) + sum(K::ReqTrailerData), sum(K::RespHeaderData) + sum(K::RespTrailerData));
    if q > fed[0] || r > fed[1] {
        return Err(format!("invented|{}/{} bytes of raw headers reported, {}/{} bytes received", q, r, fed[0], fed[1]));
    }
    // data behind the close may start a transaction again in the middle
    let closed = run.calls.iter().position(|c| matches!(c.op, Op::Close | Op::ReqClose)).unwrap_or(usize::MAX);
    for e in evs.iter().filter(|e| e.call <= closed) {
        use htp::transaction::{HtpRequestProgress as Q, HtpResponseProgress as S};
        let (q, r) = e.prog;
        let fits = match e.kind {
            K::ReqStart | K::ReqUriNorm | K::ReqLine => q == Q::LINE,
            K::ReqHeaderData => matches!(q, Q::HEADERS | Q::TRAILER),
            K::ReqHeaders => q == Q::HEADERS,
            K::ReqTrailerData | K::ReqTrailer => q == Q::TRAILER,
            K::ReqComplete => q == Q::COMPLETE,
            K::RespStart => matches!(r, S::LINE | S::BODY),
            K::RespLine => r == S::LINE,
            K::RespHeaderData | K::RespHeaders => matches!(r, S::HEADERS | S::BODY),
            K::RespTrailerData => r == S::TRAILER,
            K::RespTrailer => matches!(r, S::HEADERS | S::TRAILER),
            K::RespComplete => r == S::COMPLETE,
            _ => true,
        };
        if !fits {
            return Err(format!("progress|{:?} of transaction {} at progress {:?}/{:?}", e.kind, e.tx, q, r));
        }
    }
    let mut last = (-1i64, -1i64);
    let mut stopped = usize::MAX;
    let stops = rec::with(|r| r.faults.iter().any(|f| f.verdict == Verdict::Stop));
    for (i, c) in run.calls.iter().enumerate() {
        // closing a connection that the application has stopped resumes in mid-transaction
        // (a callback made by closing may have been what stopped it)
        if c.st == Some(St::Stop) || stops && matches!(c.op, Op::Close | Op::ReqClose) {
            stopped = stopped.min(i);
        }
    }
    for e in evs.iter().filter(|e| e.call < stopped) {
        let l = match e.kind {
            K::ReqStart => &mut last.0,
            K::RespStart => &mut last.1,
            _ => continue,
        };
        if e.tx as i64 <= *l {
            return Err(format!("start-order|{:?} of transaction {} after that of {}", e.kind, e.tx, l));
        }
        *l = e.tx as i64;
    }
    let got = run.api.counters();
    if got != (fed[0] as i64, fed[1] as i64) && !run.calls.iter().any(|c| matches!(c.op, Op::Close | Op::ReqClose | Op::Gap(..)) || matches!(c.st, Some(St::Error | St::Stop | St::Closed))) {
        return Err(format!("counters|the connection counts {}/{} bytes, {}/{} were handed over", got.0, got.1, fed[0], fed[1]));
    }
    Ok(())
}
