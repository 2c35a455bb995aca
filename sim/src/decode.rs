//! Scenarios about decoding: how many layers are removed, how much output is produced, how long it
//! may take, and what damage does.
use crate::alloc;
use crate::clock;
use crate::drive::*;
use crate::oracle::{self, describe};
use crate::props::*;
use crate::rec::{self, Ev, K, P};
use crate::rng::{mix, Src};
use crate::stats;
use crate::wire::*;

type R = Result<(), String>;

/// One coded message and what it is made of.
pub struct Coded {
    pub layers: Vec<Coding>,
    /// stages[0] is the plain text, stages[k] has k codings applied
    pub stages: Vec<Vec<u8>>,
    pub head: Vec<u8>,
    /// position of the body in the stream of its direction
    pub at: usize,
}
impl Coded {
    pub fn plain(&self) -> &[u8] {
        &self.stages[0]
    }
    pub fn coded(&self) -> &[u8] {
        self.stages.last().unwrap()
    }
}

pub fn ce(cs: &[Coding], s: &mut Src) -> Vec<u8> {
    let mut v = vec![];
    for (i, c) in cs.iter().enumerate() {
        if i > 0 {
            v.extend_from_slice(if s.flip() { b", " } else { b"," });
        }
        v.extend_from_slice(match c {
            Coding::Gzip => b"gzip",
            Coding::Lzma => b"lzma",
            _ => b"deflate",
        });
    }
    v
}

/// A conversation of `n` exchanges whose messages in direction `d` carry coded bodies.
/// Messages are length-delimited, or, the last response, delimited by close.
pub fn coded_conv(s: &mut Src, d: Dir, msgs: Vec<(Vec<u8>, Vec<Coding>)>) -> (Conv, Vec<Coded>, bool) {
    let mut c = Conv { qmarks: vec![1], rmarks: vec![1], ..Default::default() };
    let mut out = vec![];
    let n = msgs.len();
    let by_close = d == Dir::R && s.chance(1, 4);
    for (i, (plain, layers)) in msgs.into_iter().enumerate() {
        let mut stages = vec![plain];
        for l in &layers {
            let x = encode(s, *l, stages.last().unwrap());
            stages.push(x);
        }
        let body = stages.last().unwrap().clone();
        let mut h = vec![];
        h.extend_from_slice(if d == Dir::Q { b"POST /u HTTP/1.1\r\nHost: a\r\n" } else { b"HTTP/1.1 200 OK\r\n" });
        if !layers.is_empty() {
            h.extend_from_slice(b"Content-Encoding: ");
            h.extend(ce(&layers, s));
            h.extend_from_slice(b"\r\n");
        }
        if !(by_close && i + 1 == n) {
            h.extend_from_slice(format!("Content-Length: {}\r\n", body.len()).as_bytes());
        }
        h.extend_from_slice(b"\r\n");
        let (q, r) = (&mut c.q, &mut c.r);
        let at;
        if d == Dir::Q {
            at = q.len() + h.len();
            q.extend_from_slice(&h);
            q.extend_from_slice(&body);
            r.extend_from_slice(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok");
            c.qmarks.push(at);
            c.qmarks.push(q.len());
        } else {
            q.extend_from_slice(b"GET /u HTTP/1.1\r\nHost: a\r\n\r\n");
            at = r.len() + h.len();
            r.extend_from_slice(&h);
            r.extend_from_slice(&body);
            c.rmarks.push(at);
            c.rmarks.push(r.len());
        }
        out.push(Coded { layers, stages, head: h, at });
    }
    (c, out, by_close)
}

/// Cut points of the direction under test; the other direction travels message by message.
pub fn schedule(s: &mut Src, c: &Conv, d: Dir, msgs: &[Coded]) -> Vec<Op> {
    let mode = s.usz(7);
    let mut ops = vec![];
    let other = if d == Dir::Q { Dir::R } else { Dir::Q };
    let step = if d == Dir::Q { c.r.len() } else { c.q.len() } / msgs.len();
    let (total, marks) = if d == Dir::Q { (c.q.len(), &c.qmarks) } else { (c.r.len(), &c.rmarks) };
    let mut p = 0;
    for (i, m) in msgs.iter().enumerate() {
        let o = Op::Seg(other, i * step, (i + 1) * step);
        if d == Dir::R {
            ops.push(o.clone());
        }
        let end = m.at + m.coded().len();
        while p < end {
            let n = seg_len(s, mode, p, end - p, marks, total);
            ops.push(Op::Seg(d, p, p + n));
            p += n;
        }
        if d == Dir::Q {
            ops.push(o);
        }
    }
    ops
}

pub struct Played {
    pub logs: Vec<(String, String)>,
    pub evs: Vec<Ev>,
    pub sts: Vec<St>,
}
/// Run a fixed schedule; `jumps` are wall-clock steps before each call.
fn play(k: &Knobs, c: &Conv, ops: &[Op], close: bool, cost: u64, jumps: &[i64]) -> Played {
    rec::reset();
    rec::with(|r| {
        r.body_cost = cost;
        r.snaps = false;
    });
    let mut run = Run::new(RustApi::new(k.config(), true), c, 0, Policy { qmode: 0, rmode: 0, depth: 1, bias: 5, wait100: false, early: false, relocate: false, half_close: false, close, optimistic: false, eager: false });
    run.open();
    for (i, o) in ops.iter().enumerate() {
        clock::advance(1_000_000);
        if let Some(j) = jumps.get(i) {
            if *j != 0 {
                trace(|| format!("wall clock jumps by {} s", j / 1_000_000_000));
                clock::jump_real(*j);
            }
        }
        run.exec(o);
    }
    if close {
        run.close();
    }
    let evs = rec::take();
    note(&run, &evs);
    for e in &evs {
        if matches!(e.kind, K::ReqBody | K::RespBody) {
            trace(|| format!("  call {} {}", e.call, describe(e)));
        }
    }
    let logs = run.api.logs();
    Played { logs, sts: run.calls.iter().map(|c| c.st.unwrap_or(St::Data)).collect(), evs }
}

pub fn text(s: &mut Src, n: usize, kind: usize) -> Vec<u8> {
    let seed = s.below(1 << 20);
    (0..n as u64)
        .map(|i| match kind {
            0 => b'a' + (mix(seed ^ (i / 40)) % 20) as u8,
            1 => mix(seed ^ i) as u8,
            _ => 0,
        })
        .collect()
}
fn body_of(evs: &[Ev], k: K, tx: usize) -> Vec<u8> {
    let mut v = vec![];
    for e in evs.iter().filter(|e| e.kind == k && e.tx == tx) {
        if let P::Bytes(b) = &e.p {
            v.extend_from_slice(b);
        }
    }
    v
}

/// C09
pub fn bounds(s: &mut Src) -> R {
    match s.weighted(&[3, 4, 4, 1, 3]) {
        0 => layers(s),
        1 => bomb(s),
        2 => slow(s),
        3 => bomb_memory(s),
        _ => lzma_memory(s),
    }
}
fn knobs(s: &mut Src) -> Knobs {
    let mut k = Knobs::draw(s);
    k.req_decomp = true;
    k.resp_decomp = true;
    k.auto_destroy = false;
    k.parse_urlenc = false;
    k.bomb_limit = Some(1 << 40);
    k.time_limit = Some(u32::MAX);
    k.log_level = Some(3);
    k
}
fn body_kind(d: Dir) -> K {
    if d == Dir::Q {
        K::ReqBody
    } else {
        K::RespBody
    }
}

fn layers(s: &mut Src) -> R {
    let mut k = knobs(s);
    let d = if s.flip() { Dir::Q } else { Dir::R };
    let limit = *s.pick(&[None, Some(None), Some(Some(1u32)), Some(Some(2)), Some(Some(3)), Some(Some(0))]);
    k.layer_limit = limit;
    let lim = limit.unwrap_or(Some(2)).map(|x| x as usize).unwrap_or(usize::MAX);
    let lzl = *s.pick(&[None, Some(None), Some(Some(0u32)), Some(Some(2))]);
    k.lzma_layers = lzl;
    let lzlim = lzl.unwrap_or(Some(1)).map(|x| x as usize).unwrap_or(usize::MAX);
    k.lzma_mem = if s.chance(1, 4) { Some(0) } else { None };
    let n = s.range(1, 3);
    let mut msgs = vec![];
    for _ in 0..n {
        let depth = s.range(1, 5);
        let all_lzma = s.chance(1, 4);
        let plain = { let n = s.range(1, if all_lzma { 60 } else { 600 }); let kd = s.usz(3); text(s, n, kd) };
        let ls: Vec<Coding> =
            (0..if all_lzma { depth.min(3) } else { depth }).map(|_| if all_lzma { Coding::Lzma } else { *s.pick(&[Coding::Gzip, Coding::DeflateRaw, Coding::DeflateZlib]) }).collect();
        msgs.push((plain, ls));
    }
    let (c, msgs, by_close) = coded_conv(s, d, msgs);
    let ops = schedule(s, &c, d, &msgs);
    trace(|| format!("config {:?} {:?}", k, d));
    for m in &msgs {
        trace(|| format!("message of {} bytes coded {:?}", m.plain().len(), m.layers));
    }
    let p = play(&k, &c, &ops, by_close || s.flip(), 0, &[]);
    stats::hit("fault.stacked_codings");
    if let Some(i) = p.sts.iter().position(|x| *x != St::Data) {
        return Err(format!("layer-status|call {} answered {:?}", i, p.sts[i]));
    }
    let (mut many, mut many_lzma) = (0, 0);
    for (i, m) in msgs.iter().enumerate() {
        let got = body_of(&p.evs, body_kind(d), i);
        let depth = m.layers.len();
        let lz = m.layers.contains(&Coding::Lzma);
        // a single coding is always removed
        let mut allowed = if depth == 1 { 1 } else { depth.min(lim) };
        if lz && depth > 1 {
            allowed = allowed.min(lzlim);
        }
        if lz && k.lzma_mem == Some(0) {
            allowed = 0;
        }
        if depth <= allowed {
            if got != m.plain() {
                return Err(format!("layers-within|message {} with {} codings, limit {:?}: {} bytes reported, plain text has {}", i, depth, limit, got.len(), m.plain().len()));
            }
        } else {
            let removed = (0..=depth).find(|j| m.stages[depth - j] == got);
            match removed {
                Some(j) if j == allowed => {}
                Some(j) => return Err(format!("layers-over|message {}: {} of {} codings removed, limit {}", i, j, depth, allowed)),
                None => return Err(format!("layers-garbled|message {} with {} codings, limit {}: what was reported ({} bytes) is the body at no stage of decoding", i, depth, allowed, got.len())),
            }
            stats::hit("probe.over_layer_limit");
        }
        for j in 1..=depth {
            if depth > 1 && j > lim {
                many += 1;
                break;
            }
            if depth > 1 && lz && j > lzlim {
                many_lzma += 1;
                break;
            }
        }
    }
    let count = |c: &str| p.logs.iter().filter(|l| l.0.ends_with(c)).count();
    let got = (count("TOO_MANY_ENCODING_LAYERS"), count("TOO_MANY_LZMA_LAYERS"), count("COMPRESSION_BOMB"));
    if got != (many, many_lzma, 0) {
        return Err(format!("layers-log|logged {} times too many codings and {} times too much LZMA ({} bombs), instead of {} and {}", got.0, got.1, got.2, many, many_lzma));
    }
    Ok(())
}

/// LZMA output within the memory limit is delivered, beyond it it is not, and the other messages are unaffected.
fn lzma_memory(s: &mut Src) -> R {
    let mut k = knobs(s);
    let d = if s.flip() { Dir::Q } else { Dir::R };
    let limit = *s.pick(&[500usize, 64, 100, 4096, 8192]);
    k.lzma_mem = Some(limit);
    k.lzma_layers = Some(None);
    let n = s.range(1, 3);
    let mut msgs = vec![];
    for _ in 0..n {
        let len = match s.usz(3) {
            0 => limit + s.usz(3) - 1,
            1 => s.range(1, limit),
            _ => s.range(1, 8000),
        };
        let kd = s.usz(3);
        msgs.push((text(s, len.min(8192), kd), vec![Coding::Lzma]));
    }
    let (c, msgs, by_close) = coded_conv(s, d, msgs);
    let ops = schedule(s, &c, d, &msgs);
    trace(|| format!("config {:?} {:?}", k, d));
    for m in &msgs {
        trace(|| format!("message of {} bytes coded into {}", m.plain().len(), m.coded().len()));
    }
    let p = play(&k, &c, &ops, by_close || s.flip(), 0, &[]);
    stats::hit("fault.lzma_memory_limit");
    if let Some(i) = p.sts.iter().position(|x| *x != St::Data) {
        return Err(format!("lzma-status|call {} answered {:?}", i, p.sts[i]));
    }
    for (i, m) in msgs.iter().enumerate() {
        let got = body_of(&p.evs, body_kind(d), i);
        if m.plain().len() <= limit {
            if got != m.plain() {
                return Err(format!("lzma-within|message {}: {} of {} bytes reported, memory limit {}", i, got.len(), m.plain().len(), limit));
            }
        } else {
            stats::hit("probe.over_lzma_memory");
            if got == m.plain() {
                return Err(format!("lzma-over|message {} of {} bytes was decoded with a memory limit of {}", i, got.len(), limit));
            }
        }
    }
    Ok(())
}

fn two(s: &mut Src, big: usize, kinds: &[usize]) -> Vec<(Vec<u8>, Vec<Coding>)> {
    let n = s.range(1, 3);
    (0..n)
        .map(|_| {
            let len = s.range(1, big);
            let kd = *s.pick(kinds);
            let t = text(s, len, kd);
            let depth = s.range(1, 2);
            let ls = (0..depth).map(|_| *s.pick(&[Coding::Gzip, Coding::DeflateRaw, Coding::DeflateZlib])).collect();
            (t, ls)
        })
        .collect()
}

/// Output is stopped as soon as it exceeds both the limit and the ratio, and not before.
fn bomb(s: &mut Src) -> R {
    let mut k = knobs(s);
    let d = if s.flip() { Dir::Q } else { Dir::R };
    let limit = *s.pick(&[3_000u64, 0, 100, 30_000, 200_000]);
    let ratio = *s.pick(&[1u64, 0, 3, 20, 500, u64::MAX]);
    k.bomb_limit = Some(limit);
    k.bomb_ratio = Some(ratio);
    let big = *s.pick(&[3000usize, 200, 40_000, 300_000]);
    let m = two(s, big, &[0, 1, 2, 2]);
    let (c, msgs, by_close) = coded_conv(s, d, m);
    let ops = schedule(s, &c, d, &msgs);
    trace(|| format!("config {:?} {:?}", k, d));
    for m in &msgs {
        trace(|| format!("message of {} bytes coded {:?} into {}", m.plain().len(), m.layers, m.coded().len()));
    }
    let p = play(&k, &c, &ops, by_close || s.flip(), 0, &[]);
    stats::hit("fault.bomb_limit");
    let bombs = p.logs.iter().any(|l| l.0 == "COMPRESSION_BOMB");
    let kind = body_kind(d);
    for (i, m) in msgs.iter().enumerate() {
        let (mut out, mut tripped) = (0u64, None);
        let mut got = vec![];
        for e in p.evs.iter().filter(|e| e.kind == kind && e.tx == i) {
            let P::Bytes(b) = &e.p else { continue };
            if let Some((call, o, inp)) = tripped {
                return Err(format!("bomb-over|message {}: in call {} {} bytes came out of {} and more followed", i, call, o, inp));
            }
            out += b.len() as u64;
            got.extend_from_slice(b);
            let upto = match ops.get(e.call) {
                Some(Op::Seg(x, _, b)) if *x == d => *b,
                _ => m.at + m.coded().len(),
            };
            let inp = upto.min(m.at + m.coded().len()).saturating_sub(m.at) as u64;
            let over = inp.checked_mul(ratio).map(|x| out > x).unwrap_or(true);
            if out > limit && over {
                tripped = Some((e.call, out, inp));
                stats::hit("probe.bomb");
            }
        }
        if !m.plain().starts_with(&got) {
            return Err(format!("bomb-body|message {}: what was reported is not a prefix of the plain text", i));
        }
        let err = p.sts.iter().position(|x| *x != St::Data);
        match (tripped, err) {
            (Some((call, _, _)), Some(e)) if e == call && p.sts[e] == St::Error => {
                if !bombs {
                    return Err(format!("bomb-log|message {} was stopped without a log entry", i));
                }
                return Ok(());
            }
            (Some((call, o, inp)), _) => return Err(format!("bomb-status|message {}: {} bytes came out of {} in call {}, answered {:?}", i, o, inp, call, p.sts.get(call))),
            (None, Some(e)) => {
                let last = i + 1 == msgs.len() || matches!(ops[e], Op::Seg(x, a, _) if x == d && a < m.at + m.coded().len());
                if last {
                    return Err(format!("bomb-early|message {}: call {} answered {:?} with {} bytes out", i, e, p.sts[e], out));
                }
            }
            _ => {}
        }
        if got != m.plain() {
            return Err(format!("bomb-short|message {}: {} of {} bytes reported, no limit reached", i, got.len(), m.plain().len()));
        }
    }
    if bombs {
        return Err("bomb-log|a bomb was logged, no limit was reached".into());
    }
    Ok(())
}

/// However much comes out of one chunk, it is not held in memory.
fn bomb_memory(s: &mut Src) -> R {
    let k = knobs(s);
    let d = if s.flip() { Dir::Q } else { Dir::R };
    let n = s.range(200_000, 900_000);
    let plain = vec![0u8; n];
    let ls = vec![*s.pick(&[Coding::Gzip, Coding::DeflateRaw])];
    let (c, msgs, _) = coded_conv(s, d, vec![(plain, ls)]);
    let coded = msgs[0].coded().len();
    rec::with(|r| r.lean = true);
    let mut run = Run::new(RustApi::new(k.config(), true), &c, 0, Policy::draw(s));
    run.ungated = true;
    run.open();
    if d == Dir::R {
        let n = c.q.len();
        run.feed(Dir::Q, n);
    }
    run.feed(d, msgs[0].head.len());
    let base = alloc::peak_reset();
    let st = run.feed(d, coded);
    let peak = alloc::peak() - base;
    stats::hit("fault.bomb_memory");
    stats::nontrivial();
    stats::hist(n as u64);
    let got = rec::with(|r| r.bytes[body_kind(d) as usize]);
    if st != St::Data || got != n as u64 {
        return Err(format!("bomb-short|{} of {} bytes reported, {:?}", got, n, st));
    }
    if peak > 160_000 + 3 * coded as i64 {
        return Err(format!("bomb-memory|{} bytes of memory for decoding {} bytes into {}", peak, coded, n));
    }
    Ok(())
}

/// Decoding that has taken longer than the limit is given up: what follows is passed on as it is.
fn slow(s: &mut Src) -> R {
    let mut k = knobs(s);
    let d = if s.flip() { Dir::Q } else { Dir::R };
    let limit = *s.pick(&[1_000u32, 0, 10, 100_000]);
    let freq = *s.pick(&[256u32, 1, 3]);
    k.time_freq = Some(freq);
    let cost_us = *s.pick(&[300u64, 0, 1, 7, 40_000]);
    let big = *s.pick(&[300usize, 40_000, 4000]);
    let m = two(s, big, &[0, 1, 2]);
    let (c, msgs, by_close) = coded_conv(s, d, m);
    let ops = schedule(s, &c, d, &msgs);
    let close = by_close || s.flip();
    let jumps: Vec<i64> = if s.flip() {
        (0..ops.len().min(30)).map(|_| *s.pick(&[0i64, 0, 3_600_000_000_000, -7_200_000_000_000, 86_400_000_000_000])).collect()
    } else {
        vec![]
    };
    if jumps.iter().any(|j| *j != 0) {
        stats::hit("fault.clock_jump");
    }
    trace(|| format!("config {:?} {:?}; each block of output takes {} us, limit {} us", k, d, cost_us, limit));
    for m in &msgs {
        trace(|| format!("message of {} bytes coded {:?} into {}", m.plain().len(), m.layers, m.coded().len()));
    }
    let a = play(&k, &c, &ops, close, cost_us * 1000, &[]);
    k.time_limit = Some(limit);
    trace(|| "with the limit:".to_string());
    let b = play(&k, &c, &ops, close, cost_us * 1000, &jumps);
    stats::hit("fault.slow_decoding");
    for p in [&a, &b] {
        if let Some(i) = p.sts.iter().position(|x| *x != St::Data) {
            return Err(format!("slow-status|call {} answered {:?}", i, p.sts[i]));
        }
    }
    let kind = body_kind(d);
    let mut stuck = None;
    let mut any = false;
    for (i, m) in msgs.iter().enumerate() {
        let mut spent = 0u64;
        let mut given_up = false;
        for (ci, o) in ops.iter().enumerate() {
            let Op::Seg(x, from, to) = o else { continue };
            let (f, t) = ((*from).max(m.at), (*to).min(m.at + m.coded().len()));
            if *x != d || f >= t {
                continue;
            }
            let raw = if d == Dir::Q { &c.q[f..t] } else { &c.r[f..t] };
            let pieces = |p: &Played| -> Vec<Vec<u8>> {
                p.evs
                    .iter()
                    .filter(|e| e.kind == kind && e.tx == i && e.call == ci)
                    .filter_map(|e| match &e.p {
                        P::Bytes(b) => Some(b.clone()),
                        _ => None,
                    })
                    .collect()
            };
            let (pa, pb) = (pieces(&a), pieces(&b));
            let flat = pb.concat();
            if given_up {
                if flat != raw {
                    return Err(format!("slow-raw|message {} call {}: decoding had taken {} us of {}, but {} bytes were reported for {} bytes of coded body", i, ci, spent, limit, flat.len(), raw.len()));
                }
                continue;
            }
            let before = spent;
            spent += cost_us * pa.len() as u64;
            if spent > limit as u64 {
                given_up = true;
                any = true;
                stats::hit("probe.gave_up");
                // blocks that had come out when the limit was passed
                let due = ((limit as u64 - before) / cost_us + 1) as usize;
                if pb.len() < due || pb[..due] != pa[..due] {
                    return Err(format!("slow-early|message {} call {}: output differs before the limit of {} us is reached", i, ci, limit));
                }
                if pb.len() > due + freq as usize && pb[due + freq as usize].len() == pa[due + freq as usize].len() {
                    stuck = Some(format!("time-in-chunk|message {} call {}: {} us allowed, {} us spent decoding one chunk", i, ci, limit, spent));
                }
            } else if flat != pa.concat() {
                return Err(format!("slow-decoded|message {} call {}: decoding had taken {} us of {}, output differs", i, ci, spent, limit));
            }
        }
        if !given_up && body_of(&b.evs, kind, i) != m.plain() {
            return Err(format!("slow-decoded|message {}: body differs although only {} us of {} were spent", i, spent, limit));
        }
    }
    if b.logs.iter().any(|l| l.0 == "COMPRESSION_BOMB") != any {
        return Err(format!("slow-log|decoding was given up: {}, the log says otherwise", any));
    }
    match stuck {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

/// C21: a content-coded body that was damaged on its way.
pub fn damage(s: &mut Src) -> R {
    let mut su = setup(s, 5, &|s, f, k, _| {
        f.coding = true;
        f.req_coding = true;
        f.big = f.big && s.chance(1, 4);
        f.lzma = f.lzma && !f.big;
        f.lf = false;
        f.lookalike = false;
        k.req_decomp = true;
        k.resp_decomp = true;
    });
    let mut cand = vec![];
    for (i, x) in su.conv.ex.iter().enumerate() {
        if !x.q.codings.is_empty() && !x.q.m.chunks.is_empty() {
            cand.push((i, true));
        }
        if !x.r.codings.is_empty() && !x.r.m.chunks.is_empty() {
            cand.push((i, false));
        }
    }
    if cand.is_empty() {
        return Ok(());
    }
    let (i, isq) = *s.pick(&cand);
    let m = if isq { su.conv.ex[i].q.m.clone() } else { su.conv.ex[i].r.m.clone() };
    let wire: Vec<usize> = m.chunks.iter().flat_map(|(a, b)| *a..*b).collect();
    if wire.is_empty() {
        return Ok(());
    }
    let codings = if isq { su.conv.ex[i].q.codings.clone() } else { su.conv.ex[i].r.codings.clone() };
    let mut known = false;
    let dir: &mut Vec<u8> = if isq { &mut su.conv.q } else { &mut su.conv.r };
    let what = if isq { "request" } else { "response" };
    if !codings.contains(&Coding::Lzma) && wire.len() >= 1 && s.chance(1, 3) {
        // the body is not coded at all, and no decoder can take it for its own
        let z = s.below(1 << 30);
        for (j, at) in wire.iter().enumerate() {
            dir[*at] = if j == 0 { *s.pick(b"fgnovw~\x0e") } else { (mix(z + j as u64) % 90 + 32) as u8 };
        }
        known = true;
        trace(|| format!("fault: {} body of exchange {} is not coded: {}", what, i, show(&wire.iter().map(|a| dir[*a]).collect::<Vec<_>>())));
        stats::hit("fault.mislabelled_body");
    } else if s.chance(1, 4) {
        // all of it is garbage from some point on
        let from = s.usz(wire.len());
        let z = s.below(1 << 30);
        for (j, at) in wire.iter().enumerate().skip(from) {
            dir[*at] = mix(z + j as u64) as u8;
        }
        trace(|| format!("fault: {} body of exchange {} is garbage from byte {} on", what, i, from));
        stats::hit("fault.garbage_body");
    } else {
        for _ in 0..s.range(1, 3) {
            let at = *s.pick(&wire);
            let bit = 1u8 << s.usz(8);
            dir[at] ^= bit;
            trace(|| format!("fault: {} byte {} of exchange {} flipped by {:#x}", what, at, i, bit));
            stats::hit("fault.flipped_body_byte");
        }
    }
    let sent: Vec<u8> = wire.iter().map(|a| dir[*a]).collect();
    let mut run = Run::new(RustApi::new(su.knobs.config(), true), &su.conv, 0, su.pol.clone());
    run.open();
    run.complete(s);
    let evs = rec::take();
    note(&run, &evs);
    for e in &evs {
        trace(|| format!("  call {} {:?} tx{} {}", e.call, e.kind, e.tx, match &e.p { P::Bytes(b) => show(b), o => format!("{:?}", o) }));
    }
    oracle::healthy(&run)?;
    oracle::meta(&su.conv, &evs, 0, run.api.tx_size(), &|i| run.api.tx(i))?;
    oracle::bodies_but(&su.conv, &evs, 0, Some((i, isq)))?;
    if known {
        let got = oracle::concat(&oracle::of(&evs, 0, i), if isq { K::ReqBody } else { K::RespBody });
        if got != sent {
            return Err(format!("mislabelled|tx{}: {} instead of {}", i, show(&got), show(&sent)));
        }
    }
    oracle::raw(&su.conv, &evs, 0)
}

/// C30: what the application decides in the headers callback about decoding the body.
pub fn choice(s: &mut Src) -> R {
    use htp::decompressors::HtpContentEncoding as E;
    let mut su = setup(s, 5, &|_, f, k, _| {
        f.coding = true;
        f.req_coding = true;
        f.lzma = f.lzma && !f.big;
        f.lookalike = false;
        k.req_decomp = true;
        k.resp_decomp = true;
    });
    su.knobs.req_decomp = s.flip();
    su.knobs.resp_decomp = s.flip();
    trace(|| format!("decoding of requests {}, of responses {}", su.knobs.req_decomp, su.knobs.resp_decomp));
    let label = |c: &Coding| match c {
        Coding::Gzip => E::GZIP,
        Coding::Lzma => E::LZMA,
        _ => E::DEFLATE,
    };
    let mut choices = vec![];
    for (i, x) in su.conv.ex.iter_mut().enumerate() {
        for isq in [true, false] {
            let (m, codings, on, kind) = if isq { (&mut x.q.m, &x.q.codings, su.knobs.req_decomp, K::ReqHeaders) } else { (&mut x.r.m, &x.r.codings, su.knobs.resp_decomp, K::RespHeaders) };
            // what would be done, and what the application wants
            let due = if on { codings.first().map(label).unwrap_or(E::NONE) } else { E::NONE };
            let want = match s.usz(4) {
                0 => None,
                1 => Some(E::NONE),
                _ if codings.len() == 1 => Some(label(&codings[0])),
                _ => Some(due),
            };
            if let Some(w) = want {
                choices.push((0, kind, i, w));
                trace(|| format!("in {:?} of tx{} the application sets {:?}, where {:?} was due", kind, i, w, due));
                if w != due {
                    stats::hit(if w == E::NONE { "probe.decoding_prevented" } else { "probe.decoding_forced" });
                }
            }
            if want.unwrap_or(due) == E::NONE {
                m.lzma_out = 0;
                m.plain = m.coded.clone();
            }
        }
    }
    rec::with(|r| r.choices = choices);
    let mut run = Run::new(RustApi::new(su.knobs.config(), true), &su.conv, 0, su.pol.clone());
    run.open();
    run.complete(s);
    let evs = rec::take();
    note(&run, &evs);
    for e in &evs {
        trace(|| format!("  call {} {:?} tx{} {}", e.call, e.kind, e.tx, match &e.p { P::Bytes(b) => show(b), o => format!("{:?}", o) }));
    }
    oracle::healthy(&run)?;
    oracle::meta(&su.conv, &evs, 0, run.api.tx_size(), &|i| run.api.tx(i))?;
    // the application can see in the callback what it decides about
    for e in evs.iter().filter(|e| matches!(e.kind, K::ReqHeaders | K::RespHeaders)) {
        let (Some(sn), Some(x)) = (&e.snap, su.conv.ex.get(e.tx)) else { continue };
        let (got, codings, framing) = if e.kind == K::ReqHeaders { (&sn.q_ce, &x.q.codings, x.q.framing) } else { (&sn.r_ce, &x.r.codings, x.r.framing) };
        if framing != Framing::None && got != oracle::coding(codings) {
            return Err(format!("choice-label|tx{}: {:?} shows coding {}, sent was {:?}", e.tx, e.kind, got, codings));
        }
    }
    oracle::bodies(&su.conv, &evs, 0)?;
    oracle::raw(&su.conv, &evs, 0)
}
