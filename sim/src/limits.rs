//! Scenarios about bounds: what the parser buffers, how many transactions it keeps, how much it
//! decodes.
use crate::alloc;
use crate::clock;
use crate::drive::*;
use crate::oracle;
use crate::props::*;
use crate::rec::{self, K, P};
use crate::rng::{mix, Src};
use crate::stats;
use crate::wire::*;

type R = Result<(), String>;

/// Longest thing that has to be complete before it can be understood: a start line, a header with
/// its continuation lines, a chunk-size line, a trailer field; each with its line end.
fn longest_unit(bytes: &[u8], m: &Msg) -> usize {
    longest_by(bytes, m, 2)
}
/// a header is only known to be over when the next line has begun: `ahead` bytes of it
fn longest_by(bytes: &[u8], m: &Msg, ahead: usize) -> usize {
    let mut best = 0;
    let mut units = |a: usize, b: usize, ahead: usize| {
        let mut p = a;
        let mut cur = 0;
        while p < b {
            let e = bytes[p..b].iter().position(|c| *c == b'\n').map(|i| p + i + 1).unwrap_or(b);
            if matches!(bytes[p], b' ' | b'\t') {
                cur += e - p;
            } else {
                cur = e - p;
            }
            best = best.max(cur + ahead);
            p = e;
        }
    };
    // (interim responses come before the final start line)
    let fin = bytes[m.start..m.line_end].iter().filter(|c| **c == b'\n').count() == 1;
    units(m.start, m.line_end, if fin { 0 } else { ahead });
    units(m.line_end, m.head_end, ahead);
    if let Some((t0, t1)) = m.trailer {
        units(t0, t1, ahead);
        let mut p = m.head_end;
        for (a, b) in &m.chunks {
            units(p, *a, 0);
            p = *b;
        }
        units(p, t0, 0);
    }
    best
}

/// C07: what is within the limit is accepted, what is over it is refused, bodies are streamed.
pub fn buffers(s: &mut Src) -> R {
    match s.weighted(&[3, 4, 2]) {
        0 => accepted(s),
        1 => refused(s),
        _ => streamed(s),
    }
}

fn accepted(s: &mut Src) -> R {
    let mut su = setup(s, 6, &|s, f, _, _| {
        f.connect = s.chance(1, 4);
        f.reject = s.chance(1, 4);
        f.big = s.chance(1, 5);
        f.huge = s.chance(1, 30);
    });
    let need = su.conv.ex.iter().map(|x| longest_unit(&su.conv.q, &x.q.m).max(longest_unit(&su.conv.r, &x.r.m))).max().unwrap();
    su.knobs.field_limit = need + if s.flip() { 0 } else { s.range(1, 40) };
    trace(|| format!("field limit {}, longest field {}", su.knobs.field_limit, need));
    stats::hit("fault.tight_field_limit");
    let mut run = Run::new(RustApi::new(su.knobs.config(), true), &su.conv, 0, su.pol.clone());
    run.open();
    run.complete(s);
    let evs = rec::take();
    note(&run, &evs);
    oracle::healthy(&run)?;
    let n = run.api.tx_size();
    oracle::meta(&su.conv, &evs, 0, n, &|i| run.api.tx(i))
}

fn bytes_of(c: &Conv, d: Dir) -> &[u8] {
    if d == Dir::Q {
        &c.q
    } else {
        &c.r
    }
}
/// is this inside the value of a header?
fn d_fold(b: &[u8], at: usize) -> bool {
    let line = b[..at].iter().rposition(|c| *c == b'\n').map(|i| i + 1).unwrap_or(0);
    b[line..at].contains(&b':')
}

/// An endless field: an over-long piece is put somewhere into the head (or trailer, or chunk-size
/// lines) of some message and delivered bit by bit.
fn refused(s: &mut Src) -> R {
    let mut su = setup(s, 3, &|s, f, _, p| {
        f.connect = s.chance(1, 6);
        f.reject = false;
        f.big = false;
        f.coding = false;
        f.req_coding = false;
        f.chunked = s.chance(2, 3);
        f.close = false;
        p.half_close = false;
    });
    let d = if s.flip() { Dir::Q } else { Dir::R };
    let x = s.usz(su.conv.ex.len());
    let m = match d {
        Dir::Q => su.conv.ex[x].q.m.clone(),
        Dir::R => su.conv.ex[x].r.m.clone(),
    };
    // where: inside the start line, the headers, a chunk-size line, the trailer
    let mut spots: Vec<(usize, usize)> = vec![];
    if m.line_end > m.start + 4 {
        spots.push((m.start + 1, m.line_end - 2));
    }
    if m.head_end > m.line_end + 4 {
        spots.push((m.line_end, m.head_end - 2));
    }
    if let Some((a, b)) = m.trailer {
        spots.push((a, b - 1));
        spots.push((m.head_end, m.head_end + 1));
    }
    if x + 1 == su.conv.ex.len() {
        spots.push((m.end, m.end));
    }
    let (a, b) = *s.pick(&spots);
    let at = s.range(a, b);
    let need = su.conv.ex.iter().map(|x| longest_unit(&su.conv.q, &x.q.m).max(longest_unit(&su.conv.r, &x.r.m))).max().unwrap();
    let limit = need + if s.chance(1, 40) { 20_000 } else { *s.pick(&[0usize, 10, 300, 2000]) };
    su.knobs.field_limit = limit;
    let fill: Vec<u8> = {
        let n = 3 * limit + s.range(1, limit);
        let kind = s.usz(if at > m.line_end && at < m.head_end - 2 && d_fold(bytes_of(&su.conv, d), at) { 9 } else { 7 });
        let c = *s.pick(&[b'a', b' ', b'0', b'\r', b'\t', 0u8, b':', 0xff, b',', b';']);
        let mut v = vec![];
        while v.len() < n {
            match kind {
                0..=4 => v.push(c),
                5 => v.push(b'a' + (v.len() % 26) as u8),
                // a header continued without end
                7 => v.extend_from_slice(b"\r\n abc"),
                8 => v.extend_from_slice(b"\n\tabcdefghijkl"),
                _ => v.extend_from_slice(b"ab \t:"),
            }
        }
        v
    };
    let bytes = match d {
        Dir::Q => &mut su.conv.q,
        Dir::R => &mut su.conv.r,
    };
    bytes.splice(at..at, fill.iter().copied());
    // everything of the other direction that precedes the message, then this one up to the filler
    let conv = su.conv.clone();
    let mut conv = Conv { q: conv.q, r: conv.r, qmarks: vec![1], rmarks: vec![1], ..Default::default() };
    let (qa, ra) = match d {
        Dir::Q if at >= m.end && s.flip() => (at, su.conv.ex[x].r.m.end),
        Dir::Q => (at, su.conv.ex[x].r.m.start),
        Dir::R => (su.conv.ex[x].q.m.end, at),
    };
    conv.q.truncate(if d == Dir::Q { at + fill.len() } else { qa });
    conv.r.truncate(if d == Dir::R { at + fill.len() } else { ra });
    trace(|| format!("field limit {}, {:?} gets {} bytes {} at {}", limit, d, fill.len(), show(&fill[..8]), at));
    stats::hit("fault.endless_field");
    rec::with(|r| r.lean = true);
    let mut run = Run::new(RustApi::new(su.knobs.config(), true), &conv, 0, su.pol.clone());
    run.open();
    // the history before: in conversation order
    let mut first = su.conv.ex[..x].iter().map(|e| (e.q.m.end, e.r.m.end)).collect::<Vec<_>>();
    first.push((qa, if d == Dir::R { at } else { ra }));
    for (qe, re) in first {
        for (dir, e) in [(Dir::Q, qe), (Dir::R, re)] {
            let mut tries = 0;
            loop {
                let p = if dir == Dir::Q { run.qpos } else { run.rpos };
                if p >= e || tries > 3 {
                    break;
                }
                if run.feed(dir, e - p) == St::DataOther {
                    tries += 1;
                }
            }
        }
    }
    if run.qdead.is_some() || run.rdead.is_some() || run.qpos < qa || (d == Dir::R && run.rpos < at) {
        // CONNECT deferral: this history does not get there
        return Ok(());
    }
    let _ = run.api.logs();
    run.calls.clear();
    run.calls.reserve(fill.len() + 10);
    s.rec.reserve(fill.len() + 10);
    let live0 = alloc::live();
    let body0 = rec::with(|r| r.bytes);
    let mut fed = 0;
    let mut worst = 0;
    let mut calls = 0;
    let mode = s.usz(3);
    let mut refused_at = None;
    while fed < fill.len() {
        let n = match mode {
            0 => s.range(1, limit),
            1 => limit / 4 + 1,
            _ => s.range(1, 2 * limit),
        };
        let n = n.min(fill.len() - fed);
        let st = run.feed(d, n);
        calls += 1;
        let _ = run.api.logs();
        fed += n;
        worst = worst.max(alloc::live() - live0);
        if st == St::DataOther {
            // waits for the other side: not this scenario
            return Ok(());
        }
        if matches!(st, St::Error) {
            refused_at.get_or_insert(fed);
            break;
        }
        if matches!(st, St::Tunnel | St::Stop | St::Closed) {
            return Ok(());
        }
    }
    stats::nontrivial();
    stats::hist(at as u64 ^ ((limit as u64) << 20) ^ ((calls as u64) << 40) ^ fill[0] as u64);
    let body1 = rec::with(|r| r.bytes);
    let reported = (body1[K::ReqBody as usize] - body0[K::ReqBody as usize]) + (body1[K::RespBody as usize] - body0[K::RespBody as usize]);
    let bound = 6 * limit as i64 + 16384;
    if worst > bound {
        return Err(format!("memory|{} bytes of memory retained for an endless field, limit {}", worst, limit));
    }
    // a server's lone CRs end lines: many short lines, not a long one
    let lines = d == Dir::R && fill[0] == b'\r';
    if !lines && refused_at.is_none() && (reported as usize) + limit < fill.len() {
        return Err(format!(
            "unlimited|{} bytes of one field were accepted (limit {}), {} bytes of them reported as body", fill.len(), limit, reported
        ));
    }
    stats::hit(if refused_at.is_some() { "probe.refused" } else { "probe.taken_as_body" });
    Ok(())
}

/// A long body leaves nothing behind.
fn streamed(s: &mut Src) -> R {
    let mut k = Knobs::draw(s);
    k.parse_urlenc = false;
    k.time_limit = Some(u32::MAX);
    let d = if s.flip() { Dir::Q } else { Dir::R };
    let n = s.range(60_000, 300_000);
    let seed = s.below(1 << 20);
    let comp = s.flip();
    let plain: Vec<u8> = (0..n).map(|i| if comp { b'a' + (mix(seed ^ (i as u64 / 50)) % 20) as u8 } else { mix(seed ^ i as u64) as u8 }).collect();
    let coding = match s.usz(4) {
        0 => Some(Coding::Gzip),
        1 => Some(Coding::DeflateRaw),
        _ => None,
    };
    let coded = match coding {
        Some(c) => encode(s, c, &plain),
        None => plain.clone(),
    };
    let framing = *s.pick(&[Framing::Cl, Framing::Chunked, Framing::Close]);
    let framing = if d == Dir::Q && framing == Framing::Close { Framing::Cl } else { framing };
    let mut head = vec![];
    let mut hdrs = vec![];
    if let Some(c) = coding {
        hdrs.extend_from_slice(if c == Coding::Gzip { b"Content-Encoding: gzip\r\n" } else { b"Content-Encoding: deflate\r\n" });
    }
    let mut body = vec![];
    match framing {
        Framing::Cl => {
            hdrs.extend_from_slice(format!("Content-Length: {}\r\n", coded.len()).as_bytes());
            body = coded.clone();
        }
        Framing::Chunked => {
            hdrs.extend_from_slice(b"Transfer-Encoding: chunked\r\n");
            let c = s.range(500, 40_000);
            for x in coded.chunks(c) {
                body.extend_from_slice(format!("{:x}\r\n", x.len()).as_bytes());
                body.extend_from_slice(x);
                body.extend_from_slice(b"\r\n");
            }
            body.extend_from_slice(b"0\r\n\r\n");
        }
        _ => body = coded.clone(),
    }
    let q: Vec<u8>;
    let mut r: Vec<u8> = vec![];
    if d == Dir::Q {
        head.extend_from_slice(b"POST / HTTP/1.1\r\nHost: a\r\n");
        head.extend_from_slice(&hdrs);
        head.extend_from_slice(b"\r\n");
        let mut v = head.clone();
        v.extend_from_slice(&body);
        q = v;
    } else {
        q = b"GET / HTTP/1.1\r\nHost: a\r\n\r\n".to_vec();
        head.extend_from_slice(b"HTTP/1.1 200 OK\r\n");
        head.extend_from_slice(&hdrs);
        head.extend_from_slice(b"\r\n");
        r = head.clone();
        r.extend_from_slice(&body);
    }
    let conv = Conv { q, r, qmarks: vec![1], rmarks: vec![1], ..Default::default() };
    trace(|| format!("config {:?}; {:?} body of {} bytes ({} on the wire) {:?} {:?}", k, d, plain.len(), body.len(), framing, coding));
    rec::with(|r| r.lean = true);
    let mut run = Run::new(RustApi::new(k.config(), true), &conv, 0, Policy::draw(s));
    run.open();
    if d == Dir::R {
        let n = run.conv.q.len();
        run.feed(Dir::Q, n);
    }
    run.feed(d, head.len());
    run.calls.clear();
    run.calls.reserve(body.len() + 10);
    s.rec.reserve(body.len() + 10);
    let _ = run.api.logs();
    let live0 = alloc::live();
    let mut worst = 0;
    let mut fed = 0;
    let mode = s.usz(3);
    let mut calls = 0;
    while fed < body.len() {
        let n = match mode {
            0 => s.range(1, 3000),
            1 => s.range(1000, 20_000),
            _ => 1460,
        };
        let n = n.min(body.len() - fed);
        let st = run.feed(d, n);
        let _ = run.api.logs();
        if st != St::Data {
            return Err(format!("status|body data answered {:?}", st));
        }
        fed += n;
        calls += 1;
        worst = worst.max(alloc::live() - live0);
    }
    stats::hit("fault.long_body");
    stats::nontrivial();
    stats::hist(fed as u64 ^ ((calls as u64) << 30));
    let got = rec::with(|r| r.bytes[if d == Dir::Q { K::ReqBody } else { K::RespBody } as usize]);
    let decoded = if d == Dir::Q { k.req_decomp } else { k.resp_decomp };
    let want = if decoded { plain.len() } else { coded.len() } as u64;
    if got != want {
        return Err(format!("body|{} bytes reported of {}", got, want));
    }
    // a decoder keeps a window and two buffers, nothing else is kept
    let bound = if coding.is_some() && decoded { 160_000 } else { 24_000 };
    if worst > bound {
        return Err(format!("body-memory|{} bytes of memory retained while {} bytes of body passed", worst, fed));
    }
    Ok(())
}

/// C08: long-lived connections.
pub fn longlived(s: &mut Src) -> R {
    if s.chance(1, 3) {
        return too_many(s);
    }
    let mut k = Knobs::draw(s);
    let auto = s.flip();
    k.auto_destroy = auto;
    k.max_tx = *s.pick(&[512u32, 40, 20]);
    let mut f = Feats::draw(s);
    f.big = false;
    f.many = false;
    f.close = false;
    f.connect = false;
    f.unsol = f.unsol && s.flip();
    f.reject = s.chance(1, 4);
    let o = GenOpts { max_ex: 1, max_headers: 2, req_decomp: k.req_decomp, resp_decomp: k.resp_decomp, anom: "", lead: false };
    // one cycle of exchanges, repeated
    let cyc = s.range(1, 4);
    let reps = s.range(8, 40);
    let mut c = Conv::default();
    push_exchange(s, &Feats::plain(), &o, &mut c, XK::Normal, false);
    let (q0, r0) = (c.q.len(), c.r.len());
    for _ in 0..cyc {
        let kind = if f.reject && s.chance(1, 4) { XK::Reject } else { XK::Normal };
        push_exchange(s, &f, &o, &mut c, kind, false);
    }
    let (uq, ur) = (c.q[q0..].to_vec(), c.r[r0..].to_vec());
    let unit = c.clone();
    for i in 1..reps {
        let (dq, dr) = (i * uq.len(), i * ur.len());
        for e in &unit.ex[1..] {
            let mut e = e.clone();
            shift(&mut e.q.m, dq);
            shift(&mut e.r.m, dr);
            for h in e.r.interim_heads.iter_mut() {
                h.0 += dr;
                h.1 += dr;
            }
            c.ex.push(e);
        }
        c.q.extend_from_slice(&uq);
        c.r.extend_from_slice(&ur);
        c.qmarks.extend(unit.qmarks.iter().filter(|m| **m > q0).map(|m| m + dq));
        c.rmarks.extend(unit.rmarks.iter().filter(|m| **m > r0).map(|m| m + dr));
    }
    let mut pol = Policy::draw(s);
    pol.depth = *s.pick(&[1usize, 2, 5]);
    pol.half_close = false;
    trace(|| format!("config {:?}", k));
    trace(|| format!("policy {:?}", pol));
    trace(|| format!("{} times client bytes {}", reps, show(&uq)));
    trace(|| format!("{} times server bytes {}", reps, show(&ur)));
    stats::hit(if auto { "probe.auto_destroy" } else { "probe.remove_tx" });
    let depth = pol.depth;
    let n = c.ex.len();
    rec::with(|r| r.lean = true);
    let mut run = Run::new(RustApi::new(k.config(), true), &c, 0, pol);
    run.open();
    let mut gone = 0; // transactions below this were handed back
    let mut marks: Vec<(usize, i64)> = vec![];
    let mut steps = 0usize;
    let mut worst = 0usize;
    loop {
        // sample only while nothing is under way
        let (qi, ri) = (c.ex.iter().filter(|e| e.q.m.end <= run.qpos).count(), c.ex.iter().filter(|e| e.r.m.end <= run.rpos).count());
        let idle = qi == ri && qi > 0 && run.qpos == c.ex[qi - 1].q.m.end && run.rpos == c.ex[ri - 1].r.m.end;
        if !auto {
            // the application hands back what is complete, except what a parser still points at
            while gone + 2 < qi.min(ri) && run.api.tx(gone).is_some_and(|t| t.q_complete && t.r_complete) {
                run.api.destroy_tx(gone);
                stats::hit("fault.destroy_tx");
                gone += 1;
            }
        }
        let live = (0..n + 2).filter(|i| run.api.p().tx(*i).is_some()).count();
        worst = worst.max(live);
        let open = (qi + 1).saturating_sub(ri) + 1;
        if live > open + depth + 4 {
            return Err(format!("kept|{} transactions kept after {} requests and {} responses", live, qi, ri));
        }
        if idle && qi % cyc == 1 % cyc {
            run.calls.clear();
            run.calls.shrink_to_fit();
            let _ = run.api.logs();
            marks.push((qi, alloc::live() - (s.rec.capacity() * 8 + marks.capacity() * 16) as i64));
        }
        steps += 1;
        if !run.step(s) {
            break;
        }
        if steps > 100_000 {
            return Err("stuck|step cap".into());
        }
        if let Some(st) = run.qdead.or(run.rdead) {
            return Err(format!("status|a long-lived connection was answered {:?} after {} requests and {} responses", st, qi, ri));
        }
    }
    if let Some(x) = &run.stuck {
        return Err(format!("stuck|{}", x));
    }
    stats::nontrivial();
    stats::hist(steps as u64 ^ ((n as u64) << 20) ^ ((worst as u64) << 40) ^ crate::rng::hash_bytes(3, &unit.q));
    stats::add("probe.exchanges", n as u64);
    let done = rec::with(|r| r.completed);
    // the very last ones may wait for the close
    if (done as usize) + 2 < n {
        return Err(format!("incomplete|{} of {} transactions completed", done, n));
    }
    if run.api.tx_size() != n {
        return Err(format!("tx-size|{} transactions counted, {} exchanges", run.api.tx_size(), n));
    }
    if marks.len() >= 6 {
        let h = marks.len() / 2;
        let a = marks[1..h].iter().map(|m| m.1).max().unwrap();
        let b = marks[h..].iter().map(|m| m.1).max().unwrap();
        if b > a + 2048 {
            return Err(format!("memory|memory at rest grew from {} to {} bytes over {} exchanges", a, b, n));
        }
        stats::hit("probe.memory_compared");
    }
    Ok(())
}

fn shift(m: &mut Msg, d: usize) {
    m.start += d;
    m.line_end += d;
    m.head_end += d;
    m.body_end += d;
    m.end += d;
    if let Some(t) = m.trailer.as_mut() {
        t.0 += d;
        t.1 += d;
    }
    for c in m.chunks.iter_mut() {
        c.0 += d;
        c.1 += d;
    }
}

/// More requests outstanding than the connection may keep.
fn too_many(s: &mut Src) -> R {
    let mut k = Knobs::draw(s);
    k.max_tx = s.range(1, 12) as u32;
    let n = s.range(1, 24);
    let mut f = Feats::draw(s);
    f.big = false;
    f.many = false;
    f.close = false;
    let o = GenOpts { max_ex: 1, max_headers: 1, req_decomp: k.req_decomp, resp_decomp: k.resp_decomp, anom: "", lead: false };
    let mut c = Conv::default();
    let side = if s.chance(2, 3) { Dir::Q } else { Dir::R };
    for _ in 0..n {
        push_exchange(s, &f, &o, &mut c, if side == Dir::Q { XK::Normal } else { XK::Unsol }, false);
    }
    let mut pol = Policy::draw(s);
    pol.depth = 1000;
    pol.wait100 = false;
    pol.half_close = false;
    let total = if side == Dir::Q { c.q.len() } else { c.r.len() };
    let mut k2 = k;
    if side == Dir::R {
        k2.auto_destroy = false;
    }
    trace(|| format!("config {:?}", k2));
    trace(|| format!("{} messages {:?}: {}", n, side, show(if side == Dir::Q { &c.q } else { &c.r })));
    stats::hit("fault.transaction_flood");
    let mut run = Run::new(RustApi::new(k2.config(), true), &c, 0, pol);
    run.ungated = true;
    run.open();
    let mut worst = 0;
    let mut bad = None;
    while (if side == Dir::Q { run.qpos } else { run.rpos }) < total {
        let (p, m) = if side == Dir::Q { (run.qpos, &c.qmarks) } else { (run.rpos, &c.rmarks) };
        let mode = if side == Dir::Q { run.pol.qmode } else { run.pol.rmode };
        let len = seg_len(s, mode, p, total - p, m, total);
        let st = run.feed(side, len);
        let live = (0..n + 2).filter(|i| run.api.p().tx(*i).is_some()).count();
        worst = worst.max(live);
        if st != St::Data {
            bad.get_or_insert((st, p, p + len));
        }
    }
    let evs = rec::take();
    note(&run, &evs);
    if worst > k2.max_tx as usize {
        return Err(format!("over-max|{} transactions live, at most {} allowed", worst, k2.max_tx));
    }
    // begun messages
    let max = k2.max_tx as usize;
    match bad {
        None if n > max => {
            return Err(format!("no-refusal|{} unanswered messages accepted, at most {} transactions allowed", n, k2.max_tx));
        }
        Some((st, ..)) if st != St::Error => {
            return Err(format!("flood-status|answered {:?}", st));
        }
        Some((_, a, b)) if n < max => {
            return Err(format!("early-refusal|bytes {}..{} refused although only {} of {} transactions are needed", a, b, n, k2.max_tx));
        }
        _ => {}
    }
    // those that fit are reported
    for (i, x) in c.ex.iter().enumerate().take(max.saturating_sub(1)) {
        let t = oracle::of(&evs, 0, i);
        if side == Dir::Q {
            let e = t.iter().find(|e| e.kind == K::ReqLine).ok_or(format!("missing|request {} of {} was not reported", i, n))?;
            oracle::req_line(e.snap.as_ref().unwrap(), &x.q, i)?;
        } else if x.r.m.end < total {
            let e = t.iter().find(|e| e.kind == K::RespLine).ok_or(format!("missing|response {} of {} was not reported", i, n))?;
            oracle::resp_line(e.snap.as_ref().unwrap(), &x.r, i)?;
        }
    }
    if let Some(e) = evs.iter().find(|e| e.tx >= max && matches!(e.p, P::No)) {
        return Err(format!("over-max|callback {:?} for transaction {} with at most {} allowed", e.kind, e.tx, k2.max_tx));
    }
    stats::hit(if bad.is_some() { "probe.refused" } else { "probe.fits" });
    let _ = clock::mono();
    Ok(())
}
