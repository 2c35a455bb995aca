//! C26: HTTP/0.9, where the request is one line and the response everything up to the close.
use crate::drive::*;
use crate::oracle;
use crate::props::*;
use crate::rec::{self, K, P};
use crate::rng::{mix, Src};
use crate::stats;
use crate::wire::*;
use htp::connection::ConnectionFlags;
use htp::transaction::HtpRequestProgress;

type R = Result<(), String>;

pub fn old(s: &mut Src) -> R {
    let mut k = Knobs::draw(s);
    k.flush_incomplete = s.chance(1, 4);
    let f = Feats::draw(s);
    let line: Vec<u8> = {
        let m: &[u8] = *s.pick(&[b"GET".as_ref(), b"POST", b"HEAD", b"PUT"]);
        let sp: &[u8] = *s.pick(&[b" ".as_ref(), b"  "]);
        let z = s.below(1 << 20);
        let mut u = b"/".to_vec();
        u.extend((0..s.range(0, 12)).map(|i| if z == 0 { b'a' } else { b"abcxyz019-_/"[(mix(z + i as u64) % 12) as usize] }));
        [m, sp, &u].concat()
    };
    let eol: &[u8] = *s.pick(&[b"\r\n".as_ref(), b"\n"]);
    let req = [line.as_slice(), eol].concat();
    let body = if s.chance(1, 8) { vec![] } else { body_bytes(s, &f, 0) };
    let extra: Vec<u8> = if s.chance(1, 3) { body_bytes(s, &Feats { big: false, ..f }, 0) } else { vec![] };
    // what shares the segment that ends the line: nothing, white space, or a header block
    let tail: Vec<u8> = match s.usz(6) {
        0 => {
            let n = s.range(0, 19);
            let mut v: Vec<u8> = (0..n).map(|_| *s.pick(b" \t\r\n\x0b\x0c")).collect();
            v.push(b'\n');
            v
        }
        1 => s.pick(&[b"Host: h\r\n\r\n".as_ref(), b"A: b\r\nB: c\r\n\r\n", b"A:b\n\n", b" x\r\n\r\n"]).to_vec(),
        _ => vec![],
    };
    let blank = tail.iter().all(|c| c.is_ascii_whitespace() || *c == 0x0b);
    let modern = !blank || tail.len() > 16;
    let line_end = req.len();
    let req = [req.as_slice(), &tail].concat();
    let mut conv = Conv::default();
    conv.q = [req.as_slice(), &extra].concat();
    conv.r = body.clone();
    conv.qmarks = vec![3, 4, 5, line.len(), line.len() + 1, req.len()];
    conv.rmarks = body.iter().enumerate().filter(|x| matches!(x.1, b'\n' | b'\r')).map(|x| x.0).collect();
    let mut pol = Policy::draw(s);
    pol.half_close = false;
    trace(|| format!("config {:?}", k));
    trace(|| format!("client bytes {} then {}", show(&req), show(&extra)));
    trace(|| format!("server bytes {}", show(&body)));
    let mut cfg = k.config();
    cfg.log_level = level(3);
    let mut run = Run::new(RustApi::new(cfg, true), &conv, 0, pol.clone());
    run.ungated = true;
    run.open();
    let half = s.chance(1, 4);
    // the network loses bytes behind the line, and behind the first byte of the answer
    let lossy = s.chance(1, 5);
    let mut halfed = false;
    let mut steps = 0;
    loop {
        steps += 1;
        // the request comes first; what follows it never shares a chunk with it
        let qn = if run.qpos < req.len() { req.len() - run.qpos } else { conv.q.len() - run.qpos };
        let rn = if run.qpos < req.len() { 0 } else { body.len() - run.rpos };
        if halfed && rn == 0 || (qn == 0 && rn == 0) || steps > 50_000 {
            break;
        }
        let q = !halfed && qn > 0 && (rn == 0 || s.below(10) < pol.bias);
        clock_step(s);
        if lossy && s.chance(1, 6) && if q { run.qpos >= req.len() } else { run.rpos > 0 } {
            if q {
                let n = s.range(1, qn);
                run.gap(Dir::Q, n);
            } else {
                let n = s.range(1, rn);
                run.gap(Dir::R, n);
            }
            continue;
        }
        if q {
            let mut n = seg_len(s, pol.qmode, run.qpos, qn, &conv.qmarks, conv.q.len());
            if run.qpos < line_end && run.qpos + n >= line_end {
                n = req.len() - run.qpos;
            }
            run.feed(Dir::Q, n);
            if modern && run.qpos >= req.len() {
                break;
            }
        } else if rn > 0 {
            let n = seg_len(s, pol.rmode, run.rpos, rn, &conv.rmarks, body.len());
            run.feed(Dir::R, n);
        }
        if half && !halfed && run.qpos >= req.len() && s.chance(1, 3) {
            run.req_close();
            halfed = true;
        }
    }
    let warned = run.api.logs().iter().filter(|l| l.0 == "REQUEST_LINE_NO_PROTOCOL").count();
    if warned != modern as usize {
        return Err(format!("warning|a missing protocol was warned about {} times; {} in the segment of the line end", warned, show(&tail)));
    }
    if modern {
        // a request with headers whose protocol is missing
        let evs = rec::take();
        note(&run, &evs);
        let old = run.api.p().tx(0).map(|t| t.is_protocol_0_9);
        if old != Some(false) || run.api.p().conn.flags & ConnectionFlags::HTTP_0_9_EXTRA != 0 {
            return Err(format!("modern|followed by {} this is no HTTP/0.9: {:?}", show(&tail), old));
        }
        if !blank {
            // the block is read as of any other request
            let heads: Vec<_> = evs.iter().filter(|e| e.kind == K::ReqHeaders).collect();
            let raw = oracle::concat(&oracle::of(&evs, 0, 0), K::ReqHeaderData);
            if heads.len() != 1 || raw != tail {
                return Err(format!("modern|headers reported {} times, header data {} instead of {}", heads.len(), show(&raw), show(&tail)));
            }
            if heads[0].prog.0 != HtpRequestProgress::HEADERS {
                return Err(format!("modern|progress {:?} in the headers callback", heads[0].prog));
            }
        }
        stats::hit("probe.no_protocol_but_headers");
        return Ok(());
    }
    let closed = body.is_empty() || !s.chance(1, 6);
    if closed {
        run.close();
    }
    let evs = rec::take();
    note(&run, &evs);
    for e in &evs {
        trace(|| format!("  call {} {:?} tx{} {}", e.call, e.kind, e.tx, match &e.p { P::Bytes(b) => show(b), o => format!("{:?}", o) }));
    }
    for c in &run.calls {
        if let (Op::Seg(d, a, b) | Op::Gap(d, a, b), Some(x)) = (&c.op, c.st) {
            if x != St::Data {
                return Err(format!("status|{:?} [{}..{}) was answered {:?}", d, a, b, x));
            }
        }
    }
    if let Some(e) = evs.iter().find(|e| e.tx != 0) {
        return Err(format!("invented-tx|{:?} of transaction {}", e.kind, e.tx));
    }
    let t = oracle::of(&evs, 0, 0);
    let cnt = |k: K| t.iter().filter(|e| e.kind == k).count();
    let answered = !body.is_empty();
    for (kk, want) in [
        (K::ReqStart, 1), (K::ReqUriNorm, 1), (K::ReqLine, 1), (K::ReqHeaderData, 0), (K::ReqHeaders, 0), (K::ReqTrailer, 0), (K::ReqTrailerData, 0),
        (K::ReqComplete, 1), (K::RespStart, answered as usize), (K::RespLine, 0), (K::RespHeaderData, 0), (K::RespHeaders, 0), (K::RespTrailer, 0), (K::RespTrailerData, 0),
        (K::RespComplete, (answered && closed) as usize), (K::TxComplete, (closed && (answered || k.flush_incomplete)) as usize),
    ] {
        if cnt(kk) != want {
            return Err(format!("count|{:?} fired {} times, want {}", kk, cnt(kk), want));
        }
    }
    let mut want: Vec<Option<u8>> = body.iter().map(|c| Some(*c)).collect();
    let mut lost = 0;
    for c in &run.calls {
        if let Op::Gap(Dir::R, a, b) = c.op {
            want[a..b].fill(None);
            lost += b - a;
        }
    }
    let mut got: Vec<Option<u8>> = vec![];
    for e in t.iter().filter(|e| e.kind == K::RespBody) {
        match &e.p {
            P::Bytes(v) => got.extend(v.iter().map(|c| Some(*c))),
            P::Gap(n) => got.extend(std::iter::repeat(None).take(*n)),
            _ => {}
        }
    }
    if got != want {
        let w = |v: &[Option<u8>]| show(&v.iter().map(|c| c.unwrap_or(b'_')).collect::<Vec<_>>());
        return Err(format!("body|{} instead of {}", w(&got), w(&want)));
    }
    let got = oracle::concat(&t, K::ReqBody);
    if got != tail {
        return Err(format!("request-body|{} instead of {}", show(&got), show(&tail)));
    }
    stats::add("probe.blanks_behind_line", !tail.is_empty() as u64);
    stats::add("probe.lost_in_0_9", (lost > 0) as u64);
    let done = t.iter().find(|e| e.kind == K::ReqComplete).unwrap();
    // the request is over with its line
    let ends = run.calls.iter().position(|c| matches!(c.op, Op::Seg(Dir::Q, _, b) if b == req.len())).unwrap();
    if done.call != ends {
        return Err(format!("late|request complete during call {}, its line ended in call {}", done.call, ends));
    }
    let x = done.snap.as_ref().unwrap();
    let mut it = line.splitn(2, |c| *c == b' ');
    let m = it.next().unwrap();
    let u: Vec<u8> = it.next().unwrap().iter().copied().skip_while(|c| *c == b' ').collect();
    if !x.is_09 || x.proto_num != 9 || x.protocol.is_some() || x.method.as_deref() != Some(m) || x.uri.as_deref() != Some(&u) || x.q_line.as_deref() != Some(&line) || x.flags != 0 {
        return Err(format!("meta|0.9 {} {} method {:?} uri {:?} line {:?} flags {:#x}", x.is_09, x.proto_num, x.method.as_deref().map(show), x.uri.as_deref().map(show), x.q_line.as_deref().map(show), x.flags));
    }
    if let Some(e) = t.iter().find(|e| e.kind == K::TxComplete) {
        let x = e.snap.as_ref().unwrap();
        if x.r_msg_len != body.len() as u64 || x.r_ent_len != (body.len() - lost) as u64 || x.r_status_num != 0 {
            return Err(format!("length|{} and {} instead of {} of which {lost} lost", x.r_msg_len, x.r_ent_len, body.len()));
        }
    }
    let surplus = run.qpos > req.len();
    if (run.api.p().conn.flags & ConnectionFlags::HTTP_0_9_EXTRA != 0) != surplus {
        return Err(format!("extra|client sent {} bytes more, connection flags {:#x}", run.qpos - req.len(), run.api.p().conn.flags));
    }
    if surplus {
        stats::hit("probe.surplus_after_0_9");
    }
    Ok(())
}
fn clock_step(s: &mut Src) {
    crate::clock::advance(1000 * (1 + s.below(50_000)));
}
