//! C29: bytes behind the end of a message, in the same segment. They belong to that message unless they begin the next
//! one; a reference model says which, and the parser must agree wherever the lines are cut.
use crate::clock;
use crate::drive::*;
use crate::oracle;
use crate::props::*;
use crate::rec::{self, K, P};
use crate::rng::Src;
use crate::stats;
use crate::wire::*;

type R = Result<(), String>;

const METHODS: [&str; 7] = ["GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PROPFIND"];
const REQ: [&[u8]; 18] = [
    b"foo bar", b"x", b"Get / HTTP/1.1", b"GETT / HTTP/1.1", b"HTTP/1.1 200 OK", b"a: b", b"0", b"\0GET /", b"\xff\xfe", b"name=value&x=y", b"{\"a\": 1}", b"  foo",
    b"\tgarbage", b"G", b"/GET", b"<xml>", b"GET/ HTTP/1.1", b"PO ST",
];
const RESP: [&[u8]; 16] = [
    b"foo", b"<html>", b"htt", b"x HTTP/1.1 200 OK", b"GET / HTTP/1.1", b"a: b", b"0", b"\xff", b"H", b"ICY 200 OK", b"\x01HTTP/1.1 200", b"HTT P/1.1", b"  y", b"\0\0z", b"HTLM", b"h",
];
const BLANK: [&[u8]; 5] = [b"", b" ", b"\t", b"\x0b\x0c", b"   "];

#[derive(Default, Clone)]
struct Part {
    body: Vec<u8>,
    /// bytes of the body with its framing
    wire: usize,
    surplus: Vec<u8>,
    /// where the message itself ends, and where its surplus does
    msg: usize,
    end: usize,
    warned: bool,
}

fn surplus(s: &mut Src, p: &mut Part, resp: bool, last: bool, out: &mut Vec<u8>, keep: &mut Vec<usize>) {
    p.msg = out.len();
    if s.flip() {
        let n = s.range(1, 3);
        for j in 0..n {
            // a segment that ends here would end the message
            keep.push(out.len());
            let blank = s.chance(1, 3);
            let mut l = if blank { s.pick(&BLANK).to_vec() } else if resp { s.pick(&RESP).to_vec() } else { s.pick(&REQ).to_vec() };
            if !blank && s.chance(1, 10) {
                let c = *s.pick(b"abcxyz\r ");
                l.extend(std::iter::repeat(c).take(s.range(1, 300)));
            }
            // without a line end only where the connection breaks off behind it
            let open = last && j + 1 == n && s.chance(1, 4);
            if open {
                if l.is_empty() {
                    l.push(b'q');
                }
            } else {
                // a bare LF right behind the empty line of a response is read as part of it
                let bare = s.chance(1, 4) && !(resp && j == 0 && l.is_empty());
                l.extend(if bare { b"\n".as_ref() } else { b"\r\n" });
            }
            let plain = l.iter().any(|c| !matches!(c, b' ' | 9..=13));
            p.warned |= resp || plain;
            p.surplus.extend(&l);
            out.extend(&l);
            stats::hit(if resp { "probe.response_surplus" } else { "probe.request_surplus" });
            if open {
                stats::hit("probe.open_surplus");
            }
        }
    }
    p.end = out.len();
}

pub fn surpluses(s: &mut Src) -> R {
    let k = Knobs::draw(s);
    let n = s.range(1, 4);
    let mut conv = Conv::default();
    let (mut qkeep, mut rkeep) = (vec![], vec![]);
    let mut ex: Vec<(Part, Part)> = vec![];
    for i in 0..n {
        let last = i + 1 == n;
        let mut one = |resp: bool, head: bool, out: &mut Vec<u8>, keep: &mut Vec<usize>| {
            let mut p = Part::default();
            let framing = s.usz(if resp && !head { 4 } else { 3 });
            let m = if head { "HEAD" } else { *s.pick(&METHODS) };
            if resp {
                let st = if framing == 3 { *s.pick(&["204 No Content", "304 Not Modified"]) } else { "200 OK" };
                out.extend(format!("HTTP/1.1 {}\r\n", st).into_bytes());
            } else {
                out.extend(format!("{} /{} HTTP/1.1\r\nHost: h\r\n", m, i).into_bytes());
            }
            let n = if framing == 3 || head && resp { 0 } else { s.range(0, 9) };
            p.body = (0..n).map(|j| b'a' + (j % 26) as u8).collect();
            let at;
            if framing == 2 && !(head && resp) {
                out.extend(b"Transfer-Encoding: chunked\r\n\r\n");
                at = out.len();
                if n > 0 {
                    out.extend(format!("{:x}\r\n", n).into_bytes());
                    out.extend(&p.body);
                    out.extend(b"\r\n");
                }
                out.extend(b"0\r\n");
                p.wire = out.len() - at;
                if s.chance(1, 4) {
                    out.extend(b"T: u\r\n");
                }
                out.extend(b"\r\n");
            } else if framing == 1 || resp && framing != 3 {
                out.extend(format!("Content-Length: {}\r\n\r\n", if head && resp { 7 } else { n }).into_bytes());
                out.extend(&p.body);
                p.wire = n;
            } else {
                p.body.clear();
                out.extend(b"\r\n");
            }
            surplus(s, &mut p, resp, last, out, keep);
            p
        };
        let head = one(false, false, &mut conv.q, &mut qkeep);
        let is_head = {
            let from = ex.last().map(|e: &(Part, Part)| e.0.end).unwrap_or(0);
            conv.q[from..].starts_with(b"HEAD")
        };
        let r = one(true, is_head, &mut conv.r, &mut rkeep);
        ex.push((head, r));
    }
    let marks = |v: &[u8]| v.iter().enumerate().filter(|x| matches!(x.1, b'\n' | b' ')).map(|x| x.0 + 1).collect::<Vec<_>>();
    conv.qmarks = marks(&conv.q);
    conv.rmarks = marks(&conv.r);
    let mut pol = Policy::draw(s);
    pol.half_close = false;
    trace(|| format!("config {:?}", k));
    trace(|| format!("client bytes {}", show(&conv.q)));
    trace(|| format!("server bytes {}", show(&conv.r)));
    let mut cfg = k.config();
    cfg.log_level = level(3);
    let mut run = Run::new(RustApi::new(cfg, true), &conv, 0, pol.clone());
    run.ungated = true;
    run.open();
    for _ in 0..20_000 {
        let answered = ex.iter().take_while(|e| e.1.msg <= run.rpos).count();
        let asked = ex.iter().take_while(|e| e.0.msg <= run.qpos).count();
        let qn = ex[(answered + pol.depth - 1).min(n - 1)].0.end.saturating_sub(run.qpos);
        let rn = if asked == 0 { 0 } else { ex[asked - 1].1.end - run.rpos };
        if qn == 0 && rn == 0 {
            break;
        }
        let q = qn > 0 && (rn == 0 || s.below(10) < pol.bias);
        clock::advance(1000 * (1 + s.below(50_000)));
        let (d, pos, avail, mode, marks, keep, total) =
            if q { (Dir::Q, run.qpos, qn, pol.qmode, &conv.qmarks, &qkeep, conv.q.len()) } else { (Dir::R, run.rpos, rn, pol.rmode, &conv.rmarks, &rkeep, conv.r.len()) };
        let mut len = seg_len(s, mode, pos, avail, marks, total);
        while keep.contains(&(pos + len)) {
            len += 1;
        }
        run.feed(d, len);
        if pol.relocate && s.chance(1, 8) {
            run.relocate();
        }
    }
    let dead = (run.qdead, run.rdead);
    let open = [&ex[n - 1].0, &ex[n - 1].1].iter().any(|p| !p.surplus.is_empty() && !p.surplus.ends_with(b"\n"));
    if pol.close || open {
        run.close();
    }
    let evs = rec::take();
    note(&run, &evs);
    for e in &evs {
        trace(|| format!("  call {} {:?} tx{} {}", e.call, e.kind, e.tx, match &e.p { P::Bytes(b) => show(b), o => format!("{:?}", o) }));
    }
    if dead != (None, None) {
        return Err(format!("status|{:?}", dead));
    }
    let logs = run.api.logs();
    for (i, e) in ex.iter().enumerate() {
        let t = oracle::of(&evs, 0, i);
        for kk in [K::ReqStart, K::ReqLine, K::ReqHeaders, K::ReqComplete, K::RespStart, K::RespLine, K::RespHeaders, K::RespComplete, K::TxComplete] {
            let c = t.iter().filter(|v| v.kind == kk).count();
            if c != 1 {
                return Err(format!("count|transaction {}: {:?} {} times", i, kk, c));
            }
        }
        for (resp, p) in [(false, &e.0), (true, &e.1)] {
            let who = if resp { "response" } else { "request" };
            let (kb, kc) = if resp { (K::RespBody, K::RespComplete) } else { (K::ReqBody, K::ReqComplete) };
            let mut want = p.body.clone();
            want.extend(&p.surplus);
            let got = oracle::concat(&t, kb);
            if got != want {
                return Err(format!("{}-body|transaction {}: {} instead of {}", who, i, show(&got), show(&want)));
            }
            let done = t.iter().position(|v| v.kind == kc).unwrap();
            if t.iter().skip(done).any(|v| v.kind == kb) {
                return Err(format!("{}-late|transaction {}: body data behind the end", who, i));
            }
            let x = t.last().unwrap().snap.as_ref().unwrap();
            let (m, l) = if resp { (x.r_msg_len, x.r_ent_len) } else { (x.q_msg_len, x.q_ent_len) };
            if m as usize != p.wire + p.surplus.len() || l as usize != want.len() {
                return Err(format!("{}-length|transaction {}: lengths {} and {} instead of {} and {}", who, i, m, l, p.wire + p.surplus.len(), want.len()));
            }
        }
        let x = t.last().unwrap().snap.as_ref().unwrap();
        if x.uri.as_deref() != Some(format!("/{}", i).as_bytes()) {
            return Err(format!("pairing|transaction {} is for {}", i, show(x.uri.as_deref().unwrap_or_default())));
        }
    }
    if evs.iter().any(|e| e.tx >= n) {
        return Err("extra|more transactions than exchanges".into());
    }
    // every message with a surplus is warned about, and nothing else
    for (c, w) in [("REQUEST_BODY_UNEXPECTED", ex.iter().filter(|e| e.0.warned).count()), ("RESPONSE_BODY_UNEXPECTED", ex.iter().filter(|e| e.1.warned).count())] {
        let got = logs.iter().filter(|l| l.0 == c).count();
        if got < w || w == 0 && got > 0 {
            return Err(format!("warning|{} logged {} times for {} messages", c, got, w));
        }
    }
    Ok(())
}
