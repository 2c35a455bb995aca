//! C22: chunked framing of any shape: sizes with white space, zeros, extensions or rubbish behind them, empty lines
//! between chunks, rubbish behind the data, sizes that are no sizes. A reference model says what each body means; the
//! parser must say the same wherever the network cuts it.
use crate::drive::*;
use crate::oracle;
use crate::props::*;
use crate::rec::{self, K, P};
use crate::rng::{mix, Src};
use crate::stats;
use crate::wire::*;

type R = Result<(), String>;

#[derive(Default)]
struct Body {
    data: Vec<u8>,
    /// bytes on the wire that count as the body
    wire: u64,
    ext: usize,
    odd: usize,
    /// offset of the size line that is no size, and whether it is reported as one
    bad: Option<usize>,
    /// bytes from the start of the body to its end, trailer included
    len: usize,
}

const SPACE: [&[u8]; 6] = [b" ", b"\t", b"\r", b"\x0b", b"\x0c", b"  \t"];

fn size_line(s: &mut Src, n: usize, b: &mut Body, out: &mut Vec<u8>) {
    if s.chance(1, 6) {
        out.extend(*s.pick(&SPACE));
        b.odd += 1;
    }
    if s.chance(1, 6) {
        out.extend("0".repeat(s.range(1, 20)).as_bytes());
        b.odd += 1;
    }
    out.extend(if s.flip() { format!("{:x}", n) } else { format!("{:X}", n) }.as_bytes());
    if s.chance(1, 3) {
        let t: &[u8] = *s.pick(&[b";".as_ref(), b";a=b", b" ; x", b";\"\x00\xff\"", b" ", b"\t \t", b" junk", b"x1", b"\r", b"\rz", b"-1", b"\0", b" 5", b"g", b":", b"\xff;"]);
        let long = if s.chance(1, 20) { " x".repeat(s.range(1, 100)).into_bytes() } else { vec![] };
        out.extend(long);
        out.extend(t);
        b.odd += 1;
        b.ext += t.contains(&b';') as usize;
    }
    out.extend(*s.pick(&[b"\r\n".as_ref(), b"\r\n", b"\n"]));
}

/// a chunked body; if `fatal`, one whose framing breaks down at some point
fn draw(s: &mut Src, resp: bool, fatal: bool, out: &mut Vec<u8>) -> Body {
    let start = out.len();
    let mut b = Body::default();
    let n = s.range(0, 4);
    for _ in 0..n {
        // lines that hold no size
        if s.chance(1, 5) {
            for _ in 0..s.range(1, 3) {
                if resp && s.flip() {
                    out.extend(*s.pick(&SPACE));
                }
                out.extend(if resp { *s.pick(&[b"\r\n".as_ref(), b"\n"]) } else { b"\n" });
            }
            b.odd += 1;
        }
        if resp && s.chance(1, 12) {
            // larger than any chunk may be: the line is skipped
            out.extend(*s.pick(&[b"80000000\r\n".as_ref(), b"100000000\n", b"ffffffffffffffff\r\n", b" 7fffffffffffffff;x\r\n"]));
            b.odd += 1;
        }
        let len = *s.pick(&[1usize, 2, 3, 9, 10, 15, 16, 17, 40, 255, 256]);
        let len = if s.chance(1, 150) { *s.pick(&[4095usize, 4096, 8193, 32767, 32768, 65535, 65536, 70_000]) } else { len };
        size_line(s, len, &mut b, out);
        let z = s.below(1 << 20);
        let bytes: Vec<u8> = if len > 256 { (0..len as u64).map(|i| b"abc\r\n0;:x"[(mix(z ^ i) % 9) as usize]).collect() } else { (0..len).map(|_| *s.pick(b"abc\r\n0;:x")).collect() };
        out.extend(&bytes);
        b.data.extend(&bytes);
        if s.chance(1, 5) {
            out.extend(*s.pick(&[b" ".as_ref(), b"junk", b"\r", b"0", b"5\r", b"\0"]));
            b.odd += 1;
        }
        out.extend(*s.pick(&[b"\r\n".as_ref(), b"\r\n", b"\n"]));
    }
    if fatal {
        let at = out.len();
        b.bad = Some(at);
        b.odd += 1;
        let t: Vec<u8> = match s.usz(6) {
            0 if !resp => s.pick(&[b"80000000\r\n".as_ref(), b"\r\n", b" \n", b"\t\r\n", b"fffffffff\n"]).to_vec(),
            1 => format!("{}{}\r\n", *s.pick(&["1", "8", "f"]), "0123456789abcdef".repeat(s.range(1, 2))).into_bytes(),
            2 => s.pick(&[b"g\r\n".as_ref(), b"-1\r\n", b";x\r\n", b"+5\n", b"\x005\r\n", b"\xff\n", b"hello\n", b"x5\r\n"]).to_vec(),
            3 => [*s.pick(&SPACE), *s.pick(&[b"zz\r\n".as_ref(), b"=\n", b"\x01\r\n"])].concat(),
            4 => [*s.pick(&SPACE), *s.pick(&SPACE), b"GET / HTTP/1.1\r\n".as_ref()].concat(),
            _ => [*s.pick(&SPACE), b"10000000000000000\n".as_ref()].concat(),
        };
        out.extend(t);
        let m = s.range(0, 30);
        out.extend((0..m).map(|_| *s.pick(b"ab\r\n 05")));
        if resp {
            b.data.extend(&out[at..]);
            b.wire = (out.len() - start) as u64;
        } else {
            b.wire = (at - start) as u64;
        }
    } else {
        size_line(s, 0, &mut b, out);
        b.wire = (out.len() - start) as u64;
        if s.chance(1, 3) {
            out.extend(b"T: v\r\n");
        }
        out.extend(b"\r\n");
    }
    b.len = out.len() - start;
    b
}

/// the byte that shows that the line at `at` is no size
fn proof(v: &[u8], at: usize) -> usize {
    let line = at + v[at..].iter().position(|c| *c == b'\n').unwrap();
    match (at..line).find(|i| !matches!(v[*i], b'\r' | b' ' | b'\t' | 0x0b | 0x0c)) {
        Some(i) if !v[i].is_ascii_hexdigit() => i,
        _ => line,
    }
}

struct Ex {
    q: Option<Body>,
    r: Option<Body>,
    qend: usize,
    rend: usize,
}

pub fn chunks(s: &mut Src) -> R {
    let k = Knobs::draw(s);
    let n = s.range(1, 3);
    let end = s.usz(4); // 0: a request breaks down at the end, 1: a response
    let mut conv = Conv::default();
    let mut ex: Vec<Ex> = vec![];
    for i in 0..n {
        let last = i + 1 == n;
        let mut e = Ex { q: None, r: None, qend: 0, rend: 0 };
        if s.chance(2, 3) || last && end == 0 {
            conv.q.extend(format!("POST /{} HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n", i).into_bytes());
            e.q = Some(draw(s, false, last && end == 0, &mut conv.q));
        } else {
            conv.q.extend(format!("GET /{} HTTP/1.1\r\nHost: h\r\n\r\n", i).into_bytes());
        }
        if last && end == 0 {
            // nobody answers
        } else if s.chance(2, 3) || last && end == 1 {
            conv.r.extend(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n");
            e.r = Some(draw(s, true, last && end == 1, &mut conv.r));
        } else {
            conv.r.extend(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n");
        }
        e.qend = conv.q.len();
        e.rend = conv.r.len();
        ex.push(e);
    }
    let marks = |v: &[u8]| v.iter().enumerate().filter(|x| !matches!(x.1, b'a'..=b'z')).map(|x| x.0 + 1).collect::<Vec<_>>();
    conv.qmarks = marks(&conv.q);
    conv.rmarks = marks(&conv.r);
    let mut pol = Policy::draw(s);
    pol.half_close = false;
    pol.close |= end == 1;
    trace(|| format!("config {:?}", k));
    trace(|| format!("client bytes {}", show(&conv.q)));
    trace(|| format!("server bytes {}", show(&conv.r)));
    let mut cfg = k.config();
    cfg.log_level = level(3);
    let mut run = Run::new(RustApi::new(cfg, true), &conv, 0, pol.clone());
    run.ungated = true;
    run.open();
    run.lockstep(s, &ex.iter().map(|e| (e.qend, e.rend)).collect::<Vec<_>>());
    let (qdead, rdead) = (run.qdead, run.rdead);
    if pol.close {
        run.close();
    }
    let evs = rec::take();
    note(&run, &evs);
    for e in &evs {
        trace(|| format!("  call {} {:?} tx{} {}", e.call, e.kind, e.tx, match &e.p { P::Bytes(b) => show(b), o => format!("{:?}", o) }));
    }
    let want = if end == 0 { Some(St::Error) } else { None };
    if qdead != want || rdead.is_some() {
        return Err(format!("status|the request direction answered {:?} instead of {:?}, the response direction {:?}", qdead, want, rdead));
    }
    if end == 0 {
        let at = ex[n - 1].q.as_ref().unwrap().bad.unwrap();
        let Some(c) = run.calls.iter().find(|c| c.st == Some(St::Error)) else { unreachable!() };
        let Op::Seg(_, a, b) = c.op else { unreachable!() };
        let p = proof(&conv.q, at);
        if b <= p || a > p {
            return Err(format!("refused-at|the bad size is at {}, known as such at {}, refused in bytes {}..{}", at, p, a, b));
        }
    }
    if end == 1 {
        // from the byte on that shows there is no size, everything is handed on as it comes
        let at = ex[n - 1].r.as_ref().unwrap().bad.unwrap();
        let p = proof(&conv.r, at);
        let plain = ex[n - 1].r.as_ref().unwrap().data.len() - (conv.r.len() - at);
        for (j, c) in run.calls.iter().enumerate() {
            let Op::Seg(d, _, b) = c.op else { continue };
            if d != Dir::R || b <= p {
                continue;
            }
            let got: usize = evs.iter().filter(|e| e.kind == K::RespBody && e.tx == n - 1 && e.call <= j).map(|e| if let P::Bytes(x) = &e.p { x.len() } else { 0 }).sum();
            let want = plain + b - at;
            if got != want {
                return Err(format!("handed-on|call {} brought the bytes up to {} (no size at {}), {} body bytes instead of {}", j, b, at, got, want));
            }
        }
    }
    let (mut qext, mut rext) = (0, 0);
    for (i, e) in ex.iter().enumerate() {
        let t = oracle::of(&evs, 0, i);
        for (resp, b) in [(false, &e.q), (true, &e.r)] {
            let who = if resp { "response" } else { "request" };
            let (kc, kb) = if resp { (K::RespComplete, K::RespBody) } else { (K::ReqComplete, K::ReqBody) };
            let empty = Body::default();
            let b = b.as_ref().unwrap_or(&empty);
            if resp && end == 0 && i + 1 == n {
                continue;
            }
            let got = oracle::concat(&t, kb);
            if got != b.data {
                return Err(format!("{}-body|transaction {}: {} instead of {}", who, i, show(&got), show(&b.data)));
            }
            *(if resp { &mut rext } else { &mut qext }) += b.ext;
            stats::add("probe.odd_chunking", b.odd as u64);
            let done = t.iter().filter(|v| v.kind == kc).count();
            if b.bad.is_some() && !resp {
                stats::hit("probe.request_size_refused");
                continue;
            }
            stats::add("probe.response_size_refused", b.bad.is_some() as u64);
            if done != 1 {
                return Err(format!("{}-complete|transaction {} complete {} times", who, i, done));
            }
            let x = t.iter().find(|v| v.kind == kc).unwrap().snap.as_ref().unwrap();
            let (m, l) = if resp { (x.r_msg_len, x.r_ent_len) } else { (x.q_msg_len, x.q_ent_len) };
            if (m, l) != (b.wire, b.data.len() as u64) {
                return Err(format!("{}-lengths|transaction {}: message {} entity {} instead of {} and {}", who, i, m, l, b.wire, b.data.len()));
            }
        }
    }
    if evs.iter().any(|e| e.tx >= n) {
        return Err("surplus|more transactions than exchanges".into());
    }
    let logs = run.api.logs();
    let count = |c: &str| logs.iter().filter(|l| l.0 == c).count();
    let got = (count("REQUEST_CHUNK_EXTENSION"), count("RESPONSE_CHUNK_EXTENSION"), count("INVALID_REQUEST_CHUNK_LEN"), count("INVALID_RESPONSE_CHUNK_LEN"));
    let want = (qext, rext, (end == 0) as usize, (end == 1) as usize);
    if got != want {
        return Err(format!("warnings|(request extensions, response extensions, bad request sizes, bad response sizes): {:?} instead of {:?}", got, want));
    }
    Ok(())
}
