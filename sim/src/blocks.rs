//! C20: header and trailer blocks of any shape: odd line ends, folding, missing colons, white space, NUL and 8-bit
//! bytes, repetition. A reference reader written line by line says what each block means; the parser must say the same
//! wherever the network cuts it.
use crate::drive::*;
use crate::oracle;
use crate::props::*;
use crate::rec::{self, K, P};
use crate::rng::Src;
use crate::stats;
use crate::wire::*;
use htp::util::HtpFlags;
use std::collections::BTreeSet;

type R = Result<(), String>;

/// one field as the application sees it
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Field {
    pub name: Vec<u8>,
    pub value: Vec<u8>,
    pub flags: u64,
}
/// what a block means
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Block {
    pub fields: Vec<Field>,
    tx_flags: u64,
    warnings: BTreeSet<&'static str>,
    /// bytes up to and including the empty line
    pub len: usize,
    /// how many repetitions have been counted
    reps: usize,
    /// how many were malformed, folded, or ended in an unusual way
    odd: usize,
}

fn lws(c: Option<&u8>) -> bool {
    matches!(c, Some(b' ' | b'\t' | 0))
}
fn blank(c: u8) -> bool {
    c == b' ' || c == b'\t'
}
fn trim(v: &[u8]) -> &[u8] {
    let ws = |c: &u8| matches!(*c, b' ' | 9..=13);
    let a = v.iter().position(|c| !ws(c)).unwrap_or(v.len());
    let b = v.iter().rposition(|c| !ws(c)).map(|x| x + 1).unwrap_or(a);
    &v[a..b]
}
fn token(c: u8) -> bool {
    (33..127).contains(&c) && !b"()<>@,;:\\\"/[]?={}".contains(&c)
}
/// the line end at the start of `d`: its length, and whether it is a deformed one. `None`: no line end.
fn line_end(resp: bool, d: &[u8]) -> Option<(usize, bool)> {
    let after = |n: usize, t: &[u8]| d.len() >= n && d[n..].starts_with(t);
    if d.starts_with(b"\n\r\r\n") && (after(4, b"\n") || after(4, b"\r\n")) {
        return Some((4, true));
    }
    if !resp {
        return if d.starts_with(b"\n\r\r\n") {
            Some((2, true))
        } else if d.starts_with(b"\r\n") {
            Some((2, false))
        } else if d.starts_with(b"\n") {
            Some((1, false))
        } else {
            None
        };
    }
    if d.starts_with(b"\r\n\r") {
        let mut n = 3;
        while matches!(d.get(n), Some(b'\r' | b' ' | b'\t')) {
            n += 1;
        }
        if n > 3 {
            if d.get(n) == Some(&b'\n') {
                n += 1;
            }
            if !after(n, b"\n") && !after(n, b"\r\n") {
                return Some((n, true));
            }
        }
    }
    plain_end(d).map(|n| (n, false))
}
/// any of the line ends a response may use
fn plain_end(d: &[u8]) -> Option<usize> {
    match d {
        [b'\r', b'\n', ..] | [b'\n', b'\r', ..] => Some(2),
        [b'\r', ..] | [b'\n', ..] => Some(1),
        _ => None,
    }
}

struct Reader<'a> {
    d: &'a [u8],
    resp: bool,
    deformed: bool,
}
impl Reader<'_> {
    /// the rest of the line at `i`: (text, length of its line end, where it goes on, byte that folds the next line into it)
    fn line(&mut self, i: usize) -> Option<(Vec<u8>, usize, usize, Option<u8>)> {
        let d = self.d;
        let mut e = i + d[i..].iter().position(|c| *c == b'\n' || self.resp && *c == b'\r')?;
        if !self.resp && e > i && d[e - 1] == b'\r' {
            e -= 1;
        }
        let text = d[i..e].to_vec();
        let simple = if self.resp { plain_end(&d[e..])? } else { line_end(false, &d[e..])?.0 };
        if lws(d.get(e + simple)) {
            return Some((text, simple, e + simple + 1, Some(d[e + simple])));
        }
        let (n, bad) = line_end(self.resp, &d[e..])?;
        self.deformed |= bad;
        Some((text, n, e + n, None))
    }
    /// does a response line that looks folded begin with a field name?
    fn names(&self, i: usize) -> bool {
        let d = &self.d[i..];
        let a = d.iter().position(|c| !blank(*c)).unwrap_or(d.len());
        let b = a + d[a..].iter().position(|c| !token(*c)).unwrap_or(d.len() - a);
        let c = b + d[b..].iter().position(|c| !blank(*c)).unwrap_or(d.len() - b);
        b > a && d.get(c) == Some(&b':')
    }
    /// a value that begins at `i`, with the lines folded into it: (value, folded, where it goes on)
    fn value(&mut self, i: usize) -> Option<(Vec<u8>, bool, usize)> {
        let (mut v, _, mut rest, mut fold) = self.line(i)?;
        let mut folded = false;
        let mut at = rest;
        while let Some(f) = fold {
            if self.resp && self.names(at) {
                // not folding but a field with white space in front of its name
                return Some((v, folded, at));
            }
            folded = true;
            let (t, n, next, more) = self.line(at)?;
            at = next;
            if !v.is_empty() {
                v.push(f);
            }
            if !t.is_empty() || n > 1 {
                v.extend(&t);
                rest = next;
            } else if self.d.get(next) == Some(&b'\n') {
                rest = next;
            }
            fold = more;
        }
        Some((v, folded, rest))
    }
    /// where the name of the field at `i` ends, if the line has one
    fn colon(&self, i: usize) -> Option<usize> {
        let mut j = i;
        loop {
            match self.d.get(j)? {
                b':' => return Some(j),
                b'\n' if self.d.get(j + 1) != Some(&b' ') => return None,
                b'\n' => j += 2,
                _ => j += 1,
            }
        }
    }
}

/// Reads a block. `None`: it never ends, or is outside the claim (a bare CR in a response's field name).
pub fn read(d: &[u8], resp: bool, into: &Block, prior: u64) -> Option<Block> {
    let mut b = Block { fields: into.fields.clone(), tx_flags: prior, reps: into.reps, ..Default::default() };
    for e in [b"\r\n".as_ref(), b"\n"] {
        if d.starts_with(e) {
            b.len = e.len();
            return Some(b);
        }
    }
    let mut r = Reader { d, resp, deformed: false };
    let mut i = 0;
    loop {
        r.deformed = false;
        let mut flags = 0;
        let warn = |c: (&'static str, &'static str), f: u64, b: &mut Block, flags: &mut u64| {
            // each kind of flag is warned about once
            if b.tx_flags & f == 0 {
                b.warnings.insert(if resp { c.1 } else { c.0 });
            }
            b.tx_flags |= f;
            *flags |= f;
        };
        let (name, value, folded, next);
        match r.colon(i) {
            Some(c) => {
                let n = &d[i..c];
                if resp && n.iter().enumerate().any(|(k, x)| *x == b'\r' && n.get(k + 1) != Some(&b'\n')) {
                    return None;
                }
                let mut j = c + 1;
                while d.get(j).is_some_and(|c| blank(*c)) {
                    j += 1;
                }
                (value, folded, next) = r.value(j)?;
                if n.last().is_some_and(|c| blank(*c)) {
                    warn(("REQUEST_INVALID_LWS_AFTER_NAME", "RESPONSE_INVALID_LWS_AFTER_NAME"), HtpFlags::FIELD_INVALID, &mut b, &mut flags);
                }
                if n.first().is_some_and(|c| blank(*c)) {
                    warn(("INVALID_REQUEST_FIELD_FOLDING", "INVALID_RESPONSE_FIELD_FOLDING"), HtpFlags::INVALID_FOLDING, &mut b, &mut flags);
                    if resp {
                        flags |= HtpFlags::FIELD_INVALID;
                    }
                }
                let (x, y) = (n.iter().position(|c| !blank(*c)), n.iter().rposition(|c| !blank(*c)));
                if let (Some(x), Some(y)) = (x, y) {
                    if n[x..=y].iter().any(|c| !token(*c)) {
                        warn(("REQUEST_HEADER_INVALID", "RESPONSE_HEADER_NAME_NOT_TOKEN"), HtpFlags::FIELD_INVALID, &mut b, &mut flags);
                    }
                }
                if n.is_empty() {
                    warn(("REQUEST_INVALID_EMPTY_NAME", "RESPONSE_INVALID_EMPTY_NAME"), HtpFlags::FIELD_INVALID, &mut b, &mut flags);
                }
                name = trim(n).to_vec();
            }
            None => {
                (value, folded, next) = r.value(i)?;
                name = vec![];
                warn(("REQUEST_FIELD_MISSING_COLON", "RESPONSE_FIELD_MISSING_COLON"), HtpFlags::FIELD_UNPARSEABLE, &mut b, &mut flags);
                if resp {
                    flags |= HtpFlags::FIELD_INVALID;
                }
            }
        }
        if folded && !resp {
            flags |= HtpFlags::FIELD_FOLDED;
        }
        if r.deformed && resp {
            b.warnings.insert("DEFORMED_EOL");
        }
        b.odd += (flags != 0 || folded || r.deformed) as usize;
        let f = Field { name, value: trim(&value).to_vec(), flags };
        match b.fields.iter_mut().find(|x| x.name.eq_ignore_ascii_case(&f.name)) {
            Some(x) => {
                // of the third and further fields of a name, 64 are kept
                let kept = x.flags & HtpFlags::FIELD_REPEATED == 0 || b.reps < 64;
                if x.flags & HtpFlags::FIELD_REPEATED == 0 {
                    b.warnings.insert(if resp { "RESPONSE_HEADER_REPETITION" } else { "REQUEST_HEADER_REPETITION" });
                } else {
                    b.reps += 1;
                }
                x.flags |= HtpFlags::FIELD_REPEATED;
                // lengths are compared, not joined
                if kept && !f.name.eq_ignore_ascii_case(b"content-length") {
                    x.value.extend(b", ");
                    x.value.extend(&f.value);
                }
            }
            None => b.fields.push(f),
        }
        i = next;
        if d[i..].starts_with(b"\r\n") {
            b.len = i + 2;
            return Some(b);
        }
        if let Some((n, _)) = line_end(resp, &d[i..]) {
            b.len = i + n;
            return Some(b);
        }
        if i >= d.len() {
            return None;
        }
    }
}

fn wild(s: &mut Src) -> Vec<u8> {
    let mut o = vec![];
    let n = s.range(0, 14);
    for _ in 0..n {
        let t: &[u8] = match s.weighted(&[8, 6, 5, 4, 4, 3, 3, 2, 2, 1, 1, 2, 2, 1, 1]) {
            0 => b"\r\n",
            1 => *s.pick(&[b"a".as_ref(), b"b", b"A", b"x-Y", b"B"]),
            2 => *s.pick(&[b": ".as_ref(), b":"]),
            3 => *s.pick(&[b"d: e\r\n".as_ref(), b"a: 1\r\n", b"A: 2\n", b"b:\r\n", b"q:r"]),
            4 => b" ",
            5 => b"\n",
            6 => *s.pick(&[b"v w".as_ref(), b"x, y", b"v:w"]),
            7 => b"\t",
            8 => b"\0",
            9 => b"\n\r",
            10 => b"\r",
            11 => *s.pick(&[b"\r\n ".as_ref(), b"\r\n\t", b"\n ", b"\r\n\0", b" \r\n"]),
            12 => *s.pick(&[b"(".as_ref(), b"=", b"\x01", b"\x80", b"\xff", b";", b"\x7f", b"\x0b", b"\x0c"]),
            13 => *s.pick(&[b"\n\r\r\n".as_ref(), b"\r\n\r \r\n", b"\r\n\r\r", b"\r\n\r\t"]),
            _ => *s.pick(&[b"\r\r\n".as_ref(), b"\n\n", b"\r\n\r\n"]),
        };
        // most blocks should not end at once
        if t[0] < 14 && t[0] != 9 && (o.is_empty() || o.ends_with(b"\n")) && !s.chance(1, 6) {
            o.extend(b"k");
        }
        o.extend(t);
    }
    o
}

/// a block whose fixed lines keep their meaning, and which ends at its last byte unless `last`
fn draw(s: &mut Src, resp: bool, fixed: &[u8], into: &Block, prior: u64, keep: &[(&[u8], &[u8])], last: bool, next: u8) -> (Vec<u8>, Block) {
    let kept = |b: &Block| keep.iter().all(|(n, v)| b.fields.iter().any(|f| f.name.eq_ignore_ascii_case(n) && f.value == *v && f.flags == 0));
    let mut w = wild(s);
    // an unusual end, but one that does not depend on what follows it
    if s.chance(1, 3) {
        let mut d = fixed.to_vec();
        d.extend(&w);
        if s.flip() {
            d.extend(*s.pick(&[b"Z: z".as_ref(), b"Z:", b"z", b"Z: z\r\n y", b"Z: z "]));
        }
        d.extend(*s.pick(&[
            b"\n\n".as_ref(), b"\r\n\n", b"\n\r\n", b"\n \n\n", b"\n\t\n\n", b"\r\n \n\n", b"\r\n \r\n\r\n", b"\n \r\n\r\n", b"\n \n\r\n", b"\n \n \n\n",
            b"\n \r\n\n", b"\r\n \r\n \r\n\r\n", b"\n\r\r\n\r\n", b"\n\r\r\n\r\r\n", b"\r\n\r\r\n", b"\r\r\n\r\n", b"\n\n\r\n", b"\n\r\n\r\n", b"\r\n\0\r\n\r\n",
        ]));
        let mut f = d.clone();
        f.push(next);
        if let (Some(a), Some(b)) = (read(&d, resp, into, prior), read(&f, resp, into, prior)) {
            // nor on how much of it has been seen
            if a == b && a.len == d.len() && kept(&a) && (0..d.len()).all(|c| read(&d[..c], resp, into, prior).is_none()) {
                stats::hit("probe.odd_block_end");
                return (d, a);
            }
        }
    }
    loop {
        let mut d = fixed.to_vec();
        d.extend(&w);
        if !w.is_empty() && !w.ends_with(b"\n") {
            d.extend(b"\r\n");
        }
        if s.flip() || !w.is_empty() {
            d.extend(b"Z: z\r\n");
        }
        d.extend(b"\r\n");
        if let Some(b) = read(&d, resp, into, prior) {
            let exact = b.len == d.len();
            if kept(&b) && (exact || last) {
                return (d, b);
            }
        }
        if w.is_empty() {
            // only the fixed lines: these always work
            unreachable!("harness: fixed lines {:?}", show(&d));
        }
        w.clear();
    }
}

/// now and then more repeated fields than are kept
fn many(s: &mut Src) -> Vec<u8> {
    let mut o = vec![];
    if s.chance(1, 50) {
        stats::hit("probe.many_repetitions");
        let long = if s.chance(1, 3) { s.range(1, 300) } else { 0 };
        let names: [&str; 3] = *s.pick(&[["a", "r", "A"], ["a", "r", "A"], ["Date", "from", "DATE"], ["x-long-name", "Via", "X-Long-Name"], ["set-cookie", "Set-Cookie", "cookie"]]);
        for i in 0..s.range(1, 80) {
            o.extend(format!("{}: {}{}\r\n", s.pick(&names), i, "x".repeat(long)).into_bytes());
        }
    } else if s.chance(1, 50) {
        // a long name, a long value, a field of many lines
        let n = s.range(1, 900);
        match s.usz(3) {
            0 => o.extend(format!("{}: v\r\n", "n".repeat(n)).into_bytes()),
            1 => o.extend(format!("w: {}\r\n", "v".repeat(n * 6)).into_bytes()),
            _ => {
                o.extend(b"f: 0\r\n");
                for i in 0..n.min(100) {
                    o.extend(format!(" {}\r\n", i).into_bytes());
                }
            }
        }
    }
    o
}

struct Ex {
    q: Block,
    qt: Option<Block>,
    r: Block,
    rt: Option<Block>,
    qraw: Vec<u8>,
    rraw: Vec<u8>,
    qtraw: Vec<u8>,
    rtraw: Vec<u8>,
    qbody: Vec<u8>,
    rbody: Vec<u8>,
    qend: usize,
    rend: usize,
}

const MASK: u64 = HtpFlags::FIELD_INVALID | HtpFlags::FIELD_UNPARSEABLE | HtpFlags::INVALID_FOLDING | HtpFlags::FIELD_FOLDED | HtpFlags::FIELD_REPEATED;
const CODES: [&str; 15] = [
    "REQUEST_INVALID_LWS_AFTER_NAME", "RESPONSE_INVALID_LWS_AFTER_NAME", "INVALID_REQUEST_FIELD_FOLDING", "INVALID_RESPONSE_FIELD_FOLDING", "REQUEST_HEADER_INVALID",
    "RESPONSE_HEADER_NAME_NOT_TOKEN", "REQUEST_INVALID_EMPTY_NAME", "RESPONSE_INVALID_EMPTY_NAME", "REQUEST_FIELD_MISSING_COLON", "RESPONSE_FIELD_MISSING_COLON",
    "DEFORMED_EOL", "RESPONSE_HEADER_REPETITION", "REQUEST_HEADER_REPETITION", "DUPLICATE_CONTENT_LENGTH_FIELD_IN_REQUEST", "DUPLICATE_CONTENT_LENGTH_FIELD_IN_RESPONSE",
];

pub fn blocks(s: &mut Src) -> R {
    let k = Knobs::draw(s);
    let n = s.range(1, 3);
    let mut conv = Conv::default();
    let mut ex: Vec<Ex> = vec![];
    for i in 0..n {
        let last = i + 1 == n;
        let mut one = |resp: bool, prior: u64, out: &mut Vec<u8>| {
            let framing = s.usz(3);
            let body: Vec<u8> = (0..if framing == 0 { 0 } else { s.range(1, 9) }).map(|j| b'm' + (j % 9) as u8).collect();
            let cl = body.len().to_string();
            let mut fixed = vec![];
            let mut keep: Vec<(&[u8], &[u8])> = vec![];
            if !resp && s.flip() {
                fixed.extend(b"Host: h\r\n");
            }
            if framing == 2 {
                fixed.extend(b"Transfer-Encoding: chunked\r\n");
                keep.push((b"transfer-encoding", b"chunked"));
            } else if resp || framing == 1 {
                fixed.extend(format!("Content-Length: {}\r\n", cl).into_bytes());
                keep.push((b"content-length", cl.as_bytes()));
            }
            fixed.extend(many(s));
            out.extend(if resp { b"HTTP/1.1 200 OK\r\n".to_vec() } else { format!("{} /{} HTTP/1.1\r\n", if framing == 0 { "GET" } else { "POST" }, i).into_bytes() });
            // an early end of the block leaves bytes behind: only where nothing follows
            let (raw, b) = draw(s, resp, &fixed, &Block::default(), prior, &keep, last && framing == 0, if framing > 0 { if framing == 1 { b'm' } else { b'1' } } else if resp { b'H' } else { b'G' });
            out.extend(&raw);
            let mut t = None;
            let mut traw = vec![];
            if framing == 2 {
                let cut = s.range(0, body.len());
                for c in [&body[..cut], &body[cut..]] {
                    if !c.is_empty() {
                        out.extend(format!("{:x}\r\n", c.len()).into_bytes());
                        out.extend(c);
                        out.extend(b"\r\n");
                    }
                }
                out.extend(b"0\r\n");
                let m = many(s);
                let (r, tb) = draw(s, resp, &m, &b, b.tx_flags, &keep, last, if resp { b'H' } else { b'G' });
                out.extend(&r);
                traw = r;
                t = Some(tb);
            } else {
                out.extend(&body);
            }
            (raw, b, t, traw, body)
        };
        let (qraw, q, qt, qtraw, qbody) = one(false, 0, &mut conv.q);
        let (rraw, r, rt, rtraw, rbody) = one(true, qt.as_ref().unwrap_or(&q).tx_flags, &mut conv.r);
        ex.push(Ex { q, qt, r, rt, qraw, rraw, qtraw, rtraw, qbody, rbody, qend: conv.q.len(), rend: conv.r.len() });
    }
    let marks = |v: &[u8]| v.iter().enumerate().filter(|x| matches!(x.1, b'\n' | b'\r' | b':' | b' ')).map(|x| x.0 + 1).collect::<Vec<_>>();
    conv.qmarks = marks(&conv.q);
    conv.rmarks = marks(&conv.r);
    let mut pol = Policy::draw(s);
    pol.half_close = false;
    trace(|| format!("config {:?}", k));
    trace(|| format!("client bytes {}", show(&conv.q)));
    trace(|| format!("server bytes {}", show(&conv.r)));
    let mut cfg = k.config();
    cfg.log_level = level(3);
    let mut run = Run::new(RustApi::new(cfg, true), &conv, 0, pol.clone());
    run.ungated = true;
    run.open();
    run.lockstep(s, &ex.iter().map(|e| (e.qend, e.rend)).collect::<Vec<_>>());
    if pol.close {
        run.close();
    }
    let evs = rec::take();
    note(&run, &evs);
    for e in &evs {
        trace(|| format!("  call {} {:?} tx{} {}", e.call, e.kind, e.tx, match &e.p { P::Bytes(b) => show(b), o => format!("{:?}", o) }));
    }
    let mut warned: BTreeSet<&str> = BTreeSet::new();
    let mut early = false;
    for (i, e) in ex.iter().enumerate() {
        let t = oracle::of(&evs, 0, i);
        for (resp, head, trailer, raw, traw, body) in [(false, &e.q, &e.qt, &e.qraw, &e.qtraw, &e.qbody), (true, &e.r, &e.rt, &e.rraw, &e.rtraw, &e.rbody)] {
            let who = if resp { "response" } else { "request" };
            let (kh, kt, kc, kd, ktd, kb) = if resp {
                (K::RespHeaders, K::RespTrailer, K::RespComplete, K::RespHeaderData, K::RespTrailerData, K::RespBody)
            } else {
                (K::ReqHeaders, K::ReqTrailer, K::ReqComplete, K::ReqHeaderData, K::ReqTrailerData, K::ReqBody)
            };
            let mut surplus = false;
            for (what, kk, b, raw, kd) in [("headers", kh, Some(head), raw, kd), ("trailer", kt, trailer.as_ref(), traw, ktd)] {
                let Some(b) = b else { continue };
                stats::add("probe.odd_fields", b.odd as u64);
                stats::add("probe.block_ends_early", (b.len < raw.len()) as u64);
                stats::add("probe.odd_trailer", (what == "trailer" && b.odd > 0) as u64);
                // whether an end of line at the very end of the block is deformed depends on bytes that follow the block
                warned.extend(b.warnings.iter().filter(|c| b.len == raw.len() || **c != "DEFORMED_EOL"));
                early |= b.len < raw.len();
                surplus |= b.len < raw.len();
                let at: Vec<_> = t.iter().filter(|v| v.kind == kk).collect();
                if at.len() != 1 {
                    return Err(format!("count|{} {} of transaction {} reported {} times", who, what, i, at.len()));
                }
                let x = at[0].snap.as_ref().unwrap();
                let (hs, fl) = if resp { (&x.r_headers, &x.r_hflags) } else { (&x.headers, &x.hflags) };
                let got: Vec<Field> = hs.iter().zip(fl).map(|(h, f)| Field { name: h.0.clone(), value: h.1.clone(), flags: f & MASK }).collect();
                if got != b.fields {
                    let d = got.iter().zip(&b.fields).position(|(a, b)| a != b).unwrap_or(got.len().min(b.fields.len()));
                    let p = |f: Option<&Field>| f.map(|f| format!("{}={} flags {:x}", show(&f.name), show(&f.value), f.flags)).unwrap_or("nothing".into());
                    return Err(format!("{}-{}|transaction {} field {}: {} instead of {}", who, what, i, d, p(got.get(d)), p(b.fields.get(d))));
                }
                let raw_got = oracle::concat(&t, kd);
                if b.len == raw.len() && raw_got != *raw {
                    return Err(format!("{}-{}-raw|transaction {}: {} instead of {}", who, what, i, show(&raw_got), show(raw)));
                }
            }
            if t.iter().filter(|v| v.kind == kc).count() != 1 {
                return Err(format!("incomplete|{} of transaction {} not reported complete once", who, i));
            }
            let got = oracle::concat(&t, kb);
            if got != *body && !surplus {
                return Err(format!("body|{} of transaction {}: {} instead of {}", who, i, show(&got), show(body)));
            }
        }
        let want = e.rt.as_ref().unwrap_or(&e.r).tx_flags;
        let x = t.iter().rev().find(|v| v.kind == K::RespComplete).unwrap().snap.as_ref().unwrap();
        if x.flags & (MASK & !HtpFlags::FIELD_REPEATED & !HtpFlags::FIELD_FOLDED) != want {
            return Err(format!("flags|transaction {}: {:x} instead of {:x}", i, x.flags & MASK, want));
        }
    }
    let logs = run.api.logs();
    let got: BTreeSet<&str> = logs.iter().map(|l| l.0.as_str()).filter(|c| CODES.contains(c)).collect();
    if !warned.is_subset(&got) || !early && got != warned {
        return Err(format!("warnings|{:?} instead of {:?}", got, warned));
    }
    Ok(())
}
