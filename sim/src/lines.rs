//! C27: start lines of any shape: white space of all kinds between, before and behind the parts, unknown methods, bad
//! protocols, bad status codes, NUL and 8-bit bytes. A reference reader says what each line means; the parser must say
//! the same wherever the network cuts it.
use crate::drive::*;
use crate::oracle;
use crate::props::*;
use crate::rec::{self, K, P};
use crate::rng::Src;
use crate::stats;
use crate::wire::*;
use htp::config::{HtpServerPersonality, HtpUnwanted};
use htp::util::HtpFlags;
use std::collections::BTreeMap;

type R = Result<(), String>;
type B = Option<Vec<u8>>;
type Warned = BTreeMap<&'static str, usize>;

const KNOWN: [&str; 26] = [
    "GET", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "PROPFIND", "LOCK", "REPORT", "TRACE", "PROPPATCH", "MKCOL", "COPY", "MOVE", "UNLOCK", "VERSION-CONTROL", "CHECKOUT",
    "UNCHECKOUT", "CHECKIN", "UPDATE", "LABEL", "MKWORKSPACE", "MKACTIVITY", "BASELINE-CONTROL", "MERGE", "INVALID",
];
const ODD: [&[u8]; 10] = [b"get", b"FOO", b"G\0ET", b"GET\x80", b"{}", b"GET:", b"HTTP/1.1", b"\x01", b"Post", b"GETT"];
const SPACES: [&[u8]; 9] = [b" ", b" ", b"  ", b"\t", b" \t", b"\x0b", b"\x0c", b"\r", b" \r "];
const PROTOS: [&[u8]; 24] = [
    b"HTTP/1.1", b"HTTP/1.0", b"HTTP/1.1", b"HTTP/0.9", b"HTTP/.9", b"http/1.1", b"hTTp/1.0", b"HTTP/01.1", b"HTTP/0001.0", b"HTTP/00.9", b"HTTP/2.0", b"HTTP/1.2", b"HTTP/1", b"HTTP/1.10",
    b"HTTP", b"HTTP/", b"HTTPS/1.1", b"JUNK", b"HTTP/1.1x", b"HTTP/10.1", b"HTTP/-1.1", b"HTTP/1.1\0", b"\x80", b"1.1",
];

fn space(c: u8) -> bool {
    matches!(c, b' ' | 9..=13)
}
fn ascii_space(c: u8) -> bool {
    space(c) && c != 11
}
fn trim(v: &[u8]) -> &[u8] {
    let a = v.iter().position(|c| !space(*c)).unwrap_or(v.len());
    let b = v.iter().rposition(|c| !space(*c)).map_or(a, |x| x + 1);
    &v[a..b]
}
/// as many bytes from the front as satisfy `f`
fn take<'a>(d: &mut &'a [u8], f: impl Fn(u8) -> bool) -> &'a [u8] {
    let n = d.iter().position(|c| !f(*c)).unwrap_or(d.len());
    let (a, b) = d.split_at(n);
    *d = b;
    a
}
fn chomp(mut d: &[u8]) -> &[u8] {
    while let Some(r) = d.strip_suffix(b"\n").or(d.strip_suffix(b"\r")) {
        d = r;
    }
    d
}
/// the number of a protocol, and whether it is written in an unusual way
fn number(p: &[u8]) -> (i32, bool) {
    let mut d = p;
    take(&mut d, ascii_space);
    if d.len() < 4 || !d[..4].eq_ignore_ascii_case(b"http") {
        return (-2, false);
    }
    d = &d[4..];
    let a = take(&mut d, ascii_space);
    let Some(mut d) = d.strip_prefix(b"/") else { return (-2, false) };
    let z = take(&mut d, |c| ascii_space(c) || c == b'0');
    for (t, n) in [(b".9".as_ref(), 9), (b"1.0", 100), (b"1.1", 101)] {
        if let Some(mut r) = d.strip_prefix(t) {
            take(&mut r, ascii_space);
            return if r.is_empty() { (n, !a.is_empty() || !z.is_empty()) } else { (-2, false) };
        }
    }
    (-2, false)
}

#[derive(PartialEq, Eq)]
struct ReqLine {
    line: B,
    method: B,
    class: String,
    uri: B,
    proto: B,
    num: i32,
}
impl std::fmt::Debug for ReqLine {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "method {} ({}) target {} protocol {} ({})", part(&self.method), self.class, part(&self.uri), part(&self.proto), self.num)
    }
}
fn part(b: &B) -> String {
    b.as_ref().map_or("none".into(), |b| show(b))
}
/// `None`: there is no protocol (see C26)
fn read_request(raw: &[u8], apache: bool, spaces: bool, lead: bool, w: &mut Warned) -> Option<(ReqLine, bool)> {
    let mut warn = |c| *w.entry(c).or_default() += 1;
    let line = chomp(raw);
    let mut d = if apache { line.split(|c| *c == 0).next().unwrap() } else { line };
    let ls = take(&mut d, space);
    let m = take(&mut d, |c| !space(c));
    let ws = take(&mut d, space);
    let method = if lead { [ls, m].concat() } else { m.to_vec() };
    let class = KNOWN.iter().find(|k| k.as_bytes() == method).map_or("UNKNOWN".into(), |k| k.replace('-', "_"));
    if !ls.is_empty() {
        warn("REQUEST_LINE_LEADING_WHITESPACE");
    }
    if ws.iter().any(|c| *c != b' ') {
        warn("METHOD_DELIM_NON_COMPLIANT");
    }
    let d = trim(d);
    let split = |f: &dyn Fn(u8) -> bool| {
        let at = if spaces { d.iter().rposition(|c| f(*c)) } else { d.iter().position(|c| f(*c)) };
        at.map_or((d, b"".as_ref()), |i| (trim(&d[..i]), trim(&d[i + 1..])))
    };
    let (mut uri, mut proto) = split(&|c| c == b' ');
    if uri.len() == d.len() && uri.iter().any(|c| space(*c)) {
        warn("URI_DELIM_NON_COMPLIANT");
        (uri, proto) = split(&space);
    }
    if proto.is_empty() {
        return None;
    }
    let (num, odd) = number(proto);
    if odd {
        warn("PROTOCOL_CONTAINS_EXTRA_DATA");
    }
    if num < 0 && class == "UNKNOWN" {
        warn("REQUEST_LINE_UNKNOWN_METHOD_INVALID_PROTOCOL");
    }
    Some((ReqLine { line: Some(line.to_vec()), method: Some(method), class, uri: Some(uri.to_vec()), proto: Some(proto.to_vec()), num }, !ls.is_empty()))
}

#[derive(PartialEq, Eq)]
struct RespLine {
    line: B,
    proto: B,
    num: i32,
    status: B,
    code: i32,
    message: B,
    invalid: bool,
}
impl std::fmt::Debug for RespLine {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "line {} protocol {} ({}) status {} ({}) message {} invalid {}", part(&self.line), part(&self.proto), self.num, part(&self.status), self.code, part(&self.message), self.invalid)
    }
}
fn read_response(line: &[u8], w: &mut Warned) -> RespLine {
    let mut warn = |c| *w.entry(c).or_default() += 1;
    let mut d = line;
    take(&mut d, |c| space(c) || c == 0);
    let p = take(&mut d, |c| !space(c));
    let ws1 = take(&mut d, space);
    let st = take(&mut d, |c| !space(c));
    let ws2 = take(&mut d, ascii_space);
    let (num, odd) = number(p);
    if odd {
        warn("PROTOCOL_CONTAINS_EXTRA_DATA");
    }
    let status = (!ws1.is_empty() && !st.is_empty()).then(|| st.to_vec());
    let code = status
        .as_ref()
        .filter(|t| t.iter().all(|c| c.is_ascii_digit()))
        .and_then(|t| String::from_utf8(t.clone()).unwrap().parse::<u128>().ok())
        .filter(|n| (100..=999).contains(n))
        .map_or(-1, |n| n as i32);
    let message = (status.is_some() && !ws2.is_empty()).then(|| chomp(d).to_vec());
    if num < 0 {
        warn("RESPONSE_LINE_INVALID_PROTOCOL");
    }
    if code < 0 {
        warn("RESPONSE_LINE_INVALID_RESPONSE_STATUS");
    }
    RespLine { line: Some(line.to_vec()), proto: Some(p.to_vec()), num, status, code, message, invalid: num < 0 || code < 0 }
}

struct Ex {
    q: ReqLine,
    lead: bool,
    r: RespLine,
    qend: usize,
    rend: usize,
    body: Vec<u8>,
    ignored: (usize, usize),
}
const CODES: [&str; 7] = [
    "REQUEST_LINE_LEADING_WHITESPACE", "METHOD_DELIM_NON_COMPLIANT", "URI_DELIM_NON_COMPLIANT", "PROTOCOL_CONTAINS_EXTRA_DATA", "REQUEST_LINE_UNKNOWN_METHOD_INVALID_PROTOCOL",
    "RESPONSE_LINE_INVALID_PROTOCOL", "RESPONSE_LINE_INVALID_RESPONSE_STATUS",
];

pub fn lines(s: &mut Src) -> R {
    let k = Knobs::draw(s);
    let mut cfg = k.config();
    cfg.log_level = level(3);
    let apache = cfg.server_personality == HtpServerPersonality::APACHE_2;
    // not a personality one can ask for, but the field is there
    if k.pers == 4 {
        cfg.server_personality = HtpServerPersonality::IIS_5_0;
    }
    let iis5 = cfg.server_personality == HtpServerPersonality::IIS_5_0;
    let spaces = s.chance(1, 3);
    cfg.set_allow_space_uri(spaces);
    let unw = *s.pick(&[HtpUnwanted::IGNORE, HtpUnwanted::CODE_400, HtpUnwanted::CODE_404]);
    cfg.set_requestline_leading_whitespace_unwanted(unw);
    let lead = unw != HtpUnwanted::IGNORE;
    let n = s.range(1, 4);
    let mut conv = Conv::default();
    let mut ex: Vec<Ex> = vec![];
    let mut warned = Warned::new();
    for i in 0..n {
        let mut ignored = (0, 0);
        // nothing but white space in front of the first line
        if i == 0 && s.chance(1, 4) {
            for (c, out) in [(&mut ignored.0, &mut conv.q), (&mut ignored.1, &mut conv.r)] {
                let most = if s.chance(1, 12) { 40 } else { 2 };
                for _ in 0..s.range(0, most) {
                    if iis5 && s.flip() {
                        out.extend(*s.pick(&[b" ".as_ref(), b"\t \x0b"]));
                    }
                    out.extend(*s.pick(&[b"\r\n".as_ref(), b"\n"]));
                    *c += 1;
                }
            }
        }
        let mut raw = vec![];
        let mut plain = s.chance(1, 6);
        let (q, lead) = loop {
            raw.clear();
            if plain {
                raw.extend(b"GET / HTTP/1.1\r\n");
            } else {
                if s.chance(1, 5) {
                    raw.extend(*s.pick(&SPACES));
                }
                // whether an unknown method behind another request starts a new one depends on the cuts (by design)
                raw.extend(if i > 0 || s.chance(2, 3) { s.pick(&KNOWN).as_bytes() } else { *s.pick(&ODD) });
                raw.extend(*s.pick(&SPACES));
                raw.extend(*s.pick(&[b"/".as_ref(), b"/a/b", b"/a?b=c", b"*", b"/a b", b"/a\tb c", b"/a \x0b", b"HTTP/1.1", b"/\x80", b"/x\0y"]));
                if s.chance(1, 30) {
                    raw.extend(s.pick(&["a", "b c", " ", "\t"]).repeat(s.range(1, 900)).into_bytes());
                }
                for j in 0..s.range(1, 2) {
                    raw.extend(*s.pick(&SPACES));
                    raw.extend(*s.pick(&PROTOS));
                    if j == 0 && s.chance(1, 8) {
                        raw.extend(*s.pick(&SPACES));
                    }
                }
                if s.chance(1, 8) {
                    raw.extend(*s.pick(&[b" ".as_ref(), b"\r", b"\t", b"\0", b"\0x y"]));
                }
                raw.extend(*s.pick(&[b"\r\n".as_ref(), b"\r\n", b"\n"]));
            }
            let mut w = warned.clone();
            if let Some(x) = read_request(&raw, apache, spaces, lead, &mut w) {
                warned = w;
                break x;
            }
            plain = true;
        };
        conv.q.extend(&raw);
        conv.q.extend(b"Host: h\r\n\r\n");
        let qend = conv.q.len();
        let mut l = vec![];
        if s.chance(1, 6) {
            conv.r.extend(b"HTTP/1.1 200 OK\r\n");
            l.extend(b"HTTP/1.1 200 OK\r\n");
        } else {
            if s.chance(1, 6) {
                l.extend(*s.pick(&[b" ".as_ref(), b"\t", b"\0", b" \0 ", b"\x0b"]));
            }
            // anything else is not taken for a status line
            let p = *s.pick(&PROTOS);
            l.extend(if p.len() >= 4 && p[..4].eq_ignore_ascii_case(b"http") { p } else { b"HttP" });
            let sp: [&[u8]; 6] = [b" ", b" ", b"  ", b"\t", b"\x0c", b"\x0b"];
            if !s.chance(1, 12) {
                l.extend(*s.pick(&sp));
                l.extend(*s.pick(&[b"200".as_ref(), b"200", b"404", b"500", b"999", b"299", b"600", b"99", b"1000", b"65736", b"2x0", b"x200", b"200x", b"-200", b"+200", b"0200", b"00", b"20\0", b"\x80", b"340282366920938463463374607431768211656", b""]));
                if !s.chance(1, 6) {
                    l.extend(*s.pick(&sp[..5]));
                    l.extend(*s.pick(&[b"OK".as_ref(), b"Not Found", b"", b"a\0b", b"\xff", b" x ", b"HTTP/1.1 200 OK", b"a: b"]));
                    if s.chance(1, 30) {
                        l.extend(s.pick(&["a", "b c", " x"]).repeat(s.range(1, 900)).into_bytes());
                    }
                    if s.chance(1, 6) {
                        l.push(b' ');
                    }
                }
            }
            l.extend(*s.pick(&[b"\r\n".as_ref(), b"\r\n", b"\n", b"\r", b"\n\r"]));
            conv.r.extend(&l);
        }
        let r = read_response(&l, &mut warned);
        let body: Vec<u8> = (0..s.range(0, 5)).map(|j| b'm' + j as u8).collect();
        conv.r.extend(format!("Content-Length: {}\r\n\r\n", body.len()).into_bytes());
        conv.r.extend(&body);
        stats::add("probe.odd_request_line", (raw != b"GET / HTTP/1.1\r\n") as u64);
        stats::add("probe.odd_status_line", (l != b"HTTP/1.1 200 OK\r\n") as u64);
        stats::add("probe.invalid_status_line", r.invalid as u64);
        ex.push(Ex { q, lead, r, qend, rend: conv.r.len(), body, ignored });
    }
    let marks = |v: &[u8]| v.iter().enumerate().filter(|x| !x.1.is_ascii_alphanumeric()).map(|x| x.0 + 1).collect::<Vec<_>>();
    conv.qmarks = marks(&conv.q);
    conv.rmarks = marks(&conv.r);
    let mut pol = Policy::draw(s);
    pol.half_close = false;
    trace(|| format!("config {:?} spaces in targets {} leading white space {:?}", k, spaces, unw));
    trace(|| format!("client bytes {}", show(&conv.q)));
    trace(|| format!("server bytes {}", show(&conv.r)));
    let mut run = Run::new(RustApi::new(cfg, true), &conv, 0, pol.clone());
    run.ungated = true;
    run.open();
    run.lockstep(s, &ex.iter().map(|e| (e.qend, e.rend)).collect::<Vec<_>>());
    let dead = (run.qdead, run.rdead);
    if pol.close {
        run.close();
    }
    let evs = rec::take();
    note(&run, &evs);
    for e in &evs {
        trace(|| format!("  call {} {:?} tx{} {}", e.call, e.kind, e.tx, match &e.p { P::Bytes(b) => show(b), o => format!("{:?}", o) }));
    }
    if dead != (None, None) {
        return Err(format!("status|{:?}", dead));
    }
    for (i, e) in ex.iter().enumerate() {
        let t = oracle::of(&evs, 0, i);
        for kk in [K::ReqLine, K::ReqComplete, K::RespLine, K::RespComplete] {
            let c = t.iter().filter(|v| v.kind == kk).count();
            if c != 1 {
                return Err(format!("count|transaction {}: {:?} {} times", i, kk, c));
            }
        }
        let at = |kk: K| t.iter().find(|v| v.kind == kk).unwrap().snap.as_ref().unwrap();
        for x in [at(K::ReqLine), at(K::RespComplete)] {
            let got = ReqLine { line: x.q_line.clone(), method: x.method.clone(), class: x.method_num.clone(), uri: x.uri.clone(), proto: x.protocol.clone(), num: x.proto_num };
            if got != e.q || x.is_09 {
                return Err(format!("request-line|transaction {}: {:?} instead of {:?}", i, got, e.q));
            }
        }
        for x in [at(K::RespLine), at(K::RespComplete)] {
            let invalid = x.flags & HtpFlags::STATUS_LINE_INVALID != 0;
            let got = RespLine { line: x.r_line.clone(), proto: x.r_protocol.clone(), num: x.r_proto_num, status: x.r_status.clone(), code: x.r_status_num, message: x.r_message.clone(), invalid };
            if got != e.r {
                return Err(format!("status-line|transaction {}: {:?} instead of {:?}", i, got, e.r));
            }
        }
        let x = at(K::RespComplete);
        let want = if e.lead { format!("{:?}", unw) } else { "IGNORE".into() };
        if x.expected != want && (e.lead || unw != HtpUnwanted::IGNORE) && e.q.uri.as_ref().unwrap().iter().all(|c| (33..127).contains(c)) {
            return Err(format!("expected-status|transaction {}: {} instead of {}", i, x.expected, want));
        }
        if (x.q_ignored as usize, x.r_ignored as usize) != e.ignored {
            return Err(format!("ignored-lines|transaction {}: {:?} instead of {:?}", i, (x.q_ignored, x.r_ignored), e.ignored));
        }
        let (a, b) = (oracle::concat(&t, K::ReqBody), oracle::concat(&t, K::RespBody));
        if !a.is_empty() || b != e.body {
            return Err(format!("body|transaction {}: {} and {} instead of nothing and {}", i, show(&a), show(&b), show(&e.body)));
        }
    }
    if evs.iter().any(|e| e.tx >= n) {
        return Err("surplus|more transactions than exchanges".into());
    }
    let mut got = Warned::new();
    for l in run.api.logs() {
        if let Some(c) = CODES.iter().find(|c| **c == l.0) {
            *got.entry(*c).or_default() += 1;
        }
    }
    if got != warned {
        return Err(format!("warnings|{:?} instead of {:?}", got, warned));
    }
    Ok(())
}
