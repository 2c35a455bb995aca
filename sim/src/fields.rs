//! C28: the header fields the parser itself acts on (framing, host, content type, credentials, content coding), with
//! values of any shape. A reference model says what each message means; the parser must say the same wherever the
//! network cuts it.
use crate::blocks;
use crate::drive::*;
use crate::oracle;
use crate::props::*;
use crate::rec::{self, K, P};
use crate::rng::Src;
use crate::stats;
use crate::uris::host_ok;
use crate::wire::*;
use htp::util::HtpFlags;
use std::collections::BTreeSet;

type R = Result<(), String>;
type B = Option<Vec<u8>>;
type Codes = BTreeSet<&'static str>;

fn space(c: u8) -> bool {
    matches!(c, b' ' | 9..=13)
}
/// the field of this name; NULs in names do not count
fn get<'a>(b: &'a blocks::Block, name: &str) -> Option<&'a blocks::Field> {
    b.fields.iter().find(|f| f.name.iter().filter(|c| **c != 0).map(|c| c.to_ascii_lowercase()).eq(name.bytes()))
}
fn contains(v: &[u8], word: &str) -> bool {
    let v: Vec<u8> = v.iter().filter(|c| **c != 0).map(|c| c.to_ascii_lowercase()).collect();
    v.windows(word.len()).any(|w| w == word.as_bytes())
}
fn is(v: &[u8], words: &[&str]) -> bool {
    let v: Vec<u8> = v.iter().filter(|c| **c != 0).map(|c| c.to_ascii_lowercase()).collect();
    words.iter().any(|w| w.as_bytes() == v)
}
/// the number in a length, whatever surrounds it: (number, rubbish before, rubbish after)
fn length(v: &[u8]) -> (Option<u64>, bool, bool) {
    let Some(a) = v.iter().position(|c| c.is_ascii_digit()) else { return (None, false, false) };
    let b = a + v[a..].iter().position(|c| !c.is_ascii_digit()).unwrap_or(v.len() - a);
    let n = std::str::from_utf8(&v[a..b]).unwrap().parse::<u64>().ok();
    // white space around a number is no rubbish; between rubbish and the number it is part of it
    (n, v[..a].iter().any(|c| !space(*c)), v[b..].iter().any(|c| !space(*c)))
}
fn lengths(v: &[u8], w: &mut Codes) -> Option<u64> {
    let (n, a, b) = length(v);
    if a {
        w.insert("CONTENT_LENGTH_EXTRA_DATA_START");
    }
    if b {
        w.insert("CONTENT_LENGTH_EXTRA_DATA_END");
    }
    n
}
/// host, port as written, and whether it all is valid; `None`: no host at all
fn host(v: &[u8]) -> Option<(Vec<u8>, Option<Option<u16>>, bool)> {
    let a = v.iter().position(|c| *c != b' ').unwrap_or(v.len());
    let v = &v[a..];
    let stop = |v: &[u8], set: &[u8]| v.iter().position(|c| set.contains(c)).unwrap_or(v.len());
    let mut n = stop(v, b"/?#:");
    if v.starts_with(b"[") && stop(&v[1..], b"/?#]") > 0 {
        n = 1 + stop(&v[1..], b"/?#]");
        n += (v.get(n) == Some(&b']')) as usize;
    }
    if n == 0 {
        return None;
    }
    let mut h = &v[..n];
    while let Some(x) = h.strip_suffix(b" ") {
        h = x;
    }
    let ok = host_ok(h);
    let rest = &v[n..];
    let p = rest.strip_prefix(b":").map(|p| {
        let a = p.iter().position(|c| *c != b' ').unwrap_or(p.len());
        let p = &p[a..];
        let e = stop(p, b"/?#");
        (&p[..stop(&p[..e], b" ")], e == p.len())
    });
    Some(match p {
        Some((p, whole)) if !p.is_empty() => {
            let n = Some(p).filter(|p| p.iter().all(|c| c.is_ascii_digit())).and_then(|p| std::str::from_utf8(p).unwrap().parse::<u16>().ok()).filter(|n| *n > 0);
            (h.to_ascii_lowercase(), Some(n), ok && n.is_some() && whole)
        }
        _ => (h.to_ascii_lowercase(), None, ok && rest.is_empty()),
    })
}

#[derive(Clone, PartialEq, Eq, Debug)]
enum Frame {
    None,
    Chunked,
    Length(u64),
    Close,
    Tunnel,
    Interim,
    Refused,
}
#[derive(Clone, PartialEq, Eq)]
struct Req {
    tc: &'static str,
    cl: Option<u64>,
    host: B,
    port: Option<u16>,
    ctype: B,
    auth: (&'static str, B, B, B),
    ce: &'static str,
    flags: u64,
}
fn part(b: &B) -> String {
    b.as_ref().map_or("none".into(), |b| show(b))
}
impl std::fmt::Debug for Req {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let a = &self.auth;
        write!(f, "{} {:?} host {} {:?} type {} auth {} {} {} {} coding {} flags {:x}", self.tc, self.cl, part(&self.host), self.port, part(&self.ctype), a.0, part(&a.1), part(&a.2), part(&a.3), self.ce, self.flags)
    }
}
const FLAGS: u64 = HtpFlags::REQUEST_INVALID_T_E
    | HtpFlags::REQUEST_INVALID
    | HtpFlags::REQUEST_SMUGGLING
    | HtpFlags::REQUEST_INVALID_C_L
    | HtpFlags::HOSTH_INVALID
    | HtpFlags::HOST_AMBIGUOUS
    | HtpFlags::HOST_MISSING
    | HtpFlags::AUTH_INVALID;
const CODES: [&str; 11] = [
    "CONTENT_LENGTH_EXTRA_DATA_START", "CONTENT_LENGTH_EXTRA_DATA_END", "DUPLICATE_CONTENT_LENGTH_FIELD_IN_REQUEST", "DUPLICATE_CONTENT_LENGTH_FIELD_IN_RESPONSE",
    "RESPONSE_ABNORMAL_TRANSFER_ENCODING", "RESPONSE_CHUNKED_OLD_PROTO", "SWITCHING_PROTO_WITH_CONTENT_LENGTH", "CONTINUE_ALREADY_SEEN", "RESPONSE_BODY_UNEXPECTED",
    "INVALID_CONTENT_LENGTH_FIELD_IN_RESPONSE", "RESPONSE_MULTIPART_BYTERANGES",
];
fn coding(b: &blocks::Block) -> &'static str {
    match get(b, "content-encoding").map(|f| &f.value) {
        Some(v) if is(v, &["gzip", "x-gzip"]) => "GZIP",
        Some(v) if is(v, &["deflate", "x-deflate"]) => "DEFLATE",
        Some(v) if is(v, &["lzma"]) => "LZMA",
        _ => "NONE",
    }
}
/// the words every field of the same length name has: warns where they differ
fn duplicates(lines: &[Line], code: &'static str, w: &mut Codes) {
    let mut seen: Vec<(Vec<u8>, Option<u64>)> = vec![];
    for l in lines {
        let name = l.name.to_ascii_lowercase();
        if name != b"content-length" {
            continue;
        }
        let n = length(&l.value).0;
        match seen.iter().find(|x| x.0 == name) {
            Some(x) => {
                if n.is_none() || x.1 != n {
                    w.insert(code);
                }
            }
            None => seen.push((name, n)),
        }
    }
}
struct Line {
    name: Vec<u8>,
    value: Vec<u8>,
}
type Auth = (&'static str, B, B, B, bool);

struct Gen<'a> {
    s: &'a mut Src,
    lines: Vec<Line>,
}
impl Gen<'_> {
    fn name(&mut self, n: &str) -> Vec<u8> {
        let mut v = n.as_bytes().to_vec();
        match self.s.below(12) {
            0 => v.make_ascii_lowercase(),
            1 => v.make_ascii_uppercase(),
            2 => {
                let i = self.s.range(1, v.len() - 1);
                v.insert(i, 0);
            }
            _ => (),
        }
        v
    }
    fn add(&mut self, n: &str, v: &[u8]) {
        let name = self.name(n);
        let i = self.s.usz(self.lines.len() + 1);
        self.lines.insert(i, Line { name, value: v.to_vec() });
    }
    fn length(&mut self) {
        let n = *self.s.pick(&["0", "1", "3", "5", "05", "0000000000000000000000007"]);
        let v = match self.s.weighted(&[8, 1, 1, 1, 1, 1, 1, 1, 1]) {
            0 => n.into(),
            1 => format!("+{}", n),
            2 => format!("{} x", n),
            3 => format!("x {}\t", n),
            4 => format!("-{}", n),
            5 => format!("{},{}", n, n),
            6 => (*self.s.pick(&["18446744073709551615", "18446744073709551616", "4294967299", "9999999999999999999999"])).into(),
            7 => (*self.s.pick(&["", "x", "five", "-", "0x5"])).into(),
            _ => format!("\"{}\"", n),
        };
        self.add("Content-Length", v.as_bytes());
    }
    fn transfer(&mut self) {
        let v: &[u8] = *self.s.pick(&[b"chunked".as_ref(), b"chunked", b"Chunked", b"gzip, chunked", b"chunked, x", b"chu\0nked", b"xchunkedx", b"identity", b"", b"chunke", b"c hunked", b"gzip"]);
        self.add("Transfer-Encoding", v);
    }
    fn common(&mut self) {
        if self.s.chance(1, 3) {
            let t: &[u8] = *self.s.pick(&[
                b"text/html".as_ref(), b"Text/HTML; charset=x", b"text/html ;x", b"a/b,c/d", b"a/b, c", b"", b";", b"a\tb", b"\"a;b\"", b"multipart/byteranges; boundary=a", b"x-multipart/byteranges-x", b"a; multipart/byteranges",
            ]);
            self.add("Content-Type", t);
        }
        if self.s.chance(1, 4) {
            let mut t = self.s.pick(&[b"gzip".as_ref(), b"x-gzip", b"GZip", b"g\0zip", b"deflate", b"x-deflate", b"lzma", b"inflate", b"none", b"br", b"", b"gzip2", b"gzi"]).to_vec();
            if !t.is_empty() && self.s.chance(1, 3) {
                let i = self.s.usz(t.len());
                t[i] = t[i].to_ascii_uppercase();
            }
            if !t.is_empty() && self.s.chance(1, 3) {
                let i = self.s.usz(t.len());
                t.insert(i, 0);
            }
            self.add("Content-Encoding", &t);
        }
        if self.s.chance(1, 4) {
            self.add("X-Pad", b"Content-Length: 4");
        }
    }
    /// the block, with some of the fields folded
    fn bytes(&mut self) -> Vec<u8> {
        let mut o = vec![];
        for l in &mut self.lines {
            o.extend(&l.name);
            // an empty value or one that looks like a field does not go well with folding
            if self.s.chance(1, 8) && !l.value.is_empty() && l.name[0] != b'X' && l.name[0] != b'x' {
                o.extend(*self.s.pick(&[b":".as_ref(), b" : ", b":\t ", b": \r\n "]));
            } else {
                o.extend(b": ");
            }
            o.extend(&l.value);
            if self.s.chance(1, 10) {
                o.extend(*self.s.pick(&[b" ".as_ref(), b"\t", b" \x0b"]));
            }
            o.extend(*self.s.pick(&[b"\r\n".as_ref(), b"\r\n", b"\n"]));
        }
        o.extend(b"\r\n");
        o
    }
    fn auth(&mut self) -> Option<Auth> {
        if !self.s.chance(1, 3) {
            return None;
        }
        let u = self.s.pick(&[b"user".as_ref(), b"", b"u\0s", b"\xff", b"a b"]).to_vec();
        let p = self.s.pick(&[b"pass".as_ref(), b"", b"a:b", b"\xfe", b"x\0"]).to_vec();
        let sp: &[u8] = *self.s.pick(&[b" ".as_ref(), b" ", b"  ", b"\t", b""]);
        let mut v = vec![];
        let a = match self.s.below(12) {
            0..=2 => {
                v.extend(*self.s.pick(&[b"Basic".as_ref(), b"basic", b"BASIC"]));
                v.extend(sp);
                let mut e = b64(&[&u[..], b":", &p].concat());
                if self.s.chance(1, 4) {
                    while e.last() == Some(&b'=') {
                        e.pop();
                    }
                }
                v.extend(e);
                ("BASIC", Some(u), Some(p), None, false)
            }
            3 => {
                v.extend(b"Basic ");
                v.extend(*self.s.pick(&[b"".as_ref(), b"YQ==", b"YTpi!", b"Y", b"YTpi YQ", b"=", b"Y===", b"YTo=YTo=", b"\xff\xff\xff\xff"]));
                ("BASIC", None, None, None, true)
            }
            4..=6 => {
                v.extend(*self.s.pick(&[b"Digest".as_ref(), b"digest", b"DIGEST"]));
                v.extend(sp);
                v.extend(*self.s.pick(&[b"".as_ref(), b"realm=\"a\", ", b"xusername=1, "]));
                let other = v.ends_with(b"1, ");
                v.extend(b"username=");
                v.extend(sp);
                v.push(b'"');
                for c in &u {
                    v.push(*c);
                }
                let q = self.s.chance(1, 3);
                if q {
                    v.extend(b"\\\"x");
                }
                v.push(b'"');
                v.extend(*self.s.pick(&[b"".as_ref(), b", username=\"other\"", b"\\\"", b" \t"]));
                let mut name = u;
                if q {
                    name.extend(b"\"x");
                }
                if other {
                    ("DIGEST", None, None, None, true)
                } else {
                    ("DIGEST", Some(name), None, None, false)
                }
            }
            7 => {
                v.extend(*self.s.pick(&[b"Digest".as_ref(), b"Digest username=a", b"Digest username=\"a", b"Digest username=\"a\\\"", b"Digest Username=\"a\"", b"Digest username", b"digestusername= x\"a\""]));
                ("DIGEST", None, None, None, true)
            }
            8 | 9 => {
                v.extend(*self.s.pick(&[b"Bearer".as_ref(), b"bearer", b"BeArEr"]));
                v.extend(sp);
                let t = self.s.pick(&[b"t".as_ref(), b"a.b.c", b"x y", b"\x80\0", b"=="]).to_vec();
                v.extend(&t);
                ("BEARER", None, None, Some(t), false)
            }
            10 => {
                v.extend(b"Bearer");
                ("BEARER", None, None, Some(vec![]), false)
            }
            _ => {
                v.extend(*self.s.pick(&[b"Negotiate x".as_ref(), b"", b"Bas", b"Digesr x", b"x Basic YTpi", b"Ba\0sic YTpi", b"NTLM"]));
                ("UNRECOGNIZED", None, None, None, false)
            }
        };
        self.add("Authorization", &v);
        Some(a)
    }
}

struct Ex {
    q: Req,
    qframe: Frame,
    qbody: Vec<u8>,
    rflags: u64,
    rtc: &'static str,
    rcl: Option<u64>,
    rctype: B,
    rce: &'static str,
    rframe: Frame,
    rbody: Vec<u8>,
    h2: bool,
    seen_100: bool,
    qend: usize,
    rend: usize,
}

fn body(s: &mut Src, frame: &Frame, out: &mut Vec<u8>) -> (Vec<u8>, bool) {
    match frame {
        Frame::Chunked => {
            let b: Vec<u8> = (0..s.range(0, 4)).map(|j| b'm' + j as u8).collect();
            if !b.is_empty() {
                out.extend(format!("{:x}\r\n", b.len()).into_bytes());
                out.extend(&b);
                out.extend(b"\r\n");
            }
            out.extend(b"0\r\n\r\n");
            (b, true)
        }
        Frame::Length(n) => {
            let m = (*n).min(20);
            let b: Vec<u8> = (0..m).map(|j| b'm' + (j % 7) as u8).collect();
            out.extend(&b);
            (b, m == *n)
        }
        Frame::Close => {
            let b: Vec<u8> = s.pick(&[b"".as_ref(), b"x", b"abc\r\ndef", b"HTTP/1.1 200 OK\r\n\r\n"]).to_vec();
            out.extend(&b);
            (b, true)
        }
        _ => (vec![], true),
    }
}

pub fn fields(s: &mut Src) -> R {
    let k = Knobs::draw(s);
    let mut cfg = k.config();
    cfg.log_level = level(3);
    cfg.set_request_decompression(false);
    cfg.response_decompression_enabled = false;
    let mut w = Codes::new();
    let mut conv = Conv::default();
    let mut ex: Vec<Ex> = vec![];
    let n = s.range(1, 4);
    let mut closes = false;
    for i in 0..n {
        // the request
        let method = *s.pick(&["GET", "POST", "HEAD", "PUT"]);
        let (proto, num) = *s.pick(&[("HTTP/1.1", 101), ("HTTP/1.1", 101), ("HTTP/1.1", 101), ("HTTP/1.0", 100), ("HTTP/3.7", -2), ("HTTP/0.9", 9)]);
        let (target, uhost, uport): (&str, Option<&str>, Option<u16>) =
            *s.pick(&[("/", None, None), ("/a", None, None), ("/", None, None), ("http://HoSt/", Some("host"), None), ("http://a.b:8080/x", Some("a.b"), Some(8080)), ("http://a.b/", Some("a.b"), None)]);
        conv.q.extend(format!("{} {} {}\r\n", method, target, proto).into_bytes());
        let mut g = Gen { s: &mut *s, lines: vec![] };
        for _ in 0..*g.s.pick(&[0, 0, 1, 1, 1, 2, 3]) {
            g.length();
        }
        for _ in 0..*g.s.pick(&[0, 0, 0, 1, 1, 2]) {
            g.transfer();
        }
        g.common();
        let auth = g.auth();
        for _ in 0..*g.s.pick(&[1, 1, 1, 0, 2]) {
            let h: &[u8] = *g.s.pick(&[
                b"h".as_ref(), b"HOST", b"host", b"a.b", b"a.b:8080", b"a.b:80", b"A.B : 8080 ", b"a.b:", b"a.b:x", b"a.b:0", b"a.b:65536", b"a.b:080", b"[::1]", b"[::1]:8080", b"[::1", b"[x]", b"a..b", b".a", b"a.", b"a b",
                b"", b":80", b"/x", b"a/b", b"a.b:8080/x", b"a_b-1", b"a\0b", b"a@b", b"a.b:80 80", b"a.b:+80", b"[::1]x", b"[]", b"\xc3\x97", b"[::1]:80#x", b"a.b?",
            ]);
            // names and labels about as long as they may be
            let long = match g.s.usz(12) {
                0 => Some("a".repeat(*g.s.pick(&[40usize, 62, 63, 64, 200]))),
                1 => Some("ab.".repeat(*g.s.pick(&[20usize, 66, 84, 85, 86, 100]))),
                _ => None,
            };
            let h = match &long {
                Some(l) => [l.as_bytes(), if g.s.flip() { b"" } else { b"c:80" }].concat(),
                None => h.to_vec(),
            };
            g.add("Host", &h);
        }
        let raw = g.bytes();
        let lines = std::mem::take(&mut g.lines);
        let Some(b) = blocks::read(&raw, false, &blocks::Block::default(), 0) else { return Err("harness: block".into()) };
        if b.len != raw.len() {
            return Err("harness|block ends early".into());
        }
        conv.q.extend(&raw);
        duplicates(&lines, "DUPLICATE_CONTENT_LENGTH_FIELD_IN_REQUEST", &mut w);
        let (te, cl) = (get(&b, "transfer-encoding"), get(&b, "content-length"));
        let mut q = Req { tc: "NO_BODY", cl: None, host: None, port: None, ctype: None, auth: ("NONE", None, None, None), ce: "NONE", flags: 0 };
        let mut qframe = Frame::None;
        if let Some(te) = te {
            if contains(&te.value, "chunked") {
                q.tc = "CHUNKED";
                qframe = Frame::Chunked;
                if num < 101 {
                    q.flags |= HtpFlags::REQUEST_INVALID_T_E | HtpFlags::REQUEST_SMUGGLING;
                }
                if cl.is_some() {
                    q.flags |= HtpFlags::REQUEST_SMUGGLING;
                }
            } else {
                q.tc = "INVALID";
                qframe = Frame::Refused;
                q.flags |= HtpFlags::REQUEST_INVALID_T_E | HtpFlags::REQUEST_INVALID;
            }
        } else if let Some(cl) = cl {
            if cl.flags & (HtpFlags::FIELD_FOLDED | HtpFlags::FIELD_REPEATED) != 0 {
                q.flags |= HtpFlags::REQUEST_SMUGGLING;
            }
            q.cl = lengths(&cl.value, &mut w);
            match q.cl {
                Some(n) => {
                    q.tc = "IDENTITY";
                    qframe = Frame::Length(n);
                }
                None => {
                    q.tc = "INVALID";
                    qframe = Frame::Refused;
                    q.flags |= HtpFlags::REQUEST_INVALID_C_L | HtpFlags::REQUEST_INVALID;
                }
            }
        }
        q.host = uhost.map(|h| h.into());
        q.port = uport;
        match get(&b, "host") {
            None if num >= 101 => q.flags |= HtpFlags::HOST_MISSING,
            None => (),
            Some(f) => match host(&f.value) {
                None => {
                    q.flags |= HtpFlags::HOSTH_INVALID;
                    if uhost.is_some() {
                        q.flags |= HtpFlags::HOST_AMBIGUOUS;
                    }
                }
                Some((h, p, ok)) => {
                    if !ok {
                        q.flags |= HtpFlags::HOSTH_INVALID;
                    }
                    if let Some(u) = uhost {
                        if h != u.as_bytes() || uport.is_some() && p.is_some() && p != Some(uport) {
                            q.flags |= HtpFlags::HOST_AMBIGUOUS;
                        }
                    } else {
                        q.host = Some(h);
                        q.port = p.flatten();
                    }
                }
            },
        }
        stats::add("probe.host_flagged", (q.flags & (HtpFlags::HOSTH_INVALID | HtpFlags::HOST_AMBIGUOUS) != 0) as u64);
        q.ctype = get(&b, "content-type").map(|f| {
            let e = f.value.iter().position(|c| matches!(c, b';' | b',' | b' ')).unwrap_or(f.value.len());
            f.value[..e].to_ascii_lowercase()
        });
        q.ce = coding(&b);
        if k.no_auth {
            q.auth.0 = "UNKNOWN";
        } else if let Some((t, a, b, c, bad)) = auth {
            q.auth = (t, a, b, c);
            if bad {
                q.flags |= HtpFlags::AUTH_INVALID;
                stats::hit("probe.auth_invalid");
            }
        }
        let (qbody, whole) = body(s, &qframe, &mut conv.q);
        let mut e = Ex { q, qframe, qbody, rflags: 0, rtc: "UNKNOWN", rcl: None, rctype: None, rce: "NONE", rframe: Frame::None, rbody: vec![], h2: false, seen_100: false, qend: conv.q.len(), rend: conv.r.len() };
        e.rflags = e.q.flags;
        if e.qframe == Frame::Refused || !whole {
            stats::add("probe.request_refused", (e.qframe == Frame::Refused) as u64);
            e.rframe = Frame::Refused;
            ex.push(e);
            break;
        }
        // the response, behind interim ones
        let mut last = i + 1 == n;
        for _ in 0..6 {
            let status = *s.pick(&[200u16, 200, 200, 404, 500, 204, 304, 100, 100, 101, 103]);
            let (proto, num) = *s.pick(&[("HTTP/1.1", 101), ("HTTP/1.1", 101), ("HTTP/1.0", 100), ("HTTP/0.9", 9)]);
            conv.r.extend(format!("{} {} x\r\n", proto, status).into_bytes());
            let mut g = Gen { s: &mut *s, lines: vec![] };
            for _ in 0..*g.s.pick(&[0, 1, 1, 1, 1, 2, 3]) {
                g.length();
            }
            for _ in 0..*g.s.pick(&[0, 0, 0, 0, 1, 1, 2]) {
                g.transfer();
            }
            g.common();
            if g.s.chance(1, 5) {
                let u: &[u8] = *g.s.pick(&[b"h2c".as_ref(), b"websocket", b"x, H2C", b"h\x002c", b""]);
                g.add("Upgrade", u);
            }
            let raw = g.bytes();
            let lines = std::mem::take(&mut g.lines);
            let Some(b) = blocks::read(&raw, true, &blocks::Block::default(), 0) else { return Err("harness: block".into()) };
            if b.len != raw.len() {
                return Err("harness|block ends early".into());
            }
            conv.r.extend(&raw);
            duplicates(&lines, "DUPLICATE_CONTENT_LENGTH_FIELD_IN_RESPONSE", &mut w);
            let (te, cl) = (get(&b, "transfer-encoding"), get(&b, "content-length"));
            if status == 101 {
                e.h2 = get(&b, "upgrade").is_some_and(|f| contains(&f.value, "h2c"));
                if te.is_some() || cl.is_some() {
                    w.insert("SWITCHING_PROTO_WITH_CONTENT_LENGTH");
                } else {
                    e.rframe = Frame::Tunnel;
                    e.rce = coding(&b);
                    break;
                }
            }
            if status == 100 && te.is_none() && cl.and_then(|c| lengths(&c.value, &mut w)).unwrap_or(0) == 0 {
                if e.seen_100 {
                    w.insert("CONTINUE_ALREADY_SEEN");
                }
                e.seen_100 = true;
                e.rframe = Frame::Interim;
                stats::hit("probe.interim");
                continue;
            }
            e.rce = coding(&b);
            if method == "HEAD" {
                e.rframe = Frame::None;
                e.rtc = "NO_BODY";
                break;
            }
            if status < 200 || status == 204 || status == 304 {
                if te.is_none() && cl.is_none() {
                    e.rframe = Frame::None;
                    e.rtc = "NO_BODY";
                    break;
                }
                w.insert("RESPONSE_BODY_UNEXPECTED");
            }
            e.rctype = get(&b, "content-type").map(|f| {
                let e = f.value.iter().position(|c| *c == b';' || space(*c)).unwrap_or(f.value.len());
                f.value[..e].to_ascii_lowercase()
            });
            if let Some(te) = te.filter(|f| contains(&f.value, "chunked")) {
                if !te.value.eq_ignore_ascii_case(b"chunked") {
                    w.insert("RESPONSE_ABNORMAL_TRANSFER_ENCODING");
                }
                if num < 101 {
                    w.insert("RESPONSE_CHUNKED_OLD_PROTO");
                }
                if cl.is_some() {
                    e.rflags |= HtpFlags::REQUEST_SMUGGLING;
                }
                e.rframe = Frame::Chunked;
                e.rtc = "CHUNKED";
            } else if let Some(cl) = cl {
                e.rtc = "IDENTITY";
                if cl.flags & HtpFlags::FIELD_REPEATED != 0 {
                    e.rflags |= HtpFlags::REQUEST_SMUGGLING;
                }
                e.rcl = lengths(&cl.value, &mut w);
                match e.rcl {
                    Some(n) => e.rframe = Frame::Length(n),
                    None => {
                        w.insert("INVALID_CONTENT_LENGTH_FIELD_IN_RESPONSE");
                        e.rframe = Frame::Refused;
                    }
                }
            } else if e.rctype.as_ref().is_some_and(|t| contains(t, "multipart/byteranges")) {
                w.insert("RESPONSE_MULTIPART_BYTERANGES");
                e.rframe = Frame::Refused;
            } else {
                e.rtc = "IDENTITY";
                e.rframe = Frame::Close;
            }
            break;
        }
        let (rbody, whole) = body(s, &e.rframe, &mut conv.r);
        e.rbody = rbody;
        e.rend = conv.r.len();
        stats::add("probe.response_refused", (e.rframe == Frame::Refused) as u64);
        stats::add("probe.until_close", (e.rframe == Frame::Close) as u64);
        stats::add("probe.tunnel", (e.rframe == Frame::Tunnel) as u64);
        last |= !whole || matches!(e.rframe, Frame::Close | Frame::Tunnel | Frame::Refused | Frame::Interim);
        closes |= e.rframe == Frame::Close;
        ex.push(e);
        if last {
            break;
        }
    }
    let marks = |v: &[u8]| v.iter().enumerate().filter(|x| !x.1.is_ascii_alphanumeric()).map(|x| x.0 + 1).collect::<Vec<_>>();
    conv.qmarks = marks(&conv.q);
    conv.rmarks = marks(&conv.r);
    let mut pol = Policy::draw(s);
    pol.half_close = false;
    trace(|| format!("config {:?}", k));
    trace(|| format!("client bytes {}", show(&conv.q)));
    trace(|| format!("server bytes {}", show(&conv.r)));
    let mut run = Run::new(RustApi::new(cfg, true), &conv, 0, pol.clone());
    run.ungated = true;
    run.open();
    run.lockstep(s, &ex.iter().map(|e| (e.qend, e.rend)).collect::<Vec<_>>());
    let dead = (run.qdead, run.rdead);
    if pol.close || closes {
        run.close();
    }
    let evs = rec::take();
    note(&run, &evs);
    for e in &evs {
        trace(|| format!("  call {} {:?} tx{} {}", e.call, e.kind, e.tx, match &e.p { P::Bytes(b) => show(b), o => format!("{:?}", o) }));
    }
    let end = ex.last().unwrap();
    let qerr = end.qframe == Frame::Refused;
    let rerr = !qerr && end.rframe == Frame::Refused && end.rend > ex.iter().rev().nth(1).map_or(0, |e| e.rend);
    if (dead.0 == Some(St::Error)) != qerr || (dead.1 == Some(St::Error)) != rerr {
        return Err(format!("status|{:?}, refused: request {} response {}", dead, qerr, rerr));
    }
    if end.rframe != Frame::Tunnel && (dead.0.is_some() != qerr || dead.1.is_some() != rerr) {
        return Err(format!("status|{:?}", dead));
    }
    for (i, e) in ex.iter().enumerate() {
        let t = oracle::of(&evs, 0, i);
        let count = |kk: K| t.iter().filter(|v| v.kind == kk).count();
        if count(K::ReqHeaders) != 1 {
            return Err(format!("count|transaction {}: request headers {} times", i, count(K::ReqHeaders)));
        }
        let x = t.iter().find(|v| v.kind == K::ReqHeaders).unwrap().snap.as_ref().unwrap();
        let late = t.iter().rev().find_map(|v| v.snap.as_ref()).unwrap();
        let auth = |x: &rec::Snap| ["NONE", "BASIC", "DIGEST", "BEARER", "UNRECOGNIZED", "UNKNOWN"].into_iter().find(|n| *n == x.auth_type).unwrap_or("?");
        let word = |v: &str| ["NO_BODY", "CHUNKED", "IDENTITY", "INVALID", "UNKNOWN"].into_iter().find(|n| *n == v).unwrap_or("?");
        let ce = |v: &str| ["NONE", "GZIP", "DEFLATE", "LZMA"].into_iter().find(|n| *n == v).unwrap_or("?");
        // the coding is known once the headers have been reported
        let known = t.iter().rev().find(|v| v.snap.is_some()).unwrap().kind != K::ReqHeaders;
        for (x, ce, flags) in [(x, e.q.ce, x.flags), (late, if known { ce(&late.q_ce) } else { e.q.ce }, e.q.flags)] {
            let got = Req {
                tc: word(&x.q_tc),
                cl: x.q_cl,
                host: x.host.clone(),
                port: x.port,
                ctype: x.q_ctype.clone(),
                auth: (auth(x), x.auth_user.clone(), x.auth_pass.clone(), x.auth_token.clone()),
                ce,
                flags: flags & FLAGS,
            };
            if got != e.q {
                return Err(format!("request|transaction {}: {:?} instead of {:?}", i, got, e.q));
            }
        }
        let got = oracle::concat(&t, K::ReqBody);
        if got != e.qbody {
            return Err(format!("request-body|transaction {}: {} instead of {}", i, show(&got), show(&e.qbody)));
        }
        if e.qend > conv.q.len() || e.rend == ex[..i].last().map_or(0, |e| e.rend) {
            continue;
        }
        if count(K::ReqComplete) != 1 {
            return Err(format!("count|transaction {}: request complete {} times", i, count(K::ReqComplete)));
        }
        let done = match e.rframe {
            Frame::Refused | Frame::Interim => 0,
            _ => 1,
        };
        if e.rframe != Frame::Interim && count(K::RespHeaders) != done {
            return Err(format!("count|transaction {}: response headers {} times instead of {}", i, count(K::RespHeaders), done));
        }
        let got = oracle::concat(&t, K::RespBody);
        if got != e.rbody {
            return Err(format!("response-body|transaction {}: {} instead of {}", i, show(&got), show(&e.rbody)));
        }
        if done == 0 {
            continue;
        }
        let x = t.iter().find(|v| v.kind == K::RespHeaders).unwrap().snap.as_ref().unwrap();
        let late = t.iter().rev().find_map(|v| v.snap.as_ref()).unwrap();
        for x in [x, late] {
            let got = (word(&x.r_tc), x.r_cl, part(&x.r_ctype), x.flags & FLAGS, x.h2, x.seen_100);
            let want = (e.rtc, e.rcl, part(&e.rctype), e.rflags, e.h2, e.seen_100);
            if got != want {
                return Err(format!("response|transaction {}: {:x?} instead of {:x?}", i, got, want));
            }
        }
        let known = t.iter().rev().find(|v| v.snap.is_some()).unwrap().kind != K::RespHeaders;
        if known && !late.r_ce.eq(e.rce) {
            return Err(format!("response-coding|transaction {}: {} instead of {}", i, late.r_ce, e.rce));
        }
        let complete = match e.rframe.clone() {
            Frame::Length(n) => n == e.rbody.len() as u64,
            f => f != Frame::Tunnel,
        };
        if complete && count(K::RespComplete) != 1 {
            return Err(format!("count|transaction {}: response complete {} times", i, count(K::RespComplete)));
        }
    }
    if evs.iter().any(|e| e.tx >= ex.len()) {
        return Err("surplus|more transactions than exchanges".into());
    }
    let got: Codes = run.api.logs().iter().filter_map(|l| CODES.iter().find(|c| **c == l.0)).copied().collect();
    if got != w {
        return Err(format!("warnings|{:?} instead of {:?}", got, w));
    }
    Ok(())
}
