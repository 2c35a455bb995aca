//! Workload generator and reference model.  `Conv` is one well-formed HTTP/1.x conversation as its
//! two endpoints mean it: what is put on the wire in each direction, and, field by field, what a
//! passive observer has to report about it.
use crate::rng::{mix, Src};
use std::io::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Framing {
    None,
    Cl,
    Chunked,
    Close,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Coding {
    Gzip,
    DeflateRaw,
    DeflateZlib,
    Lzma,
}

pub type H = (Vec<u8>, Vec<u8>);

#[derive(Clone, Debug, Default)]
pub struct Msg {
    pub start: usize,
    pub line_end: usize,
    pub head_end: usize,
    pub body_end: usize,
    pub end: usize,
    /// raw trailer block (after the last-chunk line, including the final empty line)
    pub trailer: Option<(usize, usize)>,
    pub headers: Vec<H>,
    pub all_headers: Vec<H>,
    /// where each field of the head and the trailer ends
    pub fields: Vec<(usize, H)>,
    /// body after de-chunking, as coded
    pub coded: Vec<u8>,
    /// body after removing all content codings
    pub plain: Vec<u8>,
    /// output size of an LZMA layer, if there is one
    pub lzma_out: usize,
    /// bytes of the message body as seen on the wire (chunk-size lines, data, chunk CRLFs)
    pub msg_len: u64,
    pub chunks: Vec<(usize, usize)>,
    /// some header is continued on a second line
    pub folded: bool,
}

#[derive(Clone, Debug)]
pub struct Req {
    pub method: &'static str,
    pub uri: Vec<u8>,
    pub proto: &'static str,
    pub line: Vec<u8>,
    pub scheme: Option<Vec<u8>>,
    pub user: Option<Vec<u8>>,
    pub pass: Option<Vec<u8>>,
    pub uhost: Option<Vec<u8>>,
    pub uport: Option<u16>,
    pub path: Option<Vec<u8>>,
    pub query: Option<Vec<u8>>,
    pub frag: Option<Vec<u8>>,
    pub host: Option<Vec<u8>>,
    pub port: Option<u16>,
    pub ctype: Option<Vec<u8>>,
    pub auth: (&'static str, Option<Vec<u8>>, Option<Vec<u8>>, Option<Vec<u8>>),
    pub framing: Framing,
    pub codings: Vec<Coding>,
    pub expect: bool,
    /// the length announced
    pub cl: Option<u64>,
    /// the path or query contain escapes, so that only the raw parts are predictable
    pub escaped: bool,
    pub wrong: Wrong,
    /// empty lines in front
    pub blank: u32,
    pub m: Msg,
}
#[derive(Clone, Debug)]
pub struct Resp {
    pub blank: u32,
    pub wrong: Wrong,
    /// what the status number must be reported as
    pub number: i32,
    pub proto_number: i32,
    pub interim: usize,
    /// raw header blocks of the interim responses (after their status lines)
    pub interim_heads: Vec<(usize, usize)>,
    pub proto: &'static str,
    pub status: u16,
    pub reason: Option<Vec<u8>>,
    pub line: Vec<u8>,
    pub ctype: Option<Vec<u8>>,
    pub framing: Framing,
    pub codings: Vec<Coding>,
    pub m: Msg,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum XK {
    Normal,
    /// a response nobody asked for
    Unsol,
    /// Expect: 100-continue answered with a final 4xx; the body is never sent
    Reject,
    /// CONNECT answered with something else than 2xx
    Refused,
    /// CONNECT answered with 2xx
    Accepted,
    /// 101 Switching Protocols
    Upgrade,
}
#[derive(Clone, Debug)]
pub struct Exchange {
    pub kind: XK,
    pub q: Req,
    pub r: Resp,
}
#[derive(Clone, Debug, Default)]
pub struct Conv {
    pub ex: Vec<Exchange>,
    pub q: Vec<u8>,
    pub r: Vec<u8>,
    pub qmarks: Vec<usize>,
    pub rmarks: Vec<usize>,
    /// the last response is delimited by connection close
    pub closes: bool,
    /// the last request only completes at connection close
    pub open_end: bool,
    /// where the client's tunnel bytes show what they are
    pub decide: usize,
    pub h2: bool,
    /// where a segment always ends
    pub qcut: Vec<usize>,
    pub rcut: Vec<usize>,
}

/// Which parts of the protocol a run exercises (swarm).
#[derive(Clone, Copy, Debug)]
pub struct Feats {
    pub chunked: bool,
    pub trailers: bool,
    pub ext: bool,
    pub coding: bool,
    pub req_coding: bool,
    pub close: bool,
    pub interim: bool,
    pub nobody: bool,
    pub repeat: bool,
    pub abs_uri: bool,
    pub auth: bool,
    pub lookalike: bool,
    pub big: bool,
    pub lf: bool,
    pub ows: bool,
    pub http10: bool,
    pub layered: bool,
    pub lzma: bool,
    pub zlib: bool,
    pub unsol: bool,
    pub reject: bool,
    pub connect: bool,
    pub casing: bool,
    pub fold: bool,
    pub odd: bool,
    pub many: bool,
    /// queries are forms
    pub forms: bool,
    /// empty lines in front of messages
    pub blank: bool,
    /// fields longer than the usual limit
    pub huge: bool,
    /// responses with a body whose status says they have none
    pub switch: bool,
    /// targets of any shape (C25)
    pub wild: Option<crate::uris::Dec>,
}
impl Feats {
    pub fn draw(s: &mut Src) -> Feats {
        let m = s.below(1 << 20);
        // a few runs have everything on, most a random subset
        let m = if s.chance(1, 6) { (1 << 20) - 1 } else { m };
        let f = |i: u32| (m >> i) & 1 == 1;
        Feats {
            chunked: f(0),
            trailers: f(1),
            ext: f(2),
            coding: f(3),
            req_coding: f(4),
            close: f(5),
            interim: f(6),
            nobody: f(7),
            repeat: f(8),
            abs_uri: f(9),
            auth: f(10),
            lookalike: f(11),
            big: f(12) && f(13),
            lf: f(14) && f(15) && f(16),
            ows: f(17),
            http10: f(18),
            layered: f(19),
            lzma: f(13),
            zlib: f(16),
            unsol: false,
            reject: f(2) && f(6),
            connect: f(7) && f(9),
            casing: f(10) != f(3),
            fold: f(17) && f(8) && f(5) != f(4),
            odd: f(11) != f(18),
            many: f(12) && f(8),
            forms: false,
            blank: false,
            huge: false,
            switch: false,
            wild: None,
        }
    }
    pub fn plain() -> Feats {
        Feats {
            chunked: false, trailers: false, ext: false, coding: false, req_coding: false, close: false,
            interim: false, nobody: false, repeat: false, abs_uri: false, auth: false, lookalike: false,
            big: false, lf: false, ows: false, http10: false, layered: false, lzma: false, zlib: false,
            unsol: false, reject: false, connect: false, casing: false, fold: false, odd: false, many: false, forms: false, blank: false, huge: false, switch: false, wild: None,
        }
    }
}

const TOK: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!#$%&'*+^`|~";
const VAL: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!#$%&'*+^`|~:/=;?@[](){}<>\"\\,";
const PATHC: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_~";

fn word(s: &mut Src, cs: &[u8], lo: usize, hi: usize) -> Vec<u8> {
    let n = s.range(lo, hi);
    if n == 0 {
        return vec![];
    }
    let seed = s.below(1 << 30);
    let mut z = seed;
    (0..n)
        .map(|_| {
            if seed == 0 {
                b'a'
            } else {
                z = mix(z);
                cs[(z % cs.len() as u64) as usize]
            }
        })
        .collect()
}

pub fn value(s: &mut Src, maxwords: usize) -> Vec<u8> {
    value_odd(s, maxwords, false)
}
fn value_odd(s: &mut Src, maxwords: usize, oddv: bool) -> Vec<u8> {
    let n = s.range(0, maxwords);
    let mut v = vec![];
    for i in 0..n {
        if i > 0 {
            v.push(b' ');
        }
        v.extend(word(s, VAL, 1, 12));
        if oddv {
            v.extend_from_slice(*s.pick(&[b"".as_ref(), b"\xe9", b"\t\t", b"  ", b"\x80\xff"]));
        }
    }
    // blanks at the ends are not part of a value
    while matches!(v.last(), Some(b' ' | b'\t')) {
        v.pop();
    }
    v
}

pub fn body_bytes(s: &mut Src, f: &Feats, min: usize) -> Vec<u8> {
    let n = match s.weighted(&[6, 4, 2, if f.big { 2 } else { 0 }]) {
        0 => s.range(1, 12),
        1 => s.range(1, 120),
        2 => s.range(100, 900),
        _ => {
            if s.chance(1, 10) {
                s.range(60_000, 150_000)
            } else {
                s.range(4000, 20000)
            }
        }
    };
    let n = n.max(min);
    let kind = s.weighted(&[3, 3, 2, if f.lookalike { 6 } else { 0 }]);
    let seed = s.below(1 << 30);
    let mut z = seed;
    let mut out = Vec::with_capacity(n);
    match kind {
        0 => {
            while out.len() < n {
                z = mix(z);
                out.push(b'a' + (z % 26) as u8);
            }
        }
        1 => {
            while out.len() < n {
                z = mix(z);
                out.push(z as u8);
            }
        }
        2 => {
            // highly compressible
            z = mix(z);
            let unit: Vec<u8> = (0..(1 + z % 9)).map(|i| mix(z ^ i) as u8).collect();
            while out.len() < n {
                out.extend_from_slice(&unit);
            }
        }
        _ => {
            let pieces: [&[u8]; 14] = [
                b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc",
                b"GET / HTTP/1.1\r\nHost: x\r\n\r\n",
                b"POST /x HTTP/1.1\r\nContent-Length: 100\r\n\r\n",
                b"0\r\n\r\n",
                b"\r\n",
                b"\n",
                b"\r",
                b"\n\n\r\r\n",
                b"5\r\nhello\r\n",
                b"ffffffff\r\n",
                b"\0\0",
                b": ",
                b"HTTP",
                b"\x1f\x8b\x08",
            ];
            while out.len() < n {
                z = mix(z);
                out.extend_from_slice(pieces[(z % pieces.len() as u64) as usize]);
            }
        }
    }
    out.truncate(n);
    out
}

pub fn gzip(s: &mut Src, plain: &[u8]) -> Vec<u8> {
    let flags = if s.flip() { s.below(32) as u8 & 0x1e } else { 0 };
    let mut o = vec![0x1f, 0x8b, 8, flags, 1, 2, 3, 4, 0, 3];
    if flags & 4 != 0 {
        let n = s.range(0, 9);
        o.extend_from_slice(&(n as u16).to_le_bytes());
        o.extend((0..n).map(|i| i as u8));
    }
    if flags & 8 != 0 {
        o.extend_from_slice(b"file.txt\0");
    }
    if flags & 16 != 0 {
        o.extend_from_slice(b"a comment\0");
    }
    if flags & 2 != 0 {
        let mut c = flate2::Crc::new();
        c.update(&o);
        o.extend_from_slice(&(c.sum() as u16).to_le_bytes());
    }
    o.extend(deflate_raw(s, plain));
    let mut c = flate2::Crc::new();
    c.update(plain);
    o.extend_from_slice(&c.sum().to_le_bytes());
    o.extend_from_slice(&c.amount().to_le_bytes());
    o
}
pub fn deflate_raw(s: &mut Src, plain: &[u8]) -> Vec<u8> {
    let lvl = *s.pick(&[6u32, 1, 9, 0]);
    let mut e = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::new(lvl));
    e.write_all(plain).unwrap();
    e.finish().unwrap()
}
pub fn deflate_zlib(s: &mut Src, plain: &[u8]) -> Vec<u8> {
    let lvl = *s.pick(&[6u32, 1, 9, 0]);
    for lvl in [lvl, 6, 1, 9, 0] {
        let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(lvl));
        e.write_all(plain).unwrap();
        let o = e.finish().unwrap();
        // one stream in 65536 can also be read as a raw deflate stream
        if o[3] != !o[1] || o[4] != !o[2] {
            return o;
        }
    }
    unreachable!()
}
pub fn lzma(plain: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = std::io::Cursor::new(plain);
    lzma_rs::lzma_compress(&mut i, &mut o).unwrap();
    o
}
pub fn encode(s: &mut Src, c: Coding, plain: &[u8]) -> Vec<u8> {
    match c {
        Coding::Gzip => gzip(s, plain),
        Coding::DeflateRaw => deflate_raw(s, plain),
        Coding::DeflateZlib => deflate_zlib(s, plain),
        Coding::Lzma => lzma(plain),
    }
}

pub fn draw_codings(s: &mut Src, f: &Feats) -> Vec<Coding> {
    let mut cs = vec![];
    let one = |s: &mut Src| match s.weighted(&[4, 3, if f.zlib { 2 } else { 0 }, if f.lzma { 1 } else { 0 }]) {
        0 => Coding::Gzip,
        1 => Coding::DeflateRaw,
        2 => Coding::DeflateZlib,
        _ => Coding::Lzma,
    };
    cs.push(one(s));
    if f.layered && s.chance(1, 3) {
        let mut c = one(s);
        if c == Coding::Lzma && cs[0] == Coding::Lzma {
            c = Coding::Gzip;
        }
        cs.push(c);
    }
    cs
}
fn ce_value(s: &mut Src, cs: &[Coding]) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    for (i, c) in cs.iter().enumerate() {
        if i > 0 {
            let sep: &[u8] = if s.flip() { b"," } else { b", " };
            v.extend_from_slice(sep);
        }
        if cs.len() == 1 && s.chance(1, 8) {
            // a single token is matched whatever its case
            return match c {
                Coding::Gzip => s.pick(&[b"GZIP".as_ref(), b"X-GZip"]).to_vec(),
                Coding::Lzma => b"LZMA".to_vec(),
                _ => s.pick(&[b"Deflate".as_ref(), b"X-DEFLATE"]).to_vec(),
            };
        }
        let n: &[u8] = match c {
            // inside a list, too, but for LZMA
            Coding::Gzip if s.chance(1, 8) => *s.pick(&[b"GZip".as_ref(), b"X-GZIP"]),
            Coding::DeflateRaw | Coding::DeflateZlib if s.chance(1, 8) => *s.pick(&[b"DEFLATE".as_ref(), b"x-Deflate"]),
            Coding::Gzip => {
                if s.chance(1, 4) {
                    b"x-gzip"
                } else {
                    b"gzip"
                }
            }
            Coding::DeflateRaw | Coding::DeflateZlib => {
                if s.chance(1, 5) {
                    b"x-deflate"
                } else {
                    b"deflate"
                }
            }
            Coding::Lzma => b"lzma",
        };
        v.extend_from_slice(n);
    }
    v
}

pub fn merge(list: &mut Vec<H>, n: &[u8], v: &[u8]) {
    if let Some(h) = list.iter_mut().find(|h| h.0.eq_ignore_ascii_case(n)) {
        if !n.eq_ignore_ascii_case(b"content-length") {
            h.1.extend_from_slice(b", ");
            h.1.extend_from_slice(v);
        }
    } else {
        list.push((n.to_vec(), v.to_vec()));
    }
}

struct W<'a> {
    out: &'a mut Vec<u8>,
    marks: &'a mut Vec<usize>,
    eol: &'static [u8],
}
impl W<'_> {
    fn put(&mut self, x: &[u8]) {
        self.out.extend_from_slice(x);
    }
    fn mark(&mut self) {
        self.marks.push(self.out.len());
    }
    fn nl(&mut self) {
        self.mark();
        self.out.extend_from_slice(self.eol);
        self.mark();
    }
    fn header(&mut self, s: &mut Src, f: &Feats, n: &[u8], v: &[u8], folded: &mut bool) {
        self.put(n);
        self.mark();
        self.put(b":");
        self.mark();
        let pre: &[u8] = if f.ows { *s.pick(&[b" ".as_ref(), b"", b"\t", b"  "]) } else { b" " };
        let post: &[u8] = if f.ows { *s.pick(&[b"".as_ref(), b" ", b"\t"]) } else { b"" };
        self.put(pre);
        let sp = v.iter().position(|c| *c == b' ');
        match sp {
            // obsolete line folding: the line end is dropped, the first blank of the next line stays
            Some(i) if f.fold && i > 0 && i + 1 < v.len() && fold_ok(&v[i + 1..]) && s.chance(1, 3) => {
                *folded = true;
                self.put(&v[..i]);
                self.nl();
                self.put(b" ");
                self.mark();
                self.put(&v[i + 1..]);
            }
            _ => self.put(v),
        }
        self.put(post);
        self.nl();
    }
}

/// An expectation is the same in any case.
fn expectation(s: &mut Src, f: &Feats) -> Vec<u8> {
    if f.casing { s.pick(&[b"100-continue", b"100-Continue", b"100-CONTINUE"]).to_vec() } else { b"100-continue".to_vec() }
}

pub type Pairs = Vec<(Vec<u8>, Vec<u8>)>;
/// What a browser makes of a form: the text, and the fields that are complete after each byte of it
/// (field, position behind its separator; the last one has none).
pub fn form(s: &mut Src, sep: u8, uri: bool) -> (Vec<u8>, Vec<(Pairs, usize)>) {
    let mut t = vec![];
    let mut done: Vec<(Pairs, usize)> = vec![];
    let n = if s.chance(1, 60) { s.range(6, 90) } else { s.range(0, 5) };
    for i in 0..n {
        if i > 0 {
            t.push(sep);
        }
        while s.chance(1, 12) {
            t.push(sep);
        }
        let (mut a, b) = (s.range(0, 6), s.range(0, 12));
        if i + 1 == n && t.is_empty() {
            a = a.max(1);
        }
        let mut pair = (vec![], vec![]);
        for (k, len) in [(0, a), (1, b)] {
            if k == 1 {
                // the '=' may be left out with the value
                if b == 0 && a > 0 && s.flip() {
                    break;
                }
                t.push(b'=');
            }
            let z = s.below(1 << 30);
            let mut x = z;
            for _ in 0..len {
                x = if z == 0 { 0 } else { mix(x) };
                let c = match x % 4 {
                    0 => b'a' + ((x >> 8) % 26) as u8,
                    1 => *[b' ', b'&', b'=', b'%', b'+', b';', b'#', b'/', b'?', b'@'].get((x >> 8) as usize % 10).unwrap(),
                    2 => 1 + ((x >> 8) % 255) as u8,
                    _ => b'0' + ((x >> 8) % 10) as u8,
                };
                let hex = x >> 40;
                let lit = c.is_ascii_alphanumeric() || (!uri && !matches!(c, b'%' | b'+' | b'=') && c != sep && c > 32) || (k == 1 && c == b'=');
                if c == b' ' && hex % 3 > 0 {
                    t.push(b'+');
                } else if lit && hex % 8 > 0 {
                    t.push(c);
                } else if hex & 16 == 0 {
                    t.extend_from_slice(format!("%{:02x}", c).as_bytes());
                } else {
                    t.extend_from_slice(format!("%{:02X}", c).as_bytes());
                }
                if k == 0 {
                    pair.0.push(c);
                } else {
                    pair.1.push(c);
                }
            }
        }
        done.push((vec![pair], t.len() + 1));
    }
    while !t.is_empty() && s.chance(1, 10) {
        t.push(sep);
    }
    if t.is_empty() {
        t.push(b'x');
        done.push((vec![(b"x".to_vec(), vec![])], 2));
    }
    (t, done)
}
/// a continuation that cannot be mistaken for a header of its own
fn fold_ok(v: &[u8]) -> bool {
    !v.contains(&b':') && !matches!(v[0], b' ' | b'\t')
}
/// field names are case insensitive
fn hname(s: &mut Src, f: &Feats, n: &str) -> Vec<u8> {
    let mut v = n.as_bytes().to_vec();
    if f.casing {
        match s.usz(4) {
            0 => {}
            1 => v.make_ascii_lowercase(),
            2 => v.make_ascii_uppercase(),
            _ => {
                let m = s.below(1 << 16);
                for (i, c) in v.iter_mut().enumerate() {
                    if (m >> (i % 16)) & 1 == 1 {
                        *c ^= if c.is_ascii_alphabetic() { 0x20 } else { 0 };
                    }
                }
            }
        }
    }
    v
}

pub fn b64(x: &[u8]) -> Vec<u8> {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = vec![];
    for c in x.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        o.push(A[(n >> 18) as usize & 63]);
        o.push(A[(n >> 12) as usize & 63]);
        o.push(if c.len() > 1 { A[(n >> 6) as usize & 63] } else { b'=' });
        o.push(if c.len() > 2 { A[n as usize & 63] } else { b'=' });
    }
    o
}

fn extra_headers(s: &mut Src, f: &Feats, out: &mut Vec<H>, prefix: &[u8], max: usize) {
    let n = s.range(0, max);
    for _ in 0..n {
        if f.repeat && !out.is_empty() && s.chance(1, 4) {
            // repeat an earlier extension header, with the case of the name changed
            let i = s.usz(out.len());
            let mut name = out[i].0.clone();
            if name.starts_with(prefix) {
                if s.flip() {
                    name.make_ascii_uppercase();
                }
                let v = value(s, 3);
                out.push((name, v));
                continue;
            }
        }
        let mut name = prefix.to_vec();
        name.extend(word(s, TOK, 1, 10));
        let mut v = value_odd(s, 4, f.odd);
        if f.big && s.chance(1, 6) {
            v = word(s, VAL, 200, 1500);
        }
        if f.huge && s.chance(1, 3) {
            v = word(s, VAL, 9000, 40_000);
        }
        out.push((name, v));
    }
}

fn shuffle<T>(s: &mut Src, v: &mut [T]) {
    if s.flip() {
        for i in (1..v.len()).rev() {
            // choice 0 keeps the order
            let j = i - s.usz(i + 1);
            v.swap(i, j);
        }
    }
}

fn put_body(s: &mut Src, f: &Feats, w: &mut W, fr: Framing, m: &mut Msg) {
    match fr {
        Framing::None => {}
        Framing::Cl | Framing::Close => {
            w.mark();
            let at = w.out.len();
            let c = m.coded.clone();
            w.put(&c);
            for k in [1usize, 2, 3, 9, 10, 11, 12] {
                if k < c.len() {
                    w.marks.push(at + k);
                }
            }
            w.mark();
            m.msg_len = m.coded.len() as u64;
            m.chunks.push((at, w.out.len()));
        }
        Framing::Chunked => {
            let a = w.out.len();
            let c = m.coded.clone();
            let mut p = 0;
            while p < c.len() {
                let left = c.len() - p;
                let n = match s.weighted(&[3, 2, 2, 2]) {
                    0 => left,
                    1 => 1,
                    2 => s.range(1, left.min(40)),
                    _ => s.range(1, left),
                };
                let sz = if s.flip() { format!("{:x}", n) } else { format!("{:X}", n) };
                let sz = if f.ext && s.chance(1, 4) { format!("0{}", sz) } else { sz };
                w.put(sz.as_bytes());
                w.mark();
                if f.ext && s.chance(1, 4) {
                    w.put(*s.pick(&[b";a=b".as_ref(), b"; name=\"v x\"", b";q"]));
                }
                w.nl();
                let ds = w.out.len();
                w.put(&c[p..p + n]);
                m.chunks.push((ds, ds + n));
                w.nl();
                p += n;
                if m.chunks.len() > 60 {
                    // keep histories bounded: one last chunk with the rest
                    if p < c.len() {
                        let n = c.len() - p;
                        w.put(format!("{:x}", n).as_bytes());
                        w.nl();
                        let ds = w.out.len();
                        w.put(&c[p..]);
                        m.chunks.push((ds, ds + n));
                        w.nl();
                    }
                    break;
                }
            }
            w.put(if f.ext && s.chance(1, 5) { b"000" } else { b"0" });
            w.nl();
            m.msg_len = (w.out.len() - a) as u64;
            m.body_end = w.out.len();
            let t0 = w.out.len();
            if f.trailers && s.chance(2, 3) {
                let mut t = vec![];
                extra_headers(s, f, &mut t, b"T-", 3);
                for (n, v) in &t {
                    w.header(s, f, n, v, &mut m.folded);
                    merge(&mut m.all_headers, n, v);
                    m.fields.push((w.out.len(), (n.clone(), v.clone())));
                }
            }
            w.nl();
            m.trailer = Some((t0, w.out.len()));
            m.end = w.out.len();
            return;
        }
    }
    m.body_end = w.out.len();
    m.end = w.out.len();
}

pub const METHODS: [&str; 28] = [
    "GET", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "PROPFIND", "LOCK", "REPORT", "TRACE", "PROPPATCH", "MKCOL",
    "COPY", "MOVE", "UNLOCK", "VERSION-CONTROL", "CHECKOUT", "UNCHECKOUT", "CHECKIN", "UPDATE", "LABEL",
    "MKWORKSPACE", "MKACTIVITY", "BASELINE-CONTROL", "MERGE", "SEARCH", "get", "X-PURGE",
];
/// the name of the method as the parser classifies it
pub fn method_class(m: &str) -> String {
    if matches!(m, "SEARCH" | "get" | "X-PURGE") {
        "UNKNOWN".into()
    } else {
        m.replace('-', "_")
    }
}

pub struct GenOpts {
    pub max_ex: usize,
    pub max_headers: usize,
    pub req_decomp: bool,
    pub resp_decomp: bool,
    /// what is wrong with this exchange ("" for nothing)
    pub anom: &'static str,
    /// white space before the method is taken for part of it
    pub lead: bool,
}

/// Anomalies of a request, and of a response.
pub const QANOM: [&str; 25] = [
    "clte", "dupcl", "dupcl2", "foldcl", "te10", "nohost", "badhost", "ambhost", "ambport", "badurihost", "badauth", "nocolon",
    "emptyname", "nontoken", "spacecolon", "blankfirst", "badct", "path-nul", "path-sep", "path-enc", "path-utf8", "path-overlong",
    "path-valid", "badport", "leadws",
];
pub const RANOM: [&str; 10] = [
    "r-clte", "r-dupcl", "r-dupcl2", "r-nocolon", "r-emptyname", "r-nontoken", "r-spacecolon", "r-badstatus", "r-badproto", "r-badct",
];
/// What an anomaly must and may leave behind.
#[derive(Clone, Debug, Default)]
pub struct Wrong {
    pub anom: &'static str,
    pub lead: Vec<u8>,
    pub must: u64,
    /// at least one of these (0: nothing)
    pub any: u64,
    pub may: u64,
    /// a header that carries at least one of these flags
    pub header: Option<(Vec<u8>, u64)>,
}
fn bad_line(s: &mut Src, a: &str, marks: &mut Vec<usize>, out: &mut Vec<u8>, eol: &[u8]) -> (H, u64) {
    let w = word(s, b"abcdefgh", 1, 6);
    let (line, h, f): (Vec<u8>, H, u64) = match a {
        "nocolon" => (w.clone(), (vec![], w), 4),
        "emptyname" => ([b":".as_ref(), &w].concat(), (vec![], w), 4 | 8),
        "nontoken" => {
            let n = [b"Z".as_ref(), *s.pick(&[b"(".as_ref(), b"\"", b"/", b"[x]", b"\x80"]), b"y"].concat();
            ([n.as_ref(), b": ".as_ref(), &w].concat(), (n, w), 8)
        }
        _ => {
            let n = b"Zz".to_vec();
            ([n.as_ref(), *s.pick(&[b" :".as_ref(), b"\t:", b"  : "]), &w].concat(), (n, w), 8)
        }
    };
    for b in line {
        out.push(b);
        marks.push(out.len());
    }
    out.extend_from_slice(eol);
    marks.push(out.len());
    (h, f)
}

pub fn gen_request(s: &mut Src, f: &Feats, o: &GenOpts, q: &mut Vec<u8>, marks: &mut Vec<usize>, head: bool, kind: XK) -> Req {
    let mut m = Msg { start: q.len(), ..Default::default() };
    let mut eol: &'static [u8] = if f.lf && s.chance(1, 3) { b"\n" } else { b"\r\n" };
    let method = if connect(kind) {
        "CONNECT"
    } else if head {
        "HEAD"
    } else {
        // an unknown method right after a request is taken for surplus data of that request
        let n = if !f.odd { 10 } else if q.is_empty() { 28 } else { 25 };
        *s.pick(&METHODS[..n])
    };
    let a = o.anom;
    let mut wrong = Wrong { anom: a, ..Default::default() };
    let ws: &'static [u8] = if a == "leadws" && q.is_empty() { *s.pick(&[b" ".as_ref(), b"\t", b"  "]) } else { b"" };
    let proto = if f.http10 && s.chance(1, 4) { "HTTP/1.0" } else { "HTTP/1.1" };
    let proto = match a {
        "te10" => "HTTP/1.0",
        "clte" | "nohost" => "HTTP/1.1",
        _ => proto,
    };
    let mut path = b"/".to_vec();
    for i in 0..s.range(0, 3) {
        if i > 0 {
            path.push(b'/');
        }
        path.extend(word(s, PATHC, 1, 9));
    }
    if f.big && s.chance(1, 8) {
        path.extend(word(s, PATHC, 500, 6000));
    }
    let mut escaped = false;
    if f.odd && s.chance(1, 4) {
        escaped = true;
        path.extend_from_slice(*s.pick(&[b"%41%2f".as_ref(), b"a%20b", b"./a/../b", b"//x", b"%c3%a9", b"%u0041", b"\\x", b"%", b"+", b"%zz", b";p=1"]));
    }
    let query = if f.forms && s.chance(3, 4) {
        escaped = true;
        Some(form(s, b'&', true).0)
    } else if s.chance(1, 3) {
        let mut v = word(s, PATHC, 1, 6);
        v.push(b'=');
        v.extend(word(s, PATHC, 0, 6));
        if f.odd && s.chance(1, 3) {
            escaped = true;
            v.extend_from_slice(*s.pick(&[b"&x=%41+%20".as_ref(), b"&&=", b"?y", b"%u2208", b"/a:b@c", b"%00"]));
        }
        Some(v)
    } else {
        None
    };
    let frag = if s.chance(1, 8) { Some(word(s, PATHC, 1, 5)) } else { None };
    let odd_path: Option<(&[u8], u64)> = match a {
        "path-nul" => Some((b"%00x", 0x4000)),
        "path-sep" => Some((*s.pick(&[b"%2f".as_ref(), b"%2F"]), 0x8_0000)),
        "path-enc" => Some((*s.pick(&[b"%zz".as_ref(), b"%1", b"%"]), 0x1_0000)),
        "path-utf8" => Some((*s.pick(&[b"\xff".as_ref(), b"%c3x", b"%80"]), 0x20_0000)),
        "path-overlong" => Some((*s.pick(&[b"%c0%af".as_ref(), b"\xc0\xae", b"%e0%80%af"]), 0x40_0000)),
        "path-valid" => Some((*s.pick(&[b"%c3%a9".as_ref(), b"\xc3\xa9", b"%e2%82%ac"]), 0x10_0000)),
        _ => None,
    };
    if let Some((x, w)) = odd_path {
        escaped = true;
        path = [b"/a".as_ref(), x].concat();
        if a != "path-enc" {
            path.push(b'b');
        }
        wrong.must = w;
    }
    let mut uri = vec![];
    let (mut scheme, mut uhost, mut uport) = (None, None, None);
    let (mut user, mut pass): (Option<Vec<u8>>, Option<Vec<u8>>) = (None, None);
    let v6 = f.odd && s.chance(1, 6) && a.is_empty();
    let hostn = if v6 { b"[2001:db8::1]".to_vec() } else {
        let mut h = word(s, b"abcdefghijklmnopqrstuvwxyz", 1, 8);
        h.extend_from_slice(b".example.com");
        h
    };
    let portn = if a == "badport" && !s.chance(1, 3) { None } else if s.chance(1, 4) || connect(kind) || a == "ambport" { Some(s.range(1, 65535) as u16) } else { None };
    if connect(kind) {
        uri.extend_from_slice(&hostn);
        uri.extend_from_slice(format!(":{}", portn.unwrap()).as_bytes());
        uhost = Some(hostn.clone());
        uport = portn;
    } else if (f.abs_uri && s.chance(1, 3) && !matches!(a, "badhost" | "nohost" | "badport")) || matches!(a, "ambhost" | "ambport" | "badurihost") || (a == "badport" && portn.is_some()) {
        let sc: &[u8] = if f.odd { *s.pick(&[b"http".as_ref(), b"https", b"ftp"]) } else { b"http" };
        uri.extend_from_slice(sc);
        uri.extend_from_slice(b"://");
        if f.odd && s.chance(1, 3) {
            user = Some(word(s, PATHC, 1, 6));
            uri.extend_from_slice(user.as_ref().unwrap());
            if s.flip() {
                pass = Some(word(s, PATHC, 1, 6));
                uri.push(b':');
                uri.extend_from_slice(pass.as_ref().unwrap());
            }
            uri.push(b'@');
        }
        let hostn = if a == "badurihost" { bad_host(s) } else { hostn.clone() };
        uri.extend_from_slice(&hostn);
        if let Some(p) = portn {
            uri.extend_from_slice(format!(":{}", p).as_bytes());
        }
        scheme = Some(sc.to_vec());
        uhost = Some(hostn.clone());
        uport = portn;
    }
    let (path, query, frag) = if connect(kind) {
        (None, None, None)
    } else if f.odd && a.is_empty() && uhost.is_none() && s.chance(1, 12) {
        (Some(b"*".to_vec()), None, None)
    } else {
        (Some(path), query, frag)
    };
    if let Some(v) = &path {
        uri.extend_from_slice(v);
    }
    if let Some(v) = &query {
        uri.push(b'?');
        uri.extend_from_slice(v);
    }
    if let Some(v) = &frag {
        uri.push(b'#');
        uri.extend_from_slice(v);
    }
    if let Some(d) = &f.wild {
        if !connect(kind) {
            uri = crate::uris::wild(s, d);
        }
    }
    let wts: [u64; 3] = match kind {
        XK::Refused | XK::Accepted | XK::Upgrade => [1, 0, 0],
        XK::Reject => [0, 1, 0],
        _ => [4, 4, if f.chunked && proto == "HTTP/1.1" { 5 } else { 0 }],
    };
    let wts = match a {
        "clte" | "te10" => [0, 0, 1],
        "dupcl" | "dupcl2" | "foldcl" => [0, 1, 0],
        "badct" => [0, 1, wts[2]],
        _ => wts,
    };
    let framing = match s.weighted(&wts) {
        0 => Framing::None,
        1 => Framing::Cl,
        _ => Framing::Chunked,
    };
    let mut hs: Vec<H> = vec![];
    let mut hv = hostn.clone();
    if s.chance(1, 4) {
        hv.make_ascii_uppercase();
    }
    if let Some(p) = portn {
        hv.extend_from_slice(format!(":{}", p).as_bytes());
    }
    let mut has_host = proto == "HTTP/1.1" || s.flip();
    let mut hostn = hostn;
    match a {
        "nohost" => {
            has_host = false;
            wrong.must = 0x1000;
        }
        "badhost" => {
            has_host = true;
            hostn = bad_host(s);
            hv = hostn.clone();
            if let Some(p) = portn {
                hv.extend_from_slice(format!(":{}", p).as_bytes());
            }
            wrong.must = 0x400_0000;
        }
        "badport" => {
            has_host = true;
            hv = hostn.clone();
            if s.chance(1, 4) {
                hv.make_ascii_uppercase();
            }
            hv.extend_from_slice(*s.pick(&[b":0".as_ref(), b":65536", b":99999999999", b":8x", b":+80"]));
            // no port, or a port that cannot be read, is not the one the target names
            wrong.must = if portn.is_some() { 0x400_2000 } else { 0x400_0000 };
        }
        "ambhost" => {
            has_host = true;
            hv = b"other.example.com".to_vec();
            wrong.must = 0x2000;
        }
        "ambport" => {
            has_host = true;
            hv = hostn.clone();
            hv.extend_from_slice(format!(":{}", if portn == Some(80) { 81 } else { 80 }).as_bytes());
            wrong.must = 0x2000;
        }
        "badurihost" => {
            wrong.must = 0x200_0000;
            wrong.may = 0x400_0000 | 0x2000;
        }
        _ => {}
    }
    if has_host {
        hs.push((hname(s, f, "Host"), hv));
    }
    let (mut host, mut port) = (None, None);
    if uhost.is_some() {
        host = uhost.clone();
        port = uport;
    } else if has_host {
        host = Some(hostn);
        port = portn;
    }
    let mut ctype = None;
    let mut codings = vec![];
    let mut expect = false;
    let mut cl = None;
    if kind == XK::Reject {
        cl = Some(s.range(1, 5000) as u64);
        hs.push((hname(s, f, "Expect"), expectation(s, f)));
        hs.push((hname(s, f, "Content-Length"), format!("{}", cl.unwrap()).into_bytes()));
    } else if framing != Framing::None {
        if s.chance(1, 10) && framing == Framing::Cl {
            m.plain = vec![];
        } else if !(framing == Framing::Chunked && s.chance(1, 8)) {
            m.plain = body_bytes(s, f, 1);
        }
        m.coded = m.plain.clone();
        if f.req_coding && !m.plain.is_empty() && s.chance(1, 2) {
            codings = draw_codings(s, f);
            for c in codings.clone() {
                if c == Coding::Lzma {
                    m.lzma_out = m.coded.len();
                }
                m.coded = encode(s, c, &m.coded.clone());
            }
            let v = ce_value(s, &codings);
            hs.push((hname(s, f, "Content-Encoding"), v));
        }
        if a == "badct" {
            let v: &[u8] = *s.pick(&[b"".as_ref(), b";charset=utf-8", b", text/plain"]);
            hs.push((hname(s, f, "Content-Type"), v.to_vec()));
            ctype = Some(vec![]);
        } else if s.flip() {
            let t: (&[u8], &[u8]) = *s.pick(&[
                (b"text/plain".as_ref(), b"text/plain".as_ref()),
                (b"Application/JSON; charset=utf-8", b"application/json"),
                (b"application/x-www-form-urlencoded", b"application/x-www-form-urlencoded"),
                (b"TEXT/XML,b", b"text/xml"),
                (b"multipart/form-data; boundary=\"a b\"", b"multipart/form-data"),
                (b"text/html ;q=1", b"text/html"),
            ]);
            hs.push((hname(s, f, "Content-Type"), t.0.to_vec()));
            ctype = Some(t.1.to_vec());
        }
        if f.interim && !m.plain.is_empty() && s.flip() {
            expect = true;
            hs.push((hname(s, f, "Expect"), expectation(s, f)));
        }
        match framing {
            Framing::Cl => {
                cl = Some(m.coded.len() as u64);
                hs.push((hname(s, f, "Content-Length"), format!("{}", m.coded.len()).into_bytes()))
            }
            _ => hs.push((hname(s, f, "Transfer-Encoding"), s.pick(&[b"chunked".as_ref(), b"Chunked"]).to_vec())),
        }
    }
    let mut dup: Option<H> = None;
    match a {
        "clte" => {
            hs.push((hname(s, f, "Content-Length"), format!("{}", s.range(0, 300)).into_bytes()));
            wrong.must = 0x100;
        }
        "te10" => wrong.must = 0x100 | 0x400,
        "dupcl" | "dupcl2" => {
            // the first one counts
            let i = hs.iter().position(|h| h.0.eq_ignore_ascii_case(b"content-length")).unwrap();
            let (n, v) = hs.remove(i);
            let v2 = if a == "dupcl" { v.clone() } else { format!("{}", s.range(0, 300)).into_bytes() };
            dup = Some((hname(s, f, "Content-Length"), v2));
            hs.push((n, v));
            wrong.must = 0x100;
        }
        "foldcl" => {
            wrong.must = 0x100;
            wrong.may = 0x200;
        }
        _ => {}
    }
    let mut auth = ("NONE", None, None, None);
    if a == "badauth" {
        let (v, k): (&[u8], &'static str) = *s.pick(&[
            (b"Basic !!!".as_ref(), "BASIC"),
            (b"Basic QWxhZGRpbg==", "BASIC"),
            (b"Digest username=x", "DIGEST"),
            (b"Digest realm=\"r\"", "DIGEST"),
            (b"Digest username=\"abc", "DIGEST"),
        ]);
        hs.push((hname(s, f, "Authorization"), v.to_vec()));
        auth = (k, None, None, None);
        wrong.must = 0x4_0000_0000;
    } else if f.auth && s.chance(1, 2) {
        match s.usz(4) {
            0 => {
                let u = word(s, PATHC, 1, 8);
                let mut p = word(s, PATHC, 1, 8);
                if f.odd && s.chance(1, 4) {
                    // only the first colon separates
                    p.push(b':');
                    p.extend(word(s, PATHC, 0, 3));
                }
                let mut x = u.clone();
                x.push(b':');
                x.extend_from_slice(&p);
                let mut v = b"Basic ".to_vec();
                v.extend(b64(&x));
                hs.push((hname(s, f, "Authorization"), v));
                auth = ("BASIC", Some(u), Some(p), None);
            }
            1 => {
                let u = word(s, PATHC, 1, 8);
                let mut v = if f.odd && s.flip() { b"Digest realm=\"r\", username=\"".to_vec() } else { b"Digest username=\"".to_vec() };
                v.extend_from_slice(&u);
                v.extend_from_slice(b"\", qop=\"r\", uri=\"/\"");
                hs.push((hname(s, f, "Authorization"), v));
                auth = ("DIGEST", Some(u), None, None);
            }
            2 => {
                let t = word(s, PATHC, 1, 20);
                let mut v = b"Bearer ".to_vec();
                v.extend_from_slice(&t);
                hs.push((hname(s, f, "Authorization"), v));
                auth = ("BEARER", None, None, Some(t));
            }
            _ => {
                hs.push((hname(s, f, "Authorization"), b"Custom xyz".to_vec()));
                auth = ("UNRECOGNIZED", None, None, None);
            }
        }
    }
    let most = if f.many && s.chance(1, 6) { if s.chance(1, 8) { 260 } else { 70 } } else { o.max_headers };
    extra_headers(s, f, &mut hs, b"X-", most);
    shuffle(s, &mut hs);
    if matches!(m.coded.first(), Some(b'\r' | b' ' | b'\t')) {
        // with bare LF line ends, a body that starts with CR or white space is not well delimited
        // (LF CR is accepted as a line end, and LF SP LF as one)
        eol = b"\r\n";
    }
    let mut line = [ws, method.as_bytes()].concat();
    if o.lead {
        wrong.lead = ws.to_vec();
    }
    line.push(b' ');
    line.extend_from_slice(&uri);
    line.push(b' ');
    line.extend_from_slice(proto.as_bytes());
    let mut w = W { out: q, marks, eol };
    w.put(ws);
    w.mark();
    w.put(method.as_bytes());
    w.mark();
    w.put(b" ");
    w.put(&uri);
    w.put(b" ");
    w.mark();
    w.put(proto.as_bytes());
    w.nl();
    m.line_end = w.out.len();
    if let Some(d) = dup {
        let i = hs.iter().position(|h| h.0.eq_ignore_ascii_case(b"content-length")).unwrap();
        let j = s.range(i + 1, hs.len());
        hs.insert(j, d);
    }
    let odd_at = if matches!(a, "nocolon" | "emptyname" | "nontoken" | "spacecolon") { s.range(0, hs.len()) } else { usize::MAX };
    if a == "blankfirst" {
        if hs.is_empty() {
            hs.push((b"Zz".to_vec(), b"1".to_vec()));
        }
        w.put(*s.pick(&[b" ".as_ref(), b"\t", b"  "]));
        w.mark();
        wrong.any = 0x200 | 8;
        wrong.may = 0x200 | 8;
    }
    for i in 0..=hs.len() {
        if i == odd_at {
            let eol = w.eol;
            let (h, x) = bad_line(s, a, w.marks, w.out, eol);
            merge(&mut m.headers, &h.0, &h.1);
            wrong.any = x;
            wrong.may = x;
            wrong.header = Some((h.0, x));
        }
        let Some((n, v)) = hs.get(i) else { break };
        if a == "foldcl" && n.eq_ignore_ascii_case(b"content-length") {
            w.put(n);
            w.put(b":");
            w.mark();
            w.nl();
            w.put(*s.pick(&[b" ".as_ref(), b"\t"]));
            w.mark();
            w.put(v);
            w.nl();
            m.folded = true;
        } else {
            w.header(s, f, n, v, &mut m.folded);
        }
        merge(&mut m.headers, n, v);
        m.fields.push((w.out.len(), (n.clone(), v.clone())));
    }
    w.nl();
    m.head_end = w.out.len();
    m.all_headers = m.headers.clone();
    put_body(s, f, &mut w, framing, &mut m);
    if !o.req_decomp {
        m.lzma_out = 0;
        m.plain = m.coded.clone();
    }
    Req {
        method, uri, proto, line, user, pass, escaped, scheme, uhost, uport, path, query, frag, host, port, ctype, auth, framing, codings,
        expect, cl, m, wrong, blank: 0,
    }
}
fn bad_host(s: &mut Src) -> Vec<u8> {
    s.pick(&[b"a..example.com".as_ref(), b".example.com", b"ex$mple.com", b"a,b.com", &[b'a'; 64], b"a!b.com"]).to_vec()
}

pub fn gen_response(
    s: &mut Src, f: &Feats, o: &GenOpts, r: &mut Vec<u8>, marks: &mut Vec<usize>, head: bool, expect: bool, last: bool,
    kind: XK,
) -> Resp {
    let eol: &'static [u8] = if f.lf && s.chance(1, 3) { b"\n" } else { b"\r\n" };
    let mut w = W { out: r, marks, eol };
    let mut interim = 0;
    let mut interim_heads = vec![];
    let start = w.out.len();
    let mut ifold = false;
    let n = if !expect {
        0
    } else if s.chance(1, 5) {
        s.range(2, 3)
    } else {
        1
    };
    for _ in 0..n {
        interim += 1;
        w.put(b"HTTP/1.1 100 Continue");
        w.nl();
        let a = w.out.len();
        if s.chance(1, 4) {
            let mut t = vec![];
            extra_headers(s, f, &mut t, b"I-", 2);
            for (n, v) in &t {
                w.header(s, f, n, v, &mut ifold);
            }
        }
        w.nl();
        interim_heads.push((a, w.out.len()));
    }
    let mut m = Msg { start, folded: ifold, ..Default::default() };
    let a = o.anom;
    let mut wrong = Wrong::default();
    let proto = if f.http10 && s.chance(1, 4) && a != "r-clte" { "HTTP/1.0" } else { "HTTP/1.1" };
    let mut proto_number = if proto == "HTTP/1.1" { 101 } else { 100 };
    let proto = if a == "r-badproto" {
        wrong.must = 0x100_0000;
        proto_number = -2;
        *s.pick(&["HTTP/3.7", "HTTP/x", "HTTP/11", "HTTPX/1.1"])
    } else {
        proto
    };
    let mut status: u16 = match kind {
        XK::Reject => *s.pick(&[417u16, 400, 401, 413, 499]),
        XK::Refused => *s.pick(&[403u16, 407, 502, 302, 400]),
        XK::Accepted => *s.pick(&[200u16, 201, 299, 250]),
        XK::Upgrade => 101,
        _ => {
            let mut c = *s.pick(&[200u16, 201, 206, 302, 404, 500, 418, 503, 299, 999]);
            if f.odd && s.flip() {
                c = s.range(200, 999) as u16;
                if c == 204 || c == 304 {
                    c += 1;
                }
            }
            c
        }
    };
    let mut framing = match s.weighted(&[
        4,
        if f.chunked && proto == "HTTP/1.1" { 6 } else { 0 },
        if f.nobody && matches!(kind, XK::Normal | XK::Unsol) { 2 } else { 0 },
        if last && f.close { 8 } else { 0 },
    ]) {
        0 => Framing::Cl,
        1 => Framing::Chunked,
        2 => {
            status = *s.pick(&[204u16, 304]);
            Framing::None
        }
        _ => Framing::Close,
    };
    match a {
        "r-clte" => framing = Framing::Chunked,
        "r-dupcl" | "r-dupcl2" => framing = Framing::Cl,
        "r-badstatus" if framing == Framing::None => framing = Framing::Cl,
        _ => {}
    }
    if matches!(a, "r-clte" | "r-dupcl" | "r-dupcl2") && matches!(status, 204 | 304) {
        status = 200;
    }
    if matches!(kind, XK::Accepted | XK::Upgrade) || (head && framing != Framing::None) {
        framing = Framing::None;
    }
    // what has a body switches no protocols, and is no message without one, whatever its status says
    if f.switch && kind == XK::Normal && a.is_empty() && matches!(framing, Framing::Cl | Framing::Chunked) && s.chance(1, 12) {
        status = *s.pick(&[101u16, 101, 102, 199, 204, 304]);
    }
    let reason = match s.weighted(&[4, 2, 1]) {
        0 => Some(b"OK".to_vec()),
        1 => Some({
            let mut v = value(s, 3);
            if v.is_empty() {
                v = b"x".to_vec()
            }
            if f.odd && s.chance(1, 4) {
                v.extend_from_slice(b" \xc3\xa9 200 HTTP/1.1");
            }
            v
        }),
        _ => None,
    };
    let mut hs: Vec<H> = vec![];
    let mut ctype = None;
    let mut codings = vec![];
    if framing != Framing::None {
        if s.chance(1, 10) {
            m.plain = vec![];
        } else {
            m.plain = body_bytes(s, f, 1);
        }
        m.coded = m.plain.clone();
        if f.coding && !m.plain.is_empty() && s.chance(1, 2) {
            codings = draw_codings(s, f);
            for c in codings.clone() {
                if c == Coding::Lzma {
                    m.lzma_out = m.coded.len();
                }
                m.coded = encode(s, c, &m.coded.clone());
            }
            let v = ce_value(s, &codings);
            hs.push((hname(s, f, "Content-Encoding"), v));
        }
        if a == "r-badct" {
            let v: &[u8] = *s.pick(&[b"".as_ref(), b";charset=utf-8"]);
            hs.push((hname(s, f, "Content-Type"), v.to_vec()));
            ctype = Some(vec![]);
        } else if s.flip() {
            let t: (&[u8], &[u8]) = *s.pick(&[
                (b"text/html".as_ref(), b"text/html".as_ref()),
                (b"Text/HTML; charset=utf-8", b"text/html"),
                (b"image/png", b"image/png"),
            ]);
            hs.push((hname(s, f, "Content-Type"), t.0.to_vec()));
            ctype = Some(t.1.to_vec());
        }
        match framing {
            Framing::Cl => hs.push((hname(s, f, "Content-Length"), format!("{}", m.coded.len()).into_bytes())),
            Framing::Chunked => {
                hs.push((hname(s, f, "Transfer-Encoding"), s.pick(&[b"chunked".as_ref(), b"Chunked"]).to_vec()))
            }
            _ => {}
        }
    } else if head && s.flip() {
        // a HEAD response announces the length of a body that is not sent
        hs.push((hname(s, f, "Content-Length"), format!("{}", s.range(0, 5000)).into_bytes()));
    } else if status == 204 || status == 304 {
        if s.chance(1, 4) && status == 304 {
            hs.push((hname(s, f, "ETag"), b"\"x\"".to_vec()));
        }
    } else if kind == XK::Upgrade {
        let v: &[u8] = *s.pick(&[b"websocket".as_ref(), b"h2c"]);
        hs.push((hname(s, f, "Upgrade"), v.to_vec()));
    } else if kind == XK::Accepted {
    } else if !head {
        hs.push((hname(s, f, "Content-Length"), b"0".to_vec()));
    }
    let most = if f.many && s.chance(1, 6) { if s.chance(1, 8) { 260 } else { 70 } } else { o.max_headers };
    extra_headers(s, f, &mut hs, b"Y-", most);
    shuffle(s, &mut hs);
    if matches!(m.coded.first(), Some(b'\r' | b' ' | b'\t')) {
        w.eol = b"\r\n";
    }
    w.mark();
    let at = w.out.len();
    w.put(proto.as_bytes());
    w.mark();
    let mut number = status as i32;
    if a == "r-badstatus" {
        wrong.must = 0x100_0000;
        number = -1;
        w.put(*s.pick(&[b" 099".as_ref(), b" 1000", b" abc", b" 20x", b" 99999999999"]));
    } else {
        w.put(format!(" {}", status).as_bytes());
    }
    w.mark();
    if let Some(x) = &reason {
        w.put(b" ");
        w.put(x);
    }
    let line = w.out[at..].to_vec();
    w.nl();
    m.line_end = w.out.len();
    match a {
        "r-clte" => {
            hs.push((hname(s, f, "Content-Length"), format!("{}", s.range(0, 300)).into_bytes()));
            wrong.must = 0x100;
        }
        "r-dupcl" | "r-dupcl2" => {
            let i = hs.iter().position(|h| h.0.eq_ignore_ascii_case(b"content-length")).unwrap();
            let v2 = if a == "r-dupcl" { hs[i].1.clone() } else { format!("{}", s.range(0, 300)).into_bytes() };
            let j = s.range(i + 1, hs.len());
            hs.insert(j, (hname(s, f, "Content-Length"), v2));
            wrong.must = 0x100;
        }
        _ => {}
    }
    let odd_at = if matches!(a, "r-nocolon" | "r-emptyname" | "r-nontoken" | "r-spacecolon") { s.range(0, hs.len()) } else { usize::MAX };
    for i in 0..=hs.len() {
        if i == odd_at {
            let eol = w.eol;
            let (h, x) = bad_line(s, &a[2..], w.marks, w.out, eol);
            merge(&mut m.headers, &h.0, &h.1);
            wrong.any = x;
            wrong.may = x;
            wrong.header = Some((h.0, x));
        }
        let Some((n, v)) = hs.get(i) else { break };
        w.header(s, f, n, v, &mut m.folded);
        merge(&mut m.headers, n, v);
        m.fields.push((w.out.len(), (n.clone(), v.clone())));
    }
    w.nl();
    m.head_end = w.out.len();
    m.all_headers = m.headers.clone();
    put_body(s, f, &mut w, framing, &mut m);
    if !o.resp_decomp {
        m.lzma_out = 0;
        m.plain = m.coded.clone();
    }
    Resp { blank: 0, wrong, number, proto_number, interim, interim_heads, proto, status, reason, line, ctype, framing, codings, m }
}

pub fn connect(k: XK) -> bool {
    matches!(k, XK::Refused | XK::Accepted)
}
fn no_request(at: usize) -> Req {
    let m = Msg { start: at, line_end: at, head_end: at, body_end: at, end: at, ..Default::default() };
    Req {
        method: "", uri: b"/libhtp::request_uri_not_seen".to_vec(), proto: "", line: vec![], user: None, pass: None,
        escaped: false, scheme: None, uhost: None, uport: None,
        path: None, query: None, frag: None, host: None, port: None, ctype: None, auth: ("", None, None, None),
        framing: Framing::None, codings: vec![], expect: false, cl: None, m, wrong: Wrong::default(), blank: 0,
    }
}

pub fn gen_conv(s: &mut Src, f: &Feats, o: &GenOpts) -> Conv {
    let n = 1 + match s.weighted(&[3, 4, 2]) {
        0 => 0,
        1 => s.usz(o.max_ex.min(4)),
        _ => s.usz(o.max_ex),
    };
    let mut c = Conv::default();
    let mut prev = XK::Normal;
    for i in 0..n {
        let kind = if f.unsol && matches!(prev, XK::Normal | XK::Unsol) && s.chance(1, 4) {
            XK::Unsol
        } else if f.reject && s.chance(1, 5) {
            XK::Reject
        } else if f.connect && s.chance(1, 5) {
            XK::Refused
        } else {
            XK::Normal
        };
        prev = kind;
        push_exchange(s, f, o, &mut c, kind, i + 1 == n);
    }
    c.open_end = matches!(prev, XK::Reject | XK::Refused);
    tidy(&mut c);
    c
}

/// A conversation in which some exchanges have something wrong with them.
pub fn gen_odd(s: &mut Src, f: &Feats, o: &GenOpts) -> Conv {
    let n = s.range(1, o.max_ex);
    let mut c = Conv::default();
    let bad = s.usz(n);
    for i in 0..n {
        let anom = if i != bad && !s.chance(1, 6) {
            ""
        } else if s.chance(2, 3) {
            *s.pick(&QANOM)
        } else {
            *s.pick(&RANOM)
        };
        push_exchange(s, f, &GenOpts { anom, ..*o }, &mut c, XK::Normal, i + 1 == n);
    }
    tidy(&mut c);
    c
}

/// Empty lines in front of a message are skipped.  After another message they have to come in a
/// segment of their own: whatever shares one with the end of a message is surplus data of it.
fn blank_lines(s: &mut Src, f: &Feats, out: &mut Vec<u8>, marks: &mut Vec<usize>, cut: &mut Vec<usize>, ok: bool) -> u32 {
    if !f.blank || !ok || !s.chance(1, 3) {
        return 0;
    }
    if !out.is_empty() {
        cut.push(out.len());
    }
    let n = s.range(1, 3);
    for _ in 0..n {
        out.extend_from_slice(*s.pick(&[b"\r\n".as_ref(), b"\n"]));
        marks.push(out.len());
    }
    n as u32
}
pub fn push_exchange(s: &mut Src, f: &Feats, o: &GenOpts, c: &mut Conv, kind: XK, last: bool) {
    let head = kind == XK::Normal && o.anom.is_empty() && f.nobody && s.chance(1, 5);
    let calm = kind == XK::Normal && c.ex.last().map_or(true, |e| e.kind == XK::Normal);
    let q = if kind == XK::Unsol {
        no_request(c.q.len())
    } else {
        let blank = blank_lines(s, f, &mut c.q, &mut c.qmarks, &mut c.qcut, calm);
        Req { blank, ..gen_request(s, f, o, &mut c.q, &mut c.qmarks, head, kind) }
    };
    let blank = blank_lines(s, f, &mut c.r, &mut c.rmarks, &mut c.rcut, calm);
    let r = Resp { blank, ..gen_response(s, f, o, &mut c.r, &mut c.rmarks, head, q.expect, last, kind) };
    if r.framing == Framing::Close {
        c.closes = true;
    }
    c.ex.push(Exchange { kind, q, r });
}
fn tidy(c: &mut Conv) {
    c.qmarks.sort();
    c.qmarks.dedup();
    c.rmarks.sort();
    c.rmarks.dedup();
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tun {
    Upgrade,
    Opaque,
    Http,
}
fn opaque(s: &mut Src, first: bool) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    if first {
        v.extend_from_slice(*s.pick(&[
            b"\x16\x03\x01\x00\xa5\x01\x00\x00".as_ref(),
            b"SSH-2.0-OpenSSH_9\r\n",
            b"\r\n",
            b"GETX / HTTP/1.1\r\nHost: x\r\n\r\n",
            b"get / HTTP/1.1\r\n\r\n",
            b"220 smtp ready\r\n",
            b"  \x01\x02\x03 GET\n",
            b"\0",
        ]));
    }
    let n = s.range(0, 3);
    for _ in 0..n {
        match s.usz(5) {
            0 => v.extend_from_slice(b"GET /inner HTTP/1.1\r\nHost: inner\r\n\r\n"),
            1 => v.extend_from_slice(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok"),
            2 => v.extend_from_slice(b"\r\n\r\n"),
            3 => v.extend(body_bytes(s, &Feats::plain(), 1)),
            _ => v.extend_from_slice(b"\x17\x03\x03\x00\x05hello"),
        }
    }
    v
}
/// A conversation that turns into something else.
pub fn gen_tunnel(s: &mut Src, f: &Feats, o: &GenOpts, tun: Tun) -> Conv {
    let mut c = Conv::default();
    for _ in 0..s.range(0, 2) {
        push_exchange(s, f, o, &mut c, XK::Normal, false);
    }
    let kind = if tun == Tun::Upgrade { XK::Upgrade } else { XK::Accepted };
    push_exchange(s, f, o, &mut c, kind, false);
    match tun {
        Tun::Http => {
            for _ in 0..s.range(1, 3) {
                push_exchange(s, f, o, &mut c, XK::Normal, false);
            }
        }
        _ => {
            let up = tun == Tun::Upgrade;
            let v = opaque(s, !up);
            let at = c.q.len();
            c.decide = at + v.iter().position(|x| *x == b'\n' || *x == 0).map(|i| i + 1).unwrap_or(0);
            for i in [1, 2, 3, 8] {
                c.qmarks.push(at + i);
            }
            c.q.extend(v);
            c.qmarks.push(at);
            let at = c.r.len();
            let v = opaque(s, false);
            c.r.extend(v);
            c.rmarks.push(at);
            c.qmarks.retain(|x| *x <= c.q.len());
        }
    }
    let x = c.ex.iter().find(|x| x.kind == kind).unwrap();
    c.h2 = x.r.m.headers.iter().any(|h| h.1 == b"h2c");
    tidy(&mut c);
    c
}
