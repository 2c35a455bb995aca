//! C25: request targets, split and normalised as configured. The reference model of the decoders
//! (forms.rs uses it too), written from the documented settings and checked against whole
//! conversations.
use crate::bestfit::BESTFIT;
use crate::drive::*;
use crate::oracle;
use crate::props::*;
use crate::rec::{self, K, B};
use crate::rng::Src;
use crate::stats;
use crate::wire::*;
use htp::config::{Config, HtpUnwanted, HtpUrlEncodingHandling};
use htp::transaction::{Param, Transaction};
use std::cell::RefCell;

type R = Result<(), String>;

const ENC_NUL: u64 = 0x4000;
const RAW_NUL: u64 = 0x8000;
const INVALID: u64 = 0x1_0000;
const OVERLONG_U: u64 = 0x4_0000;
const ENC_SEP: u64 = 0x8_0000;
const U8_VALID: u64 = 0x10_0000;
const U8_INVALID: u64 = 0x20_0000;
const U8_OVERLONG: u64 = 0x40_0000;
const HALF_FULL: u64 = 0x80_0000;
const HOSTU: u64 = 0x200_0000;
const MASK: u64 = 0xfd_c000 | HOSTU;
pub const F_ENC_NUL: u64 = 0x800_0000;
pub const F_INVALID: u64 = 0x1000_0000;
pub const F_OVERLONG_U: u64 = 0x2000_0000;
pub const F_HALF_FULL: u64 = 0x4000_0000;
pub const F_RAW_NUL: u64 = 0x8000_0000;

/// what the server is expected to answer: 0 nothing special
pub type Code = u16;
fn unw(c: Code) -> HtpUnwanted {
    match c {
        400 => HtpUnwanted::CODE_400,
        404 => HtpUnwanted::CODE_404,
        _ => HtpUnwanted::IGNORE,
    }
}
pub fn code_name(c: Code) -> String {
    format!("{:?}", unw(c))
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Inv {
    Preserve,
    Remove,
    Process,
}
/// The decoder settings, as the model sees them.
#[derive(Clone, Copy, Debug)]
pub struct Dec {
    pub plus: bool,
    pub backslash: bool,
    pub lower: bool,
    pub compress: bool,
    pub sep_decode: bool,
    pub raw_nul_ends: bool,
    pub raw_nul: Code,
    pub enc_nul_ends: bool,
    pub enc_nul: Code,
    pub control: Code,
    pub u: bool,
    pub u_code: Code,
    pub inv: Inv,
    pub inv_code: Code,
    pub utf8: bool,
    pub utf8_code: Code,
    pub repl: u8,
    pub twice_path: bool,
    pub twice_query: bool,
    pub spaces: bool,
    /// a server that reads lines only up to a NUL
    pub nul_ends_line: bool,
}
impl Dec {
    /// what a server personality stands for
    pub fn preset(pers: usize) -> Dec {
        let mut d = Dec {
            plus: true, backslash: false, lower: false, compress: false, sep_decode: false, raw_nul_ends: false, raw_nul: 0,
            enc_nul_ends: false, enc_nul: 0, control: 0, u: false, u_code: 0, inv: Inv::Preserve, inv_code: 0, utf8: false, utf8_code: 0,
            repl: b'?', twice_path: false, twice_query: false, spaces: false, nul_ends_line: pers == 9,
        };
        match pers {
            0 | 3 | 4 => return d,
            9 => {
                d.compress = true;
                d.inv_code = 400;
                return d;
            }
            _ => {}
        }
        d.backslash = true;
        d.sep_decode = true;
        d.compress = true;
        match pers {
            2 => {
                d.lower = true;
                d.utf8 = true;
                d.u = true;
            }
            6 => {
                d.u = true;
                d.u_code = 400;
                d.control = 400;
            }
            7 | 8 => {
                d.u = true;
                d.inv_code = 400;
                d.control = 400;
            }
            _ => {}
        }
        d
    }
    pub fn draw(s: &mut Src, base: Dec) -> Dec {
        let m = s.below(1 << 13);
        let f = |i: u32| (m >> i) & 1 == 1;
        let mut d = Dec {
            plus: f(0), backslash: f(1), lower: f(2), compress: f(3), sep_decode: f(4), raw_nul_ends: f(5) && f(6), enc_nul_ends: f(7) && f(6), u: f(8),
            utf8: f(9), twice_path: f(10), twice_query: f(11), spaces: f(12),
            ..base
        };
        d.inv = *s.pick(&[Inv::Preserve, Inv::Remove, Inv::Process]);
        d.repl = *s.pick(&[b'?', b'x', 0, b'/', 0xff]);
        for c in [&mut d.raw_nul, &mut d.enc_nul, &mut d.control, &mut d.u_code, &mut d.inv_code, &mut d.utf8_code] {
            *c = *s.pick(&[0, 400, 404]);
        }
        d
    }
    pub fn apply(&self, c: &mut Config) {
        c.set_plusspace_decode(self.plus);
        c.set_backslash_convert_slashes(self.backslash);
        c.set_convert_lowercase(self.lower);
        c.set_path_separators_compress(self.compress);
        c.set_path_separators_decode(self.sep_decode);
        c.set_nul_raw_terminates(self.raw_nul_ends);
        c.decoder_cfg.nul_raw_unwanted = unw(self.raw_nul);
        c.set_nul_encoded_terminates(self.enc_nul_ends);
        c.decoder_cfg.nul_encoded_unwanted = unw(self.enc_nul);
        c.set_control_chars_unwanted(unw(self.control));
        c.set_u_encoding_decode(self.u);
        c.set_u_encoding_unwanted(unw(self.u_code));
        c.set_url_encoding_invalid_handling(match self.inv {
            Inv::Preserve => HtpUrlEncodingHandling::PRESERVE_PERCENT,
            Inv::Remove => HtpUrlEncodingHandling::REMOVE_PERCENT,
            Inv::Process => HtpUrlEncodingHandling::PROCESS_INVALID,
        });
        c.set_url_encoding_invalid_unwanted(unw(self.inv_code));
        c.set_utf8_convert_bestfit(self.utf8);
        c.decoder_cfg.utf8_invalid_unwanted = unw(self.utf8_code);
        c.set_bestfit_replacement_byte(self.repl);
        c.set_double_decode_normalized_path(self.twice_path);
        c.set_double_decode_normalized_query(self.twice_query);
        c.set_allow_space_uri(self.spaces);
    }
    fn fit(&self, cp: u32) -> u8 {
        BESTFIT.binary_search_by_key(&cp, |e| e.0).map(|i| BESTFIT[i].1).unwrap_or(self.repl)
    }
}

fn digit(c: u8) -> u8 {
    if c >= b'A' {
        (c & 0xdf).wrapping_sub(b'A').wrapping_add(10)
    } else {
        c.wrapping_sub(b'0')
    }
}
fn pair(x: &[u8]) -> u8 {
    digit(x[0]).wrapping_mul(16).wrapping_add(digit(x[1]))
}
fn hex(x: &[u8], n: usize) -> bool {
    x.len() >= n && x[..n].iter().all(|c| c.is_ascii_hexdigit())
}
fn worse(c: &mut Code, n: Code) {
    if n != 0 {
        *c = n;
    }
}

/// one escape at the front of `x`, which starts after the '%': bytes taken, the byte or nothing,
/// what kind it was
enum Esc {
    Hex(u8),
    U(u8, u8),
    Bad,
    /// malformed but taken at its word
    BadHex(u8),
    BadU(u8, u8),
    /// not an escape with these settings
    Plain,
}
fn escape(x: &[u8], d: &Dec) -> (usize, Esc) {
    if x.first().is_some_and(|c| c | 0x20 == b'u') {
        if !d.u {
            return (0, Esc::Plain);
        }
        if hex(&x[1..], 4) {
            return (5, Esc::U(pair(&x[1..]), pair(&x[3..])));
        }
        if x.len() >= 5 && d.inv == Inv::Process {
            return (5, Esc::BadU(pair(&x[1..]), pair(&x[3..])));
        }
    } else if hex(x, 2) {
        return (2, Esc::Hex(pair(x)));
    } else if x.len() >= 2 && d.inv == Inv::Process {
        return (2, Esc::BadHex(pair(x)));
    }
    (0, Esc::Bad)
}
/// a parameter, user name, host, fragment: what it decodes to, the flags, the expected answer
pub fn decode(x: &[u8], d: &Dec) -> (Vec<u8>, u64, Code) {
    let (mut o, mut fl, mut code) = (vec![], 0, 0);
    let mut i = 0;
    while i < x.len() {
        let c = x[i];
        i += 1;
        if c == 0 {
            fl |= F_RAW_NUL;
            worse(&mut code, d.raw_nul);
            if d.raw_nul_ends {
                break;
            }
            o.push(0);
            continue;
        }
        if c == b'+' && d.plus {
            o.push(b' ');
            continue;
        }
        if c != b'%' {
            o.push(c);
            continue;
        }
        let (n, e) = escape(&x[i..], d);
        let long = x.len() - i >= 5;
        let isu = x.get(i).is_some_and(|c| c | 0x20 == b'u');
        i += n;
        let mut u = |a: u8, b: u8| {
            if a == 0 {
                fl |= F_OVERLONG_U;
                return b;
            }
            if a == 0xff && b <= 0xef {
                fl |= F_HALF_FULL;
            }
            d.fit((a as u32) << 8 | b as u32)
        };
        let mut this = 0;
        let b = match e {
            Esc::Plain => b'%',
            Esc::Hex(b) => b,
            Esc::U(a, b) => {
                this = d.u_code;
                u(a, b)
            }
            Esc::BadU(a, b) => {
                this = if d.inv_code != 0 { d.inv_code } else { d.u_code };
                let b = u(a, b);
                fl |= F_INVALID;
                b
            }
            Esc::BadHex(b) => {
                this = d.inv_code;
                fl |= F_INVALID;
                b
            }
            Esc::Bad => {
                fl |= F_INVALID;
                this = if isu && long && d.inv_code == 0 { d.u_code } else { d.inv_code };
                if d.inv == Inv::Remove {
                    worse(&mut code, this);
                    continue;
                }
                b'%'
            }
        };
        if b == 0 {
            fl |= F_ENC_NUL;
            worse(&mut this, d.enc_nul);
            worse(&mut code, this);
            if d.enc_nul_ends {
                break;
            }
        }
        worse(&mut code, this);
        o.push(b);
    }
    (o, fl, code)
}
/// a path, up to but without UTF-8 and dot segments
fn path_decode(x: &[u8], d: &Dec, fl: &mut u64, code: &mut Code) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    let mut i = 0;
    while i < x.len() {
        let mut b = x[i];
        i += 1;
        let mut ctl = true;
        if b == 0 {
            worse(code, d.raw_nul);
            if d.raw_nul_ends {
                break;
            }
        } else if b == b'%' {
            let (n, e) = escape(&x[i..], d);
            let at = i;
            i += n;
            let mut u = |a: u8, b: u8| {
                let r = if a == 0 {
                    *fl |= OVERLONG_U;
                    b
                } else {
                    if a == 0xff {
                        *fl |= HALF_FULL;
                    }
                    d.fit((a as u32) << 8 | b as u32)
                };
                if r == b'/' || (r == b'\\' && d.backslash) {
                    *fl |= ENC_SEP;
                }
                r
            };
            match e {
                Esc::Plain => {}
                Esc::U(a, c) => {
                    b = u(a, c);
                    worse(code, d.u_code);
                    if b == 0 {
                        *fl |= ENC_NUL;
                        worse(code, d.enc_nul);
                        if d.enc_nul_ends {
                            break;
                        }
                    }
                }
                Esc::BadU(a, c) => {
                    b = u(a, c);
                    *fl |= INVALID;
                    worse(code, d.inv_code);
                    if a != 0 {
                        worse(code, d.u_code);
                    }
                }
                Esc::BadHex(c) => {
                    b = c;
                    *fl |= INVALID;
                    worse(code, d.inv_code);
                }
                Esc::Bad => {
                    *fl |= INVALID;
                    worse(code, d.inv_code);
                    if d.inv == Inv::Remove {
                        continue;
                    }
                    ctl = false;
                }
                Esc::Hex(c) => {
                    b = c;
                    if b == 0 {
                        *fl |= ENC_NUL;
                        worse(code, d.enc_nul);
                        if d.enc_nul_ends {
                            break;
                        }
                    }
                    if b == b'/' || (b == b'\\' && d.backslash) {
                        *fl |= ENC_SEP;
                        if !d.sep_decode {
                            b = b'%';
                            i = at;
                        }
                    }
                }
            }
        }
        if ctl {
            if b < 0x20 {
                worse(code, d.control);
            }
            if b == b'\\' && d.backslash {
                b = b'/';
            }
            if d.lower {
                b = b.to_ascii_lowercase();
            }
        }
        if b == b'/' && d.compress && o.last() == Some(&b'/') {
            continue;
        }
        o.push(b);
    }
    o
}
/// UTF-8, overlong forms accepted, into single bytes
fn utf8(x: &[u8], d: &Dec, fl: &mut u64) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    let (mut valid, mut bad) = (false, false);
    while i < x.len() {
        let b = x[i];
        let n = match b {
            0..=0x7f => {
                o.push(b);
                i += 1;
                continue;
            }
            0xc0..=0xdf => 2,
            0xe0..=0xef => 3,
            0xf0..=0xf4 => 4,
            _ => {
                bad = true;
                o.push(d.repl);
                i += 1;
                continue;
            }
        };
        let mut cp = b as u32 & (0xff >> (n + 1));
        let mut k = 1;
        let mut broken = false;
        while k < n && i + k < x.len() {
            let c = x[i + k];
            let top = match (k, b) {
                (1, 0xed) => 0x9f,
                (1, 0xf4) => 0x8f,
                _ => 0xbf,
            };
            if !(0x80..=top).contains(&c) {
                broken = true;
                break;
            }
            cp = cp << 6 | (c & 0x3f) as u32;
            k += 1;
        }
        if broken {
            bad = true;
            o.push(d.repl);
            i += k;
            continue;
        }
        if k < n {
            // the text ends inside a character
            o.extend(std::iter::repeat(d.repl).take(k - 1));
            break;
        }
        valid = true;
        if cp < [0x80, 0x800, 0x10000][n - 2] {
            *fl |= U8_OVERLONG;
        }
        if (0xff00..=0xffef).contains(&cp) {
            *fl |= HALF_FULL;
        }
        o.push(if cp < 0x100 { cp as u8 } else { d.fit(cp) });
        i += n;
    }
    if bad {
        *fl |= U8_INVALID;
    } else if valid {
        *fl |= U8_VALID;
    }
    o
}
fn dots(x: &[u8]) -> Vec<u8> {
    let mut o: Vec<&[u8]> = vec![];
    for g in x.split(|c| *c == b'/') {
        match g {
            b"." => {}
            b".." => {
                if o != [b""] {
                    o.pop();
                }
            }
            _ => o.push(g),
        }
    }
    o.join(&b'/')
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Target {
    pub scheme: B,
    pub user: B,
    pub pass: B,
    pub host: B,
    pub port: B,
    pub path: B,
    pub query: B,
    pub frag: B,
}
fn upto(x: &[u8], stop: &[u8]) -> usize {
    x.iter().position(|c| stop.contains(c)).unwrap_or(x.len())
}
pub fn split(u: &[u8]) -> Target {
    let mut t = Target::default();
    let mut x = u;
    if !u.starts_with(b"/") && u.contains(&b':') {
        let i = upto(u, b":");
        t.scheme = Some(u[..i].to_vec());
        x = &u[i + 1..];
        if x.starts_with(b"//") && x.get(2) != Some(&b'/') {
            let a = &x[2..2 + upto(&x[2..], b"/?#")];
            if let Some(j) = a.iter().position(|c| *c == b'@') {
                let k = upto(&a[..j], b":");
                t.user = Some(a[..k].to_vec());
                if k < j {
                    t.pass = Some(a[k + 1..j].to_vec());
                }
                x = &x[2 + j + 1..];
            }
        }
        let h = x.strip_prefix(b"//").unwrap_or(x);
        // spaces around a host, and around a port, are skipped
        let spaces = |v: &[u8]| v.iter().take_while(|c| **c == b' ').count();
        let h = if h.starts_with(b"/") { &h[..0] } else { &h[spaces(h)..] };
        let close = upto(h, b"/?#]");
        let n = if h.starts_with(b"[") && close > 1 { close + (h.get(close) == Some(&b']')) as usize } else { upto(h, b"/?#:") };
        if n > 0 {
            let keep = h[..n].iter().rposition(|c| *c != b' ').map(|i| i + 1).unwrap_or(0);
            t.host = Some(h[..keep].to_vec());
            x = &h[n..];
            if x.starts_with(b":") {
                let n = upto(x, b"/?#");
                let p = &x[1..n];
                let p = &p[spaces(p)..];
                if !p.is_empty() {
                    t.port = Some(p[..upto(p, b" ")].to_vec());
                }
                x = &x[n..];
            }
        }
    }
    let n = upto(x, b"?#");
    if n > 0 {
        t.path = Some(x[..n].to_vec());
    }
    x = &x[n..];
    if x.starts_with(b"?") {
        let n = upto(x, b"#");
        t.query = Some(x[1..n].to_vec());
        x = &x[n..];
    }
    if x.starts_with(b"#") {
        t.frag = Some(x[1..].to_vec());
    }
    t
}
pub fn host_ok(h: &[u8]) -> bool {
    if h.is_empty() || h.len() > 255 {
        return false;
    }
    if h[0] == b'[' && h.last() == Some(&b']') {
        return std::str::from_utf8(&h[1..h.len() - 1]).is_ok_and(|a| a.parse::<std::net::Ipv6Addr>().is_ok());
    }
    h[0] != b'.'
        && !h.windows(2).any(|w| w == b"..")
        && h.split(|c| *c == b'.').all(|l| l.len() < 64 && l.iter().all(|c| *c == b'_' || *c == b'-' || (*c as char).is_alphanumeric()))
}
/// What the model says of one request target.
#[derive(Clone, PartialEq, Debug)]
pub struct Seen {
    pub raw: Target,
    pub norm: Target,
    pub port: Option<u16>,
    pub flags: u64,
    pub code: Code,
    pub all: B,
    pub part: B,
    pub twice: usize,
}
fn plain(x: &B, d: &Dec, fl: &mut u64) -> B {
    x.as_ref().map(|x| {
        let (o, f, _) = decode(x, d);
        for (a, b) in [(F_INVALID, INVALID), (F_ENC_NUL, ENC_NUL), (F_RAW_NUL, RAW_NUL)] {
            if f & a != 0 {
                *fl |= b;
            }
        }
        o
    })
}
pub fn model(u: &[u8], d: &Dec, path_override: Option<&[u8]>) -> Seen {
    let raw = split(u);
    let (mut fl, mut code) = (0, 0);
    let mut n = raw.clone();
    n.scheme = raw.scheme.as_ref().map(|x| x.to_ascii_lowercase());
    n.user = plain(&raw.user, d, &mut fl);
    n.pass = plain(&raw.pass, d, &mut fl);
    n.host = plain(&raw.host, d, &mut fl).map(|mut h| {
        h.make_ascii_lowercase();
        while h.last() == Some(&b'.') {
            h.pop();
        }
        h
    });
    n.frag = plain(&raw.frag, d, &mut fl);
    let port = raw.port.as_ref().and_then(|p| {
        let v = if p.iter().all(|c| c.is_ascii_digit()) { std::str::from_utf8(p).unwrap().parse::<u16>().ok().filter(|v| *v > 0) } else { None };
        if v.is_none() {
            fl |= HOSTU;
        }
        v
    });
    if n.host.as_ref().is_some_and(|h| !host_ok(h)) {
        fl |= HOSTU;
    }
    n.path = raw.path.as_ref().map(|x| {
        let p = path_decode(x, d, &mut fl, &mut code);
        let c = utf8(&p, d, &mut fl);
        if fl & U8_INVALID != 0 {
            worse(&mut code, d.utf8_code);
        }
        dots(if d.utf8 { &c } else { &p })
    });
    if let Some(p) = path_override {
        n.path = Some(p.to_vec());
    }
    let mut twice = 0;
    let mut part = vec![];
    if let Some(p) = &n.path {
        let mut p = p.clone();
        if d.twice_path {
            let o = decode(&p, d).0;
            twice += (o.len() < p.len()) as usize;
            p = o;
        }
        part.extend_from_slice(&p);
    }
    if let Some(q) = &n.query {
        let mut p = decode(q, d).0;
        if d.twice_query {
            let o = decode(&p, d).0;
            twice += (o.len() < p.len()) as usize;
            p = o;
        }
        part.push(b'?');
        part.extend_from_slice(&p);
    }
    if let Some(f) = &n.frag {
        part.push(b'#');
        part.extend_from_slice(f);
    }
    let mut all = vec![];
    if let Some(x) = &n.scheme {
        all.extend_from_slice(x);
        all.extend_from_slice(b"://");
    }
    if n.user.is_some() || n.pass.is_some() {
        all.extend_from_slice(n.user.as_deref().unwrap_or_default());
        all.push(b':');
        all.extend_from_slice(n.pass.as_deref().unwrap_or_default());
        all.push(b'@');
    }
    all.extend_from_slice(n.host.as_deref().unwrap_or_default());
    if let Some(p) = &n.port {
        all.push(b':');
        all.extend_from_slice(p);
    }
    all.extend_from_slice(&part);
    let some = |x: Vec<u8>| if x.is_empty() { None } else { Some(x) };
    Seen { raw, norm: n, port, flags: fl, code, all: some(all), part: some(part), twice }
}
/// the parameters of a form text
pub fn params(t: &[u8], sep: u8, d: &Dec, dec: bool) -> (Pairs, u64, Code) {
    let (mut o, mut fl, mut code) = (vec![], 0, 0);
    for f in t.split(|c| *c == sep).filter(|f| !f.is_empty()) {
        let i = upto(f, b"=");
        let (n, v) = (&f[..i], &f[(i + 1).min(f.len())..]);
        if !dec {
            o.push((n.to_vec(), v.to_vec()));
            continue;
        }
        let (a, b) = (decode(n, d), decode(v, d));
        fl |= a.1 | b.1;
        worse(&mut code, a.2);
        worse(&mut code, b.2);
        o.push((a.0, b.0));
    }
    if o.is_empty() && !t.is_empty() {
        o.push((vec![], vec![]));
    }
    (o, fl, code)
}

const WORDS: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_~.";
fn word(s: &mut Src, out: &mut Vec<u8>, hi: usize) {
    for _ in 0..s.range(1, hi) {
        out.push(*s.pick(WORDS));
    }
}
/// raw or percent-encoded
fn bytes(s: &mut Src, out: &mut Vec<u8>, b: &[u8]) {
    let mode = s.usz(3);
    for c in b {
        // white space and line ends would end the target
        let plain = !matches!(c, 0 | 9..=13 | 32 | b'?' | b'#' | 0x85 | 0xa0);
        if plain && (mode == 0 || (mode == 2 && s.flip())) {
            out.push(*c);
        } else {
            let h = if s.flip() { format!("%{:02x}", c) } else { format!("%{:02X}", c) };
            out.extend_from_slice(h.as_bytes());
        }
    }
}
fn char_bytes(s: &mut Src) -> Vec<u8> {
    if s.chance(1, 6) {
        // bytes of the classes the encoding distinguishes, in any order
        return (0..s.range(1, 4))
            .map(|_| match s.usz(8) {
                0 => s.range(0x80, 0x8f) as u8,
                1 => s.range(0x90, 0x9f) as u8,
                2 => s.range(0xa0, 0xbf) as u8,
                3 => s.range(0xc0, 0xdf) as u8,
                4 => s.range(0xe0, 0xef) as u8,
                5 => *s.pick(&[0xe0, 0xed, 0xf0, 0xf4]),
                6 => s.range(0xf0, 0xff) as u8,
                _ => b'a',
            })
            .collect();
    }
    let cp = match s.usz(7) {
        6 => *s.pick(&[1, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xff00, 0xffef, 0xfff0, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff]),
        0 => s.range(0xff00, 0xffef) as u32,
        1 => BESTFIT[s.usz(BESTFIT.len())].0,
        2 => s.range(0x80, 0x7ff) as u32,
        3 => s.range(0x800, 0xffff) as u32,
        4 => s.range(0x10000, 0x10ffff) as u32,
        _ => s.range(1, 0x7f) as u32,
    };
    // any length the character fits in, the shortest or an overlong one
    let min = match cp { 0..=0x7f => 1, 0x80..=0x7ff => 2, 0x800..=0xffff => 3, _ => 4 };
    let n = if min < 4 && (min == 1 || s.chance(1, 5)) { s.range(min.max(2), 4) } else { min };
    let mut v = vec![0; n];
    let mut c = cp;
    for i in (1..n).rev() {
        v[i] = 0x80 | (c & 0x3f) as u8;
        c >>= 6;
    }
    v[0] = [0, 0, 0xc0, 0xe0, 0xf0][n] | c as u8;
    match s.usz(8) {
        0 => {
            v.pop();
        }
        1 => {
            let i = s.usz(v.len());
            v[i] = s.below(256) as u8;
        }
        _ => {}
    }
    v
}
fn bits(s: &mut Src, out: &mut Vec<u8>, n: usize, d: &Dec, path: bool) {
    for _ in 0..n {
        match s.usz(12) {
            0..=2 => word(s, out, 5),
            3 if path => {
                let w: &[u8] = *s.pick(&[b"/".as_ref(), b"//", b"/./", b"/../", b"/..", b"/.", b".", b"..", b"\\", b"/\\", b"///", b"\\..\\"]);
                out.extend_from_slice(w);
            }
            3 | 4 => {
                let w: &[u8] = *s.pick(&[b"%2f".as_ref(), b"%2F", b"%5c", b"%41", b"%61", b"%25", b"%2541", b"%252f", b"%2e%2e", b"%2e", b"%2b", b"%26", b"%3d", b"%23", b"%3f", b"%25%34%31", b"%09"]);
                out.extend_from_slice(w);
            }
            5 => {
                let w: &[u8] = *s.pick(&[b"%".as_ref(), b"%4", b"%zz", b"%g1", b"%1g", b"%%41", b"%u", b"%u0", b"%u00", b"%u004", b"%uzzzz", b"%u00g1", b"%U", b"%:;", b"%-"]);
                out.extend_from_slice(w);
            }
            6 => {
                let w: &[u8] = *s.pick(&[b"%u0041".as_ref(), b"%U0061", b"%uff21", b"%uFF0f", b"%u2208", b"%u002f", b"%u005c", b"%u2215", b"%u0000", b"%u0009", b"%u0100", b"%uff", b"%u20AC", b"%uffef", b"%ufff0"]);
                out.extend_from_slice(w);
            }
            7 => {
                let v = s.below(0x10000);
                let h = if s.flip() { format!("%u{:04x}", v) } else { format!("%{:02x}", v & 0xff) };
                out.extend_from_slice(h.as_bytes());
            }
            8 => {
                if s.chance(1, 3) {
                    out.extend_from_slice(if s.flip() { b"\0" } else { b"%00" });
                } else {
                    out.extend_from_slice(*s.pick(&[b"\x01".as_ref(), b"\x1f", b"\x7f", b"%1f", b"%01"]));
                }
                word(s, out, 2);
            }
            9 | 10 => {
                let c = char_bytes(s);
                bytes(s, out, &c);
            }
            _ => {
                if d.spaces && s.chance(1, 3) {
                    out.push(b' ');
                    word(s, out, 2);
                } else {
                    out.push(*s.pick(b"+;=&:@,!$'()*[]{}|\"<>^`"));
                }
            }
        }
    }
}
/// a request target with no promise but that it has no line end in it
pub fn wild(s: &mut Src, d: &Dec) -> Vec<u8> {
    let mut u = vec![];
    let form = s.weighted(&[10, 6, 1, 1, 1]);
    match form {
        0 => u.push(b'/'),
        1 => {
            u.extend_from_slice(*s.pick(&[b"http".as_ref(), b"HTTP", b"https", b"Ftp", b"x-y"]));
            u.extend_from_slice(b"://");
            if s.chance(1, 3) {
                for part in 0..2 {
                    if part == 1 {
                        if s.flip() {
                            break;
                        }
                        u.push(b':');
                    }
                    if !s.chance(1, 6) {
                        word(s, &mut u, 4);
                    }
                    u.extend_from_slice(*s.pick(&[b"".as_ref(), b"", b"%41", b"+", b"%zz", b"%00", b"%u0041", b"%40"]));
                }
                u.push(b'@');
            }
            match s.usz(10) {
                0 => u.extend_from_slice(b"[2001:DB8::1]"),
                1 => u.extend_from_slice(*s.pick(&[b"a..b".as_ref(), b".a", b"a!b", b"[::zz]", b"a_b", b"%00", b"a%", b"%u0041", b"\xe9", b"a,b"])),
                2 => {}
                _ => {
                    for i in 0..s.range(1, 3) {
                        if i > 0 {
                            u.push(b'.');
                        }
                        let n = if s.chance(1, 12) { 70 } else { 6 };
                        for _ in 0..s.range(1, n) {
                            u.push(*s.pick(b"abcdefghijkmnopqrstuvwxyzABCDEFGH0123456789-"));
                        }
                    }
                    u.extend_from_slice(*s.pick(&[b"".as_ref(), b"", b"", b".", b"..", b"%41", b"%2E", b"+"]));
                }
            }
            if s.chance(1, 3) {
                u.push(b':');
                match s.usz(3) {
                    0 => u.extend_from_slice(*s.pick(&[b"0".as_ref(), b"65535", b"65536", b"99999999999999999999", b"8x", b"", b"+80", b"-1", b"00080", b"%38"])),
                    _ => u.extend_from_slice(s.range(1, 65535).to_string().as_bytes()),
                }
            }
            if !s.chance(1, 5) {
                u.push(b'/');
            }
        }
        2 => {
            u.push(b'*');
            return u;
        }
        3 => {
            word(s, &mut u, 4);
            u.push(b'/');
            let mut v = vec![];
            let n = s.usz(5);
            bits(s, &mut v, n, d, true);
            v.retain(|c| *c != b':');
            u.extend(v);
        }
        _ => u.extend_from_slice(*s.pick(&[b"http:///p".as_ref(), b"http://", b"http://u@/p", b"://", b"http://h", b"//h/p", b"http://@h/", b"http://:@h/x", b"http://?", b"http://#"])),
    }
    if form < 2 && (form == 0 || u.ends_with(b"/")) {
        let n = s.usz(9);
        if s.chance(1, 60) {
            u.extend(s.pick(&["a", "bc/", "%41"]).repeat(s.range(100, 1500)).into_bytes());
        }
        bits(s, &mut u, n, d, true);
    }
    if s.chance(1, 3) {
        u.push(b'?');
        let n = s.usz(8);
        if s.chance(1, 40) {
            u.extend(s.pick(&["a=b&", "x", "a%41=&", "c&"]).repeat(s.range(10, 300)).into_bytes());
        }
        bits(s, &mut u, n, d, false);
        if s.chance(1, 6) {
            u.extend_from_slice(*s.pick(&[b"?".as_ref(), b"/a", b"&a=%2541", b"=", b"&&"]));
        }
    }
    if s.chance(1, 6) {
        u.push(b'#');
        let n = s.usz(4);
        bits(s, &mut u, n, d, false);
        if s.chance(1, 6) {
            u.extend_from_slice(*s.pick(&[b"?".as_ref(), b"#"]));
        }
    }
    // a colon would make a scheme of what is before it
    if form == 3 {
        u.retain(|c| *c != b':');
    }
    if d.nul_ends_line {
        u.retain(|c| *c != 0);
    }
    // white space at the end belongs to the line
    if u.last().is_some_and(|c| *c <= 32 || *c == 0x85 || *c == 0xa0) {
        u.push(b'e');
    }
    u
}

thread_local! {
    static PARAMS: RefCell<Vec<(usize, Vec<u8>, Vec<u8>)>> = const { RefCell::new(vec![]) };
}
fn on_param(p: &mut Param) -> htp::error::Result<()> {
    let tx = rec::with(|r| r.evs.iter().rev().find(|e| e.kind == K::ReqStart).map(|e| e.tx));
    PARAMS.with(|v| v.borrow_mut().push((tx.unwrap_or(usize::MAX), p.name.as_slice().to_vec(), p.value.as_slice().to_vec())));
    Ok(())
}
/// an application that normalises some paths its own way
fn on_uri(tx: &mut Transaction) -> htp::error::Result<()> {
    if tx.index % 2 == 1 {
        if let Some(u) = tx.parsed_uri.as_mut() {
            u.path = Some(htp::bstr::Bstr::from(OWN));
        }
    }
    Ok(())
}
const OWN: &[u8] = b"/own%41/%2561";
fn t(b: &B) -> String {
    b.as_ref().map(|b| show(b)).unwrap_or("nothing".into())
}

pub fn uris(s: &mut Src) -> R {
    let own = s.chance(1, 8);
    let pers = s.usz(10);
    let mut d = Dec::preset(pers);
    let custom = s.flip();
    if custom {
        d = Dec::draw(s, d);
    }
    let su = setup(s, 5, &|s, f, k, _| {
        f.odd = false;
        f.big = false;
        f.connect = false;
        f.wild = Some(d);
        k.pers = pers;
        k.parse_urlenc = s.flip();
    });
    let mut cfg = su.knobs.config();
    if custom {
        d.apply(&mut cfg);
    }
    trace(|| format!("decoder {:?} own {}", d, own));
    cfg.parameter_processor = Some(on_param);
    if own {
        cfg.hook_request_uri_normalize.register(on_uri);
    }
    cfg.log_level = level(3);
    PARAMS.with(|v| v.borrow_mut().clear());
    let mut run = Run::new(RustApi::new(cfg, true), &su.conv, 0, su.pol.clone());
    run.open();
    run.complete(s);
    let evs = rec::take();
    note(&run, &evs);
    oracle::healthy(&run)?;
    let ps = PARAMS.with(|v| std::mem::take(&mut *v.borrow_mut()));
    let mut twice = 0;
    let mut seen = 0;
    for (i, e) in su.conv.ex.iter().enumerate() {
        if e.kind == XK::Unsol {
            continue;
        }
        let over = if own && i % 2 == 1 { Some(OWN) } else { None };
        let m = model(&e.q.uri, &d, over);
        let Some(ev) = evs.iter().rev().find(|v| v.tx == i && v.kind == K::ReqComplete) else {
            return Err(format!("no-request|transaction {} never completed its request", i));
        };
        let p = ev.snap.as_ref().unwrap();
        seen += 1;
        let at = || format!("transaction {} target {}", i, show(&e.q.uri));
        let same = |what: &str, got: &B, want: &B| if got == want { Ok(()) } else { Err(format!("{}|{}: {} instead of {}", what, at(), t(got), t(want))) };
        same("target", &p.uri, &Some(e.q.uri.clone()))?;
        same("raw-host", &p.raw_host, &m.raw.host)?;
        same("raw-path", &p.raw_path, &m.raw.path)?;
        same("raw-query", &p.raw_query, &m.raw.query)?;
        same("raw-fragment", &p.raw_frag, &m.raw.frag)?;
        same("scheme", &p.u_scheme, &m.norm.scheme)?;
        same("user", &p.u_user, &m.norm.user)?;
        same("password", &p.u_pass, &m.norm.pass)?;
        same("host", &p.u_host, &m.norm.host)?;
        same("path", &p.u_path, &m.norm.path)?;
        same("query", &p.u_query, &m.norm.query)?;
        same("fragment", &p.u_frag, &m.norm.frag)?;
        same("normalized", &p.norm_all, &m.all)?;
        same("normalized-partial", &p.norm_part, &m.part)?;
        if p.u_port != m.port {
            return Err(format!("port|{}: {:?} instead of {:?}", at(), p.u_port, m.port));
        }
        if p.flags & MASK != m.flags {
            return Err(format!("flags|{}: {:x} instead of {:x}", at(), p.flags & MASK, m.flags));
        }
        if p.expected != code_name(m.code) {
            return Err(format!("expected-status|{}: {} instead of {}", at(), p.expected, code_name(m.code)));
        }
        // the parsed target is there as soon as the line has been read
        for k in [K::ReqLine, K::ReqUriNorm] {
            let Some(v) = evs.iter().find(|v| v.tx == i && v.kind == k) else {
                return Err(format!("no-line|transaction {} never reported its line", i));
            };
            same("path-early", &v.snap.as_ref().unwrap().u_path, &m.norm.path)?;
            same("host-early", &v.snap.as_ref().unwrap().u_host, &m.norm.host)?;
        }
        twice += m.twice;
        let have: Pairs = ps.iter().filter(|p| p.0 == i).map(|p| (p.1.clone(), p.2.clone())).collect();
        let want = if su.knobs.parse_urlenc { m.norm.query.as_ref().map(|q| params(q, b'&', &d, true).0).unwrap_or_default() } else { vec![] };
        if have != want {
            return Err(format!("parameters|{}: {:?} instead of {:?}", at(), have, want));
        }
        stats::add("probe.target_normalised", (m.norm.path != m.raw.path) as u64);
        stats::add("probe.target_flagged", (m.flags != 0) as u64);
        stats::add("probe.expected_status", (m.code != 0) as u64);
        stats::add("probe.double_encoded", (m.twice != 0) as u64);
        stats::add("probe.absolute_target", m.raw.host.is_some() as u64);
        stats::hist_bytes(&e.q.uri);
    }
    let warned = run.api.logs().iter().filter(|l| l.0 == "DOUBLE_ENCODED_URI").count();
    if warned != twice {
        return Err(format!("double-encoded|{} warnings for {} doubly encoded parts", warned, twice));
    }
    if own && seen > 1 {
        stats::hit("probe.own_normalisation");
    }
    Ok(())
}
