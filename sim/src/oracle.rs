//! Oracles over recorded histories, against the reference model in `wire`.
use crate::drive::*;
use crate::rec::*;
use crate::wire::*;

pub type Res = Result<(), String>;

/// HtpFlags::MULTI_PACKET_HEAD reports how the request head was segmented, so it is not part of the
/// segmentation-independent view.
pub const MULTI_PACKET_HEAD: u64 = 0x0000_0000_0800;

pub fn of<'a>(evs: &'a [Ev], conn: usize, tx: usize) -> Vec<&'a Ev> {
    evs.iter().filter(|e| e.conn == conn && e.tx == tx).collect()
}
pub fn concat(evs: &[&Ev], k: K) -> Vec<u8> {
    let mut o = vec![];
    for e in evs {
        if e.kind == k {
            if let P::Bytes(b) = &e.p {
                o.extend_from_slice(b);
            }
        }
    }
    o
}
fn ne<T: PartialEq + std::fmt::Debug>(what: &str, tx: usize, got: &T, want: &T) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}|tx{} {}: got {:?} want {:?}", what, tx, what, got, want))
    }
}
fn neb(what: &str, tx: usize, got: &[u8], want: &[u8]) -> Res {
    if got == want {
        Ok(())
    } else {
        let d = got.iter().zip(want).take_while(|(a, b)| a == b).count();
        Err(format!(
            "{}|tx{} {}: got {} bytes want {} bytes, first difference at {}; got {} want {}",
            what, tx, what, got.len(), want.len(), d,
            show(&got[d.saturating_sub(8).min(got.len())..]), show(&want[d.saturating_sub(8).min(want.len())..])
        ))
    }
}
fn nebo(what: &str, tx: usize, got: &B, want: &B) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!(
            "{}|tx{} {}: got {} want {}",
            what, tx, what,
            got.as_ref().map(|x| show(x)).unwrap_or("none".into()),
            want.as_ref().map(|x| show(x)).unwrap_or("none".into())
        ))
    }
}
fn neh(what: &str, tx: usize, got: &[H], want: &[H]) -> Res {
    if got == want {
        return Ok(());
    }
    let f = |h: &[H]| h.iter().map(|(n, v)| format!("{}: {}", show(n), show(v))).collect::<Vec<_>>().join(" | ");
    Err(format!("{}|tx{} {}: got [{}] want [{}]", what, tx, what, f(got), f(want)))
}
fn one<'a>(evs: &[&'a Ev], k: K, tx: usize) -> Result<&'a Ev, String> {
    evs.iter().rev().find(|e| e.kind == k).copied().ok_or_else(|| format!("missing-{:?}|tx{}: callback {:?} never fired", k, tx, k))
}

pub fn req_line(s: &Snap, q: &Req, i: usize) -> Res {
    nebo("method", i, &s.method, &Some([&q.wrong.lead[..], q.method.as_bytes()].concat()))?;
    ne("method-number", i, &s.method_num, &if q.wrong.lead.is_empty() { method_class(q.method) } else { "UNKNOWN".into() })?;
    nebo("request-line", i, &s.q_line, &Some(q.line.clone()))?;
    nebo("uri", i, &s.uri, &Some(q.uri.clone()))?;
    nebo("protocol", i, &s.protocol, &Some(q.proto.as_bytes().to_vec()))?;
    ne("protocol-number", i, &s.proto_num, &if q.proto == "HTTP/1.1" { 101 } else { 100 })?;
    ne("http09", i, &s.is_09, &false)?;
    nebo("uri-scheme", i, &s.u_scheme, &q.scheme)?;
    nebo("uri-host", i, &s.u_host, &q.uhost)?;
    nebo("uri-user", i, &s.u_user, &q.user)?;
    nebo("uri-password", i, &s.u_pass, &q.pass)?;
    ne("uri-port", i, &s.u_port, &q.uport)?;
    // some personalities normalise to lower case
    let low = |x: &B| x.as_ref().map(|x| x.to_ascii_lowercase());
    if !q.escaped {
        nebo("uri-path", i, &low(&s.u_path), &low(&q.path))?;
        nebo("uri-query", i, &s.u_query, &q.query)?;
    }
    nebo("uri-fragment", i, &s.u_frag, &q.frag)?;
    nebo("raw-path", i, &s.raw_path, &q.path)?;
    nebo("raw-query", i, &s.raw_query, &q.query)?;
    nebo("raw-fragment", i, &s.raw_frag, &q.frag)?;
    nebo("raw-host", i, &s.raw_host, &q.uhost)?;
    Ok(())
}
pub fn req_head(s: &Snap, q: &Req, i: usize) -> Res {
    nebo("hostname", i, &s.host, &q.host)?;
    ne("port", i, &s.port, &q.port)?;
    nebo("request-content-type", i, &s.q_ctype, &q.ctype)?;
    ne("auth-type", i, &s.auth_type.as_str(), &q.auth.0)?;
    nebo("auth-user", i, &s.auth_user, &q.auth.1)?;
    nebo("auth-password", i, &s.auth_pass, &q.auth.2)?;
    nebo("auth-token", i, &s.auth_token, &q.auth.3)?;
    let tc = match q.framing {
        Framing::None => "NO_BODY",
        Framing::Cl => "IDENTITY",
        _ => "CHUNKED",
    };
    ne("request-transfer-coding", i, &s.q_tc.as_str(), &tc)?;
    ne("request-content-length", i, &s.q_cl, &q.cl)?;
    if !q.escaped {
        let mut part = q.path.clone().unwrap_or_default();
        for (c, x) in [(b'?', &q.query), (b'#', &q.frag)] {
            if let Some(x) = x {
                part.push(c);
                part.extend_from_slice(x);
            }
        }
        let mut all = vec![];
        if let Some(x) = &q.scheme {
            all.extend_from_slice(x);
            all.extend_from_slice(b"://");
        }
        if q.user.is_some() || q.pass.is_some() {
            all.extend_from_slice(q.user.as_deref().unwrap_or_default());
            all.push(b':');
            all.extend_from_slice(q.pass.as_deref().unwrap_or_default());
            all.push(b'@');
        }
        all.extend_from_slice(q.uhost.as_deref().unwrap_or_default());
        if let Some(p) = q.uport {
            all.extend_from_slice(format!(":{}", p).as_bytes());
        }
        all.extend_from_slice(&part);
        let low = |x: &[u8]| if x.is_empty() { None } else { Some(x.to_ascii_lowercase()) };
        nebo("normalized-uri", i, &s.norm_all.as_ref().map(|x| x.to_ascii_lowercase()), &low(&all))?;
        nebo("normalized-uri-partial", i, &s.norm_part.as_ref().map(|x| x.to_ascii_lowercase()), &low(&part))?;
    }
    Ok(())
}
/// the coding as a single token; of several, none
pub fn coding(c: &[Coding]) -> &'static str {
    match c {
        [Coding::Gzip] => "GZIP",
        [Coding::Lzma] => "LZMA",
        [_] => "DEFLATE",
        _ => "NONE",
    }
}
pub fn resp_line(s: &Snap, r: &Resp, i: usize) -> Res {
    let chomped = s.r_line.as_ref().map(|l| l.strip_suffix(b"\n").unwrap_or(l)).map(|l| l.strip_suffix(b"\r").unwrap_or(l).to_vec());
    nebo("response-line", i, &chomped, &Some(r.line.clone()))?;
    nebo("response-protocol", i, &s.r_protocol, &Some(r.proto.as_bytes().to_vec()))?;
    ne("response-protocol-number", i, &s.r_proto_num, &r.proto_number)?;
    if r.number == r.status as i32 {
        nebo("status", i, &s.r_status, &Some(r.status.to_string().into_bytes()))?;
    }
    ne("status-number", i, &s.r_status_num, &r.number)?;
    let got = s.r_message.clone().unwrap_or_default();
    neb("reason", i, &got, &r.reason.clone().unwrap_or_default())
}
pub fn resp_head(s: &Snap, q: &Req, r: &Resp, i: usize) -> Res {
    if r.framing != Framing::None && q.method != "HEAD" {
        nebo("response-content-type", i, &s.r_ctype, &r.ctype)?;
        let tc = match r.framing {
            Framing::Chunked => "CHUNKED",
            _ => "IDENTITY",
        };
        ne("response-transfer-coding", i, &s.r_tc.as_str(), &tc)?;
        ne("response-content-length", i, &s.r_cl, &if r.framing == Framing::Cl { Some(r.m.coded.len() as u64) } else { None })?;
    }
    Ok(())
}

/// the exchange that turns the connection into a tunnel: nothing says when it is complete
pub fn loose(conv: &Conv, i: usize) -> bool {
    let k = match conv.ex.get(i) {
        Some(x) => x.kind,
        None => return false,
    };
    k == XK::Upgrade || (k == XK::Accepted && i + 1 == conv.ex.len())
}

/// C01: every transaction is reported with the metadata that was sent, in order, none lost or invented.
pub fn meta(conv: &Conv, evs: &[Ev], conn: usize, tx_size: usize, final_snap: &dyn Fn(usize) -> Option<Snap>) -> Res {
    meta_ign(conv, evs, conn, tx_size, final_snap, 0)
}
pub fn meta_ign(
    conv: &Conv, evs: &[Ev], conn: usize, tx_size: usize, final_snap: &dyn Fn(usize) -> Option<Snap>, ign0: u64,
) -> Res {
    let n = conv.ex.len();
    if let Some(e) = evs.iter().find(|e| e.conn == conn && e.tx >= n) {
        return Err(format!("invented-tx|callback {:?} for transaction {} but only {} exchanges were sent", e.kind, e.tx, n));
    }
    for (i, x) in conv.ex.iter().enumerate() {
        let t = of(evs, conn, i);
        let asked = x.kind != XK::Unsol;
        if asked {
            let e = one(&t, K::ReqLine, i)?.snap.as_ref().unwrap();
            req_line(e, &x.q, i)?;
            let e = one(&t, K::ReqHeaders, i)?.snap.as_ref().unwrap();
            neh("request-headers", i, &e.headers, &x.q.m.headers)?;
            req_head(e, &x.q, i)?;
            let (a, b) = (one(&t, K::ReqStart, i)?.call, one(&t, K::ReqHeaders, i)?.call);
            ne("multi-packet-head", i, &(e.flags & MULTI_PACKET_HEAD != 0), &(a != b))?;
            if !loose(conv, i) {
                let e = one(&t, K::ReqComplete, i)?.snap.as_ref().unwrap();
                neh("request-headers-final", i, &e.headers, &x.q.m.all_headers)?;
            }
        }
        let e = one(&t, K::RespLine, i)?.snap.as_ref().unwrap();
        resp_line(e, &x.r, i)?;
        if loose(conv, i) {
            // the stream turns into a tunnel here
            let e = one(&t, K::RespHeaders, i)?.snap.as_ref().unwrap();
            neh("response-headers", i, &e.r_headers, &x.r.m.headers)?;
            continue;
        }
        let e = one(&t, K::RespHeaders, i)?.snap.as_ref().unwrap();
        neh("response-headers", i, &e.r_headers, &x.r.m.headers)?;
        resp_head(e, &x.q, &x.r, i)?;
        let e = one(&t, K::RespComplete, i)?.snap.as_ref().unwrap();
        neh("response-headers-final", i, &e.r_headers, &x.r.m.all_headers)?;
        let e = one(&t, K::TxComplete, i)?.snap.as_ref().unwrap();
        for s in [Some((**e).clone()), final_snap(i)].into_iter().flatten() {
            ne("index", i, &s.index, &i)?;
            if asked {
                req_line(&s, &x.q, i)?;
                req_head(&s, &x.q, i)?;
            } else {
                nebo("unsolicited-uri", i, &s.uri, &Some(x.q.uri.clone()))?;
            }
            resp_line(&s, &x.r, i)?;
            resp_head(&s, &x.q, &x.r, i)?;
            if asked && x.q.framing != Framing::None {
                ne("request-content-encoding", i, &s.q_ce.as_str(), &coding(&x.q.codings))?;
            }
            if x.r.framing != Framing::None && x.q.method != "HEAD" {
                ne("response-content-encoding", i, &s.r_ce.as_str(), &coding(&x.r.codings))?;
            }
            neh("request-headers-tx", i, &s.headers, &x.q.m.all_headers)?;
            neh("response-headers-tx", i, &s.r_headers, &x.r.m.all_headers)?;
            let mut ign = MULTI_PACKET_HEAD | ign0;
            if x.q.escaped {
                ign |= 0xf8ff_c000; // PATH_* and URLEN_*: what the escapes mean is up to the personality
            }
            if x.q.m.folded || x.r.m.folded {
                ign |= 0x200; // INVALID_FOLDING
            }
            // anomalies are flagged, and nothing else is
            let (must, may) = (x.q.wrong.must | x.r.wrong.must, x.q.wrong.may | x.r.wrong.may);
            ign |= may;
            ne("flags", i, &format!("{:#x}", s.flags & (!ign | must)), &format!("{:#x}", must))?;
            for w in [&x.q.wrong, &x.r.wrong] {
                if w.any != 0 && s.flags & w.any == 0 {
                    return Err(format!("unflagged|tx{}: none of {:#x} in the flags {:#x}", i, w.any, s.flags));
                }
            }
            for (w, h, fl, what) in [(&x.q.wrong, &s.headers, &s.hflags, "request"), (&x.r.wrong, &s.r_headers, &s.r_hflags, "response")] {
                for (h, f) in h.iter().zip(fl) {
                    match &w.header {
                        Some((n, v)) if h.0.eq_ignore_ascii_case(n) => {
                            if f & v == 0 {
                                return Err(format!("unflagged-header|tx{}: {} header {} carries {:#x}, none of {:#x}", i, what, show(n), f, v));
                            }
                        }
                        _ => {
                            let ok = 0x20 | 0x10 | (w.may & 0x208);
                            if f & !ok != 0 {
                                return Err(format!("flagged-header|tx{}: {} header {} carries {:#x}", i, what, show(&h.0), f));
                            }
                        }
                    }
                }
            }
            ne("ignored-lines", i, &(s.q_ignored, s.r_ignored), &(x.q.blank, x.r.blank))?;
            ne("seen-100", i, &s.seen_100, &(x.r.interim > 0))?;
        }
    }
    ne("tx-size", n, &tx_size, &n)
}

/// C02: bodies arrive exactly, with exact length accounting and the end-of-body signal after the data.
pub fn bodies(conv: &Conv, evs: &[Ev], conn: usize) -> Res {
    bodies_but(conv, evs, conn, None)
}
/// `damaged`: this body was damaged on the way, so what it decodes to is unknown
pub fn bodies_but(conv: &Conv, evs: &[Ev], conn: usize, damaged: Option<(usize, bool)>) -> Res {
    for (i, x) in conv.ex.iter().enumerate() {
        let (dq, dr) = (damaged == Some((i, true)), damaged == Some((i, false)));
        let t = of(evs, conn, i);
        // the one known finding: everything an LZMA layer decodes is lost when it is over 8192 bytes
        let body = |k: K, m: &Msg, what: &str, known: &str| {
            let got = concat(&t, k);
            neb(if m.lzma_out > 8192 && got.is_empty() { known } else { what }, i, &got, &m.plain)
        };
        if !dq {
            body(K::ReqBody, &x.q.m, "request-body", "request-lzma-over-8192")?;
        }
        if !dr {
            body(K::RespBody, &x.r.m, "response-body", "response-lzma-over-8192")?;
        }
        if x.q.framing != Framing::None {
            // the end signal: present, and no data after it
            let mut ended = false;
            for e in t.iter().filter(|e| e.kind == K::ReqBody) {
                match &e.p {
                    P::End => ended = true,
                    P::Bytes(b) if !b.is_empty() && ended => {
                        return Err(format!("data-after-end|tx{} request body data after the end-of-body signal", i))
                    }
                    _ => {}
                }
            }
            if !ended {
                return Err(format!("no-end|tx{} no end-of-body signal for the request body", i));
            }
        }
        if let Some(g) = t.iter().find(|e| matches!(e.p, P::Gap(_))) {
            return Err(format!("phantom-gap|tx{} {:?} reports a gap although no byte was lost", i, g.kind));
        }
        if let Some(e) = t.iter().find(|e| e.kind == K::ReqComplete) {
            let s = e.snap.as_ref().unwrap();
            ne("request-message-len", i, &s.q_msg_len, &x.q.m.msg_len)?;
            let want = if dq { concat(&t, K::ReqBody).len() } else { x.q.m.plain.len() };
            ne("request-entity-len", i, &s.q_ent_len, &(want as u64))?;
        }
        if let Some(e) = t.iter().find(|e| e.kind == K::RespComplete) {
            let s = e.snap.as_ref().unwrap();
            ne("response-message-len", i, &s.r_msg_len, &x.r.m.msg_len)?;
            let want = if dr { concat(&t, K::RespBody).len() } else { x.r.m.plain.len() };
            ne("response-entity-len", i, &s.r_ent_len, &(want as u64))?;
        }
    }
    Ok(())
}

fn rank(k: K) -> i32 {
    match k {
        K::ReqStart => 0,
        K::ReqUriNorm => 1,
        K::ReqLine => 2,
        K::ReqHeaderData => 3,
        K::ReqHeaders => 4,
        K::ReqBody | K::TxReqBody => 5,
        K::ReqTrailerData => 6,
        K::ReqTrailer => 7,
        K::ReqComplete => 8,
        K::RespStart => 0,
        K::RespLine => 1,
        K::RespHeaderData => 2,
        K::RespHeaders => 3,
        K::RespBody | K::TxRespBody => 4,
        K::RespTrailerData => 5,
        K::RespTrailer => 6,
        K::RespComplete => 7,
        K::TxComplete => 99,
    }
}

/// Order and multiplicity laws that hold for every history, complete or not, faulty or not.
/// `conv`: the traffic, if known.
pub fn order(evs: &[Ev], conn: usize, conv: Option<&Conv>) -> Res {
    let interim = |i: usize| conv.map(|c| c.ex.get(i).map(|x| x.r.interim).unwrap_or(0));
    let mine: Vec<&Ev> = evs.iter().filter(|e| e.conn == conn).collect();
    let ntx = mine.iter().map(|e| e.tx + 1).max().unwrap_or(0);
    let mut last_start = (-1i64, -1i64);
    for e in &mine {
        if e.kind == K::ReqStart {
            let mut want = (last_start.0 + 1) as usize;
            while conv.is_some_and(|c| c.ex.get(want).is_some_and(|x| x.kind == XK::Unsol)) {
                want += 1;
            }
            if e.tx != want && conv.is_some() {
                return Err(format!("start-order|request_start for transaction {} after {}", e.tx, last_start.0));
            }
            if (e.tx as i64) <= last_start.0 {
                return Err(format!("start-order|request_start for transaction {} after {}", e.tx, last_start.0));
            }
            last_start.0 = e.tx as i64;
        }
        if e.kind == K::RespStart {
            if e.tx as i64 != last_start.1 + 1 {
                return Err(format!("start-order|response_start for transaction {} after {}", e.tx, last_start.1));
            }
            last_start.1 = e.tx as i64;
        }
    }
    for i in 0..ntx {
        let t: Vec<&&Ev> = mine.iter().filter(|e| e.tx == i).collect();
        let (mut q, mut r) = (-1, -1);
        let mut counts = [0usize; 20];
        let mut done = false;
        let (mut qdone, mut rdone) = (false, false);
        for e in &t {
            counts[e.kind as usize] += 1;
            if done {
                return Err(format!("after-complete|tx{} {:?} after transaction_complete", i, e.kind));
            }
            if e.kind == K::TxComplete {
                done = true;
                continue;
            }
            let k = rank(e.kind);
            if e.kind.is_req() {
                if qdone {
                    return Err(format!("after-req-complete|tx{} {:?} after request_complete", i, e.kind));
                }
                // the end-of-body signal, and what a decompressor holds back until then, may come
                // after the trailer of a chunked body
                if matches!(e.kind, K::ReqBody | K::TxReqBody) && q >= rank(K::ReqHeaders) {
                    continue;
                }
                if k < q {
                    return Err(format!("order|tx{} {:?} out of order in the request", i, e.kind));
                }
                if q < 0 && e.kind != K::ReqStart {
                    return Err(format!("no-start|tx{} {:?} before request_start", i, e.kind));
                }
                q = k;
                qdone |= e.kind == K::ReqComplete;
            } else {
                if rdone {
                    return Err(format!("after-resp-complete|tx{} {:?} after response_complete", i, e.kind));
                }
                if r < 0 && e.kind != K::RespStart {
                    return Err(format!("no-start|tx{} {:?} before response_start", i, e.kind));
                }
                // a decompressor may hold data back until the end of the body, after the trailer
                if matches!(e.kind, K::RespBody | K::TxRespBody) && r >= rank(K::RespHeaders) {
                    continue;
                }
                // an interim response takes the response back to its status line
                let back = e.kind == K::RespLine && r <= rank(K::RespHeaderData);
                if k < r && !back {
                    return Err(format!("order|tx{} {:?} out of order in the response", i, e.kind));
                }
                r = k;
                rdone |= e.kind == K::RespComplete;
            }
        }
        for k in KINDS {
            if k.is_data() {
                continue;
            }
            let max = if k == K::RespLine { interim(i).map(|n| n + 1).unwrap_or(usize::MAX) } else { 1 };
            if counts[k as usize] > max {
                return Err(format!("repeated|tx{} {:?} fired {} times", i, k, counts[k as usize]));
            }
        }
    }
    Ok(())
}

/// C04 on fault-free complete conversations: each lifecycle callback fired exactly as often as it must.
pub fn lifecycle(conv: &Conv, evs: &[Ev], conn: usize) -> Res {
    order(evs, conn, Some(conv))?;
    for (i, x) in conv.ex.iter().enumerate() {
        let t = of(evs, conn, i);
        let cnt = |k: K| t.iter().filter(|e| e.kind == k).count();
        for k in [K::ReqStart, K::ReqUriNorm, K::ReqLine, K::ReqHeaders, K::ReqComplete, K::RespStart, K::RespHeaders, K::RespComplete, K::TxComplete] {
            let want = if x.kind == XK::Unsol && k.is_req() { 0 } else { 1 };
            if cnt(k) != want {
                return Err(format!("count|tx{} {:?} fired {} times, want {}", i, k, cnt(k), want));
            }
        }
        if cnt(K::RespLine) != 1 + x.r.interim {
            return Err(format!("count|tx{} response_line fired {} times, want {}", i, cnt(K::RespLine), 1 + x.r.interim));
        }
        let tr = if x.q.framing == Framing::Chunked { 1 } else { 0 };
        if cnt(K::ReqTrailer) != tr {
            return Err(format!("count|tx{} request_trailer fired {} times, want {}", i, cnt(K::ReqTrailer), tr));
        }
        let tr = if x.r.framing == Framing::Chunked { 1 } else { 0 };
        if cnt(K::RespTrailer) != tr {
            return Err(format!("count|tx{} response_trailer fired {} times, want {}", i, cnt(K::RespTrailer), tr));
        }
        if x.q.framing == Framing::None && cnt(K::ReqBody) != 0 {
            return Err(format!("count|tx{} request body callbacks for a request without body", i));
        }
        if x.r.m.plain.is_empty() && t.iter().any(|e| e.kind == K::RespBody && matches!(&e.p, P::Bytes(b) if !b.is_empty())) {
            return Err(format!("count|tx{} response body data for a response without body", i));
        }
        if x.q.codings.is_empty() {
            let tr = t.iter().position(|e| e.kind == K::ReqTrailer).unwrap_or(usize::MAX);
            if t.iter().skip(tr).any(|e| e.kind == K::ReqBody && e.p != P::End) {
                return Err(format!("order|tx{} request body data after the trailer", i));
            }
        }
        if x.r.codings.is_empty() {
            let tr = t.iter().position(|e| e.kind == K::RespTrailer).unwrap_or(usize::MAX);
            if t.iter().skip(tr).any(|e| e.kind == K::RespBody && e.p != P::End) {
                return Err(format!("order|tx{} response body data after the trailer", i));
            }
        }
        // what the callbacks may rely on: the state they announce
        for e in &t {
            use htp::transaction::{HtpRequestProgress as Q, HtpResponseProgress as S};
            let (q, r) = e.prog;
            let flush = matches!(&e.p, P::Bytes(b) if !b.is_empty());
            let fits = match e.kind {
                K::ReqStart | K::ReqUriNorm | K::ReqLine => q == Q::LINE,
                K::ReqHeaderData | K::ReqHeaders => q == Q::HEADERS,
                K::ReqBody if flush && x.q.codings.is_empty() => q == Q::BODY,
                K::ReqTrailerData | K::ReqTrailer => q == Q::TRAILER,
                K::RespStart | K::RespLine => r == S::LINE,
                K::RespHeaderData => matches!(r, S::HEADERS | S::BODY),
                K::RespHeaders => r == if x.r.framing == Framing::None || x.r.framing == Framing::Cl && x.r.m.coded.is_empty() { S::HEADERS } else { S::BODY },
                K::RespBody if flush && x.r.codings.is_empty() => r == S::BODY,
                K::RespTrailerData | K::RespTrailer => r == S::TRAILER,
                _ => true,
            };
            if !fits {
                return Err(format!("progress|tx{} at {:?} progress is {:?}/{:?}", i, e.kind, q, r));
            }
            if let Some(s) = &e.snap {
                let bad = match e.kind {
                    K::ReqComplete => !s.q_complete,
                    K::RespComplete => !s.r_complete,
                    K::TxComplete => !(s.q_complete && s.r_complete),
                    K::ReqStart | K::ReqLine | K::ReqHeaders | K::ReqTrailer => s.q_complete,
                    K::RespStart | K::RespLine | K::RespHeaders | K::RespTrailer => s.r_complete,
                    _ => false,
                };
                if bad {
                    return Err(format!("progress|tx{} at {:?} progress is {}/{}", i, e.kind, s.q_progress, s.r_progress));
                }
            }
        }
    }
    Ok(())
}

/// C14: raw header / trailer data callbacks carry exactly the bytes on the wire.
pub fn raw(conv: &Conv, evs: &[Ev], conn: usize) -> Res {
    for (i, x) in conv.ex.iter().enumerate() {
        let t = of(evs, conn, i);
        neb("raw-request-headers", i, &concat(&t, K::ReqHeaderData), &conv.q[x.q.m.line_end..x.q.m.head_end])?;
        let want = x.q.m.trailer.map(|(a, b)| &conv.q[a..b]).unwrap_or(b"");
        neb("raw-request-trailer", i, &concat(&t, K::ReqTrailerData), want)?;
        let mut w = vec![];
        for (a, b) in &x.r.interim_heads {
            w.extend_from_slice(&conv.r[*a..*b]);
        }
        w.extend_from_slice(&conv.r[x.r.m.line_end..x.r.m.head_end]);
        neb("raw-response-headers", i, &concat(&t, K::RespHeaderData), &w)?;
        let want = x.r.m.trailer.map(|(a, b)| &conv.r[a..b]).unwrap_or(b"");
        neb("raw-response-trailer", i, &concat(&t, K::RespTrailerData), want)?;
    }
    Ok(())
}

/// Statuses of a fault-free run: never anything but "give me more data".
pub fn healthy<A: Api>(run: &Run<A>) -> Res {
    if let Some(s) = &run.stuck {
        return Err(format!("stuck|{}", s));
    }
    for c in &run.calls {
        if let (Op::Seg(d, a, b), Some(s)) = (&c.op, c.st) {
            let defer = run.conv.ex.iter().any(|x| connect(x.kind));
            if s != St::Data && !(defer && s == St::DataOther) {
                return Err(format!("status|{:?} [{}..{}) of a well-formed conversation was answered {:?}", d, a, b, s));
            }
        }
    }
    Ok(())
}

/// C03: each response is attributed to the request it answers, and pipelining is reported as it was.
pub fn pairing(conv: &Conv, evs: &[Ev], conn: usize, api: &RustApi) -> Res {
    meta(conv, evs, conn, api.tx_size(), &|i| api.tx(i))?;
    bodies(conv, evs, conn)?;
    lifecycle(conv, evs, conn)?;
    let at = |k: K, i: usize| evs.iter().position(|e| e.conn == conn && e.kind == k && e.tx == i);
    if conv.ex.iter().all(|x| x.kind == XK::Normal) {
        let mut want = false;
        for i in 1..conv.ex.len() {
            want |= at(K::ReqComplete, i) < at(K::RespComplete, i - 1);
        }
        ne("pipelined-flag", 0, &api.pipelined(), &want)?;
    }
    Ok(())
}

/// C06: what the parser says it consumed.
pub fn flow<A: Api>(run: &Run<A>) -> Res {
    let (mut q, mut r) = (0i64, 0i64);
    let mut late = 0;
    for c in &run.calls {
        // one direction asks for the other only around a CONNECT: requests behind it wait for the answer,
        // and once it is answered the response side lets them go first
        if let (Op::Seg(d, a, b), Some(St::DataOther)) = (&c.op, c.st) {
            let at = a + c.consumed;
            // (the beginning of the next line may have been held back)
            let ends = |x: &Exchange| match d {
                Dir::Q => x.q.m.end == at,
                Dir::R => x.r.m.end <= at && !run.conv.r[x.r.m.end..at].contains(&b'\n'),
            };
            let mut ok = run.conv.ex.iter().any(|x| connect(x.kind) && ends(x));
            // a refused CONNECT whose follow-up had been held back too is yielded for once more, one
            // message later
            if !ok && *d == Dir::R && late < run.conv.ex.iter().filter(|x| connect(x.kind) && x.r.m.end <= at).count() {
                late += 1;
                ok = run.conv.ex.iter().any(ends);
            }
            if !ok {
                return Err(format!("other-direction|{:?} [{}..{}) deferred at {} although no CONNECT is being answered there", d, a, b, at));
            }
        }
        let (d, a, b) = match &c.op {
            Op::Seg(d, a, b) | Op::Gap(d, a, b) => (d, a, b),
            _ => continue,
        };
        let n = b - a;
        match d {
            Dir::Q => q += n as i64,
            Dir::R => r += n as i64,
        }
        match c.st {
            Some(St::Data) if c.consumed != n => {
                return Err(format!("data-consumed|{:?} [{}..{}) answered DATA but {} of {} bytes consumed", d, a, b, c.consumed, n))
            }
            Some(St::DataOther) if c.consumed >= n => {
                return Err(format!("other-consumed|{:?} [{}..{}) answered DATA_OTHER but {} of {} bytes consumed", d, a, b, c.consumed, n))
            }
            _ => {}
        }
    }
    let got = run.api.counters();
    if got != (q, r) {
        return Err(format!("counters|the connection counts {}/{} bytes, {}/{} were handed over", got.0, got.1, q, r));
    }
    Ok(())
}

/// C10: when the streams stop being HTTP, both directions say so at once and stay silent.
pub fn tunnel<A: Api>(run: &Run<A>, evs: &[Ev], conn: usize) -> Res {
    let conv = run.conv;
    if let Some(s) = &run.stuck {
        return Err(format!("stuck|{}", s));
    }
    let last = conv.ex.last().unwrap();
    let mut up = false;
    let mut rpos = 0;
    for (i, c) in run.calls.iter().enumerate() {
        let (d, a, b) = match &c.op {
            Op::Seg(d, a, b) => (*d, *a, *b),
            _ => continue,
        };
        let s = c.st.unwrap();
        let was = up;
        match last.kind {
            XK::Upgrade => up |= d == Dir::R && b >= last.r.m.head_end,
            XK::Accepted => up |= d == Dir::Q && b >= conv.decide && rpos >= last.r.m.head_end,
            _ => {}
        }
        if d == Dir::R {
            rpos = if s == St::DataOther { a + c.consumed } else { b };
        }
        if up && s != St::Tunnel {
            return Err(format!("not-tunnel|call {}: {:?} [{}..{}) answered {:?} inside the tunnel", i, d, a, b, s));
        }
        if !up && !matches!(s, St::Data | St::DataOther) {
            return Err(format!("early-tunnel|call {}: {:?} [{}..{}) answered {:?} before the tunnel", i, d, a, b, s));
        }
        if was {
            if let Some(e) = evs.iter().find(|e| e.conn == conn && e.call == i) {
                return Err(format!("tunnel-event|call {}: {:?} for tunnel bytes", i, e.kind));
            }
        }
    }
    if let Some(e) = evs.iter().find(|e| e.conn == conn && loose(conv, e.tx) && matches!(e.kind, K::ReqBody | K::RespBody) && e.p != P::End) {
        return Err(format!("tunnel-body|tx{} {:?} {:?} for tunnel bytes", e.tx, e.kind, e.p));
    }
    Ok(())
}

/// The history of one direction, for comparison between runs.
pub fn same(a: &Ev, b: &Ev) -> bool {
    a.kind == b.kind && a.tx == b.tx && a.p == b.p && a.snap == b.snap
}
pub fn describe(e: &Ev) -> String {
    format!("{:?} tx{} {}", e.kind, e.tx, match &e.p { P::Bytes(b) => show(b), o => format!("{:?}", o) })
}

pub const REQ_MISSING: u64 = 0x0010_0000_0000;
pub const RESP_MISSING: u64 = 0x0020_0000_0000;
pub const MISSING: u64 = 0x0008_0000_0000;

/// C11: bytes lost inside a body are reported as a gap of that length in that place.
pub fn lost(conv: &Conv, evs: &[Ev], conn: usize, gaps: &[(Dir, usize, usize)]) -> Res {
    for (i, x) in conv.ex.iter().enumerate() {
        let t = of(evs, conn, i);
        for d in [Dir::Q, Dir::R] {
            let (m, k, coded, what) = match d {
                Dir::Q => (&x.q.m, K::ReqBody, x.q.m.plain != x.q.m.coded, "request"),
                Dir::R => (&x.r.m, K::RespBody, x.r.m.plain != x.r.m.coded, "response"),
            };
            let mine: Vec<(usize, usize)> =
                gaps.iter().filter(|g| g.0 == d && g.1 >= m.head_end && g.2 <= m.body_end && g.1 < m.body_end).map(|g| (g.1, g.2)).collect();
            let total: usize = mine.iter().map(|g| g.1 - g.0).sum();
            let mut got: Vec<Option<u8>> = vec![];
            for e in t.iter().filter(|e| e.kind == k) {
                match &e.p {
                    P::Bytes(b) => got.extend(b.iter().map(|x| Some(*x))),
                    P::Gap(n) => got.extend(std::iter::repeat(None).take(*n)),
                    _ => {}
                }
            }
            let n = got.iter().filter(|x| x.is_none()).count();
            if n != total {
                return Err(format!("gap-length|tx{} {}: {} bytes were lost, gaps of {} bytes are reported", i, what, total, n));
            }
            if !coded {
                let mut want: Vec<Option<u8>> = m.plain.iter().map(|x| Some(*x)).collect();
                for (a, b) in &mine {
                    for w in &mut want[a - m.head_end..b - m.head_end] {
                        *w = None;
                    }
                }
                if got != want {
                    let at = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
                    return Err(format!(
                        "gap-position|tx{} {} body with gaps differs at {} (got {} bytes, want {})", i, what, at, got.len(), want.len()
                    ));
                }
            }
            let done = if d == Dir::Q { K::ReqComplete } else { K::RespComplete };
            let s = one(&t, done, i)?.snap.as_ref().unwrap();
            let len = if d == Dir::Q { s.q_msg_len } else { s.r_msg_len };
            ne("gap-message-len", i, &len, &m.msg_len)?;
            let bit = if d == Dir::Q { REQ_MISSING } else { RESP_MISSING };
            if (s.flags & bit != 0) != (total > 0) {
                return Err(format!("gap-flag|tx{} {}: {} bytes lost, flags {:#x}", i, what, total, s.flags));
            }
            if total > 0 && s.flags & MISSING == 0 {
                return Err(format!("gap-flag|tx{} {}: {} bytes lost, flags {:#x}", i, what, total, s.flags));
            }
        }
    }
    Ok(())
}

/// Body bytes (as coded) that a receiver has once the stream has been delivered up to `seen`.
fn seen_body(conv: &[u8], m: &Msg, seen: usize) -> Vec<u8> {
    let mut o = vec![];
    for (a, b) in &m.chunks {
        if seen > *a {
            o.extend_from_slice(&conv[*a..(*b).min(seen)]);
        }
    }
    o
}

/// C12: streams that break off.  `q`, `r`: how much of each stream was delivered.
pub fn partial(conv: &Conv, evs: &[Ev], conn: usize, q: usize, r: usize, tx_size: usize, flush: bool) -> Res {
    order(evs, conn, Some(conv))?;
    let begun = conv.ex.iter().filter(|x| x.q.m.start < q || x.r.m.start < r).count();
    if let Some(e) = evs.iter().find(|e| e.conn == conn && e.tx >= begun) {
        return Err(format!("invented-tx|callback {:?} for transaction {} but only {} exchanges were begun", e.kind, e.tx, begun));
    }
    if tx_size > begun {
        return Err(format!("invented-tx|{} transactions but only {} exchanges were begun", tx_size, begun));
    }
    for (i, x) in conv.ex.iter().enumerate() {
        let t = of(evs, conn, i);
        let asked = x.kind != XK::Unsol;
        let qm = &x.q.m;
        let rm = &x.r.m;
        if asked && q >= qm.line_end {
            req_line(one(&t, K::ReqLine, i)?.snap.as_ref().unwrap(), &x.q, i)?;
        }
        if asked && q >= qm.head_end {
            let e = one(&t, K::ReqHeaders, i)?.snap.as_ref().unwrap();
            neh("request-headers", i, &e.headers, &qm.headers)?;
            req_head(e, &x.q, i)?;
        }
        // the beginning of a line after a message, when nothing more comes: surplus data of that message
        let spill = |end: usize, seen: usize, bytes: &[u8]| seen > end && !bytes[end..seen].contains(&b'\n');
        let qspill = spill(qm.end, q, &conv.q);
        let rspill = spill(rm.end, r, &conv.r);
        let qdone = asked && q >= qm.end && !qspill;
        if qdone {
            let e = one(&t, K::ReqComplete, i)?.snap.as_ref().unwrap();
            neh("request-headers-final", i, &e.headers, &qm.all_headers)?;
            ne("request-message-len", i, &e.q_msg_len, &qm.msg_len)?;
        }
        if r >= rm.line_end {
            resp_line(one(&t, K::RespLine, i)?.snap.as_ref().unwrap(), &x.r, i)?;
        }
        if r >= rm.head_end {
            let e = one(&t, K::RespHeaders, i)?.snap.as_ref().unwrap();
            neh("response-headers", i, &e.r_headers, &rm.headers)?;
            resp_head(e, &x.q, &x.r, i)?;
        }
        let rdone = (r >= rm.end && !rspill) || (x.r.framing == Framing::Close && r >= rm.head_end);
        if rdone {
            let e = one(&t, K::RespComplete, i)?.snap.as_ref().unwrap();
            neh("response-headers-final", i, &e.r_headers, &rm.all_headers)?;
            let want = if x.r.framing == Framing::Close { (r.min(rm.end) - rm.head_end) as u64 } else { rm.msg_len };
            ne("response-message-len", i, &e.r_msg_len, &want)?;
        }
        for d in [Dir::Q, Dir::R] {
            let (m, k, bytes, seen, what, sp) = match d {
                Dir::Q => (qm, K::ReqBody, &conv.q, q, "request-body", qspill),
                Dir::R => (rm, K::RespBody, &conv.r, r, "response-body", rspill),
            };
            if seen < m.line_end {
                continue;
            }
            let mut got = concat(&t, k);
            if sp && got.ends_with(&bytes[m.end..seen]) && got.len() > m.plain.len() {
                got.truncate(got.len() - (seen - m.end));
            }
            if m.plain == m.coded {
                neb(what, i, &got, &seen_body(bytes, m, seen))?;
            } else if m.lzma_out > 8192 {
            } else if seen >= m.end && !sp {
                neb(what, i, &got, &m.plain)?;
            } else if !m.plain.starts_with(&got) {
                return Err(format!("{}-prefix|tx{} {} bytes reported are not the beginning of the {} sent", what, i, got.len(), m.plain.len()));
            }
            if let Some(g) = t.iter().find(|e| matches!(e.p, P::Gap(_))) {
                return Err(format!("phantom-gap|tx{} {:?} reports a gap although no byte was lost", i, g.kind));
            }
        }
        // of an unfinished block of fields, those that had arrived
        for (m, seen, req, what) in [(qm, q, true, "request-fields"), (rm, r, false, "response-fields")] {
            let inside = (seen > m.line_end && seen < m.head_end) || m.trailer.is_some_and(|(a, b)| seen > a && seen < b);
            if !inside || (req && !asked) {
                continue;
            }
            let mut want = vec![];
            for (_, (n, v)) in m.fields.iter().filter(|f| f.0 <= seen) {
                merge(&mut want, n, v);
            }
            let got = match t.iter().rev().find_map(|e| e.snap.as_ref()) {
                Some(s) if req => &s.headers,
                Some(s) => &s.r_headers,
                None => return Err(format!("{}|tx{} not reported", what, i)),
            };
            // (what there is of the next field may be reported as well)
            let ok = got.len() <= want.len() + 1
                && want.len() <= got.len()
                && want.iter().zip(got.iter()).all(|(w, g)| w.0 == g.0 && g.1.starts_with(&w.1));
            if !ok {
                return neh(what, i, got, &want);
            }
        }
        let n = t.iter().filter(|e| e.kind == K::TxComplete).count();
        let started = t.iter().any(|e| matches!(e.kind, K::ReqStart | K::RespStart));
        if (qdone || !asked) && rdone && n != 1 {
            return Err(format!("tx-complete|tx{} was complete, transaction_complete fired {} times", i, n));
        }
        if flush && started && n != 1 {
            return Err(format!("flush|tx{} had started, transaction_complete fired {} times although incomplete ones are flushed", i, n));
        }
    }
    Ok(())
}
