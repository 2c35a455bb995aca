//! C19: form parameters, read as a stream and out of the queries of a conversation.
use crate::drive::*;
use crate::oracle;
use crate::props::*;
use crate::rec::{self, K};
use crate::rng::Src;
use crate::stats;
use crate::uris::{code_name, params, Dec};
use crate::wire::*;
use htp::transaction::Param;
use htp::urlencoded::Parser;
use std::cell::{Cell, RefCell};

type R = Result<(), String>;
thread_local! {
    static PARAMS: RefCell<Vec<(usize, Vec<u8>, Vec<u8>, String)>> = const { RefCell::new(vec![]) };
    /// the how-manieth parameter is refused, and whether with STOP
    static REFUSE: Cell<(usize, bool)> = const { Cell::new((0, false)) };
}
fn on_param(p: &mut Param) -> htp::error::Result<()> {
    let tx = rec::with(|r| r.evs.iter().rev().find(|e| e.kind == K::ReqStart).map(|e| e.tx));
    PARAMS.with(|v| v.borrow_mut().push((tx.unwrap_or(usize::MAX), p.name.as_slice().to_vec(), p.value.as_slice().to_vec(), format!("{:?}", p.source))));
    let left = REFUSE.with(|r| r.get());
    if left.0 > 0 {
        REFUSE.with(|r| r.set((left.0 - 1, left.1)));
        if left.0 == 1 {
            stats::hit("fault.parameter_refused");
            return Err(if left.1 { htp::HtpStatus::STOP } else { htp::HtpStatus::ERROR });
        }
    }
    Ok(())
}
fn got(p: &Parser) -> Pairs {
    p.params.elements.iter().map(|(n, v)| (n.as_slice().to_vec(), v.as_slice().to_vec())).collect()
}
fn text(p: &[(Vec<u8>, Vec<u8>)]) -> String {
    p.iter().map(|(n, v)| format!("{}={}", show(n), show(v))).collect::<Vec<_>>().join(" ")
}
fn unescape(v: &[u8], plus: bool) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < v.len() {
        if v[i] == b'%' {
            o.push(u8::from_str_radix(std::str::from_utf8(&v[i + 1..i + 3]).unwrap(), 16).unwrap());
            i += 3;
        } else {
            o.push(if v[i] == b'+' && plus { b' ' } else { v[i] });
            i += 1;
        }
    }
    o
}
/// the model: a well-formed form text taken apart
fn fields(t: &[u8], sep: u8, decode: bool, plus: bool) -> Pairs {
    let mut o = vec![];
    for f in t.split(|c| *c == sep).filter(|f| !f.is_empty()) {
        let i = f.iter().position(|c| *c == b'=').unwrap_or(f.len());
        let (n, v) = (&f[..i], &f[(i + 1).min(f.len())..]);
        o.push(if decode { (unescape(n, plus), unescape(v, plus)) } else { (n.to_vec(), v.to_vec()) });
    }
    o
}

pub fn forms(s: &mut Src) -> R {
    match s.usz(3) {
        0 => stream(s),
        1 => garbage(s),
        _ => queries(s),
    }
}
fn pieces(s: &mut Src, t: &[u8], marks: &[usize]) -> Vec<(usize, usize)> {
    let mode = s.usz(7);
    let mut v = vec![];
    let mut p = 0;
    while p < t.len() {
        if s.chance(1, 15) {
            v.push((p, p));
        }
        let l = seg_len(s, mode, p, t.len() - p, marks, t.len());
        v.push((p, p + l));
        stats::hit("fault.segment_cut_form");
        p += l;
    }
    v
}
fn stream(s: &mut Src) -> R {
    let mut cfg = Knobs { pers: s.usz(10), ..Default::default() }.config();
    let plus = !s.chance(1, 4);
    cfg.set_plusspace_decode(plus);
    let mut p = Parser::new(cfg.decoder_cfg);
    let sep = if s.chance(1, 5) { b';' } else { b'&' };
    p.argument_separator = sep;
    let decode = !s.chance(1, 5);
    p.decode_url_encoding = decode;
    let (t, done) = form(s, sep, false);
    trace(|| format!("form {} separator {} decode {} plus {}", show(&t), sep as char, decode, plus));
    let want = fields(&t, sep, decode, plus);
    let model: Pairs = done.iter().flat_map(|d| d.0.clone()).collect();
    if decode && plus && want != model {
        panic!("the form model disagrees with itself");
    }
    let marks: Vec<usize> = t.iter().enumerate().filter(|(_, c)| matches!(c, b'%' | b'&' | b';' | b'=' | b'+')).map(|x| x.0 + 1).collect();
    for (a, b) in pieces(s, &t, &marks) {
        p.parse_partial(&t[a..b]);
        trace(|| format!("  piece {} -> {} parameters", show(&t[a..b]), p.params.size()));
        let n = t[..b].iter().rposition(|c| *c == sep).map(|i| fields(&t[..i], sep, decode, plus).len()).unwrap_or(0);
        if got(&p) != want[..n] {
            return Err(format!("form-progress|after {} bytes: {} instead of {}", b, text(&got(&p)), text(&want[..n])));
        }
    }
    p.finalize();
    if got(&p) != want {
        return Err(format!("form-fields|{} instead of {}", text(&got(&p)), text(&want)));
    }
    if decode && p.flags != 0 {
        return Err(format!("form-flags|clean form flagged {:x}", p.flags));
    }
    stats::nontrivial();
    stats::hist_bytes(&t);
    Ok(())
}
/// whatever the text and the settings, the cuts make no difference
fn garbage(s: &mut Src) -> R {
    let pers = s.usz(10);
    let mut cfg = Knobs { pers, ..Default::default() }.config();
    let mut x = Dec::preset(pers);
    if s.flip() {
        x = Dec::draw(s, x);
        x.apply(&mut cfg);
    }
    let mut t = form(s, b'&', false).0;
    for _ in 0..s.range(0, 4) {
        let i = s.usz(t.len() + 1);
        let w: &[u8] = *s.pick(&[b"%".as_ref(), b"%u", b"%u00", b"%u0041", b"%zz", b"%00", b"\0", b"%1", b"&", b"=", b"%uff21", b"%u2208", b"+", b"%uzzzz", b"%u0000", b"%%41", b"%g1", b"%1g", b"%U0061", b"%ufff0", b"%uffef", b"%u00e9", b"%u0"]);
        t.splice(i..i, w.iter().copied());
    }
    trace(|| format!("text {} settings {:?}", show(&t), x));
    let mut a = Parser::new(cfg.decoder_cfg);
    a.parse_complete(&t);
    let mut b = Parser::new(cfg.decoder_cfg);
    let marks: Vec<usize> = t.iter().enumerate().filter(|(_, c)| matches!(c, b'%' | b'&' | b'=' | b'+' | 0)).map(|x| x.0 + 1).collect();
    for (i, j) in pieces(s, &t, &marks) {
        trace(|| format!("  piece {}", show(&t[i..j])));
        b.parse_partial(&t[i..j]);
    }
    b.finalize();
    if got(&a) != got(&b) {
        return Err(format!("form-cut|{} in one piece, {} in several", text(&got(&a)), text(&got(&b))));
    }
    if a.flags != b.flags || a.response_status_expected_number != b.response_status_expected_number {
        return Err(format!("form-cut-flags|{:x} {:?} in one piece, {:x} {:?} in several", a.flags, a.response_status_expected_number, b.flags, b.response_status_expected_number));
    }
    let (want, wflags, wcode) = params(&t, b'&', &x, true);
    if got(&b) != want {
        return Err(format!("form-decoded|{} instead of {}", text(&got(&b)), text(&want)));
    }
    if b.flags != wflags || format!("{:?}", b.response_status_expected_number) != code_name(wcode) {
        return Err(format!("form-decoded-flags|{:x} {:?} instead of {:x} {}", b.flags, b.response_status_expected_number, wflags, code_name(wcode)));
    }
    // a suspicion raised by one field is not withdrawn by a later one
    let mut worst = htp::config::HtpUnwanted::IGNORE;
    let mut flags = 0;
    for f in t.split(|c| *c == b'&').filter(|f| !f.is_empty()) {
        let mut p = Parser::new(cfg.decoder_cfg);
        p.parse_complete(f);
        flags |= p.flags;
        if p.response_status_expected_number != htp::config::HtpUnwanted::IGNORE {
            worst = p.response_status_expected_number;
        }
    }
    if flags != b.flags {
        return Err(format!("form-flags-lost|fields flagged {:x}, form {:x}", flags, b.flags));
    }
    if (worst == htp::config::HtpUnwanted::IGNORE) != (b.response_status_expected_number == htp::config::HtpUnwanted::IGNORE) {
        return Err(format!("form-suspicion|a field makes the server answer {:?}, the form {:?}", worst, b.response_status_expected_number));
    }
    stats::nontrivial();
    stats::hist_bytes(&t);
    Ok(())
}
fn queries(s: &mut Src) -> R {
    let plus = !s.chance(1, 4);
    let su = setup(s, 5, &|_, f, k, _| {
        f.forms = true;
        f.odd = false;
        f.big = false;
        k.parse_urlenc = true;
    });
    let mut cfg = su.knobs.config();
    cfg.set_plusspace_decode(plus);
    cfg.parameter_processor = Some(on_param);
    PARAMS.with(|v| v.borrow_mut().clear());
    let wants: Vec<Pairs> = su.conv.ex.iter().map(|e| if e.kind == XK::Unsol { vec![] } else { e.q.query.as_ref().map(|q| fields(q, b'&', true, plus)).unwrap_or_default() }).collect();
    let total: usize = wants.iter().map(|w| w.len()).sum();
    let refuse = if total > 0 && s.chance(1, 5) { (s.range(1, total), s.flip()) } else { (0, false) };
    REFUSE.with(|r| r.set(refuse));
    let mut run = Run::new(RustApi::new(cfg, true), &su.conv, 0, su.pol.clone());
    run.open();
    run.complete(s);
    REFUSE.with(|r| r.set((0, false)));
    let evs = rec::take();
    note(&run, &evs);
    let all = PARAMS.with(|v| std::mem::take(&mut *v.borrow_mut()));
    if refuse.0 > 0 {
        trace(|| format!("parameter {} answered {}", refuse.0, if refuse.1 { "STOP" } else { "ERROR" }));
        let want: Pairs = wants.iter().flatten().take(refuse.0).cloned().collect();
        let have: Pairs = all.iter().map(|p| (p.1.clone(), p.2.clone())).collect();
        if have != want {
            return Err(format!("refused-fields|{} instead of {}", text(&have), text(&want)));
        }
        let st = if refuse.1 { St::Stop } else { St::Error };
        let i = all.last().unwrap().0;
        if run.qdead != Some(st) {
            return Err(format!("refused-status|transaction {}: the client's direction answers {:?} instead of {:?}", i, run.qdead, st));
        }
        if let Some(e) = evs.iter().find(|e| e.kind.is_req() && (e.tx > i || (e.tx == i && e.kind != K::ReqStart))) {
            return Err(format!("refused-goes-on|{:?} of transaction {} after a parameter of {} was refused", e.kind, e.tx, i));
        }
        return Ok(());
    }
    oracle::healthy(&run)?;
    for i in 0..su.conv.ex.len() {
        let have: Pairs = all.iter().filter(|p| p.0 == i).map(|p| (p.1.clone(), p.2.clone())).collect();
        let want = &wants[i];
        if &have != want {
            return Err(format!("query-fields|transaction {}: {} instead of {}", i, text(&have), text(want)));
        }
    }
    if let Some(p) = all.iter().find(|p| p.0 >= su.conv.ex.len() || p.3 != "QUERY_STRING") {
        return Err(format!("query-stray|parameter {} of transaction {} from {}", show(&p.1), p.0, p.3));
    }
    Ok(())
}
