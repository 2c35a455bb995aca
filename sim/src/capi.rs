//! The same parser driven and observed through its C interface.
use crate::clock;
use crate::drive::*;
use crate::hostile;
use crate::oracle::{describe, same};
use crate::props::*;
use crate::rec::{self, CbFault, Snap, Verdict, B, K, KINDS};
use crate::rng::Src;
use crate::stats;
use crate::wire::*;
use htp::bstr::Bstr;
use htp::c_api::{bstr::*, config::*, connection::*, connection_parser::*, header::*, log::*, transaction::*, uri::*};
use htp::config::Config;
use htp::connection_parser::ConnectionParser;
use htp::transaction::{Header, Headers, Transaction};
use std::cell::RefCell;
use std::ffi::CString;

type R = Result<(), String>;

#[derive(Default)]
struct Ctx {
    /// parser of each simulated connection
    connp: Vec<*const ConnectionParser>,
    bad: Option<String>,
    /// how far into the chunks of the two directions the parser said it was, at each callback
    at: Option<Vec<(usize, usize)>>,
}
thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}
pub fn bad(m: String) {
    CTX.with(|c| {
        c.borrow_mut().bad.get_or_insert(m);
    });
}
unsafe fn bs(p: *const Bstr) -> B {
    if p.is_null() {
        None
    } else {
        let v = std::slice::from_raw_parts(bstr_ptr(p), bstr_len(p)).to_vec();
        strings(p, &v);
        Some(v)
    }
}
/// What the string functions make of one string.
unsafe fn strings(p: *const Bstr, v: &[u8]) {
    use std::ffi::{CStr, CString};
    let c = bstr_util_strdup_to_c(p);
    let mut want = Vec::with_capacity(v.len());
    for x in v {
        match x {
            0 => want.extend_from_slice(b"\\0"),
            x => want.push(*x),
        }
    }
    let got = CStr::from_ptr(c);
    if got.to_bytes() != &want[..] {
        bad(format!("bstr_util_strdup_to_c gives {:?} for {:?}", got, v));
    }
    // the escaped string has no NUL: compare it, and changes of it, with the original
    let d = bstr_dup_c(c);
    libc::free(c as *mut libc::c_void);
    if bstr_len(d) != want.len() || std::slice::from_raw_parts(bstr_ptr(d), bstr_len(d)) != &want[..] || bstr_size(d) < want.len() {
        bad(format!("bstr_dup_c gives {:?} for {:?}", bs_raw(d), want));
    }
    bstr_free(d);
    let sign = |a: &[u8], b: &[u8]| a.cmp(b) as i32;
    let mut other = want.clone();
    match v.len() % 4 {
        0 => other.push(b'a'),
        1 => drop(other.pop()),
        2 => other.iter_mut().for_each(|x| *x = x.to_ascii_uppercase()),
        _ => {}
    }
    let o = CString::new(other.clone()).unwrap();
    if bstr_cmp_c(p, o.as_ptr()) != sign(v, &other) {
        bad(format!("bstr_cmp_c of {:?} and {:?}", v, other));
    }
    if bstr_cmp_c_nocase(p, o.as_ptr()) != sign(&v.to_ascii_lowercase(), &other.to_ascii_lowercase()) {
        bad(format!("bstr_cmp_c_nocase of {:?} and {:?}", v, other));
    }
}
unsafe fn bs_raw(p: *const Bstr) -> Vec<u8> {
    std::slice::from_raw_parts(bstr_ptr(p), bstr_len(p)).to_vec()
}
unsafe fn hdrs(h: *const Headers) -> (Vec<(Vec<u8>, Vec<u8>)>, Vec<u64>) {
    let n = htp_headers_size(h);
    let mut v = vec![];
    let mut f = vec![];
    let mut all = 0;
    for i in 0..n as usize {
        let e = htp_headers_get_index(h, i);
        let nm = bs(htp_header_name(e)).unwrap_or_default();
        let vl = bs(htp_header_value(e)).unwrap_or_default();
        let np = std::slice::from_raw_parts(htp_header_name_ptr(e), htp_header_name_len(e) as usize);
        let vp = std::slice::from_raw_parts(htp_header_value_ptr(e), htp_header_value_len(e) as usize);
        if np != &nm[..] || vp != &vl[..] {
            bad(format!("header {} has two values", i));
        }
        all |= htp_header_flags(e);
        f.push(htp_header_flags(e));
        v.push((nm, vl));
    }
    if !htp_headers_get_index(h, n as usize).is_null() {
        bad(format!("a header after the last of {}", n));
    }
    if htp_headers_flags(h) != all {
        bad("htp_headers_flags".into());
    }
    (v, f)
}
/// Everything the C interface tells about a transaction.
unsafe fn csnap(tx: *const Transaction) -> Snap {
    let u = htp_tx_parsed_uri(tx);
    let (headers, hflags) = hdrs(htp_tx_request_headers(tx));
    let (r_headers, r_hflags) = hdrs(htp_tx_response_headers(tx));
    let port = |p: i32| if p < 0 { None } else { Some(p as u16) };
    let len = |p: i64| if p < 0 { None } else { Some(p as u64) };
    Snap {
        method: bs(htp_tx_request_method(tx)),
        method_num: format!("{:?}", htp_tx_request_method_number(tx)),
        uri: bs(htp_tx_request_uri(tx)),
        protocol: bs(htp_tx_request_protocol(tx)),
        proto_num: htp_tx_request_protocol_number(tx) as i32,
        is_09: htp_tx_is_protocol_0_9(tx) == 1,
        u_scheme: bs(htp_uri_scheme(u)),
        u_host: bs(htp_uri_hostname(u)),
        u_port: port(htp_uri_port_number(u)),
        u_path: bs(htp_uri_path(u)),
        u_query: bs(htp_uri_query(u)),
        u_frag: bs(htp_uri_fragment(u)),
        u_user: bs(htp_uri_username(u)),
        u_pass: bs(htp_uri_password(u)),
        q_line: bs(htp_tx_request_line(tx)),
        r_line: bs(htp_tx_response_line(tx)),
        q_ce: format!("{:?}", htp_tx_request_content_encoding(tx)),
        hflags,
        r_hflags,
        headers,
        q_tc: format!("{:?}", htp_tx_request_transfer_coding(tx)),
        q_ctype: bs(htp_tx_request_content_type(tx)),
        q_cl: len(htp_tx_request_content_length(tx)),
        auth_type: format!("{:?}", htp_tx_request_auth_type(tx)),
        host: bs(htp_tx_request_hostname(tx)),
        port: port(htp_tx_request_port_number(tx)),
        q_msg_len: htp_tx_request_message_len(tx) as u64,
        q_ent_len: htp_tx_request_entity_len(tx) as u64,
        r_protocol: bs(htp_tx_response_protocol(tx)),
        r_proto_num: htp_tx_response_protocol_number(tx) as i32,
        r_status: bs(htp_tx_response_status(tx)),
        r_status_num: htp_tx_response_status_number(tx),
        r_message: bs(htp_tx_response_message(tx)),
        r_headers,
        r_ctype: bs(htp_tx_response_content_type(tx)),
        r_cl: len(htp_tx_response_content_length(tx)),
        r_msg_len: htp_tx_response_message_len(tx) as u64,
        r_ent_len: htp_tx_response_entity_len(tx) as u64,
        h2: htp_tx_is_http_2_upgrade(tx) == 1,
        flags: htp_tx_flags(tx),
        q_progress: format!("{:?}", htp_tx_request_progress(tx)),
        r_progress: format!("{:?}", htp_tx_response_progress(tx)),
        index: htp_tx_index(tx) as usize,
        ..Default::default()
    }
}
/// what the C interface does not show
fn blank(mut s: Snap) -> Snap {
    let d = Snap::default();
    s.raw_path = d.raw_path;
    s.raw_query = d.raw_query;
    s.raw_frag = d.raw_frag;
    s.raw_host = d.raw_host;
    s.r_ce = d.r_ce;
    s.auth_user = d.auth_user;
    s.auth_pass = d.auth_pass;
    s.auth_token = d.auth_token;
    s.q_ignored = d.q_ignored;
    s.r_ignored = d.r_ignored;
    s.seen_100 = d.seen_100;
    s.r_tc = d.r_tc;
    s.q_complete = false;
    s.r_complete = false;
    s.norm_all = None;
    s.norm_part = None;
    s.expected = d.expected;
    s.q_reps = 0;
    s.r_reps = 0;
    s.q_cep = d.q_cep;
    s.r_cep = d.r_cep;
    // lengths that do not fit are shown as unknown
    for x in [&mut s.q_cl, &mut s.r_cl] {
        if x.is_some_and(|v| v > i64::MAX as u64) {
            *x = None;
        }
    }
    s
}
unsafe fn lookups(tx: *const Transaction, all: *const Headers, list: &[(Vec<u8>, Vec<u8>)], get: unsafe extern "C" fn(*const Transaction, *const libc::c_char) -> *const Header, idx: unsafe extern "C" fn(*const Transaction, usize) -> *const Header) {
    for (i, (n, v)) in list.iter().enumerate() {
        let e = idx(tx, i);
        if bs(htp_header_name(e)).as_ref() != Some(n) || bs(htp_header_value(e)).as_ref() != Some(v) {
            bad(format!("header {} by index", i));
        }
        if n.is_empty() || n.contains(&0) || list[..i].iter().any(|x| x.0.eq_ignore_ascii_case(n) || x.0.contains(&0)) {
            continue;
        }
        let key = CString::new(n.to_ascii_uppercase()).unwrap();
        let e = get(tx, key.as_ptr());
        if e != htp_headers_get(all, key.as_ptr()) {
            bad(format!("header {} by name in the table", show(n)));
        }
        if bstr_cmp_c_nocase(htp_header_name(e), key.as_ptr()) != 0 {
            bad(format!("name of header {}", show(n)));
        }
        if e.is_null() || bs(htp_header_value(e)).as_ref() != Some(v) {
            bad(format!("header {} by name", show(n)));
        }
    }
    if !idx(tx, list.len()).is_null() {
        bad("a header after the last one".into());
    }
}
fn token(conn: usize) -> *mut libc::c_void {
    (0x1000 + conn) as *mut libc::c_void
}
fn tx_token(conn: usize, tx: usize) -> *mut libc::c_void {
    (0x10_0000 * (conn + 1) + tx) as *mut libc::c_void
}
/// Called at each callback: does the C interface show the transaction as it is?
pub unsafe fn view(c: *const ConnectionParser, tx: *mut Transaction, k: K) {
    let conn = rec::with(|r| r.conn);
    let want = CTX.with(|x| x.borrow().connp.get(conn).copied()).unwrap_or(std::ptr::null());
    if c != want {
        return bad(format!("{:?} callback with a parser that is not the one", k));
    }
    if tx.is_null() {
        return bad(format!("{:?} callback without a transaction", k));
    }
    if htp_connp_user_data(c) != token(conn) {
        bad(format!("{:?} callback: connection user data lost", k));
    }
    CTX.with(|x| {
        if let Some(v) = &mut x.borrow_mut().at {
            v.push((htp_connp_request_data_consumed(c) as usize, htp_connp_response_data_consumed(c) as usize));
        }
    });
    let i = (*tx).index;
    if k == K::ReqStart {
        htp_tx_set_user_data(tx, tx_token(conn, i));
    } else {
        let t = htp_tx_get_user_data(tx);
        if t != tx_token(conn, i) && !t.is_null() {
            bad(format!("{:?} callback of transaction {}: user data of another", k, i));
        }
    }
    if !k.is_data() {
        audit(tx);
    }
}
/// the getters against the transaction itself
pub unsafe fn audit(tx: *const Transaction) {
    let a = blank(rec::snap(&*tx));
    let b = csnap(tx);
    if a != b {
        let (x, y) = (format!("{:?}", a), format!("{:?}", b));
        let i = x.bytes().zip(y.bytes()).take_while(|(a, b)| a == b).count().saturating_sub(30);
        bad(format!("the C interface shows ..{} for ..{}", y.chars().skip(i).take(90).collect::<String>(), x.chars().skip(i).take(90).collect::<String>()));
    }
    lookups(tx, htp_tx_request_headers(tx), &a.headers, htp_tx_request_header, htp_tx_request_header_index);
    lookups(tx, htp_tx_response_headers(tx), &a.r_headers, htp_tx_response_header, htp_tx_response_header_index);
    if htp_tx_response_status_expected_number(tx) != (*tx).response_status_expected_number as i32 {
        bad("expected status number".into());
    }
    if htp_tx_cfg(tx) != std::rc::Rc::as_ptr(&(*tx).cfg) {
        bad("configuration".into());
    }
    let u = htp_tx_parsed_uri(tx);
    if bs(htp_uri_port(u)) != (*tx).parsed_uri.as_ref().and_then(|u| u.port.as_ref()).map(|x| x.as_slice().to_vec()) {
        bad("port of the uri".into());
    }
    if u.is_null() != (*tx).parsed_uri.is_none() {
        bad("parsed uri".into());
    }
    if htp_tx_request_headers_size(tx) != a.headers.len() as isize || htp_tx_response_headers_size(tx) != a.r_headers.len() as isize {
        bad("number of headers".into());
    }
    let want = if (*tx).cfg.decoder_cfg.normalized_uri_include_all { &(*tx).complete_normalized_uri } else { &(*tx).partial_normalized_uri };
    if bs(htp_tx_normalized_uri(tx)) != want.as_ref().map(|x| x.as_slice().to_vec()) {
        bad("normalized uri".into());
    }
}

pub struct CApi {
    connp: *mut ConnectionParser,
    conn: usize,
}
/// settings that both interfaces have
#[derive(Clone, Copy, Debug)]
pub struct Extra {
    bits: u64,
    bestfit: u8,
    inv: usize,
}
impl Extra {
    pub fn draw(s: &mut Src) -> Extra {
        Extra { bits: if s.flip() { s.below(1 << 14) } else { 0 }, bestfit: *s.pick(&[b'?', b'x', 0]), inv: s.usz(4) }
    }
    pub fn rust(&self, c: &mut Config) {
        let f = |i: u32| (self.bits >> i) & 1 == 1;
        if self.bits == 0 {
            return;
        }
        use htp::config::HtpUrlEncodingHandling::*;
        c.set_backslash_convert_slashes(f(0));
        c.set_bestfit_replacement_byte(self.bestfit);
        c.set_convert_lowercase(f(1));
        c.set_nul_encoded_terminates(f(2));
        c.set_nul_raw_terminates(f(3));
        c.set_path_separators_compress(f(4));
        c.set_plusspace_decode(f(5));
        c.set_path_separators_decode(f(6));
        c.set_allow_space_uri(f(7));
        c.set_u_encoding_decode(f(8));
        if self.inv < 3 {
            c.set_url_encoding_invalid_handling([PRESERVE_PERCENT, REMOVE_PERCENT, PROCESS_INVALID][self.inv]);
        }
        c.set_utf8_convert_bestfit(f(9));
        c.set_double_decode_normalized_query(f(10));
        c.set_double_decode_normalized_path(f(11));
        c.set_normalized_uri_include_all(f(12));
    }
    unsafe fn c(&self, c: *mut Config) {
        let f = |i: u32| ((self.bits >> i) & 1) as i32;
        if self.bits == 0 {
            return;
        }
        use htp::config::HtpUrlEncodingHandling::*;
        htp_config_set_backslash_convert_slashes(c, f(0));
        htp_config_set_bestfit_replacement_byte(c, self.bestfit as i32);
        htp_config_set_convert_lowercase(c, f(1));
        htp_config_set_nul_encoded_terminates(c, f(2));
        htp_config_set_nul_raw_terminates(c, f(3));
        htp_config_set_path_separators_compress(c, f(4));
        htp_config_set_plusspace_decode(c, f(5));
        htp_config_set_path_separators_decode(c, f(6));
        htp_config_set_allow_space_uri(c, f(7) == 1);
        htp_config_set_u_encoding_decode(c, f(8));
        if self.inv < 3 {
            htp_config_set_url_encoding_invalid_handling(c, [PRESERVE_PERCENT, REMOVE_PERCENT, PROCESS_INVALID][self.inv]);
        }
        htp_config_set_utf8_convert_bestfit(c, f(9));
        htp_config_set_double_decode_normalized_query(c, f(10) == 1);
        htp_config_set_double_decode_normalized_path(c, f(11) == 1);
        htp_config_set_normalized_uri_include_all(c, f(12) == 1);
    }
}

impl CApi {
    pub fn new(k: &Knobs, x: &Extra, conn: usize) -> CApi {
        unsafe {
            let c = htp_config_create();
            let _ = htp_config_set_server_personality(c, PERS[k.pers]);
            htp_config_set_request_decompression(c, k.req_decomp as i32);
            htp_config_set_tx_auto_destroy(c, k.auto_destroy as i32);
            htp_config_set_flush_incomplete(c, k.flush_incomplete as i32);
            htp_config_set_field_limit(c, k.field_limit);
            htp_config_set_max_tx(c, k.max_tx);
            htp_config_set_parse_urlencoded(c, k.parse_urlenc as i32);
            htp_config_set_parse_request_cookies(c, 1);
            if let Some(v) = k.time_limit {
                htp_config_set_compression_time_limit(c, v);
            }
            if let Some(v) = k.bomb_limit {
                htp_config_set_compression_bomb_limit(c, v as usize);
            }
            if let Some(v) = k.layer_limit {
                htp_config_set_decompression_layer_limit(c, v.map(|x| x as i32).unwrap_or(if k.auto_destroy { 0 } else { -1 }));
            }
            if let Some(v) = k.lzma_layers {
                htp_config_set_lzma_layers(c, v.map(|x| x as i32).unwrap_or(0));
            }
            if let Some(v) = k.lzma_mem {
                htp_config_set_lzma_memlimit(c, v);
            }
            x.c(c);
            htp_config_register_request_start(c, rec::eq_start);
            htp_config_register_request_line(c, rec::eq_line);
            htp_config_register_request_header_data(c, rec::eq_hdata);
            htp_config_register_request_headers(c, rec::eq_headers);
            htp_config_register_request_body_data(c, rec::eq_body);
            htp_config_register_request_trailer_data(c, rec::eq_tdata);
            htp_config_register_request_trailer(c, rec::eq_trailer);
            htp_config_register_request_complete(c, rec::eq_complete);
            htp_config_register_response_start(c, rec::er_start);
            htp_config_register_response_header_data(c, rec::er_hdata);
            htp_config_register_response_headers(c, rec::er_headers);
            htp_config_register_response_body_data(c, rec::er_body);
            htp_config_register_response_trailer_data(c, rec::er_tdata);
            htp_config_register_response_trailer(c, rec::er_trailer);
            htp_config_register_response_complete(c, rec::er_complete);
            htp_config_register_transaction_complete(c, rec::et_complete);
            let connp = htp_connp_create(c);
            // the parser has its own copy of the settings
            htp_config_destroy(c);
            htp_connp_set_user_data(connp, token(conn));
            CTX.with(|x| {
                let mut x = x.borrow_mut();
                x.bad = None;
                while x.connp.len() <= conn {
                    x.connp.push(std::ptr::null());
                }
                x.connp[conn] = connp;
            });
            CApi { connp, conn }
        }
    }
    fn now(&self) -> libc::timeval {
        let us = clock::real().div_euclid(1000);
        libc::timeval { tv_sec: us.div_euclid(1_000_000), tv_usec: us.rem_euclid(1_000_000) }
    }
}
impl Drop for CApi {
    fn drop(&mut self) {
        unsafe { htp_connp_destroy_all(self.connp) }
        CTX.with(|x| x.borrow_mut().connp[self.conn] = std::ptr::null());
    }
}
impl Api for CApi {
    fn open(&mut self) {
        let t = self.now();
        let (a, b) = (CString::new("10.0.0.1").unwrap(), CString::new("10.0.0.2").unwrap());
        unsafe { htp_connp_open(self.connp, a.as_ptr(), 32768, b.as_ptr(), 80, &t) }
    }
    fn data(&mut self, d: Dir, b: &[u8]) -> St {
        let t = self.now();
        let p = b.as_ptr() as *const libc::c_void;
        unsafe {
            st(match d {
                Dir::Q => htp_connp_request_data(self.connp, &t, p, b.len()),
                Dir::R => htp_connp_response_data(self.connp, &t, p, b.len()),
            })
        }
    }
    fn gap(&mut self, d: Dir, n: usize) -> St {
        let t = self.now();
        unsafe {
            st(match d {
                Dir::Q => htp_connp_request_data(self.connp, &t, std::ptr::null(), n),
                Dir::R => htp_connp_response_data(self.connp, &t, std::ptr::null(), n),
            })
        }
    }
    fn consumed(&self, d: Dir) -> usize {
        unsafe {
            match d {
                Dir::Q => htp_connp_request_data_consumed(self.connp) as usize,
                Dir::R => htp_connp_response_data_consumed(self.connp) as usize,
            }
        }
    }
    fn close(&mut self) {
        let t = self.now();
        unsafe { htp_connp_close(self.connp, &t) }
    }
    fn request_close(&mut self) {
        let t = self.now();
        unsafe { htp_connp_request_close(self.connp, &t) }
    }
    fn tx_size(&self) -> usize {
        unsafe { htp_connp_tx_size(self.connp) as usize }
    }
    fn tx(&self, i: usize) -> Option<Snap> {
        unsafe {
            let t = htp_connp_tx(self.connp, i);
            if t.is_null() {
                None
            } else {
                audit(t);
                Some(csnap(t))
            }
        }
    }
    fn destroy_tx(&mut self, i: usize) {
        unsafe {
            let t = htp_connp_tx(self.connp, i);
            htp_tx_destroy(self.connp, t)
        }
    }
    fn counters(&self) -> (i64, i64) {
        unsafe {
            let c = htp_connp_connection(self.connp);
            (htp_conn_request_data_counter(c) as i64, htp_conn_response_data_counter(c) as i64)
        }
    }
    fn logs(&mut self) -> Vec<(String, String)> {
        let mut v = vec![];
        unsafe {
            let c = htp_connp_connection(self.connp);
            loop {
                let l = htp_conn_next_log(c);
                if l.is_null() {
                    break;
                }
                let m = htp_log_message(l);
                let text = if m.is_null() { String::new() } else { CString::from_raw(m).to_string_lossy().into_owned() };
                let f = htp_log_file(l);
                let file = if f.is_null() { String::new() } else { std::ffi::CStr::from_ptr(f).to_string_lossy().into_owned() };
                htp::c_api::htp_free_cstring(f);
                v.push((format!("{:?} {}", htp_log_code(l), file), text));
                htp_log_free(l);
            }
        }
        v
    }
}

/// C17: one history through both interfaces.
pub fn equivalence(s: &mut Src) -> R {
    let hostile = s.chance(1, 3);
    let mut feats = Feats::draw(s);
    feats.big = feats.big && s.chance(1, 4);
    let mut k = if hostile { hostile::wild_knobs(s) } else { Knobs::draw(s) };
    // messages that meet the limits on decompression
    if s.chance(1, 5) {
        feats.coding = true;
        feats.req_coding = true;
        feats.layered = true;
        feats.lzma = s.flip();
        k.req_decomp = true;
        k.layer_limit = *s.pick(&[None, Some(None), Some(Some(1)), Some(Some(2))]);
        k.lzma_layers = *s.pick(&[None, Some(None), Some(Some(1)), Some(Some(2))]);
        k.lzma_mem = *s.pick(&[None, Some(0usize), Some(4096), Some(1 << 20)]);
        k.bomb_limit = *s.pick(&[None, Some(100u64), Some(0), Some(5000)]);
        stats::hit("probe.decoding_limits");
    }
    // without a setter in C
    k.resp_decomp = true;
    k.time_freq = None;
    k.bomb_ratio = None;
    k.log_level = None;
    if k.layer_limit == Some(Some(0)) {
        k.layer_limit = Some(None);
    }
    if k.lzma_layers == Some(Some(0)) {
        k.lzma_layers = Some(None);
    }
    let x = Extra::draw(s);
    let pol = Policy::draw(s);
    let conv = if hostile {
        hostile::streams(s, &feats, &k)
    } else {
        let o = GenOpts { max_ex: 5, max_headers: 4, req_decomp: k.req_decomp, resp_decomp: k.resp_decomp, anom: "", lead: false };
        gen_conv(s, &feats, &o)
    };
    trace(|| format!("config {:?} {:?}", k, x));
    trace(|| format!("client bytes {}", show(&conv.q)));
    trace(|| format!("server bytes {}", show(&conv.r)));
    let mut faults = vec![];
    if s.chance(1, 4) {
        let kinds: Vec<K> = KINDS.iter().copied().filter(|k| shown(*k)).collect();
        let f = CbFault { conn: 0, kind: *s.pick(&kinds), nth: s.usz(3), verdict: *s.pick(&[Verdict::Declined, Verdict::Error, Verdict::Stop]) };
        trace(|| format!("fault: {:?} #{} answers {:?}", f.kind, f.nth, f.verdict));
        stats::hit("fault.callback_verdict");
        faults.push(f);
    }
    let tx_hooks = s.chance(1, 4);
    let prep = || {
        rec::reset();
        rec::with(|r| {
            r.faults = faults.clone();
            r.tx_hooks = tx_hooks;
        });
    };
    let mut cfg = k.config();
    x.rust(&mut cfg);
    prep();
    let lossy = hostile && s.chance(1, 4);
    let mut a = Run::new(RustApi::new(cfg, true), &conv, 0, pol.clone());
    a.ungated = hostile;
    a.open();
    let mut steps = 0;
    loop {
        if lossy && s.chance(1, 8) {
            let d = if s.flip() { Dir::Q } else { Dir::R };
            let left = if d == Dir::Q { conv.q.len() - a.qpos } else { conv.r.len() - a.rpos };
            if left > 0 {
                let n = s.range(1, left);
                a.gap(d, n);
            }
        }
        if s.chance(1, 12) && a.api.tx_size() > 0 {
            let i = s.usz(a.api.tx_size());
            if a.api.tx(i).is_some_and(|t| t.q_complete && t.r_complete) {
                a.destroy(i);
            }
        }
        steps += 1;
        if steps > 20_000 || !a.step(s) || (a.qdead.is_some() && a.rdead.is_some()) {
            break;
        }
    }
    if s.chance(4, 5) {
        a.close();
    }
    let ea = rec::take();
    note(&a, &ea);
    prep();
    trace(|| "the same through the C interface:".to_string());
    let mut b = Run::new(CApi::new(&k, &x, 0), &conv, 0, pol);
    b.open();
    for c in &a.calls {
        b.exec(&c.op);
    }
    let eb = rec::take();
    for (i, (x, y)) in a.calls.iter().zip(&b.calls).enumerate() {
        if x.st != y.st || x.consumed != y.consumed {
            return Err(format!("c-status|call {}: {:?}/{} through Rust, {:?}/{} through C", i, x.st, x.consumed, y.st, y.consumed));
        }
    }
    let fa: Vec<_> = ea.iter().filter(|e| shown(e.kind) && e.kind != K::TxReqBody).collect();
    let fb: Vec<_> = eb.iter().collect();
    for (x, y) in fa.iter().zip(&fb) {
        if !same(x, y) || x.call != y.call {
            return Err(format!("c-event|{} through Rust, {} through C", describe(x), describe(y)));
        }
    }
    if fa.len() != fb.len() {
        return Err(format!("c-event|{} callbacks through Rust, {} through C", fa.len(), fb.len()));
    }
    if a.api.tx_size() != b.api.tx_size() || a.api.counters() != b.api.counters() {
        return Err(format!("c-size|{} transactions and {:?} bytes through Rust, {} and {:?} through C", a.api.tx_size(), a.api.counters(), b.api.tx_size(), b.api.counters()));
    }
    for i in 0..a.api.tx_size() {
        let x = a.api.p().tx(i).filter(|t| t.is_started()).map(|t| blank(rec::snap(t)));
        let y = b.api.tx(i);
        if x != y {
            return Err(format!("c-tx|transaction {}: {} through Rust, {} through C", i, x.is_some(), y.is_some()));
        }
    }
    let la: Vec<(String, String)> = a.api.p().conn.get_logs().into_iter().map(|l| (format!("{:?} {}", l.msg.code, l.msg.file), l.msg.msg.replace('\0', ""))).collect();
    let lb = b.api.logs();
    if la.len() != lb.len() || la.iter().zip(&lb).any(|(x, y)| x.0 != y.0 || (x.1 != y.1 && !y.1.is_empty())) {
        return Err(format!("c-log|{} log messages through Rust, {} through C, or not the same", la.len(), lb.len()));
    }
    let (qi, ri) = unsafe { (htp_connp_get_request_tx(b.api.connp).as_ref().map(|t| t.index), htp_connp_get_response_tx(b.api.connp).as_ref().map(|t| t.index)) };
    let p = a.api.pm();
    let want = (p.request().map(|t| t.index), p.response().map(|t| t.index));
    if want != (qi, ri) {
        return Err(format!("c-active|active transactions {:?} through Rust, {:?} through C", want, (qi, ri)));
    }
    stats::add("probe.c_logs", la.len() as u64);
    match CTX.with(|c| c.borrow_mut().bad.take()) {
        Some(m) => Err(format!("c-view|{}", m)),
        None => Ok(()),
    }
}
/// callbacks the C interface can register
fn shown(k: K) -> bool {
    !matches!(k, K::ReqUriNorm | K::RespLine)
}

/// C31: how far into the chunk the parser is, asked inside the callbacks.
pub fn positions(s: &mut Src) -> R {
    let hostile = s.chance(1, 5);
    let mut feats = Feats::draw(s);
    feats.big = feats.big && s.chance(1, 4);
    let mut k = if hostile { hostile::wild_knobs(s) } else { Knobs::draw(s) };
    k.resp_decomp = true;
    let x = Extra { bits: 0, bestfit: b'?', inv: 3 };
    let pol = Policy::draw(s);
    let conv = if hostile {
        hostile::streams(s, &feats, &k)
    } else {
        let o = GenOpts { max_ex: 5, max_headers: 4, req_decomp: k.req_decomp, resp_decomp: true, anom: "", lead: s.chance(1, 4) };
        gen_conv(s, &feats, &o)
    };
    trace(|| format!("config {:?}", k));
    trace(|| format!("client bytes {}", show(&conv.q)));
    trace(|| format!("server bytes {}", show(&conv.r)));
    rec::reset();
    CTX.with(|c| c.borrow_mut().at = Some(vec![]));
    let mut run = Run::new(CApi::new(&k, &x, 0), &conv, 0, pol);
    run.ungated = hostile;
    run.open();
    let mut steps = 0;
    loop {
        if hostile && s.chance(1, 10) {
            let d = if s.flip() { Dir::Q } else { Dir::R };
            let left = if d == Dir::Q { conv.q.len() - run.qpos } else { conv.r.len() - run.rpos };
            if left > 0 {
                let n = s.range(1, left);
                run.gap(d, n);
            }
        }
        steps += 1;
        if steps > 20_000 || !run.step(s) || (run.qdead.is_some() && run.rdead.is_some()) {
            break;
        }
    }
    if s.chance(3, 4) {
        run.close();
    }
    let at = CTX.with(|c| c.borrow_mut().at.take()).unwrap_or_default();
    let evs = rec::take();
    note(&run, &evs);
    if at.len() != evs.len() {
        return Err(format!("harness|{} positions of {} callbacks", at.len(), evs.len()));
    }
    let mut cum = std::collections::BTreeMap::new();
    for (e, p) in evs.iter().zip(&at) {
        let Some(c) = run.calls.get(e.call) else { continue };
        let (d, a, b) = match c.op {
            Op::Seg(d, a, b) | Op::Gap(d, a, b) => (d, a, b),
            _ => continue,
        };
        // what the other direction has consumed is what its last chunk left
        let last = run.calls[..e.call].iter().rev().find(|c| matches!(c.op, Op::Seg(o, ..) | Op::Gap(o, ..) if o != d) || c.op == Op::ReqClose && d == Dir::R).map_or(0, |c| c.consumed);
        let (mine, other) = if d == Dir::Q { (p.0, p.1) } else { (p.1, p.0) };
        if other != last {
            return Err(format!("other|call {}: {:?}: the other direction is at {} of its last chunk, not {}", e.call, e.kind, other, last));
        }
        let got = a + mine;
        trace(|| format!("  call {} {:?} tx{} at {} of {}..{}", e.call, e.kind, e.tx, got, a, b));
        if got > b {
            return Err(format!("range|call {}: {:?} of transaction {} at {} of {}..{}", e.call, e.kind, e.tx, got, a, b));
        }
        if hostile || !(e.kind == K::TxComplete || e.kind.is_req() == (d == Dir::Q)) {
            continue;
        }
        let Some(x) = conv.ex.get(e.tx) else { continue };
        let m = if d == Dir::Q { &x.q.m } else { &x.r.m };
        let n = if let rec::P::Bytes(v) = &e.p { v.len() } else { 0 };
        let q = cum.entry((e.tx, e.kind)).or_insert(0usize);
        let before = *q;
        *q += n;
        let want = match e.kind {
            K::ReqStart | K::RespStart => Some(m.start),
            K::ReqLine => Some(m.line_end),
            K::ReqHeaders | K::RespHeaders => Some(m.head_end),
            K::ReqTrailer | K::RespTrailer | K::ReqComplete | K::RespComplete | K::TxComplete => Some(m.end),
            // raw data: all of it has been read
            K::ReqHeaderData => Some(m.line_end + *q),
            K::RespHeaderData if x.r.interim == 0 => Some(m.line_end + *q),
            K::ReqTrailerData | K::RespTrailerData => m.trailer.map(|t| t.0 + *q),
            K::ReqBody | K::RespBody if n == 0 => Some(m.end),
            // body data: the piece is what comes next
            K::ReqBody | K::RespBody if m.coded == m.plain => {
                let mut o = before;
                let w = m.chunks.iter().find_map(|(a, b)| {
                    if o < b - a {
                        return Some(a + o);
                    }
                    o -= b - a;
                    None
                });
                if w.is_some() {
                    stats::hit("probe.body_position");
                }
                w
            }
            _ => None,
        };
        if let Some(w) = want {
            // what ended in an earlier chunk is reported at the start of this one
            if got != w.max(a) {
                return Err(format!("{:?}|call {}: transaction {}: {} bytes behind {}: at {} of {}..{} instead of {}", e.kind, e.call, e.tx, n, before, got, a, b, w));
            }
            stats::hit(if w < a { "probe.position_in_earlier_chunk" } else { "probe.position_exact" });
        }
    }
    match CTX.with(|c| c.borrow_mut().bad.take()) {
        Some(m) => Err(format!("c-view|{}", m)),
        None => Ok(()),
    }
}
