//! Recorder and callback-fault injector.  The parser's callbacks are plain functions, so the recorder
//! is thread local; one simulated world lives in one thread.
use crate::clock;
use htp::config::Config;
use htp::connection_parser::{ConnectionParser, ParserData};
use htp::decompressors::HtpContentEncoding;
use htp::transaction::{Data, HtpRequestProgress, HtpResponseNumber, HtpResponseProgress, Transaction};
use htp::HtpStatus;
use std::cell::RefCell;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum K {
    ReqStart,
    ReqUriNorm,
    ReqLine,
    ReqHeaderData,
    ReqHeaders,
    ReqBody,
    ReqTrailerData,
    ReqTrailer,
    ReqComplete,
    RespStart,
    RespLine,
    RespHeaderData,
    RespHeaders,
    RespBody,
    RespTrailerData,
    RespTrailer,
    RespComplete,
    TxComplete,
    TxReqBody,
    TxRespBody,
}
pub const KINDS: [K; 18] = [
    K::ReqStart, K::ReqUriNorm, K::ReqLine, K::ReqHeaderData, K::ReqHeaders, K::ReqBody, K::ReqTrailerData,
    K::ReqTrailer, K::ReqComplete, K::RespStart, K::RespLine, K::RespHeaderData, K::RespHeaders, K::RespBody,
    K::RespTrailerData, K::RespTrailer, K::RespComplete, K::TxComplete,
];
impl K {
    pub fn is_req(self) -> bool {
        self <= K::ReqComplete || self == K::TxReqBody
    }
    pub fn is_resp(self) -> bool {
        (self >= K::RespStart && self <= K::RespComplete) || self == K::TxRespBody
    }
    pub fn is_data(self) -> bool {
        matches!(
            self,
            K::ReqHeaderData | K::ReqBody | K::ReqTrailerData | K::RespHeaderData | K::RespBody | K::RespTrailerData
                | K::TxReqBody | K::TxRespBody
        )
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum P {
    No,
    /// data callback without data and without gap: the end-of-body signal
    End,
    Bytes(Vec<u8>),
    Gap(usize),
}

pub type B = Option<Vec<u8>>;
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Snap {
    pub method: B,
    pub method_num: String,
    pub uri: B,
    pub protocol: B,
    pub proto_num: i32,
    pub is_09: bool,
    pub u_scheme: B,
    pub u_host: B,
    pub u_port: Option<u16>,
    pub u_path: B,
    pub u_query: B,
    pub u_frag: B,
    pub u_user: B,
    pub u_pass: B,
    pub q_line: B,
    pub r_line: B,
    pub raw_path: B,
    pub raw_query: B,
    pub raw_frag: B,
    pub raw_host: B,
    pub q_ce: String,
    pub r_ce: String,
    pub hflags: Vec<u64>,
    pub r_hflags: Vec<u64>,
    pub headers: Vec<(Vec<u8>, Vec<u8>)>,
    pub q_tc: String,
    pub q_ctype: B,
    pub q_cl: Option<u64>,
    pub auth_type: String,
    pub auth_user: B,
    pub auth_pass: B,
    pub auth_token: B,
    pub host: B,
    pub port: Option<u16>,
    pub q_msg_len: u64,
    pub q_ent_len: u64,
    pub q_ignored: u32,
    pub r_protocol: B,
    pub r_proto_num: i32,
    pub r_status: B,
    pub r_status_num: i32,
    pub r_message: B,
    pub seen_100: bool,
    pub r_headers: Vec<(Vec<u8>, Vec<u8>)>,
    pub r_tc: String,
    pub r_ctype: B,
    pub r_cl: Option<u64>,
    pub r_msg_len: u64,
    pub r_ent_len: u64,
    pub r_ignored: u32,
    pub h2: bool,
    pub flags: u64,
    pub q_progress: String,
    pub r_progress: String,
    pub q_complete: bool,
    pub r_complete: bool,
    pub index: usize,
    pub norm_all: B,
    pub norm_part: B,
    pub expected: String,
    pub q_reps: u16,
    pub r_reps: u16,
    pub q_cep: String,
    pub r_cep: String,
}

fn b(x: &Option<htp::bstr::Bstr>) -> B {
    x.as_ref().map(|v| v.as_slice().to_vec())
}
pub fn snap(tx: &Transaction) -> Snap {
    let u = tx.parsed_uri.as_ref();
    let raw = tx.parsed_uri_raw.as_ref();
    Snap {
        method: b(&tx.request_method),
        method_num: format!("{:?}", tx.request_method_number),
        uri: b(&tx.request_uri),
        protocol: b(&tx.request_protocol),
        proto_num: tx.request_protocol_number as i32,
        is_09: tx.is_protocol_0_9,
        u_scheme: u.and_then(|u| b(&u.scheme)),
        u_host: u.and_then(|u| b(&u.hostname)),
        u_port: u.and_then(|u| u.port_number),
        u_path: u.and_then(|u| b(&u.path)),
        u_query: u.and_then(|u| b(&u.query)),
        u_frag: u.and_then(|u| b(&u.fragment)),
        u_user: u.and_then(|u| b(&u.username)),
        u_pass: u.and_then(|u| b(&u.password)),
        headers: tx
            .request_headers
            .elements
            .iter()
            .map(|h| (h.name.as_slice().to_vec(), h.value.as_slice().to_vec()))
            .collect(),
        q_line: b(&tx.request_line),
        r_line: b(&tx.response_line),
        raw_path: raw.and_then(|u| b(&u.path)),
        raw_query: raw.and_then(|u| b(&u.query)),
        raw_frag: raw.and_then(|u| b(&u.fragment)),
        raw_host: raw.and_then(|u| b(&u.hostname)),
        q_ce: format!("{:?}", tx.request_content_encoding),
        r_ce: format!("{:?}", tx.response_content_encoding),
        hflags: tx.request_headers.elements.iter().map(|h| h.flags).collect(),
        r_hflags: tx.response_headers.elements.iter().map(|h| h.flags).collect(),
        q_tc: format!("{:?}", tx.request_transfer_coding),
        q_ctype: b(&tx.request_content_type),
        q_cl: tx.request_content_length,
        auth_type: format!("{:?}", tx.request_auth_type),
        auth_user: b(&tx.request_auth_username),
        auth_pass: b(&tx.request_auth_password),
        auth_token: b(&tx.request_auth_token),
        host: b(&tx.request_hostname),
        port: tx.request_port_number,
        q_msg_len: tx.request_message_len,
        q_ent_len: tx.request_entity_len,
        q_ignored: tx.request_ignored_lines,
        r_protocol: b(&tx.response_protocol),
        r_proto_num: tx.response_protocol_number as i32,
        r_status: b(&tx.response_status),
        r_status_num: match tx.response_status_number {
            HtpResponseNumber::UNKNOWN => 0,
            HtpResponseNumber::INVALID => -1,
            HtpResponseNumber::VALID(n) => n as i32,
        },
        r_message: b(&tx.response_message),
        seen_100: tx.seen_100continue,
        r_headers: tx
            .response_headers
            .elements
            .iter()
            .map(|h| (h.name.as_slice().to_vec(), h.value.as_slice().to_vec()))
            .collect(),
        r_tc: format!("{:?}", tx.response_transfer_coding),
        r_ctype: b(&tx.response_content_type),
        r_cl: tx.response_content_length,
        r_msg_len: tx.response_message_len,
        r_ent_len: tx.response_entity_len,
        r_ignored: tx.response_ignored_lines,
        h2: tx.is_http_2_upgrade,
        flags: tx.flags,
        q_progress: format!("{:?}", tx.request_progress),
        r_progress: format!("{:?}", tx.response_progress),
        q_complete: tx.request_progress == HtpRequestProgress::COMPLETE,
        r_complete: tx.response_progress == HtpResponseProgress::COMPLETE,
        norm_all: b(&tx.complete_normalized_uri),
        norm_part: b(&tx.partial_normalized_uri),
        expected: format!("{:?}", tx.response_status_expected_number),
        q_reps: tx.request_header_repetitions,
        r_reps: tx.response_header_repetitions,
        q_cep: format!("{:?}", tx.request_content_encoding_processing),
        r_cep: format!("{:?}", tx.response_content_encoding_processing),
        index: tx.index,
    }
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub call: usize, // index of the API call during which it fired
    pub conn: usize,
    pub kind: K,
    pub tx: usize,
    pub p: P,
    pub snap: Option<Box<Snap>>,
    pub verdict: Verdict,
    /// progress of the request and the response when it fired
    pub prog: (HtpRequestProgress, HtpResponseProgress),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
    Ok,
    Declined,
    Error,
    Stop,
}

#[derive(Clone, Debug)]
pub struct CbFault {
    pub conn: usize,
    pub kind: K,
    pub nth: usize,
    pub verdict: Verdict,
}

#[derive(Default)]
pub struct Rec {
    pub conn: usize,
    pub call: usize,
    pub evs: Vec<Ev>,
    pub counts: Vec<[usize; 20]>,
    pub faults: Vec<CbFault>,
    pub fired: Vec<CbFault>,
    /// simulated time a consumer spends in each body callback (slow application)
    pub body_cost: u64,
    pub snaps: bool,
    pub tx_hooks: bool,
    pub second: bool,
    pub max_events: usize,
    /// count only, keep nothing (runs that measure memory)
    pub lean: bool,
    /// body and raw bytes (gaps included) seen per kind
    pub bytes: [u64; 20],
    /// transactions completed, while lean
    pub completed: u64,
    /// how the application wants bodies processed, decided in the headers callback: connection,
    /// callback, transaction, coding
    pub choices: Vec<(usize, K, usize, HtpContentEncoding)>,
}

thread_local! {
    pub static REC: RefCell<Rec> = RefCell::new(Rec::default());
}

pub fn reset() {
    REC.with(|r| *r.borrow_mut() = Rec { snaps: true, max_events: 2_000_000, ..Default::default() });
}
pub fn with<T>(f: impl FnOnce(&mut Rec) -> T) -> T {
    REC.with(|r| f(&mut r.borrow_mut()))
}
pub fn take() -> Vec<Ev> {
    with(|r| std::mem::take(&mut r.evs))
}

fn hit(kind: K, tx: &mut Transaction, p: P) -> Verdict {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        r.bytes[kind as usize] += match &p {
            P::Bytes(b) => b.len() as u64,
            P::Gap(n) => *n as u64,
            _ => 0,
        };
        if r.lean {
            if kind == K::TxComplete {
                r.completed += 1;
            }
            if kind.is_data() && r.body_cost > 0 {
                clock::advance(r.body_cost);
            }
            return Verdict::Ok;
        }
        let conn = r.conn;
        while r.counts.len() <= conn {
            r.counts.push([0; 20]);
        }
        let n = r.counts[conn][kind as usize];
        r.counts[conn][kind as usize] += 1;
        if kind.is_data() && r.body_cost > 0 {
            clock::advance(r.body_cost);
        }
        let mut v = Verdict::Ok;
        if let Some(f) = r.faults.iter().find(|f| f.conn == conn && f.kind == kind && f.nth == n).cloned() {
            v = f.verdict;
            r.fired.push(f);
        }
        if !r.choices.is_empty() {
            if let Some(c) = r.choices.iter().find(|c| c.0 == conn && c.1 == kind && c.2 == tx.index) {
                if kind == K::ReqHeaders {
                    tx.request_content_encoding_processing = c.3;
                } else {
                    tx.response_content_encoding_processing = c.3;
                }
            }
        }
        let s = if r.snaps && !kind.is_data() { Some(Box::new(snap(tx))) } else { None };
        if r.evs.len() < r.max_events {
            let call = r.call;
            r.evs.push(Ev { call, conn, kind, tx: tx.index, p, snap: s, verdict: v, prog: (tx.request_progress, tx.response_progress) });
        } else {
            panic!("event storm: more than {} callbacks in one run", r.max_events);
        }
        v
    })
}

fn res(v: Verdict) -> Result<(), HtpStatus> {
    match v {
        Verdict::Ok => Ok(()),
        Verdict::Declined => Err(HtpStatus::DECLINED),
        Verdict::Error => Err(HtpStatus::ERROR),
        Verdict::Stop => Err(HtpStatus::STOP),
    }
}
fn st(v: Verdict) -> HtpStatus {
    match v {
        Verdict::Ok => HtpStatus::OK,
        Verdict::Declined => HtpStatus::DECLINED,
        Verdict::Error => HtpStatus::ERROR,
        Verdict::Stop => HtpStatus::STOP,
    }
}
pub fn payload(d: &ParserData) -> P {
    if d.is_gap() {
        P::Gap(d.len())
    } else {
        match d.data() {
            None => P::End,
            Some(x) => P::Bytes(x.to_vec()),
        }
    }
}
pub unsafe fn payload_c(d: *const Data) -> P {
    // what a C consumer sees: pointer and length
    use htp::c_api::transaction::*;
    let n = htp_tx_data_len(d) as usize;
    let p = htp_tx_data_data(d);
    if htp_tx_data_is_empty(d) != (n == 0) {
        crate::capi::bad("htp_tx_data_is_empty".to_string());
    }
    if p.is_null() {
        if n == 0 {
            P::End
        } else {
            P::Gap(n)
        }
    } else {
        P::Bytes(std::slice::from_raw_parts(p, n).to_vec())
    }
}

macro_rules! txcb {
    ($n:ident, $e:ident, $k:expr) => {
        pub fn $n(tx: &mut Transaction) -> Result<(), HtpStatus> {
            res(hit($k, tx, P::No))
        }
        pub unsafe extern "C" fn $e(c: *const ConnectionParser, tx: *mut Transaction) -> HtpStatus {
            crate::capi::view(c, tx, $k);
            st(hit($k, &mut *tx, P::No))
        }
    };
}
macro_rules! datacb {
    ($n:ident, $e:ident, $k:expr) => {
        pub fn $n(tx: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> {
            res(hit($k, tx, payload(d)))
        }
        pub unsafe extern "C" fn $e(c: *const ConnectionParser, d: *mut Data) -> HtpStatus {
            let tx = htp::c_api::transaction::htp_tx_data_tx(d) as *mut Transaction;
            crate::capi::view(c, tx, $k);
            st(hit($k, &mut *tx, payload_c(d)))
        }
    };
}
pub fn q_start(tx: &mut Transaction) -> Result<(), HtpStatus> {
    if with(|r| r.tx_hooks) {
        tx.register_request_body_data(tq_body);
        tx.hook_response_body_data.register(tr_body);
    }
    res(hit(K::ReqStart, tx, P::No))
}
pub unsafe extern "C" fn eq_start(c: *const ConnectionParser, tx: *mut Transaction) -> HtpStatus {
    crate::capi::view(c, tx, K::ReqStart);
    if with(|r| r.tx_hooks) {
        htp::c_api::transaction::htp_tx_register_response_body_data(tx, etr_body);
    }
    st(hit(K::ReqStart, &mut *tx, P::No))
}
txcb!(q_norm, eq_norm, K::ReqUriNorm);
txcb!(q_line, eq_line, K::ReqLine);
datacb!(q_hdata, eq_hdata, K::ReqHeaderData);
txcb!(q_headers, eq_headers, K::ReqHeaders);
datacb!(q_body, eq_body, K::ReqBody);
datacb!(q_tdata, eq_tdata, K::ReqTrailerData);
txcb!(q_trailer, eq_trailer, K::ReqTrailer);
txcb!(q_complete, eq_complete, K::ReqComplete);
txcb!(r_start, er_start, K::RespStart);
txcb!(r_line, er_line, K::RespLine);
datacb!(r_hdata, er_hdata, K::RespHeaderData);
txcb!(r_headers, er_headers, K::RespHeaders);
datacb!(r_body, er_body, K::RespBody);
datacb!(r_tdata, er_tdata, K::RespTrailerData);
txcb!(r_trailer, er_trailer, K::RespTrailer);
txcb!(r_complete, er_complete, K::RespComplete);
txcb!(t_complete, et_complete, K::TxComplete);
datacb!(tq_body, etq_body, K::TxReqBody);
datacb!(tr_body, etr_body, K::TxRespBody);

pub fn install(c: &mut Config) {
    c.register_request_start(q_start);
    c.hook_request_uri_normalize.register(q_norm);
    c.register_request_line(q_line);
    c.register_request_header_data(q_hdata);
    c.register_request_headers(q_headers);
    c.register_request_body_data(q_body);
    c.register_request_trailer_data(q_tdata);
    c.register_request_trailer(q_trailer);
    c.register_request_complete(q_complete);
    c.register_response_start(r_start);
    c.register_response_line(r_line);
    c.register_response_header_data(r_hdata);
    c.register_response_headers(r_headers);
    c.register_response_body_data(r_body);
    c.register_response_trailer_data(r_tdata);
    c.register_response_trailer(r_trailer);
    c.register_response_complete(r_complete);
    c.register_transaction_complete(t_complete);
}
