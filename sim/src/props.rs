//! The properties: one simulated scenario each.
use crate::drive::*;
use crate::oracle;
use crate::rec::{self, Ev, P};
use crate::rng::Src;
use crate::scen;
use crate::stats;
use crate::wire::*;

pub struct Spec {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: String,
    pub components: &'static str,
    pub assumptions: &'static [&'static str],
    pub must_hit: &'static [&'static str],
}
type R = Result<(), String>;

const REAL: &str = "real code: the whole htp crate built from /repo's working tree, with its real dependencies (nom, flate2, lzma-rs, time). stubbed: client, server and network (reference model in wire.rs, scheduler in drive.rs), the application that drives the parser and answers its callbacks, both clocks (clock_gettime). The allocator is real, with counting.";

/// What every rule has in common.
const SCHED: &str = "A run draws from one seeded source a conversation (up to 12 exchanges, a random subset of the protocol features), a configuration, and a schedule: per-direction segmentation mode (whole, single bytes, random, small, at or next to structural boundaries, mixed), pipelining depth, direction bias, early answers, half-close, final close. Non-trivial: more than two calls reached the parser. Distinct: hash of all calls (bytes offered, consumed, answer) and of all callbacks with their bytes. ";

const CUTS: [&str; 3] = ["fault.segment_cut_q", "fault.segment_cut_r", "fault.direction_switch"];

pub fn spec(id: &str) -> Option<Spec> {
    let d = Spec {
        id: "",
        quick: 400_000,
        thorough: 40_000_000,
        rule: String::new(),
        components: REAL,
        assumptions: &[],
        must_hit: &CUTS,
    };
    let rule = |x: &str| format!("{}{}", SCHED, x);
    const WELL: &[&str] = &[
        "the traffic is well-formed HTTP/1.x as wire.rs writes it; what malformed traffic must do is C18, C21 and C23",
        "the recorder (rec.rs) observes through public callbacks and fields only",
    ];
    Some(match id {
        "C01" => Spec { id: "C01", rule: rule("Every transaction field is compared with the model after the run."), assumptions: WELL, must_hit: &["fault.segment_cut_q", "fault.segment_cut_r", "fault.direction_switch", "probe.folded", "probe.interim", "probe.trailers"], ..d },
        "C02" => Spec { id: "C02", rule: rule("Body callbacks are concatenated per transaction and compared with the plain text, lengths with the wire."), assumptions: WELL, must_hit: &["probe.chunked", "probe.coded", "probe.stacked", "probe.until_close", "fault.segment_cut_r"], ..d },
        "C03" => Spec { id: "C03", rule: rule("Biased to many small exchanges with deep pipelines, unsolicited responses, refused CONNECTs and rejected expectations; request and response of every transaction are compared with the model, and the pipelining flag with the order in which messages completed."), assumptions: WELL, must_hit: &["probe.unsolicited", "probe.rejected", "probe.refused_connect", "fault.direction_switch"], ..d },
        "C04" => Spec { id: "C04", rule: rule("The callback history of each transaction is replayed against an automaton of the protocol order."), assumptions: WELL, must_hit: &["probe.chunked", "probe.interim", "probe.trailers"], ..d },
        "C05" => Spec { id: "C05", rule: rule("One callback of the history, drawn from all that fired, answers DECLINED, STOP or ERROR; the faulty run is compared with the same schedule without the fault."), assumptions: &["the verdict of request_start and of the raw header-data callbacks is ignored, by design", "a verdict at the end-of-body signal, or on what a decoder held back to the end of the message, is only checked for what came before"], must_hit: &["fault.stop", "fault.error", "fault.declined", "probe.coded_verdict"], ..d },
        "C06" => Spec { id: "C06", rule: rule("CONNECT requests, accepted or refused, with HTTP behind them; deferred chunks are offered again after any amount of traffic of the other direction, also all of it at once."), assumptions: WELL, must_hit: &["fault.chunk_deferred", "probe.accepted_connect", "probe.refused_connect"], ..d },
        "C07" => Spec { id: "C07", rule: rule("Three scenarios: a field limit set from the longest element of the conversation (everything must be reported) or just below it (refused), an endless element in a chosen place, and an endless body; live bytes in the allocator are read after every call."), assumptions: &["the limit counts an element with its line ending and up to two bytes of lookahead", "a header line that arrives complete in one chunk is not counted against the limit"], must_hit: &["fault.tight_field_limit", "probe.refused", "fault.endless_field", "fault.long_body"], ..d },
        "C08" => Spec { id: "C08", quick: 150_000, rule: rule("One conversation is repeated for dozens of rounds on one connection (automatic destruction, or removal by the application); live bytes in the allocator are compared between rounds, and live transactions with those in flight; and floods of transactions against a limit."), assumptions: &["memory is compared after warm-up rounds with a slack for amortised growth of vectors"], must_hit: &["probe.auto_destroy", "probe.remove_tx", "fault.transaction_flood"], ..d },
        "C09" => Spec { id: "C09", quick: 150_000, rule: rule("Stacked codings beyond the layer limit, bombs against the bomb limit and ratio, LZMA dictionaries against the memory limit, decoders that run slowly or while the clock jumps."), assumptions: &["the clock advances by a drawn amount at each reading"], must_hit: &["fault.bomb_limit", "fault.bomb_memory", "fault.slow_decoding", "fault.clock_jump", "probe.over_layer_limit", "probe.over_lzma_memory"], ..d },
        "C10" => Spec { id: "C10", quick: 800_000, rule: rule("The conversation ends in an accepted CONNECT or a 101, followed by opaque bytes, bytes that look like HTTP, or HTTP; the model knows from which call on each direction is a tunnel."), assumptions: &["after CONNECT the client speaks first"], must_hit: &["probe.answered_tunnel", "probe.accepted_connect", "probe.upgrade"], ..d },
        "C11" => Spec { id: "C11", quick: 800_000, rule: rule("Ranges of bytes inside bodies are lost and announced as gaps, whole or in pieces, some running past the last message; in one run of six the loss is inside a head or a chunked body."), assumptions: &["what the parser makes of bytes that follow a loss outside a body is C18"], must_hit: &["fault.bytes_lost_q", "fault.bytes_lost_r", "fault.loss_past_message", "fault.loss_outside_body", "probe.giant_body"], ..d },
        "C12" => Spec { id: "C12", quick: 1_000_000, rule: rule("Both streams break off at drawn positions and the connection is closed, or first half-closed; in one run of five a callback ends one direction before that."), assumptions: WELL, must_hit: &["fault.early_close", "fault.half_close", "fault.stop", "fault.error"], ..d },
        "C13" => Spec { id: "C13", quick: 150_000, rule: rule("Several connections, sharing one configuration or not, are interleaved call by call on one thread and compared with each one alone."), assumptions: &["one thread: the parser has no locks and no shared mutable state to race on; shared state shows as a difference"], must_hit: &["fault.interleaved_connections"], ..d },
        "C14" => Spec { id: "C14", rule: rule("Raw header-data and trailer-data callbacks are concatenated and compared with the wire."), assumptions: WELL, must_hit: &["probe.trailers", "probe.interim", "fault.segment_cut_q", "fault.segment_cut_r"], ..d },
        "C15" => Spec { id: "C15", quick: 250_000, rule: rule("The same schedule, with losses, verdicts and malformed bytes, is run with different log levels and by readers that fetch the log after each call or late."), must_hit: &["fault.lazy_log_reader", "probe.log_messages"], ..d },
        "C16" => Spec { id: "C16", quick: 300_000, rule: rule("The parser object is moved to other memory before drawn calls, its old memory overwritten; compared with the model and with the unmoved run."), must_hit: &["fault.relocate", "probe.coded"], ..d },
        "C32" => Spec { id: "C32", rule: rule("A drawn history, clean or hostile, with losses, verdicts and destroyed transactions, is repeated with meaningless calls in between: empty chunks and gaps, a second opening, the removal of transactions that do not exist, looks at the active transactions. Each must be refused and logged, and everything else be the same."), must_hit: &["fault.meaningless_empty", "fault.meaningless_open", "fault.meaningless_remove", "fault.look_at_active"], ..d },
        "C31" => Spec { id: "C31", rule: rule("Inside every callback of the C interface the simulated application asks how far into its chunk each direction is. For clean traffic the answer is compared with the position of the part announced on the wire; for hostile traffic with losses it must lie inside the chunk, and the other direction's must be what its last chunk left."), assumptions: &["positions inside content-coded bodies, and of malformed messages, are only claimed to lie inside the chunk"], must_hit: &["probe.body_position", "probe.position_in_earlier_chunk", "probe.position_exact", "fault.bytes_lost_q"], ..d },
        "C17" => Spec { id: "C17", rule: rule("The same schedule, with losses, verdicts and destroyed transactions, is driven through the C interface and the Rust interface; answers, callbacks and all getters are compared, also inside callbacks."), assumptions: &["null and dangling arguments are outside the claim"], must_hit: &["fault.callback_verdict", "fault.bytes_lost_r", "probe.c_logs", "probe.decoding_limits"], ..d },
        "C18" => Spec { id: "C18", quick: 1_500_000, rule: rule("The streams are mutated, spliced or random bytes; losses, empty chunks, half-closes, data after close, destroyed transactions, verdicts, extreme limits and slow clocks are added. Built with overflow checks and debug assertions; a call that does not return within the wall-clock limit is a hang."), must_hit: &["fault.bytes_lost_q", "fault.empty_chunk_q", "fault.half_close", "fault.late_data", "fault.callback_verdict", "fault.slow_clock"], ..d },
        "C19" => Spec { id: "C19", quick: 1_200_000, rule: rule("Form queries of whole conversations with parameter processors that may refuse a parameter (STOP or ERROR), and urlencoded parsers fed directly with drawn cuts, against a reference decoder."), must_hit: &["fault.segment_cut_form", "fault.parameter_refused"], ..d },
        "C30" => Spec { id: "C30", rule: rule("In the headers callbacks the simulated application sets how the body of that message is to be processed: not at all, or by the decoder its label names, with decoding enabled or disabled in the configuration per direction."), must_hit: &["probe.decoding_prevented", "probe.decoding_forced"], ..d },
        "C21" => Spec { id: "C21", rule: rule("Bodies labelled with codings they do not have, truncated, with flipped bytes, or garbage, in conversations that are otherwise well-formed."), must_hit: &["fault.flipped_body_byte", "fault.mislabelled_body", "fault.garbage_body"], ..d },
        "C20" => Spec { id: "C20", quick: 1_200_000, rule: rule("Header and trailer blocks put together from odd pieces (line ends of all kinds, folding, missing colons, white space, NUL, control and 8-bit bytes, repeated names), in requests and responses with all framings, pipelined and cut at random; every field, flag and warning and the raw block are compared with a reference reader."), assumptions: &["the reference reader (blocks.rs) follows the lenient rules the repository documents in its own tests", "response lines with a bare CR inside the field name are outside the claim"], must_hit: &["probe.odd_fields", "probe.odd_trailer", "probe.block_ends_early", "fault.segment_cut_q", "fault.segment_cut_r"], ..d },
        "C22" => Spec { id: "C22", quick: 900_000, rule: rule("Chunked bodies put together from odd pieces (sizes with white space, zeros, extensions and rubbish, empty lines, rubbish behind the data, sizes that are none), in requests and responses, pipelined and cut at random; every body, length, status and warning is compared with a reference model."), assumptions: &["the reference model (chunks.rs) follows the lenient rules the repository documents in its own tests"], must_hit: &["probe.odd_chunking", "probe.request_size_refused", "probe.response_size_refused", "fault.segment_cut_q", "fault.segment_cut_r"], ..d },
        "C23" => Spec { id: "C23", quick: 600_000, rule: rule("Anomalies from a catalogue are placed in chosen messages of an otherwise well-formed conversation; flags and expected statuses of all transactions are compared with the model."), ..d },
        "C24" => Spec { id: "C24", quick: 600_000, rule: rule("Several consumers per hook, on the configuration and on single transactions, with drawn verdicts; the history of all calls is replayed against the registration order."), must_hit: &["fault.callback_verdict", "probe.transaction_callback"], ..d },
        "C25" => Spec { id: "C25", quick: 1_000_000, rule: rule("Targets of any shape (escapes of every kind, dot segments, UTF-8 good and bad, credentials, hosts, ports) under all personalities and random decoder settings, in conversations cut and interleaved at random; every part, flag, expected status and warning is compared with a reference model of the decoders."), assumptions: &["the reference model (uris.rs) is written from the documented settings; where the documentation is silent it follows the repository's own tests and code", "targets that begin with a scheme but no authority are outside the claim"], must_hit: &["probe.target_normalised", "probe.target_flagged", "probe.expected_status", "probe.double_encoded", "probe.absolute_target", "probe.own_normalisation", "fault.segment_cut_q"], ..d },
        "C26" => Spec { id: "C26", quick: 1_500_000, rule: rule("A request without protocol, answered by bytes that are not a status line, until the close; with what went before on the connection."), must_hit: &["probe.surplus_after_0_9", "probe.blanks_behind_line", "probe.no_protocol_but_headers", "probe.lost_in_0_9", "fault.half_close"], ..d },
        "C27" => Spec { id: "C27", quick: 900_000, rule: rule("Request and status lines put together from odd pieces (white space of all kinds, unknown methods, protocols and status codes good and bad, NUL and 8-bit bytes), pipelined and cut at random, under all personalities; every part, number, flag and warning is compared with a reference reader."), assumptions: &["the reference reader (lines.rs) follows the lenient rules the repository documents in its own tests", "request lines without protocol are C26's; an unknown method only starts the first request of a connection", "status lines begin with http in any case, after white space"], must_hit: &["probe.odd_request_line", "probe.odd_status_line", "probe.invalid_status_line", "fault.segment_cut_q", "fault.segment_cut_r"], ..d },
        "C28" => Spec { id: "C28", quick: 900_000, rule: rule("Requests and responses whose framing, host, content type, credentials and coding fields hold odd values (lengths with rubbish around them, repeated, folded, too large; codings with other words and NULs; hosts with ports, brackets and rubbish; credentials good and bad), under all methods and status codes that change the framing, pipelined and cut at random; every derived value, flag, warning, body and status is compared with a reference model."), assumptions: &["the reference model (fields.rs) follows the lenient rules the repository documents in its own tests", "CONNECT and Expect are outside this property (C01, C03)"], must_hit: &["probe.request_refused", "probe.response_refused", "probe.until_close", "probe.interim", "probe.tunnel", "probe.host_flagged", "probe.auth_invalid", "fault.segment_cut_q", "fault.segment_cut_r"], ..d },
        "C29" => Spec { id: "C29", quick: 900_000, rule: rule("Lines of all kinds (blank, rubbish, almost methods, almost status lines, unterminated ones) behind the end of messages of all framings, pipelined, cut anywhere except where a segment would end exactly at a message's end; bodies, lengths, pairing and warnings are compared with a reference model."), assumptions: &["a segment that ends exactly where a message does completes it (C01); surplus is what arrives in the same segment"], must_hit: &["probe.request_surplus", "probe.response_surplus", "probe.open_surplus", "fault.segment_cut_q", "fault.segment_cut_r"], ..d },
        _ => return None,
    })
}

pub fn run(id: &str, s: &mut Src) -> R {
    match id {
        "C01" | "C02" | "C03" | "C04" | "C14" => conv_prop(id, s),
        "C05" => scen::verdicts(s),
        "C06" => scen::flow(s),
        "C07" => crate::limits::buffers(s),
        "C08" => crate::limits::longlived(s),
        "C09" => crate::decode::bounds(s),
        "C10" => scen::tunnel(s),
        "C11" => scen::gaps(s),
        "C12" => scen::truncate(s),
        "C13" => crate::multi::isolation(s),
        "C15" => crate::multi::logs(s),
        "C16" => scen::relocate(s),
        "C17" => crate::capi::equivalence(s),
        "C31" => crate::capi::positions(s),
        "C32" => crate::misuse::misuse(s),
        "C19" => crate::forms::forms(s),
        "C21" => crate::decode::damage(s),
        "C30" => crate::decode::choice(s),
        "C23" => scen::odd(s),
        "C20" => crate::blocks::blocks(s),
        "C22" => crate::chunks::chunks(s),
        "C27" => crate::lines::lines(s),
        "C28" => crate::fields::fields(s),
        "C29" => crate::surplus::surpluses(s),
        "C25" => crate::uris::uris(s),
        "C26" => crate::old::old(s),
        "C24" => crate::hooks::several(s),
        "C18" => crate::hostile::hostile(s),
        _ => panic!("no scenario"),
    }
}

pub struct Setup {
    pub feats: Feats,
    pub knobs: Knobs,
    pub conv: Conv,
    pub pol: Policy,
}
pub fn setup(s: &mut Src, max_ex: usize, tweak: &dyn Fn(&mut Src, &mut Feats, &mut Knobs, &mut Policy)) -> Setup {
    let mut feats = Feats::draw(s);
    let mut knobs = Knobs::draw(s);
    let mut pol = Policy::draw(s);
    tweak(s, &mut feats, &mut knobs, &mut pol);
    let o = GenOpts { max_ex, max_headers: 4, req_decomp: knobs.req_decomp, resp_decomp: knobs.resp_decomp, anom: "", lead: false };
    let conv = gen_conv(s, &feats, &o);
    trace(|| format!("config {:?}", knobs));
    trace(|| format!("policy {:?}", pol));
    trace(|| format!("client bytes {}", show(&conv.q)));
    trace(|| format!("server bytes {}", show(&conv.r)));
    Setup { feats, knobs, conv, pol }
}

pub fn note<A: Api>(run: &Run<A>, evs: &[Ev]) {
    for c in &run.calls {
        match &c.op {
            Op::Seg(d, a, b) => stats::hist(((*d as u64) << 60) ^ ((*a as u64) << 30) ^ (*b as u64)),
            Op::Gap(d, a, b) => stats::hist(((*d as u64) << 61) ^ ((*a as u64) << 30) ^ (*b as u64)),
            _ => stats::hist(99),
        }
        stats::hist(c.consumed as u64 ^ (c.st.map(|x| x as u64).unwrap_or(9) << 40));
    }
    for e in evs {
        stats::hist(((e.kind as u64) << 50) ^ ((e.tx as u64) << 30));
        if let P::Bytes(b) = &e.p {
            stats::hist_bytes(b);
        }
    }
    if run.calls.len() > 2 {
        stats::nontrivial();
    }
    probes(run.conv);
}
/// Which rarer parts of the protocol the conversation of this run had.
fn probes(c: &Conv) {
    let mut seen = [0u64; 12];
    for e in &c.ex {
        for (m, f, k) in [(&e.q.m, e.q.framing, e.q.codings.len()), (&e.r.m, e.r.framing, e.r.codings.len())] {
            seen[0] += (f == Framing::Chunked) as u64;
            seen[1] += m.trailer.is_some_and(|t| t.1 - t.0 > 2) as u64;
            seen[2] += (k > 0) as u64;
            seen[3] += (k > 1) as u64;
            seen[4] += (f == Framing::Close) as u64;
            seen[5] += m.folded as u64;
        }
        seen[6] += (e.r.interim > 0) as u64;
        let i = match e.kind {
            XK::Normal => continue,
            XK::Unsol => 7,
            XK::Reject => 8,
            XK::Refused => 9,
            XK::Accepted => 10,
            XK::Upgrade => 11,
        };
        seen[i] += 1;
    }
    for (n, k) in seen.iter().zip([
        "probe.chunked", "probe.trailers", "probe.coded", "probe.stacked", "probe.until_close", "probe.folded", "probe.interim",
        "probe.unsolicited", "probe.rejected", "probe.refused_connect", "probe.accepted_connect", "probe.upgrade",
    ]) {
        stats::add(k, *n);
    }
}

fn conv_prop(id: &str, s: &mut Src) -> R {
    let mut su = setup(s, 12, &|s, f, k, p| {
        f.blank = s.chance(1, 5);
        k.no_auth = id == "C01" && s.chance(1, 8);
        if id == "C03" {
            // many small exchanges, deep pipelines, everything that unsettles the pairing
            f.unsol = s.flip();
            f.reject = s.flip();
            f.connect = s.chance(1, 3);
            f.big = false;
            p.depth = *s.pick(&[1usize, 2, 3, 5, 100]);
        }
    });
    if su.knobs.no_auth {
        for e in &mut su.conv.ex {
            e.q.auth = ("UNKNOWN", None, None, None);
        }
    }
    let mut run = Run::new(RustApi::new(su.knobs.config(), true), &su.conv, 0, su.pol.clone());
    run.open();
    run.complete(s);
    let evs = rec::take();
    note(&run, &evs);
    for e in &evs {
        trace(|| format!("  call {} {:?} tx{} {}", e.call, e.kind, e.tx, match &e.p { P::Bytes(b) => show(b), o => format!("{:?}", o) }));
    }
    oracle::healthy(&run)?;
    match id {
        "C01" => {
            let n = run.api.tx_size();
            oracle::meta(&su.conv, &evs, 0, n, &|i| run.api.tx(i))
        }
        "C03" => oracle::pairing(&su.conv, &evs, 0, &run.api),
        "C02" => oracle::bodies(&su.conv, &evs, 0),
        "C04" => oracle::lifecycle(&su.conv, &evs, 0),
        _ => oracle::raw(&su.conv, &evs, 0),
    }
}
