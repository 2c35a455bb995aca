//! Several connections at once, and several observers of one: nothing one of them does may show in
//! another.
use crate::capi::Extra;
use crate::clock;
use crate::drive::*;
use crate::hostile;
use crate::oracle::{describe, same};
use crate::props::*;
use crate::rec::{self, CbFault, Ev, Verdict, KINDS};
use crate::rng::Src;
use crate::stats;
use crate::wire::*;
use htp::config::Config;

type R = Result<(), String>;

pub struct Traffic {
    pub conv: Conv,
    pub pol: Policy,
    hostile: bool,
    lossy: bool,
}
pub fn traffic(s: &mut Src, k: &Knobs) -> Traffic {
    let mut feats = Feats::draw(s);
    feats.big = feats.big && s.chance(1, 6);
    let hostile = s.chance(1, 3);
    let o = GenOpts { max_ex: 4, max_headers: 3, req_decomp: k.req_decomp, resp_decomp: k.resp_decomp, anom: "", lead: false };
    let conv = if hostile {
        hostile::streams(s, &feats, k)
    } else if s.chance(1, 8) {
        let t = *s.pick(&[Tun::Http, Tun::Opaque, Tun::Upgrade]);
        gen_tunnel(s, &feats, &o, t)
    } else {
        gen_conv(s, &feats, &o)
    };
    let lossy = hostile && s.chance(1, 3);
    Traffic { conv, pol: Policy::draw(s), hostile, lossy }
}
/// one step of one connection; false when it has nothing more to do
pub fn advance(s: &mut Src, run: &mut Run<RustApi>, t: &Traffic) -> bool {
    if t.lossy && s.chance(1, 8) {
        let d = if s.flip() { Dir::Q } else { Dir::R };
        let left = if d == Dir::Q { t.conv.q.len() - run.qpos } else { t.conv.r.len() - run.rpos };
        if left > 0 {
            let n = s.range(1, left);
            run.gap(d, n);
        }
    }
    if run.calls.len() > 4000 || !run.step(s) || (run.qdead.is_some() && run.rdead.is_some()) {
        return false;
    }
    true
}
pub fn faults(s: &mut Src, n: usize) -> Vec<CbFault> {
    let mut v = vec![];
    if s.chance(1, 4) {
        let f = CbFault { conn: s.usz(n), kind: *s.pick(&KINDS), nth: s.usz(3), verdict: *s.pick(&[Verdict::Declined, Verdict::Error, Verdict::Stop]) };
        trace(|| format!("fault: connection {}: {:?} #{} answers {:?}", f.conn, f.kind, f.nth, f.verdict));
        stats::hit("fault.callback_verdict");
        v.push(f);
    }
    v
}
fn differ(a: &[&Ev], b: &[&Ev]) -> Option<String> {
    for (x, y) in a.iter().zip(b) {
        if !same(x, y) || x.call != y.call || x.snap != y.snap {
            return Some(format!("call {} {} became call {} {}{}", y.call, describe(y), x.call, describe(x), if same(x, y) { " with a different transaction" } else { "" }));
        }
    }
    if a.len() != b.len() {
        return Some(format!("{} callbacks became {}", b.len(), a.len()));
    }
    None
}

/// C13: what a connection reports depends on that connection alone.
pub fn isolation(s: &mut Src) -> R {
    let n = s.range(2, 4);
    let k = if s.flip() { hostile::wild_knobs(s) } else { Knobs::draw(s) };
    // decoding time is real time; here no time passes inside a call
    let x = Extra::draw(s);
    let mut cfg: Config = k.config();
    x.rust(&mut cfg);
    rec::install(&mut cfg);
    trace(|| format!("{} connections, config {:?} {:?}", n, k, x));
    let ts: Vec<Traffic> = (0..n).map(|_| traffic(s, &k)).collect();
    for (i, t) in ts.iter().enumerate() {
        trace(|| format!("connection {} client bytes {}", i, show(&t.conv.q)));
        trace(|| format!("connection {} server bytes {}", i, show(&t.conv.r)));
    }
    let fs = faults(s, n);
    rec::with(|r| r.faults = fs.clone());
    let late = s.flip();
    let mut runs: Vec<Option<Run<RustApi>>> = ts.iter().enumerate().map(|(i, t)| if late && i > 0 { None } else { Some(fresh(&cfg, t, i)) }).collect();
    let mut live: Vec<usize> = (0..n).collect();
    let sticky = s.flip();
    let mut cur = 0;
    let mut finished: Vec<(usize, Vec<Call>, Vec<(usize, L)>)> = vec![];
    while !live.is_empty() {
        if !sticky || s.chance(1, 3) || !live.contains(&cur) {
            cur = *s.pick(&live);
        }
        if s.chance(1, 20) {
            let j = *s.pick(&[-3_600_000_000_000i64, 5_000_000_000, 86_400_000_000_000]);
            trace(|| format!("wall clock jumps by {} s", j / 1_000_000_000));
            clock::jump_real(j);
            stats::hit("fault.clock_jump");
        }
        let t = &ts[cur];
        if runs[cur].is_none() {
            runs[cur] = Some(fresh(&cfg, t, cur));
        }
        let run = runs[cur].as_mut().unwrap();
        if !advance(s, run, t) {
            if s.chance(3, 4) {
                run.close();
            }
            let api_calls = run.calls.clone();
            note(run, &[]);
            let mut logs = vec![];
            drain(run, &mut logs)?;
            finished.push((cur, api_calls, logs));
            // some connections are forgotten at once, others stay
            if s.flip() {
                runs[cur] = None;
            }
            live.retain(|x| *x != cur);
        }
    }
    drop(runs);
    let all = rec::take();
    stats::add("fault.interleaved_connections", n as u64);
    // each of them alone, at another time
    for (i, calls, la) in finished {
        rec::reset();
        rec::with(|r| r.faults = fs.clone());
        clock::advance(1_000_000_000);
        trace(|| format!("connection {} alone:", i));
        let mut b = fresh(&cfg, &ts[i], i);
        for c in &calls {
            b.exec(&c.op);
        }
        for (j, (x, y)) in calls.iter().zip(&b.calls).enumerate() {
            if x.st != y.st || x.consumed != y.consumed {
                return Err(format!("status|connection {} call {}: {:?}/{} among others, {:?}/{} alone", i, j, x.st, x.consumed, y.st, y.consumed));
            }
        }
        let eb = rec::take();
        let a: Vec<&Ev> = all.iter().filter(|e| e.conn == i).collect();
        if let Some(m) = differ(&a, &eb.iter().collect::<Vec<_>>()) {
            return Err(format!("events|connection {}: {} among others", i, m));
        }
        let mut lb = vec![];
        drain(&b, &mut lb)?;
        if la != lb {
            let j = la.iter().zip(&lb).take_while(|(x, y)| x == y).count();
            return Err(format!("log|connection {}: its log has {:?} among others, {:?} alone, {} and {} messages in all", i, la.get(j).map(|x| &x.1), lb.get(j).map(|x| &x.1), la.len(), lb.len()));
        }
    }
    Ok(())
}
pub fn fresh<'a>(cfg: &Config, t: &'a Traffic, i: usize) -> Run<'a, RustApi> {
    let mut r = Run::new(RustApi::bare(cfg.clone(), i % 2 == 0), &t.conv, i, t.pol.clone());
    r.ungated = t.hostile;
    r.open();
    r
}

type L = (String, u8, String);
fn drain(run: &Run<RustApi>, out: &mut Vec<(usize, L)>) -> R {
    for l in run.api.p().conn.get_logs() {
        if l.client_port != Some(32768) || l.server_port != Some(80) || l.client_addr != "10.0.0.1".parse().ok() || l.server_addr != "10.0.0.2".parse().ok() {
            return Err("log-address|a log message does not carry the addresses of its connection".into());
        }
        out.push((run.calls.len(), (format!("{:?}", l.msg.code), l.msg.level as u8, l.msg.msg)));
    }
    Ok(())
}
thread_local! {
    static SEEN: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
fn on_log(_: &mut htp::log::Log) -> htp::error::Result<()> {
    SEEN.with(|c| c.set(c.get() + 1));
    Ok(())
}

/// C15: the log of a connection.
pub fn logs(s: &mut Src) -> R {
    let mut k = hostile::wild_knobs(s);
    k.log_level = Some(6);
    let x = Extra::draw(s);
    let mk = |lvl: u8| {
        let mut c = Knobs { log_level: Some(lvl), ..k }.config();
        x.rust(&mut c);
        rec::install(&mut c);
        c.register_log(on_log);
        c
    };
    let t = traffic(s, &k);
    trace(|| format!("config {:?} {:?}", k, x));
    trace(|| format!("client bytes {}", show(&t.conv.q)));
    trace(|| format!("server bytes {}", show(&t.conv.r)));
    let fs = faults(s, 1);
    rec::with(|r| r.faults = fs.clone());
    SEEN.with(|c| c.set(0));
    // everything is logged, and read after every call
    let mut a = fresh(&mk(6), &t, 0);
    let mut la = vec![];
    while advance(s, &mut a, &t) {
        drain(&a, &mut la)?;
    }
    a.close();
    drain(&a, &mut la)?;
    let ea = rec::take();
    note(&a, &ea);
    let called = SEEN.with(|c| c.get());
    for (c, l) in &la {
        trace(|| format!("  after call {} {:?}", c, l));
    }
    // with another level, read now and then
    let lvl = s.usz(7) as u8;
    let every = *s.pick(&[1usize, 3, 1_000_000]);
    rec::reset();
    rec::with(|r| r.faults = fs.clone());
    trace(|| format!("with level {}, log read every {} calls:", lvl, every));
    let mut b = fresh(&mk(lvl), &t, 0);
    let mut lb = vec![];
    for (i, c) in a.calls.iter().enumerate() {
        b.exec(&c.op);
        if i % every == every - 1 {
            drain(&b, &mut lb)?;
        }
    }
    drain(&b, &mut lb)?;
    let eb = rec::take();
    stats::hit("fault.lazy_log_reader");
    for (j, (x, y)) in a.calls.iter().zip(&b.calls).enumerate() {
        if x.st != y.st || x.consumed != y.consumed {
            return Err(format!("log-status|call {}: {:?}/{} with everything logged, {:?}/{} with level {}", j, x.st, x.consumed, y.st, y.consumed, lvl));
        }
    }
    if let Some(m) = differ(&eb.iter().collect::<Vec<_>>(), &ea.iter().collect::<Vec<_>>()) {
        return Err(format!("log-events|{} with level {}", m, lvl));
    }
    let want: Vec<&L> = la.iter().map(|x| &x.1).filter(|l| l.1 <= lvl).collect();
    let got: Vec<&L> = lb.iter().map(|x| &x.1).collect();
    if want != got {
        return Err(format!("log-filter|level {}: {} messages, {} of that level or above when everything is logged", lvl, got.len(), want.len()));
    }
    if lb.iter().any(|x| x.1 .1 == 0) {
        return Err("log-level|a message of level NONE".into());
    }
    stats::add("probe.log_messages", la.len() as u64);
    if called != la.len() {
        return Err(format!("log-callback|{} messages logged, the registered log callback was called {} times", la.len(), called));
    }
    Ok(())
}
