//! Seeded search: supervisor, workers, minimisation, replay files and evidence.
use crate::rng::{hash_bytes, mix, Src};
use crate::{clock, drive, props, rec, stats};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}
impl Viol {
    pub fn of(m: String) -> Viol {
        match m.split_once('|') {
            Some((a, b)) => Viol { class: a.to_string(), detail: b.to_string() },
            None => Viol { class: "other".into(), detail: m },
        }
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if std::env::var_os("SIM_PANICS").is_some() { eprintln!("{} at {}", msg, loc); }
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

pub fn run_seed(base: u64, prop: &str, i: u64) -> u64 {
    mix(mix(base ^ hash_bytes(1, prop.as_bytes())) ^ i.wrapping_mul(0x9e3779b97f4a7c15))
}

/// One simulated run: a pure function of the choice sequence.
pub fn execute(prop: &str, s: &mut Src) -> Option<Viol> {
    rec::reset();
    stats::S.with(|s| {
        let mut s = s.borrow_mut();
        s.hist = 0;
        s.nontrivial = false;
    });
    // 2023-11-14T22:13:20Z; every run starts at the same simulated instant
    clock::sim_begin(1_000_000_000_000, 1_700_000_000_000_000_000);
    let t0 = clock::mono();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::run(prop, s)));
    let t1 = clock::mono();
    clock::sim_end();
    stats::S.with(|s| {
        let mut s = s.borrow_mut();
        s.sim_ns = s.sim_ns.saturating_add(t1.saturating_sub(t0));
    });
    let out = match r {
        Ok(Ok(())) => None,
        Ok(Err(m)) => Some(Viol::of(m)),
        Err(_) => {
            let m = PANIC.with(|p| p.borrow().clone());
            let site = m.rsplit(" at ").next().unwrap_or("").to_string();
            let own = ["wire.rs", "engine.rs", "rng.rs", "stats.rs", "clock.rs", "alloc.rs"].iter().any(|f| site.contains(f));
            if (site.contains("/verif/") || site.starts_with("src/")) && own {
                // a defect of the generator or engine is not a violation (an oracle that cannot even
                // read the history it is given is one)
                eprintln!("HARNESS-ERROR {} choices {:?}", m, s.rec);
                std::process::exit(3);
            }
            Some(Viol { class: format!("panic:{}", site.rsplit('/').next().unwrap_or("")), detail: m })
        }
    };
    rec::reset();
    out
}

// ---- shared page between supervisor and workers -------------------------------------------------
pub const SLOT_STOP: usize = 0;
/// wall-clock budget used up: finish the current run and stop
pub const SLOT_HALT: usize = 1;
pub const SLOT_PROG: usize = 8;
pub const SLOT_DONE: usize = 72;
const PAGE: usize = 4096 * 4;
pub fn map_file(path: &str, len: usize) -> *mut u64 {
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    f.set_len(len as u64).unwrap();
    use std::os::fd::AsRawFd;
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut u64
    }
}
fn at(p: *mut u64, i: usize) -> &'static AtomicU64 {
    unsafe { &*(p.add(i) as *const AtomicU64) }
}

fn limit_memory() {
    // 3 GB per simulated process: memory blow-up is a failure of the run, not of the machine
    let l = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

pub fn worker(prop: &str, base: u64, w: u64, nw: u64, runs: u64, dir: &str) {
    limit_memory();
    quiet_panics();
    let page = map_file(&format!("{}/page", dir), PAGE);
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut choices: HashSet<u64> = HashSet::new();
    let known = known_classes(prop);
    let mut nontriv = 0u64;
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut done = 0u64;
    let mut i = w;
    while i < runs {
        if i > at(page, SLOT_STOP).load(Ordering::Relaxed) || at(page, SLOT_HALT).load(Ordering::Relaxed) != 0 {
            break;
        }
        at(page, SLOT_PROG + w as usize).store(i, Ordering::Relaxed);
        let mut s = Src::gen(run_seed(base, prop, i));
        let v = execute(prop, &mut s);
        done += 1;
        stats::S.with(|st| {
            let st = st.borrow();
            if st.nontrivial {
                nontriv += 1;
                if hashes.len() < 3_000_000 {
                    hashes.insert(st.hist);
                }
            }
        });
        if choices.len() < 3_000_000 {
            let mut h = 0u64;
            for x in &s.rec {
                h = mix(h ^ x);
            }
            choices.insert(h);
        }
        if let Some(v) = v {
            if known.iter().any(|k| *k == v.class) {
                *known_hits.entry(v.class.clone()).or_insert(0) += 1;
            } else {
                std::fs::write(format!("{}/viol.{}", dir, i), dump(&v, &s.rec)).unwrap();
                at(page, SLOT_STOP).fetch_min(i, Ordering::SeqCst);
                break;
            }
        }
        i += nw;
    }
    at(page, SLOT_DONE + w as usize).store(1, Ordering::SeqCst);
    let mut o = String::new();
    writeln!(o, "runs {}", done).unwrap();
    writeln!(o, "nontrivial {}", nontriv).unwrap();
    stats::S.with(|st| {
        let st = st.borrow();
        writeln!(o, "sim_ns {}", st.sim_ns).unwrap();
        for (k, v) in &st.n {
            writeln!(o, "c {} {}", k, v).unwrap();
        }
    });
    for (k, v) in known_hits {
        writeln!(o, "known {} {}", k, v).unwrap();
    }
    std::fs::write(format!("{}/stats.{}", dir, w), o).unwrap();
    for (n, h) in [("hash", &hashes), ("choice", &choices)] {
        let mut b = Vec::with_capacity(h.len() * 8);
        for x in h {
            b.extend_from_slice(&x.to_le_bytes());
        }
        std::fs::write(format!("{}/{}.{}", dir, n, w), b).unwrap();
    }
}

fn dump(v: &Viol, ch: &[u64]) -> String {
    format!("{}\n{}\n{}\n", v.class.replace('\n', " "), v.detail.replace('\n', " "), join(ch))
}
fn undump(s: &str) -> (Viol, Vec<u64>) {
    let mut l = s.lines();
    let class = l.next().unwrap_or("").to_string();
    let detail = l.next().unwrap_or("").to_string();
    (Viol { class, detail }, parse(l.next().unwrap_or("")))
}
fn join(ch: &[u64]) -> String {
    ch.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}
fn parse(s: &str) -> Vec<u64> {
    s.split_whitespace().map(|x| x.parse().unwrap_or(0)).collect()
}

/// Known-findings file: "KNOWN property=<id> class=<class> <what fails>".
pub fn known_lines(prop: &str) -> Vec<(String, String)> {
    let p = format!("{}/known-findings.txt", root());
    let mut out = vec![];
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        let mut it = l.splitn(4, ' ');
        if it.next() == Some("KNOWN") && it.next() == Some(&format!("property={}", prop)) {
            if let Some(c) = it.next().and_then(|c| c.strip_prefix("class=")) {
                out.push((c.to_string(), it.next().unwrap_or("").to_string()));
            }
        }
    }
    out
}
fn known_classes(prop: &str) -> Vec<String> {
    known_lines(prop).into_iter().map(|x| x.0).collect()
}
pub fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

// ---- running one candidate in a child process ----------------------------------------------------
pub enum Out {
    Pass,
    Fail(Viol, Vec<u64>),
    Crash(String, Vec<u64>),
    Hang(Vec<u64>),
}
/// In the child: run the choice list of `file` (or run number `run`), mirroring choices so that a
/// crash leaves them behind.
pub fn one(prop: &str, base: u64, run: Option<u64>, file: Option<&str>, dir: &str, prior: &str) {
    limit_memory();
    quiet_panics();
    // runs that went before in the same process, where what they left behind matters
    if let [seed, from, step, until] = parse(prior)[..] {
        let mut i = from;
        while i < until {
            let _ = execute(prop, &mut Src::gen(run_seed(seed, prop, i)));
            i += step;
        }
    }
    let mut s = match (run, file) {
        (Some(i), _) => Src::gen(run_seed(base, prop, i)),
        (_, Some(f)) => Src::replay(parse(&std::fs::read_to_string(f).unwrap())),
        _ => unreachable!(),
    };
    s.mirror = map_file(&format!("{}/mirror", dir), 8 * (1 << 19));
    if let Some(v) = execute(prop, &mut s) {
        std::fs::write(format!("{}/out", dir), dump(&v, &s.rec)).unwrap();
        std::process::exit(1);
    }
}
fn child(prop: &str, base: u64, run: Option<u64>, ch: Option<&[u64]>, dir: &str, secs: u64) -> Out {
    child_after(prop, base, run, ch, dir, secs, "")
}
fn child_after(prop: &str, base: u64, run: Option<u64>, ch: Option<&[u64]>, dir: &str, secs: u64, prior: &str) -> Out {
    let _ = std::fs::remove_file(format!("{}/out", dir));
    let _ = std::fs::remove_file(format!("{}/mirror", dir));
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("one").arg(prop).arg(base.to_string()).arg(dir);
    if let Some(i) = run {
        c.arg("run").arg(i.to_string());
    } else {
        let f = format!("{}/in", dir);
        std::fs::write(&f, join(ch.unwrap())).unwrap();
        c.arg("file").arg(&f);
    }
    c.arg(prior);
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
    let mut p = c.spawn().unwrap();
    let t0 = Instant::now();
    let st = loop {
        if let Some(s) = p.try_wait().unwrap() {
            break Some(s);
        }
        if t0.elapsed() > Duration::from_secs(secs) {
            let _ = p.kill();
            let _ = p.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let mirror = || {
        let b = std::fs::read(format!("{}/mirror", dir)).unwrap_or_default();
        let w: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        let n = *w.first().unwrap_or(&0) as usize;
        w.get(1..1 + n).map(|x| x.to_vec()).unwrap_or_default()
    };
    match st {
        None => Out::Hang(mirror()),
        Some(s) => match s.code() {
            Some(0) => Out::Pass,
            Some(1) => {
                let (v, c) = undump(&std::fs::read_to_string(format!("{}/out", dir)).unwrap_or_default());
                Out::Fail(v, c)
            }
            Some(3) => {
                let mut e = String::new();
                let _ = p.stderr.take().unwrap().read_to_string(&mut e);
                eprintln!("{}", e);
                std::process::exit(3)
            }
            _ => {
                let mut e = String::new();
                let _ = p.stderr.take().unwrap().read_to_string(&mut e);
                use std::os::unix::process::ExitStatusExt;
                let sig = s.signal().map(|x| format!("signal {}", x)).unwrap_or(format!("exit {:?}", s.code()));
                let first = e.lines().next().unwrap_or("").to_string();
                Out::Crash(format!("{} {}", sig, first), mirror())
            }
        },
    }
}

// ---- minimisation -----------------------------------------------------------------------------
fn shrink_with(start: Vec<u64>, budget: Duration, max: usize, test: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let t0 = Instant::now();
    let mut best = start;
    let mut tries = 0usize;
    let better = |a: &[u64], b: &[u64]| {
        a.len() < b.len() || (a.len() == b.len() && a.iter().sum::<u64>() < b.iter().sum::<u64>())
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed() > budget || tries > max {
                    return best;
                }
                let mut c = best.clone();
                c.drain(i..(i + size).min(best.len()));
                tries += 1;
                match test(&c) {
                    Some(r) if better(&r, &best) => best = r,
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 4).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed() > budget || tries > max {
                    return best;
                }
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..e] {
                        *x = 0;
                    }
                    tries += 1;
                    if let Some(r) = test(&c) {
                        if better(&r, &best) {
                            best = r;
                        }
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // minimise values
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi {
                if t0.elapsed() > budget || tries > max {
                    return best;
                }
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                tries += 1;
                match test(&c) {
                    Some(r) if better(&r, &best) => {
                        best = r;
                        if i >= best.len() {
                            break;
                        }
                        hi = best[i].min(mid);
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

/// `sim shrink`: in-process minimisation of an ordinary violation.
pub fn shrink(prop: &str, file: &str) {
    limit_memory();
    quiet_panics();
    let (v, ch) = undump(&std::fs::read_to_string(file).unwrap());
    let secs = std::env::var("VERIF_SHRINK_S").ok().and_then(|x| x.parse().ok()).unwrap_or(20);
    let out = format!("{}.min", file);
    let mut saved = ch.clone();
    std::fs::write(&out, dump(&v, &ch)).unwrap();
    let best = shrink_with(ch, Duration::from_secs(secs), 40_000, &mut |c| {
        let mut s = Src::replay(c.to_vec());
        match execute(prop, &mut s) {
            Some(x) if x.class == v.class => {
                let mut r = s.rec.clone();
                while r.last() == Some(&0) {
                    r.pop();
                }
                if r.len() < saved.len() {
                    saved = r.clone();
                    std::fs::write(&out, dump(&x, &r)).unwrap();
                }
                Some(r)
            }
            _ => None,
        }
    });
    let mut s = Src::replay(best.clone());
    if let Some(x) = execute(prop, &mut s) {
        std::fs::write(&out, dump(&x, &best)).unwrap();
    }
}

/// Render the schedule of a choice list (in a process of its own, it may crash).
pub fn render(prop: &str, file: &str) {
    limit_memory();
    quiet_panics();
    drive::trace_live();
    let mut s = Src::replay(parse(&std::fs::read_to_string(file).unwrap()));
    let v = execute(prop, &mut s);
    match v {
        Some(v) => println!("=> {}: {}", v.class, v.detail),
        None => println!("=> property held"),
    }
}

struct Replay {
    prop: String,
    class: String,
    detail: String,
    choices: Vec<u64>,
    prior: String,
}
fn read_replay(f: &str) -> Replay {
    let t = std::fs::read_to_string(f).expect("replay file");
    let mut r = Replay { prop: String::new(), class: String::new(), detail: String::new(), choices: vec![], prior: String::new() };
    for l in t.lines() {
        if let Some(x) = l.strip_prefix("property: ") {
            r.prop = x.into();
        } else if let Some(x) = l.strip_prefix("class: ") {
            r.class = x.into();
        } else if let Some(x) = l.strip_prefix("detail: ") {
            r.detail = x.into();
        } else if let Some(x) = l.strip_prefix("choices: ") {
            r.choices = parse(x);
        } else if let Some(x) = l.strip_prefix("prior: ") {
            r.prior = x.into();
        } else if l.starts_with("---") {
            break;
        }
    }
    r
}
pub fn scratch(tag: &str) -> String {
    let d = format!("{}/evidence/.work/{}.{}", root(), tag, std::process::id());
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}
/// `sim replay FILE`: exit 1 and the VIOLATION line if it reproduces, 0 if the property held.
pub fn replay(f: &str) -> i32 {
    let r = read_replay(f);
    let dir = scratch("replay");
    let secs = hang_secs() + if r.prior.is_empty() { 0 } else { 600 };
    let o = child_after(&r.prop, 0, None, Some(&r.choices), &dir, secs, &r.prior);
    let got = match o {
        Out::Pass => None,
        Out::Fail(v, _) => Some(v),
        Out::Crash(m, _) => Some(Viol { class: "crash".into(), detail: m }),
        Out::Hang(_) => Some(Viol { class: "hang".into(), detail: "no progress".into() }),
    };
    let file = format!("{}/in", dir);
    let _ = render_child(&r.prop, &file, true);
    let _ = std::fs::remove_dir_all(&dir);
    match got {
        Some(v) => {
            println!("reproduced: {}: {}", v.class, v.detail);
            if v.class != r.class || (v.detail != r.detail && v.class != "hang") {
                println!("note: the recorded violation was {}: {}", r.class, r.detail);
            }
            println!("VIOLATION property={} replay={}", r.prop, f);
            1
        }
        None => {
            println!("the property held on this schedule");
            0
        }
    }
}
fn render_child(prop: &str, file: &str, show: bool) -> String {
    let mut p = Command::new(std::env::current_exe().unwrap())
        .arg("render")
        .arg(prop)
        .arg(file)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let mut out = p.stdout.take().unwrap();
    let t = std::thread::spawn(move || {
        let mut b = vec![];
        let mut buf = [0u8; 65536];
        while let Ok(n) = out.read(&mut buf) {
            if n == 0 {
                break;
            }
            if b.len() < 4_000_000 {
                b.extend_from_slice(&buf[..n]);
            }
        }
        String::from_utf8_lossy(&b).into_owned()
    });
    let t0 = Instant::now();
    while p.try_wait().unwrap().is_none() {
        if t0.elapsed() > Duration::from_secs(20) {
            let _ = p.kill();
            let _ = p.wait();
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let s = t.join().unwrap();
    if show {
        print!("{}", s);
    }
    s
}
fn hang_secs() -> u64 {
    std::env::var("VERIF_HANG_S").ok().and_then(|x| x.parse().ok()).unwrap_or(60)
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let spec = match props::spec(prop) {
        Some(s) => s,
        None => {
            eprintln!("unknown property {}", prop);
            return 2;
        }
    };
    let mut runs = if thorough { spec.thorough } else { spec.quick / 5 * 2 };
    if let Some(n) = std::env::var("VERIF_RUNS").ok().and_then(|x| x.parse().ok()) {
        runs = n;
    }
    let nw: u64 = std::env::var("VERIF_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let dir = scratch(prop);
    let page = map_file(&format!("{}/page", dir), PAGE);
    at(page, SLOT_STOP).store(u64::MAX, Ordering::SeqCst);
    for w in 0..nw as usize {
        at(page, SLOT_PROG + w).store(u64::MAX, Ordering::SeqCst);
    }
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<_> = (0..nw)
        .map(|w| {
            let c = Command::new(&exe)
                .args(["worker", prop, &base.to_string(), &w.to_string(), &nw.to_string(), &runs.to_string(), &dir])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(std::fs::File::create(format!("{}/err.{}", dir, w)).unwrap())
                .spawn()
                .unwrap();
            (w, c, Instant::now(), u64::MAX, false)
        })
        .collect();
    // (run index, kind)
    let mut fatal: Vec<(u64, &'static str)> = vec![];
    let mut signals: BTreeMap<u64, i32> = BTreeMap::new();
    let hang = Duration::from_secs(hang_secs());
    let budget = Duration::from_secs(
        std::env::var("VERIF_BUDGET_S").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 3 * 3600 } else { 420 }),
    );
    loop {
        if t0.elapsed() > budget {
            at(page, SLOT_HALT).store(1, Ordering::SeqCst);
        }
        let mut live = false;
        for (w, c, since, last, fin) in kids.iter_mut() {
            if *fin {
                continue;
            }
            let prog = at(page, SLOT_PROG + *w as usize).load(Ordering::SeqCst);
            if prog != *last {
                *last = prog;
                *since = Instant::now();
            }
            if let Some(s) = c.try_wait().unwrap() {
                *fin = true;
                if s.code() == Some(3) {
                    eprintln!("{}", std::fs::read_to_string(format!("{}/err.{}", dir, w)).unwrap_or_default());
                    for (_, c, ..) in kids.iter_mut() {
                        let _ = c.kill();
                        let _ = c.wait();
                    }
                    return 3;
                }
                if !s.success() {
                    let prog = at(page, SLOT_PROG + *w as usize).load(Ordering::SeqCst);
                    fatal.push((prog, "crash"));
                    use std::os::unix::process::ExitStatusExt;
                    signals.insert(prog, s.signal().unwrap_or(0));
                    at(page, SLOT_STOP).fetch_min(prog, Ordering::SeqCst);
                }
                continue;
            }
            if since.elapsed() > hang && prog != u64::MAX && at(page, SLOT_DONE + *w as usize).load(Ordering::SeqCst) == 0 {
                let _ = c.kill();
                let _ = c.wait();
                *fin = true;
                fatal.push((prog, "hang"));
                at(page, SLOT_STOP).fetch_min(prog, Ordering::SeqCst);
                continue;
            }
            live = true;
        }
        if !live {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    // the lowest-numbered failing run decides, whatever the worker timing was
    let mut cand: Vec<(u64, &'static str)> = fatal;
    for e in std::fs::read_dir(&dir).unwrap().flatten() {
        let n = e.file_name().into_string().unwrap();
        if let Some(i) = n.strip_prefix("viol.").and_then(|x| x.parse().ok()) {
            cand.push((i, "viol"));
        }
    }
    cand.sort();
    let search_s = t0.elapsed().as_secs_f64();
    let mut rc = 0;
    let mut violation = None;
    if let Some((i, kind)) = cand.first().cloned() {
        let (v, ch) = match kind {
            "viol" => {
                let f = format!("{}/viol.{}", dir, i);
                let _ = Command::new(&exe).args(["shrink", prop, &f]).stdin(Stdio::null()).stderr(Stdio::null()).status();
                let m = std::fs::read_to_string(format!("{}.min", f)).unwrap_or_default();
                let m = if m.is_empty() { std::fs::read_to_string(&f).unwrap() } else { m };
                undump(&m)
            }
            _ => {
                // reproduce in a child to recover the choices, then minimise with a child per candidate
                let o = child(prop, base, Some(i), None, &dir, hang_secs());
                match o {
                    Out::Crash(m, ch) => {
                        let best = shrink_with(ch, Duration::from_secs(25), 3000, &mut |c| match child(prop, base, None, Some(c), &dir, 10) {
                            Out::Crash(_, r) => Some(r),
                            _ => None,
                        });
                        (Viol { class: "crash".into(), detail: m }, best)
                    }
                    Out::Hang(ch) => {
                        let best = shrink_with(ch, Duration::from_secs(60), 60, &mut |c| match child(prop, base, None, Some(c), &dir, 4) {
                            Out::Hang(r) => Some(r),
                            _ => None,
                        });
                        (Viol { class: "hang".into(), detail: format!("a call did not return within {} s of real time", hang_secs()) }, best)
                    }
                    Out::Fail(v, ch) => (v, ch),
                    // ended from outside (out of memory, say): no verdict
                    Out::Pass if kind == "hang" || signals.get(&i) == Some(&9) => {
                        eprintln!("run {} ended its worker ({}), but not again when repeated alone; err: {}", i, kind,
                            (0..nw).map(|w| std::fs::read_to_string(format!("{}/err.{}", dir, w)).unwrap_or_default()).collect::<String>());
                        return 4;
                    }
                    Out::Pass => {
                        let mut s = Src::gen(run_seed(base, prop, i));
                        let _ = execute(prop, &mut s);
                        (Viol { class: "crash".into(), detail: format!("signal {} ", signals.get(&i).unwrap_or(&0)) }, s.rec.clone())
                    }
                }
            }
        };
        // the failure has to come back in a fresh process; if it does not, the runs before it left
        // something behind in theirs, and as few of them as needed become part of the replay
        let mut prior = String::new();
        let (mut v, mut ch) = (v, ch);
        if matches!(child(prop, base, None, Some(&ch), &dir, hang_secs()), Out::Pass) {
            let t1 = Instant::now();
            let mut k = 1;
            prior = "not reproduced".into();
            while t1.elapsed() < Duration::from_secs(150) {
                let from = i.saturating_sub(k * nw).max(i % nw);
                let p = format!("{} {} {} {}", base, from, nw, i);
                match child_after(prop, base, Some(i), None, &dir, 300, &p) {
                    Out::Pass => {}
                    Out::Fail(x, c) => {
                        (v, ch, prior) = (x, c, p);
                        break;
                    }
                    Out::Crash(m, c) => {
                        (v, ch, prior) = (Viol { class: "crash".into(), detail: m }, c, p);
                        break;
                    }
                    Out::Hang(c) => {
                        (v, ch, prior) = (Viol { class: "hang".into(), detail: "no progress".into() }, c, p);
                        break;
                    }
                }
                if from < nw {
                    break;
                }
                k *= 4;
            }
        }
        let rdir = format!("{}/evidence/replay", root());
        std::fs::create_dir_all(&rdir).unwrap();
        let f = format!("{}/{}-s{}-r{}.replay", rdir, prop, base, i);
        let inp = format!("{}/rin", dir);
        std::fs::write(&inp, join(&ch)).unwrap();
        let trace = render_child(prop, &inp, false);
        std::fs::write(
            &f,
            format!(
                "property: {}\nseed: {}\nrun: {}\nclass: {}\ndetail: {}\nchoices: {}\n{}--- minimised schedule and fault trace\n{}",
                prop, base, i, v.class, v.detail, join(&ch), if prior.is_empty() { prior } else { format!("prior: {}\n", prior) }, trace
            ),
        )
        .unwrap();
        println!("property {} violated: {}: {}", prop, v.class, v.detail);
        println!("seed {} run {}; replay: {} replay {}", base, i, exe.display(), f);
        violation = Some(f);
        rc = 1;
    }
    // ---- evidence
    let mut tot: BTreeMap<String, u64> = BTreeMap::new();
    let (mut done, mut nontriv, mut sim_ns) = (0u64, 0u64, 0u64);
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut hs: HashSet<u64> = HashSet::new();
    let mut cs: HashSet<u64> = HashSet::new();
    for w in 0..nw {
        for l in std::fs::read_to_string(format!("{}/stats.{}", dir, w)).unwrap_or_default().lines() {
            let f: Vec<&str> = l.split(' ').collect();
            match f[0] {
                "runs" => done += f[1].parse::<u64>().unwrap(),
                "nontrivial" => nontriv += f[1].parse::<u64>().unwrap(),
                "sim_ns" => sim_ns = sim_ns.saturating_add(f[1].parse::<u64>().unwrap()),
                "c" => *tot.entry(f[1].to_string()).or_insert(0) += f[2].parse::<u64>().unwrap(),
                "known" => *known.entry(f[1].to_string()).or_insert(0) += f[2].parse::<u64>().unwrap(),
                _ => {}
            }
        }
        for (n, h) in [("hash", &mut hs), ("choice", &mut cs)] {
            for c in std::fs::read(format!("{}/{}.{}", dir, n, w)).unwrap_or_default().chunks_exact(8) {
                h.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let mut samples = vec![];
    for i in 0..3u64 {
        let mut s = Src::gen(run_seed(base, prop, i));
        if rc != 0 {
            break;
        }
        quiet_panics();
        let _ = execute(prop, &mut s);
        let inp = format!("{}/sin", dir);
        std::fs::write(&inp, join(&s.rec)).unwrap();
        let t = render_child(prop, &inp, false);
        let t: String = t.chars().take(2500).collect();
        samples.push(format!("run {} ({} choices):\n{}", i, s.rec.len(), t));
    }
    for (c, what) in known_lines(prop) {
        println!("KNOWN-FINDING: property={} {} [{} runs met it]", prop, what, known.get(&c).copied().unwrap_or(0));
    }
    let wall = t0.elapsed().as_secs_f64();
    let pick = |p: &str| -> String {
        let v: Vec<String> = tot
            .iter()
            .filter(|(k, _)| k.starts_with(p))
            .map(|(k, v)| format!("{}: {}", esc(&k[p.len()..]), v))
            .collect();
        format!("{{{}}}", v.join(", "))
    };
    let mut j = String::new();
    write!(
        j,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
        esc(prop), esc(&tier), base
    )
    .unwrap();
    write!(
        j,
        "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"nontrivial_runs\": {},\n  \"distinct_choice_sequences\": {},\n  \"history_digest\": \"{:016x}\",\n  \"rule\": {},\n  \"runs_per_hour\": {},\n  \"simulated_seconds\": {:.3},\n  \"search_wall_s\": {:.2},\n  \"workers\": {},\n  \"faults_fired\": {},\n  \"probes\": {},\n  \"components\": {},\n  \"samples\": [{}]\n }},\n",
        done,
        hs.len(),
        nontriv,
        cs.len(),
        hs.iter().fold(0u64, |a, x| a.wrapping_add(mix(*x))),
        esc(&spec.rule),
        (done as f64 * 3600.0 / search_s.max(0.001)) as u64,
        sim_ns as f64 / 1e9,
        search_s,
        nw,
        pick("fault."),
        pick("probe."),
        esc(spec.components),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")
    )
    .unwrap();
    let ass: Vec<String> = spec.assumptions.iter().map(|a| esc(a)).collect();
    write!(j, " \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", ass.join(", "), wall, rc).unwrap();
    std::fs::create_dir_all(format!("{}/evidence", root())).unwrap();
    std::fs::write(format!("{}/evidence/{}.json", root(), prop), j).unwrap();
    println!(
        "{} {}: {} runs, {} distinct non-trivial histories, {:.1} simulated s, {:.1} s wall; faults {}; probes {}",
        prop, tier, done, hs.len(), sim_ns as f64 / 1e9, wall, pick("fault."), pick("probe.")
    );
    let _ = std::fs::remove_dir_all(&dir);
    let halted = at(page, SLOT_HALT).load(Ordering::SeqCst) != 0;
    if rc == 0 && done < runs && !halted {
        eprintln!("only {} of {} runs were executed", done, runs);
        return 5;
    }
    if halted {
        println!("stopped by the wall-clock budget after {} of {} runs", done, runs);
    }
    if rc == 0 && !thorough_probe_gate(&spec, &tot) {
        return 6;
    }
    if let Some(f) = violation {
        println!("VIOLATION property={} replay={}", prop, f);
    }
    let _ = std::io::stdout().flush();
    rc
}

/// Probes that stay at zero mean the workload does not reach what the property is about.
fn thorough_probe_gate(spec: &props::Spec, tot: &BTreeMap<String, u64>) -> bool {
    for p in spec.must_hit {
        if tot.get(*p).copied().unwrap_or(0) == 0 {
            // reported, never an alarm: reach is a property of the workload, not of the code
            println!("WARNING: probe {} was never hit in this batch", p);
        }
    }
    true
}

/// Development aid: tally violation classes over many runs, with the smallest failing run of each.
pub fn survey(prop: &str, from: u64, runs: u64) {
    quiet_panics();
    let mut m: BTreeMap<String, (u64, Vec<u64>, String)> = BTreeMap::new();
    for i in from..from + runs {
        let mut s = Src::gen(run_seed(1, prop, i));
        if let Some(v) = execute(prop, &mut s) {
            let e = m.entry(v.class.clone()).or_insert((0, s.rec.clone(), v.detail.clone()));
            e.0 += 1;
            if s.rec.len() < e.1.len() {
                e.1 = s.rec.clone();
                e.2 = v.detail;
            }
        }
    }
    std::fs::create_dir_all("/tmp/survey").unwrap();
    for (c, (n, ch, _)) in m {
        let best = shrink_with(ch, Duration::from_secs(10), 40_000, &mut |x| {
            let mut s = Src::replay(x.to_vec());
            match execute(prop, &mut s) {
                Some(v) if v.class == c => Some(s.rec.clone()),
                _ => None,
            }
        });
        let mut s = Src::replay(best.clone());
        let d = execute(prop, &mut s).map(|v| v.detail).unwrap_or_default();
        let f = format!("/tmp/survey/{}-{}", prop, c.replace(['/', ':'], "_"));
        std::fs::write(&f, join(&best)).unwrap();
        println!("{:7} {} : {}\n        render: {}", n, c, d.chars().take(300).collect::<String>(), f);
    }
}
