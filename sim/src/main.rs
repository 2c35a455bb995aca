mod alloc;
mod bestfit;
mod capi;
mod clock;
mod decode;
mod drive;
mod engine;
mod fields;
mod surplus;
mod forms;
mod hooks;
mod hostile;
mod limits;
mod lines;
mod misuse;
mod multi;
mod old;
mod oracle;
mod props;
mod rec;
mod rng;
mod scen;
mod stats;
mod blocks;
mod chunks;
mod uris;
mod wire;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let n = |i: usize| s(i).parse::<u64>().unwrap_or(0);
    let rc = match s(1) {
        "check" => engine::check(s(2)),
        "worker" => {
            engine::worker(s(2), n(3), n(4), n(5), n(6), s(7));
            0
        }
        "one" => {
            if s(5) == "run" {
                engine::one(s(2), n(3), Some(n(6)), None, s(4), s(7));
            } else {
                engine::one(s(2), n(3), None, Some(s(6)), s(4), s(7));
            }
            0
        }
        "shrink" => {
            engine::shrink(s(2), s(3));
            0
        }
        "render" => {
            engine::render(s(2), s(3));
            0
        }
        "survey" => {
            engine::survey(s(2), n(3), n(4));
            0
        }
        "replay" => engine::replay(s(2)),
        _ => {
            eprintln!("usage: sim check ID | sim replay FILE");
            2
        }
    };
    std::process::exit(rc);
}
