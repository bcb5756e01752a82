//! Drives the code of /repo through histories and records what it does, for checking against the
//! TLA+ specifications in ../spec. Usage: mmverif AREA MODE OUT.ndjson SEED TIER [CASES.ndjson]
mod analysis;
mod built;
mod bytes;
mod clock;
mod events;
mod far;
mod hw;
mod iohook;
mod machine;
mod prof;
mod reader;
mod recorder;
mod sched;
mod shared;
mod storm;
mod sink;
mod strings;
mod toolrun;
mod tools;
mod util;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s == "child").unwrap_or(false) {
        return events::child();
    }
    util::install_panic_hook();
    sched::install();
    let area = a[1].as_str();
    let cx = util::Cx {
        mode: a[2].clone(),
        seed: a[4].parse().unwrap(),
        thorough: a[5] == "thorough",
        cases: a.get(6).map(|p| util::read_cases(p)).unwrap_or_default(),
    };
    let mut out = util::Out::create(&a[3]);
    match area {
        "built" => built::run(&cx, &mut out),
        "bytes" => bytes::run(&cx, &mut out),
        "far" => far::run(&cx, &mut out),
        "shared" => shared::run(&cx, &mut out),
        "sink" => sink::run(&cx, &mut out),
        "analysis" => analysis::run(&cx, &mut out),
        "large" => analysis::large(&cx, &mut out),
        "events" => events::run(&cx, &mut out),
        "hw" => hw::run(&cx, &mut out),
        "reader" => reader::run(&cx, &mut out),
        "recorder" => recorder::run(&cx, &mut out),
        "tools" => tools::run(&cx, &mut out),
        "strings" => strings::run(&cx, &mut out),
        _ => panic!("unknown area {}", area),
    }
    out.finish();
}
