//! Hardware performance counters, on the machine of machine.rs.
use crate::machine::*;
use crate::prof::full_of;
use crate::util::*;
use analyzeme::ProfilingData;
use decodeme::stringtable::StringTable;
use measureme::counters::Counter;
use measureme::*;
use serde_json::{json, Value};

/// A count for the trace: high part and 24 low bits.
fn big(v: u64) -> Value {
    json!([v >> 24, v & 0xff_ffff])
}
fn bracket(op: &str, lo: [u64; 7], hi: [u64; 7]) -> Value {
    let all = |c: [u64; 7]| (0..5).map(|k| (KINDS[k].to_string(), big(c[k]))).collect::<serde_json::Map<_, _>>();
    json!({"op": op, "lo": all(lo), "hi": all(hi)})
}
#[derive(Clone)]
struct Case {
    vendor: String,
    signature: u32,
    name: String,
    how: Vec<How>,
    prog: Vec<String>,
    tick: u64,
    first: u64,
    far: u64,
    stop: u64,
}
fn cpu_json(vendor: &str, s: u32) -> Value {
    let v = match vendor {
        "GenuineIntel" => "intel",
        "AuthenticAMD" => "amd",
        _ => "other",
    };
    json!({"vendor": v, "f": (s >> 8) & 15, "xf": (s >> 20) & 255, "m": (s >> 4) & 15, "xm": (s >> 16) & 15})
}
/// Steps of the machine from handing out the page that changes to the end of the call.
fn run_case(dir: &Scratch, c: &Case, r: &mut Rng, tag: &str, out: &mut Out) -> u64 {
    let named = |f: &dyn Fn(How) -> bool| (0..6).filter(|k| f(c.how[*k])).map(|k| KINDS[k]).collect::<Vec<_>>();
    let changing = |h: How| h == How::Becomes || h == How::Fades;
    let mut ops = vec![json!({"op": "machine", "cpu": cpu_json(&c.vendor, c.signature),
        "bad": named(&|h| h != How::Good && !changing(h)), "maybe": named(&|h| changing(h))})];
    let t = c.tick;
    power_on(
        &c.vendor,
        c.signature,
        c.how.clone(),
        [9 * t, t, 2 * t, 3 * t, 4 * t, 5 * t, 77 * t],
        c.first,
        c.stop,
        r,
    );
    let lo = counts();
    let made = catch(|| Counter::by_name(&c.name));
    no_steps();
    let (hi, n) = (counts(), steps());
    let word = match &made {
        Ok(Ok(_)) => "ok",
        Ok(Err(_)) => "fail",
        Err(_) => "panic",
    };
    let mut o = bracket("new", lo, hi);
    o["name"] = json!(c.name);
    o["r"] = json!(word);
    ops.push(o);
    if let Ok(Ok(counter)) = made {
        // a panic in here is a step the specification does not have
        if let Err(why) = catch(|| record(dir, c, counter, r, &mut ops)) {
            ops.push(json!({"op": "panic", "why": why}));
        }
    }
    power_off();
    out.emit(tag, ops);
    n
}
fn record(dir: &Scratch, c: &Case, counter: Counter, r: &mut Rng, ops: &mut Vec<Value>) {
    let path = dir.path("hw");
    let p = Profiler::with_counter(&path, counter).unwrap();
    let k = p.alloc_string("k");
    let id = EventId::from_label(k);
    {
        // not dropped should a call panic: dropping guards would then panic again
        let mut open = std::mem::ManuallyDrop::new(Vec::<(u64, TimingGuard<'_>)>::new());
        let mut total = 0;
        let mut g = 0;
        for s in &c.prog {
            if s != "run" && r.chance(2, 3) || s == "run" {
                let mut n = if r.chance(1, 4) { c.far / 4 } else { r.below(2000) };
                if total + n > c.far {
                    n = r.below(5);
                }
                total += n;
                advance([n, n / 9, n / 8, n / 7, n / 6, n / 5, n * 3]);
            }
            let lo = counts();
            let mut done = |op: &str, g: u64| {
                let mut o = bracket(op, lo, counts());
                o["g"] = json!(g);
                ops.push(o);
            };
            match s.as_str() {
                "instant" => {
                    p.record_instant_event(k, id, 1);
                    done("instant", 0);
                }
                "start" => {
                    g += 1;
                    let x = p.start_recording_interval_event(k, id, 1);
                    done("start", g);
                    open.push((g, x));
                }
                "finish" if !open.is_empty() => {
                    let (g, x) = {
                        let n = r.below(open.len() as u64) as usize;
                        open.remove(n)
                    };
                    drop(x);
                    done("finish", g);
                }
                _ => {}
            }
        }
        while let Some((g, x)) = open.pop() {
            let lo = counts();
            drop(x);
            let mut o = bracket("finish", lo, counts());
            o["g"] = json!(g);
            ops.push(o);
        }
    }
    drop(p);
    let file = path.with_extension("mm_profdata");
    let mut s = split_streams(&std::fs::read(&file).unwrap()[8..]);
    let mut take = |t: PageTag| s.remove(&t).unwrap();
    let table = StringTable::new(take(PageTag::StringData), take(PageTag::StringIndex), None).unwrap();
    let meta: Value = serde_json::from_str(&table.get_metadata().to_string()).unwrap();
    ops.push(json!({"op": "meta", "name": meta["counter"]["name"], "units": meta["counter"]["units"]}));
    let d = ProfilingData::new(&path).unwrap();
    let es: Vec<Value> = d
        .iter_full()
        .map(|e| {
            let f = full_of(&e, d.metadata().start_time);
            if f.ty == "interval" {
                json!([f.ty, big(f.v1), big(f.v2)])
            } else {
                json!([f.ty, big(f.v1)])
            }
        })
        .collect();
    ops.push(json!({"op": "events", "events": es}));
}
fn rand_how(r: &mut Rng) -> How {
    match r.below(5) {
        0 => How::Deny(*r.pick(&[libc::EACCES, libc::ENOENT, libc::ENOSYS, libc::EMFILE, libc::EPERM])),
        1 => How::NoMap,
        2 => How::NoCaps(*r.pick(&[0, 1, 2, 3, 0b11000, 0b11010])),
        3 => How::NoIndex,
        _ => How::Width(*r.pick(&[0, 32, 40, 47, 49, 64])),
    }
}
fn rand_prog(r: &mut Rng, n: u64) -> Vec<String> {
    (0..n).map(|_| r.pick(&["instant", "start", "finish", "run"]).to_string()).collect()
}
/// A register's value at the start, and how far it may count from there.
fn rand_first(r: &mut Rng) -> (u64, u64) {
    const TOP: u64 = 1 << 48;
    match r.below(6) {
        0 => (0, 1 << 46),
        1 => (TOP - 1, 1 << 46),
        2 => (TOP - r.range(1, 5000), 1 << 46),
        // where Linux starts them
        3 => ((TOP >> 1) + 1, (1 << 48) - (1 << 30)),
        4 => (r.below(TOP >> 2), 1 << 45),
        _ => ((TOP >> 1) + r.below(TOP >> 3), 1 << 46),
    }
}
pub fn run(cx: &Cx, out: &mut Out) {
    let dir = Scratch::new("hw");
    let mut r = Rng::new(cx.seed);
    let (can_read, can_disguise) = install();
    let (vendor, signature) = real_cpu();
    if !can_read {
        // Every counter is refused, or belongs to the real processor, of which nothing is known.
        println!("NOTE: rdpmc does not fault here; hardware counters cannot be followed");
        return;
    }
    if !can_disguise {
        println!("NOTE: cpuid does not fault here; only the real processor is followed");
    }
    let good = vec![How::Good; 7];
    for c in &cx.cases {
        let n = |k: &str| c["cpu"][k].as_u64().unwrap() as u32;
        let v = match c["cpu"]["vendor"].as_str().unwrap() {
            "intel" => "GenuineIntel",
            "amd" => "AuthenticAMD",
            _ => *r.pick(&[
                "CentaurHauls",
                "HygonGenuine",
                "GenuineIntex",
                "authenticamd",
                "\0\0\0\0\0\0\0\0\0\0\0\0",
            ]),
        };
        let (first, far) = rand_first(&mut r);
        let mut case = Case {
            vendor: v.to_string(),
            signature: n("f") << 8 | n("xf") << 20 | n("m") << 4 | n("xm") << 16 | r.below(16) as u32,
            name: c["name"].as_str().unwrap().to_string(),
            how: good.clone(),
            prog: c["prog"]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| x.as_str().unwrap().to_string())
                .collect(),
            tick: r.below(3),
            first,
            far,
            stop: 0,
        };
        if !can_disguise {
            (case.vendor, case.signature) = (vendor.clone(), signature);
        }
        if case.name == "cycles" {
            case.name = r
                .pick(&[
                    "cycles",
                    "",
                    "Wall-time",
                    "instructions",
                    "instructions:k",
                    "instructions-minus-irqs",
                    "instructions:u ",
                ])
                .to_string();
        }
        if case.prog.is_empty() {
            case.prog = rand_prog(&mut r, 6);
        }
        for b in c["bad"].as_array().unwrap() {
            let b = b.as_str().unwrap();
            for k in 0..6 {
                if KINDS[k] == b || b == "irqs" && (1..4).contains(&k) {
                    case.how[k] = rand_how(&mut r);
                }
            }
        }
        run_case(&dir, &case, &mut r, "model", out);
    }
    let cpus = [
        ("GenuineIntel", 0x5065e),
        ("AuthenticAMD", 0x830f10),
        ("AuthenticAMD", 0x100f42),
        ("GenuineIntel", 0x206a7),
    ];
    let rand_case = |r: &mut Rng| {
        let (first, far) = rand_first(r);
        let (mut v, mut s) = {
            let x = r.pick(&cpus);
            (x.0.to_string(), x.1)
        };
        if !can_disguise {
            (v, s) = (vendor.clone(), signature);
        }
        let name = r
            .pick(&["instructions:u", "instructions-minus-irqs:u", "instructions-minus-r0420:u"])
            .to_string();
        Case {
            vendor: v,
            signature: s,
            name,
            how: vec![How::Good; 7],
            prog: vec![],
            tick: r.below(4),
            first,
            far,
            stop: 0,
        }
    };
    for _ in 0..cx.n(400, 6000) {
        let mut c = rand_case(&mut r);
        let n = r.range(1, 40);
        c.prog = rand_prog(&mut r, n);
        run_case(&dir, &c, &mut r, "long", out);
    }
    // the page of a counter changes between any two machine instructions of who reads it
    for round in 0..cx.n(4, 24) {
        let mut c = rand_case(&mut r);
        c.name = ["instructions:u", "instructions-minus-irqs:u"][round % 2].to_string();
        c.prog = vec!["instant".into(), "start".into(), "instant".into()];
        c.how[if round % 4 == 3 { 3 } else { 0 }] = if round % 3 == 2 { How::Fades } else { How::Becomes };
        if round % 4 == 3 && can_disguise {
            (c.vendor, c.signature) = ("GenuineIntel".into(), 0x5065e);
        }
        let n = run_case(&dir, &c, &mut r, "step", out);
        let each = if cx.thorough { 1 } else { (n / 700).max(1) };
        let mut k = 1 + r.below(each);
        while k <= n {
            c.stop = k;
            run_case(&dir, &c, &mut r, "step", out);
            k += each;
        }
        eprintln!("stepping: {} instructions", n);
    }
}
