//! Events: E01 (payloads), E02 (recording), E03 (profile files).
use crate::prof::*;
use crate::util::*;
use analyzeme::{ProfilingData, ProfilingDataBuilder};
use measureme::counters::{Counter, WallTime};
use measureme::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Barrier, Mutex};
use std::time::Instant;

pub fn run(cx: &Cx, out: &mut Out) {
    let dir = Scratch::new("events");
    let mut r = Rng::new(cx.seed);
    match cx.mode.as_str() {
        "raw" => raw(cx, out, &dir, &mut r),
        "record" => record(cx, out, &dir, &mut r),
        "describe" => describe(cx, out, &dir, &mut r),
        m => panic!("unknown mode {}", m),
    }
}

fn raw_op(ty: &str, v1: u64, v2: u64, kind: u64, id: u64, tid: u32) -> Value {
    let (k, i) = (StringId::new(kind), EventId::from_u64(id));
    let mut o = json!({"op": "raw", "ty": ty, "v1": limbs(v1), "v2": limbs(v2), "kind": limbs(kind), "id": limbs(id),
        "tid": tid_json(tid)});
    let got = catch(|| {
        let e = match ty {
            "interval" => RawEvent::new_interval(k, i, tid, v1, v2),
            "instant" => RawEvent::new_instant(k, i, tid, v1),
            _ => RawEvent::new_integer(k, i, tid, v1),
        };
        let mut b = vec![0xA5; std::mem::size_of::<RawEvent>()];
        e.serialize(&mut b);
        let d = RawEvent::deserialize(&b);
        assert!(e == d);
        d
    });
    match got {
        Ok(d) => {
            let g = match (d.is_instant(), d.is_integer()) {
                (false, false) => json!(["interval", limbs(d.start_value()), limbs(d.end_value())]),
                (true, false) => json!(["instant", limbs(d.start_value()), limbs(0)]),
                (false, true) => json!(["integer", limbs(d.value()), limbs(0)]),
                _ => json!(["both", limbs(0), limbs(0)]),
            };
            o["r"] = json!("ok");
            o["got"] = g;
            o["gotids"] = json!([limbs(d.event_kind.as_u64()), limbs(d.event_id.as_u64()), tid_json(d.thread_id)]);
        }
        Err(_) => o["r"] = json!("fail"),
    }
    o
}
/// The real value standing for one of the model's, whose low part has 3 or 4 bits and upper part 2.
pub fn real(v: u64, low: u64) -> u64 {
    let n = 1 << low;
    let l = v % n;
    let l = if l < n / 2 { l } else { 0x1_0000_0000 - n + l };
    let u = v / n;
    let h = [0, 1, 0xFFFE, 0xFFFF][(u % 4) as usize];
    l | h << 32 | (u / 4) << 48
}
fn any64(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => r.below(3),
        1 => u64::MAX - r.below(3),
        2 => 1u64.checked_shl(r.below(64) as u32).unwrap_or(0),
        3 => MAX_SINGLE + 2 - r.below(6),
        4 => rand_value(r),
        _ => r.next() >> r.below(40),
    }
}
fn raw(cx: &Cx, out: &mut Out, dir: &Scratch, r: &mut Rng) {
    let path = dir.path("raw.mm_profdata");
    let maxv = cx.cases.iter().flat_map(|c| [c["ev"][1].as_u64(), c["ev"][2].as_u64()]).flatten().max().unwrap_or(0);
    let low = if maxv > 70 { 4 } else { 3 };
    let ty = |s: &str| -> &'static str {
        match s {
            "interval" => "interval",
            "instant" => "instant",
            _ => "integer",
        }
    };
    for ch in cx.cases.chunks(60) {
        let mut ops = vec![];
        let m = Meta::rand(r);
        ops.push(m.json());
        let mut w = v9::W::new(&path, &m, Style::Plain);
        for c in ch {
            let mut e = rand_event(r);
            e.ty = ty(c["ev"][0].as_str().unwrap());
            e.v1 = real(c["ev"][1].as_u64().unwrap(), low);
            e.v2 = real(c["ev"][2].as_u64().unwrap(), low);
            let ok = w.event(&e);
            ops.push(json!({"op": "rec", "ev": e.json(), "r": if ok { "ok" } else { "fail" }}));
            ops.push(raw_op(e.ty, e.v1, e.v2, any64(r), any64(r), any64(r) as u32));
        }
        w.finish();
        ops.push(read_op(open(&path)));
        out.emit("model", ops);
    }
    // single events with any ids and values
    for _ in 0..cx.n(60, 600) {
        let mut ops = vec![];
        for _ in 0..60 {
            let t = *r.pick(&["interval", "instant", "integer"]);
            let (mut a, mut b) = (any64(r), any64(r));
            if r.chance(1, 2) && a > b {
                std::mem::swap(&mut a, &mut b);
            }
            if t != "interval" {
                b = 0;
            }
            ops.push(raw_op(t, a, b, any64(r), any64(r), any64(r) as u32));
        }
        out.emit("raw", ops);
    }
    for k in 0..cx.n(200, 3000) {
        let mut ops = vec![];
        match k % 3 {
            // written as raw events in a file
            0 => {
                let m = Meta::rand(r);
                ops.push(m.json());
                let mut w = v9::W::new(&path, &m, Style::Fancy(r.next()));
                for _ in 0..r.range(1, 30) {
                    let mut e = rand_event(r);
                    if r.chance(1, 5) {
                        e.v1 = any64(r);
                        if e.ty == "interval" {
                            e.v2 = any64(r);
                        }
                    }
                    let ok = w.event(&e);
                    ops.push(json!({"op": "rec", "ev": e.json(), "r": if ok { "ok" } else { "fail" }}));
                }
                w.finish();
                ops.push(read_op(open(&path)));
                out.emit("file", ops);
            }
            // by the builder that tests of users go through
            1 => {
                let mut b = ProfilingDataBuilder::new();
                for _ in 0..r.range(1, 30) {
                    let mut e = rand_event(r);
                    e.args.clear();
                    if e.ty == "interval" {
                        b.interval(&e.kind, &e.label, e.tid, e.v1, e.v2, |_| ());
                    } else if e.ty == "instant" {
                        b.instant(&e.kind, &e.label, e.tid, e.v1);
                    } else {
                        b.integer(&e.kind, &e.label, e.tid, e.v1);
                    }
                    ops.push(json!({"op": "rec", "ev": e.json(), "r": "ok"}));
                }
                ops.push(read_op(Ok(b.into_profiling_data())));
                out.emit("builder", ops);
            }
            // integers recorded by the profiler
            _ => {
                let p = Profiler::new(&path).unwrap();
                let mut ids = HashMap::new();
                for _ in 0..r.range(1, 30) {
                    let mut e = rand_event(r);
                    e.ty = "integer";
                    e.v2 = 0;
                    e.args.clear();
                    e.v1 = any64(r);
                    let k = *ids.entry(e.kind.clone()).or_insert_with(|| p.alloc_string(e.kind.as_str()));
                    let l = *ids.entry(e.label.clone()).or_insert_with(|| p.alloc_string(e.label.as_str()));
                    let ok = catch(|| p.record_integer_event(k, EventId::from_label(l), e.tid, e.v1)).is_ok();
                    ops.push(json!({"op": "rec", "ev": e.json(), "r": if ok { "ok" } else { "fail" }}));
                }
                drop(p);
                ops.push(read_op(open(&path)));
                out.emit("profiler", ops);
            }
        }
    }
}

// ---------------------------------------------------------------- E02

#[derive(Clone, Debug)]
struct Step {
    /// start | finish | abandon | instant | integer
    op: String,
    th: usize,
    g: u64,
    /// guard | detached
    form: String,
    /// drop | override | unwind
    how: String,
    kind: usize,
    label: u64,
    tid: u32,
    v: u64,
    /// the clock jumps ahead by this before the call
    jump: u64,
}
fn pair(ns: u64) -> Value {
    json!([ns / 1_000_000_000, ns % 1_000_000_000])
}
enum Held<'a> {
    Guard(TimingGuard<'a>),
    Detached(DetachedTiming),
}
/// The label that stands for the invalid id.
const UNKNOWN: u64 = 777;
struct Rec<'a> {
    p: &'a Profiler,
    a: Instant,
    b: Instant,
    kinds: Vec<StringId>,
    labels: Mutex<HashMap<u64, EventId>>,
    late: Mutex<Vec<(StringId, StringId)>>,
    broken: std::sync::atomic::AtomicBool,
    held: Mutex<HashMap<u64, Held<'a>>>,
    log: Mutex<Vec<Value>>,
}
fn lk<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}
fn spin(ns: u128) {
    let t = Instant::now();
    while t.elapsed().as_nanos() < ns {
        std::hint::spin_loop()
    }
}
impl<'a> Rec<'a> {
    /// Labels are strings, virtual ids mapped before or after they are used, and the invalid id.
    fn label(&self, l: u64) -> EventId {
        *lk(&self.labels).entry(l).or_insert_with(|| {
            if l == UNKNOWN {
                return EventId::INVALID;
            }
            let c = self.p.alloc_string(format!("l{}", l).as_str());
            let v = StringId::new_virtual([0, 7, 100_000_000 - 2000, 65_534][(l / 4 % 4) as usize] + l);
            EventId::from_label(match l % 4 {
                1 => {
                    self.p.map_virtual_to_concrete_string(v, c);
                    v
                }
                2 => {
                    lk(&self.late).push((v, c));
                    v
                }
                _ => c,
            })
        })
    }
    /// The bracket of a call that ran between two moments, in nanoseconds of the profiler's clock.
    fn bracket(&self, t0: Instant, t1: Instant) -> (Value, Value) {
        let lo = t0.saturating_duration_since(self.b).as_nanos() as u64;
        let hi = t1.saturating_duration_since(self.a).as_nanos() as u64;
        (pair(lo), pair(hi))
    }
    /// The interval to end, which another thread may still be about to hand over.
    fn take(&self, g: u64) -> Option<Held<'a>> {
        while !self.broken.load(std::sync::atomic::Ordering::SeqCst) {
            if let Some(h) = lk(&self.held).remove(&g) {
                return Some(h);
            }
            std::thread::yield_now();
        }
        None
    }
    /// Make a step, unless one failed before that must not fail.
    fn exec(&self, s: &Step) {
        if self.broken.load(std::sync::atomic::Ordering::SeqCst) {
            return;
        }
        if let Err(e) = catch(|| self.step(s)) {
            self.broken.store(true, std::sync::atomic::Ordering::SeqCst);
            lk(&self.log).push(json!({"op": "broken", "why": e}));
        }
    }
    fn step(&self, s: &Step) {
        let (kind, id) = (self.kinds[s.kind], self.label(s.label));
        let word = |ok: bool| if ok { "ok" } else { "fail" };
        crate::clock::jump(s.jump);
        match s.op.as_str() {
            "start" => {
                let t0 = Instant::now();
                let h = if s.form == "guard" {
                    Held::Guard(self.p.start_recording_interval_event(kind, id, s.tid))
                } else {
                    Held::Detached(self.p.start_recording_interval_event_detached(kind, id, s.tid))
                };
                let (lo, hi) = self.bracket(t0, Instant::now());
                lk(&self.log).push(json!({"op": "start", "th": s.th, "g": s.g, "form": s.form, "kind": s.kind, "label": s.label,
                    "tid": tid_json(s.tid), "lo": lo, "hi": hi}));
                lk(&self.held).insert(s.g, h);
            }
            "finish" => {
                // another thread may still be about to hand it over
                let Some(h) = self.take(s.g) else { return };
                let mut label = json!([]);
                let t0 = Instant::now();
                let ok = match h {
                    Held::Detached(d) => catch(|| self.p.finish_recording_interval_event(d)).is_ok(),
                    Held::Guard(g) => match s.how.as_str() {
                        "override" => {
                            label = json!([s.label]);
                            catch(move || g.finish_with_override_event_id(id)).is_ok()
                        }
                        "unwind" => {
                            let _ = catch(move || {
                                let _g = g;
                                panic!("unwinding")
                            });
                            true
                        }
                        _ => catch(move || drop(g)).is_ok(),
                    },
                };
                let (lo, hi) = self.bracket(t0, Instant::now());
                lk(&self.log).push(json!({"op": "finish", "th": s.th, "g": s.g, "label": label, "lo": lo, "hi": hi, "how": s.how,
                    "r": word(ok)}));
            }
            "abandon" => {
                let Some(h) = self.take(s.g) else { return };
                match h {
                    Held::Detached(d) => drop(d),
                    Held::Guard(g) => std::mem::forget(g),
                }
                lk(&self.log).push(json!({"op": "abandon", "g": s.g, "th": s.th}));
            }
            "instant" => {
                let t0 = Instant::now();
                let ok = catch(|| self.p.record_instant_event(kind, id, s.tid)).is_ok();
                let (lo, hi) = self.bracket(t0, Instant::now());
                lk(&self.log).push(json!({"op": "instant", "th": s.th, "kind": s.kind, "label": s.label, "tid": tid_json(s.tid),
                    "lo": lo, "hi": hi, "r": word(ok)}));
            }
            "burst" => {
                for k in 0..s.g {
                    self.p.record_integer_event(kind, id, s.tid, s.v + k);
                }
                lk(&self.log).push(json!({"op": "burst", "th": s.th, "kind": s.kind, "label": s.label, "tid": tid_json(s.tid),
                    "v": s.v, "n": s.g}));
            }
            _ => {
                self.p.record_integer_event(kind, id, s.tid, s.v);
                lk(&self.log).push(json!({"op": "integer", "th": s.th, "kind": s.kind, "label": s.label, "tid": tid_json(s.tid),
                    "v": limbs(s.v)}));
            }
        }
    }
}

/// Runs a program; `turns`: one step at a time in the order given, else every thread at its own pace.
fn run_steps(dir: &Scratch, prog: &[Step], turns: bool, gap: u128) -> Vec<Value> {
    let path = dir.path("rec");
    crate::clock::reset();
    let a = Instant::now();
    let c = Counter::WallTime(WallTime::new());
    let b = Instant::now();
    let p = Profiler::with_counter(&path, c).unwrap();
    let mut ops = run_with(&p, a, b, prog, turns, gap);
    drop(p);
    crate::clock::reset();
    let d = ProfilingData::new(&path).unwrap();
    let start = d.metadata().start_time;
    let num = |s: &str, c: char| -> i64 { if s == "<unknown>" { return UNKNOWN as i64 } s.strip_prefix(c).and_then(|x| x.parse().ok()).unwrap_or(-1) };
    let es: Vec<Value> = d
        .iter_full()
        .map(|e| {
            let f = full_of(&e, start);
            json!({"ty": f.ty, "kind": num(&f.kind, 'k'), "label": if f.args.is_empty() { num(&f.label, 'l') } else { -2 },
                "tid": tid_json(f.tid),
                "v": limbs(f.v1), "v1": pair(if f.ty == "integer" { 0 } else { f.v1 }), "v2": pair(if f.ty == "interval" { f.v2 } else { 0 })})
        })
        .collect();
    ops.push(json!({"op": "events", "events": es}));
    ops
}

fn run_with(p: &Profiler, a: Instant, b: Instant, prog: &[Step], turns: bool, gap: u128) -> Vec<Value> {
    let kinds = (0..3).map(|k| p.alloc_string(format!("k{}", k).as_str())).collect();
    let rec = Rec { p, a, b, kinds, labels: Default::default(), late: Default::default(), broken: Default::default(), held: Default::default(), log: Default::default() };
    for s in prog {
        rec.label(s.label);
    }
    let nth = prog.iter().map(|s| s.th).max().unwrap_or(1);
    if nth == 1 {
        for s in prog {
            rec.exec(s);
            spin(gap);
        }
    } else if turns {
        std::thread::scope(|sc| {
            let mut chans = vec![];
            let (dtx, drx) = std::sync::mpsc::channel::<()>();
            for _ in 0..nth {
                let (tx, rx) = std::sync::mpsc::channel::<Step>();
                let (rec, dtx) = (&rec, dtx.clone());
                sc.spawn(move || {
                    for s in rx {
                        rec.exec(&s);
                        dtx.send(()).unwrap();
                    }
                });
                chans.push(tx);
            }
            for s in prog {
                chans[s.th - 1].send(s.clone()).unwrap();
                drx.recv().unwrap();
                spin(gap);
            }
        });
    } else {
        let bar = Barrier::new(nth);
        std::thread::scope(|sc| {
            for th in 1..=nth {
                let (rec, bar) = (&rec, &bar);
                let mine: Vec<Step> = prog.iter().filter(|s| s.th == th).cloned().collect();
                sc.spawn(move || {
                    bar.wait();
                    for s in mine {
                        rec.exec(&s);
                        spin(gap);
                    }
                });
            }
        });
    }
    let Rec { held, log, late, broken, .. } = rec;
    for (v, c) in late.into_inner().unwrap_or_else(|e| e.into_inner()) {
        p.map_virtual_to_concrete_string(v, c);
    }
    let held = held.into_inner().unwrap_or_else(|e| e.into_inner());
    if broken.into_inner() {
        std::mem::forget(held);
    } else {
        assert!(held.is_empty());
    }
    log.into_inner().unwrap_or_else(|e| e.into_inner())
}

fn rand_tid(r: &mut Rng) -> u32 {
    *r.pick(&[0, 1, 2, 3, 65536, u32::MAX, 0x8000_0000])
}
fn steps_of(c: &Value, r: &mut Rng) -> Vec<Step> {
    let mut v = vec![];
    let mut open = vec![];
    let mut last_th = 1;
    for (k, o) in c["prog"].as_array().unwrap().iter().enumerate() {
        let s = |n: &str| o[n].as_str().unwrap_or("").to_string();
        let st = Step {
            op: s("op"),
            th: o["th"].as_u64().unwrap() as usize,
            g: o["g"].as_u64().unwrap_or(0),
            form: s("form"),
            how: s("how"),
            kind: r.below(3) as usize,
            label: k as u64,
            tid: rand_tid(r),
            v: rand_value(r),
            jump: 0,
        };
        last_th = st.th;
        match st.op.as_str() {
            "start" => open.push(st.g),
            "finish" | "abandon" => open.retain(|g| *g != st.g),
            _ => {}
        }
        v.push(st);
    }
    finish_all(&mut v, open, last_th);
    v
}
fn finish_all(v: &mut Vec<Step>, open: Vec<u64>, th: usize) {
    for g in open {
        v.push(Step { op: "finish".into(), th, g, form: "".into(), how: "drop".into(), kind: 0, label: 0, tid: 0, v: 0, jump: 0 });
    }
}
fn rand_steps(r: &mut Rng, nth: usize, n: usize, unique: bool) -> Vec<Step> {
    let mut v: Vec<Step> = vec![];
    let mut open: Vec<(u64, bool, usize)> = vec![];
    let mut g = 0;
    for k in 0..n {
        let th = r.range(1, nth as u64) as usize;
        let mut s = Step {
            op: "".into(),
            th,
            g: 0,
            form: "".into(),
            how: "drop".into(),
            kind: r.below(3) as usize,
            label: if unique { k as u64 } else if r.chance(1, 10) { UNKNOWN } else { r.below(4) },
            tid: rand_tid(r),
            v: rand_value(r),
            jump: 0,
        };
        let c = r.below(10);
        if c < 4 || open.is_empty() && c < 8 {
            g += 1;
            s.op = "start".into();
            s.g = g;
            s.form = if r.chance(1, 2) { "guard" } else { "detached" }.into();
            open.push((g, s.form == "guard", th));
        } else if c < 8 {
            // mostly the innermost, sometimes another
            let i = if r.chance(2, 3) { open.len() - 1 } else { r.below(open.len() as u64) as usize };
            let (x, guard, home) = open.remove(i);
            if r.chance(2, 3) {
                s.th = home;
            }
            s.g = x;
            s.op = if r.chance(1, 8) { "abandon" } else { "finish" }.into();
            if guard {
                s.how = r.pick(&["drop", "drop", "override", "unwind"]).to_string();
            }
        } else {
            s.op = if c == 8 { "instant" } else { "integer" }.into();
        }
        v.push(s);
    }
    finish_all(&mut v, open.into_iter().map(|x| x.0).collect(), 1);
    v
}
/// Makes the clock jump before some of the steps: by seconds, hours, or to about the largest time.
fn jumps(r: &mut Rng, p: &mut [Step]) {
    const MAX: u64 = (1 << 48) - 1;
    let n = p.len() as u64;
    match r.below(6) {
        0 | 1 => {
            for s in p.iter_mut() {
                if r.chance(1, 4) {
                    s.jump = r.below(12_000_000_000);
                }
            }
        }
        2 => {
            for s in p.iter_mut() {
                if r.chance(1, 4) {
                    s.jump = r.below(MAX / n);
                }
            }
        }
        3 => {
            // the calls around the largest time
            p[r.below(n) as usize].jump = MAX - r.below(400_000);
            for s in p.iter_mut() {
                if r.chance(1, 3) {
                    s.jump += r.below(100_000);
                }
                // a second panic while unwinding would end the process
                if s.how == "unwind" {
                    s.how = "drop".into();
                }
            }
        }
        _ => {}
    }
}
fn record(cx: &Cx, out: &mut Out, dir: &Scratch, r: &mut Rng) {
    for c in &cx.cases {
        let mut p = steps_of(c, r);
        if r.chance(1, 3) {
            jumps(r, &mut p);
        }
        out.emit("model", run_steps(dir, &p, true, 3000));
    }
    for _ in 0..cx.n(300, 4000) {
        let n = r.range(3, 40) as usize;
        let mut p = rand_steps(r, 1, n, false);
        jumps(r, &mut p);
        out.emit("one-thread", run_steps(dir, &p, true, 1000));
    }
    for _ in 0..cx.n(150, 2000) {
        let n = r.range(6, 40) as usize;
        let nth = r.range(2, 4) as usize;
        let mut p = rand_steps(r, nth, n, true);
        jumps(r, &mut p);
        out.emit("turns", run_steps(dir, &p, true, 1000));
    }
    for _ in 0..cx.n(250, 4000) {
        let nth = r.range(2, 6) as usize;
        let n = if r.chance(1, 10) { 300 } else { r.range(6, 60) as usize };
        // A guard handed over must not wait for a step of a thread that waits in turn: hand over
        // only to later steps, which the order of the program guarantees.
        let mut p = rand_steps(r, nth, n, true);
        jumps(r, &mut p);
        let gap = *r.pick(&[0, 500]);
        out.emit("free", run_steps(dir, &p, false, gap));
    }
    // more events than fit on a page
    for _ in 0..cx.n(1, 6) {
        let mut p = rand_steps(r, 1, 12, false);
        for k in 0..3 {
            let mut s = p[0].clone();
            s.op = "burst".into();
            s.g = r.range(2000, 5000);
            s.v = k;
            s.label = r.below(3);
            let at = r.below(p.len() as u64) as usize;
            p.insert(at, s);
        }
        out.emit("pages", run_steps(dir, &p, true, 0));
    }
}

// ---------------------------------------------------------------- E03

/// Runs in a process of its own with arguments of all kinds: writes a profile.
pub fn child() {
    use std::os::unix::ffi::OsStringExt;
    let v = |n: &str| std::path::PathBuf::from(std::ffi::OsString::from_vec(std::env::var_os(n).unwrap().into_vec()));
    let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as u64;
    let t0 = now();
    let p = Profiler::new(v("MMV_PATH"));
    let t1 = now();
    let r = match p {
        Ok(p) => {
            let k = p.alloc_string("kind");
            for i in 0..3 {
                p.record_integer_event(k, EventId::from_label(k), 0, i);
            }
            "ok"
        }
        Err(_) => "fail",
    };
    std::fs::write(v("MMV_RESULT"), json!({"r": r, "t0": t0, "t1": t1, "pid": std::process::id()}).to_string()).unwrap();
}

fn arg_text(r: &mut Rng) -> String {
    let n = *r.pick(&[0, 1, 1, 2, 3, 6, 20]);
    (0..n)
        .map(|_| match r.below(12) {
            0 => '"',
            1 => '\\',
            2 => '\'',
            3 => char::from_u32(r.range(1, 31) as u32).unwrap(),
            4 => *r.pick(&['\u{7f}', '\u{80}', '\u{a0}', '\u{2028}', '\u{feff}', '\u{fffd}', '\u{fffe}']),
            5 => *r.pick(&['é', 'ß', '€', '日', '\u{1f600}', '\u{10ffff}']),
            6 => ' ',
            7 => *r.pick(&['{', '}', '/', 'u', 'n', '%', '$']),
            _ => (b'a' + r.below(26) as u8) as char,
        })
        .collect()
}
fn run_child(dir: &Scratch, args: &[String], stem: &std::path::Path) -> (Value, std::path::PathBuf) {
    let res = dir.path("result");
    let _ = std::fs::remove_file(&res);
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("child").args(args).env("MMV_PATH", stem).env("MMV_RESULT", &res).stderr(std::process::Stdio::null());
    let st = c.status().unwrap();
    let me = std::env::current_exe().unwrap().to_string_lossy().into_owned();
    let mut all = vec![me, "child".to_string()];
    all.extend(args.iter().cloned());
    let aj: Vec<Value> = all.iter().map(|a| text_json(a)).collect();
    let o: Value = match (st.success(), std::fs::read_to_string(&res)) {
        (true, Ok(s)) => serde_json::from_str(&s).unwrap(),
        _ => json!({"r": "crash", "t0": 0, "t1": 0, "pid": 0}),
    };
    let path = stem.with_extension("mm_profdata");
    (
        json!({"op": "process", "args": aj, "r": o["r"], "pid": tid_json(o["pid"].as_u64().unwrap() as u32),
            "t0": limbs(o["t0"].as_u64().unwrap()), "t1": limbs(o["t1"].as_u64().unwrap())}),
        path,
    )
}
fn listing(root: &std::path::Path) -> Vec<Value> {
    fn go(p: &std::path::Path, pre: &str, v: &mut Vec<(String, Value)>) {
        for e in std::fs::read_dir(p).unwrap() {
            let e = e.unwrap();
            let n = format!("{}{}", pre, e.file_name().to_string_lossy());
            if e.file_type().unwrap().is_dir() {
                v.push((n.clone(), json!([n, "dir"])));
                go(&e.path(), &format!("{}/", n), v);
            } else {
                let b = std::fs::read(e.path()).unwrap();
                let what = if b.starts_with(b"old") { "old".to_string() } else { format!("profile") };
                v.push((n.clone(), json!([n, what])));
            }
        }
    }
    let mut v = vec![];
    go(root, "", &mut v);
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v.into_iter().map(|x| x.1).collect()
}
fn opened(path: &std::path::Path) -> Value {
    match open(path) {
        Ok(d) => {
            let m = d.metadata();
            json!({"op": "open", "r": "ok", "pid": tid_json(m.process_id), "cmd": text_json(&m.cmd),
                "start": limbs(since(m.start_time, std::time::UNIX_EPOCH)),
                "ints": d.iter().map(|l| light(&l, m.start_time)).map(|(_, v, _)| v.min(9)).collect::<Vec<_>>(), "num": d.num_events()})
        }
        Err(e) => json!({"op": "open", "r": "fail", "why": e, "pid": [0, 0], "cmd": [], "start": limbs(0), "ints": [], "num": 0}),
    }
}
fn describe(cx: &Cx, out: &mut Out, dir: &Scratch, r: &mut Rng) {
    // every character of the first planes' interesting parts, in some argument
    let mut alls: Vec<Vec<String>> = vec![];
    for c in (1..=0x110u32).chain([0x2027, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff]) {
        let ch = char::from_u32(c).unwrap();
        alls.push(vec![format!("{}", ch), format!("a{}b", ch), format!("{}{}", ch, ch)]);
    }
    if !cx.thorough {
        // several characters per process
        alls = alls.chunks(4).map(|c| c.concat()).collect();
    }
    // the texts of the model of the command line, many to a process
    let of = |c: &str, k: usize| match c {
        "quote" => '"',
        "slash" => '\\',
        "control" => ['\t', '\u{1}', '\u{1f}', '\n', '\u{8}'][k % 5],
        "u" => 'u',
        "blank" => ' ',
        _ => ['a', '\'', 'é', '\u{7f}'][k % 4],
    };
    let texts: Vec<String> = cx.cases.iter().enumerate().map(|(k, c)| {
        c["arg"].as_array().unwrap().iter().map(|x| of(x.as_str().unwrap(), k)).collect()
    }).collect();
    for c in texts.chunks(if cx.thorough { 1 } else { 5 }) {
        alls.push(c.to_vec());
    }
    for _ in 0..cx.n(120, 2500) {
        alls.push((0..r.below(6)).map(|_| arg_text(r)).collect());
    }
    alls.push(vec!["x".repeat(100_000)]);
    alls.push((0..3000).map(|i| format!("--arg{}", i)).collect());
    for a in alls {
        let (p, path) = run_child(dir, &a, &dir.path("d"));
        let ops = vec![p, opened(&path)];
        out.emit("args", ops);
    }
    // output paths: what is there before, and what is asked for
    let stems = ["p", "p.x", "a/p", "a/b/c/p", "a/p.mm_profdata", "p.mm_profdata", "a.d/p", "./a/p", "a/./p", "é ü/ö", ".hidden", "a//p", "p q\"'"];
    for k in 0..cx.n(260, 2600) {
        let root = dir.path("root");
        let _ = std::fs::remove_dir_all(&root);
        std::fs::create_dir_all(&root).unwrap();
        let stem = if k < 2 * stems.len() { stems[k / 2] } else { *r.pick(&stems) };
        for s in stems {
            let f = root.join(s).with_extension("mm_profdata");
            if r.chance(1, 4) {
                std::fs::create_dir_all(f.parent().unwrap()).unwrap();
                let n = *r.pick(&[0usize, 10, 5000]);
                std::fs::write(&f, [b"old".to_vec(), vec![7; n]].concat()).unwrap();
            }
            if r.chance(1, 6) {
                let f = root.join(s);
                std::fs::create_dir_all(f.parent().unwrap()).unwrap();
                if !f.exists() {
                    std::fs::write(&f, b"old").unwrap();
                }
            }
        }
        let mut ops = vec![json!({"op": "tree", "files": listing(&root)})];
        let times = r.range(1, 2);
        for j in 0..times {
            let n = r.below(4);
            let res = catch(|| {
                let p = Profiler::new(root.join(stem)).map_err(|e| e.to_string())?;
                let k = p.alloc_string("kind");
                for i in 0..n {
                    p.record_integer_event(k, EventId::from_label(k), 0, i + j);
                }
                Ok::<(), String>(())
            });
            let rr = match res {
                Ok(Ok(())) => "ok",
                Ok(Err(_)) => "fail",
                Err(_) => "panic",
            };
            let target = std::path::PathBuf::from(stem).with_extension("mm_profdata");
            let norm: Vec<String> = target.components().filter_map(|c| match c {
                std::path::Component::Normal(s) => Some(s.to_string_lossy().into_owned()),
                _ => None,
            }).collect();
            let dirs: Vec<String> = (1..norm.len()).map(|i| norm[..i].join("/")).collect();
            ops.push(json!({"op": "create", "stem": stem, "file": norm.join("/"), "dirs": dirs, "r": rr, "n": n, "first": j}));
            ops.push(json!({"op": "list", "files": listing(&root)}));
            let mut o = opened(&root.join(stem));
            o["op"] = json!("reopen");
            ops.push(o);
        }
        out.emit("paths", ops);
    }
}
