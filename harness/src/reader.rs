//! Reading profiles: R01 (iterating), R02 (formats), R03 (refusing), R04 (after a crash).
use crate::iohook::{self, Fault};
use crate::prof::*;
use crate::strings::{Comp, Id, Tab};
use crate::util::*;
use analyzeme::ProfilingData;
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
use std::time::UNIX_EPOCH;

pub fn run(cx: &Cx, out: &mut Out) {
    let dir = Scratch::new("reader");
    let mut r = Rng::new(cx.seed);
    match cx.mode.as_str() {
        "query" => query(cx, out, &dir, &mut r),
        "iter" => iter(cx, out, &dir, &mut r),
        "formats" => formats(cx, out, &dir, &mut r),
        "refuse" => refuse(cx, out, &dir, &mut r),
        "crash" => crash(cx, out, &dir, &mut r),
        m => panic!("unknown mode {}", m),
    }
}

// ---------------------------------------------------------------- R01

type Got = Value;
/// An iterator with what it hands out put into JSON only afterwards, so that every call is the iterator's own.
struct Native<I, F>(I, F);
impl<I: ExactSizeIterator + DoubleEndedIterator, F: Fn(I::Item) -> Got> Native<I, F> {
    fn step(&mut self, op: &str, n: usize, r: &mut Rng) -> Vec<Got> {
        let it = &mut self.0;
        let x = match (op, n) {
            ("next", 0) if r.chance(1, 6) => it.nth(0),
            ("next", 0) if r.chance(1, 6) => it.find(|_| true),
            ("next", 0) => it.next(),
            ("next", n) if r.chance(1, 6) => {
                let mut k = 0;
                it.find(|_| {
                    k += 1;
                    k > n
                })
            }
            ("next", n) if r.chance(1, 6) => it.skip(n).next(),
            ("next", n) => it.nth(n),
            (_, 0) if r.chance(1, 6) => it.nth_back(0),
            (_, 0) if r.chance(1, 6) => it.rfind(|_| true),
            (_, 0) => it.next_back(),
            (_, n) if r.chance(1, 6) => it.rev().nth(n),
            (_, n) => it.nth_back(n),
        };
        x.into_iter().map(&self.1).collect()
    }
    fn rest(self, how: &str) -> Value {
        let Native(it, f) = self;
        let fold = |mut v: Vec<Got>, x: I::Item| {
            v.push(f(x));
            v
        };
        match how {
            "count" => json!(it.count()),
            "last" => json!(it.last().into_iter().map(f).collect::<Vec<_>>()),
            "rev" => json!(it.rev().map(f).collect::<Vec<_>>()),
            "rfold" => json!(it.rfold(vec![], fold)),
            "fold" => json!(it.fold(vec![], fold)),
            "each" => {
                let mut v = vec![];
                it.for_each(|x| v.push(f(x)));
                json!(v)
            }
            "loop" => {
                let mut v = vec![];
                for x in it {
                    v.push(f(x));
                }
                json!(v)
            }
            "step" => json!(it.step_by(1).map(f).collect::<Vec<_>>()),
            "vec" => {
                let v: Vec<I::Item> = it.collect();
                json!(v.into_iter().map(f).collect::<Vec<_>>())
            }
            _ => json!(it.map(f).collect::<Vec<_>>()),
        }
    }
}
const HOW: [&str; 10] = ["count", "last", "rev", "rfold", "fold", "each", "loop", "step", "vec", "all"];

fn walk(d: &ProfilingData, prog: &[(String, u64)], full: bool, r: &mut Rng, ops: &mut Vec<Value>) {
    let start = d.metadata().start_time;
    ops.push(json!({"op": "iter", "full": full}));
    if full {
        let conv = |e: analyzeme::Event<'_>| {
            let f = full_of(&e, start);
            json!({"light": {"ty": f.ty, "v1": limbs(f.v1), "v2": limbs(f.v2), "tid": tid_json(f.tid)}, "full": f.json(), "pos": -1})
        };
        walk_it(Native(d.iter_full(), conv), prog, r, ops)
    } else {
        let conv = |l: analyzeme::LightweightEvent| {
            json!({"light": light_json(&l, start), "full": full_of(&d.to_full_event(&l), start).json(), "pos": l.event_index})
        };
        walk_it(Native(d.iter(), conv), prog, r, ops)
    }
}
fn walk_it<I: ExactSizeIterator + DoubleEndedIterator, F: Fn(I::Item) -> Got>(
    mut it: Native<I, F>,
    prog: &[(String, u64)],
    r: &mut Rng,
    ops: &mut Vec<Value>,
) {
    let look = |it: &Native<I, F>, ops: &mut Vec<Value>| {
        let a = catch(|| it.0.len());
        ops.push(json!({"op": "len", "got": a.map_or(-1, |x| x as i64)}));
        let b = catch(|| it.0.size_hint()).unwrap_or((999_999, None));
        ops.push(json!({"op": "size", "lower": b.0, "upper": b.1.map_or(-1, |x| x as i64)}));
    };
    look(&it, ops);
    for (op, n) in prog {
        let got = catch(|| it.step(op, *n as usize, r));
        let g = match got {
            Ok(x) => x,
            Err(e) => vec![json!({"panic": e, "light": [], "full": []}); 2],
        };
        ops.push(json!({"op": op, "n": n, "got": g}));
        look(&it, ops);
    }
    let how = *r.pick(&HOW);
    let got = catch(|| it.rest(how));
    ops.push(json!({"op": "rest", "how": how, "got": got.unwrap_or(json!([[], [], []]))}));
}
fn rec_ops(m: &Meta, evs: &[Ev]) -> Vec<Value> {
    let mut ops = vec![m.json()];
    ops.extend(evs.iter().map(|e| json!({"op": "rec", "ev": e.json(), "r": "ok"})));
    ops
}
fn written(dir: &Scratch, n: usize, old: bool, r: &mut Rng) -> (ProfilingData, Vec<Value>) {
    let m = Meta::rand(r);
    let evs: Vec<Ev> = (0..n).map(|_| rand_event(r)).collect();
    let p = dir.path(&format!("iter.{}.mm_profdata", r.below(1000)));
    if old {
        v8::write(&p, &m, &evs, Style::Plain);
    } else {
        v9::write(&p, &m, &evs, Style::Fancy(r.next()));
    }
    let d = open(&p).expect("a profile that was just written opens");
    let _ = std::fs::remove_file(&p);
    (d, rec_ops(&m, &evs))
}
fn iter(cx: &Cx, out: &mut Out, dir: &Scratch, r: &mut Rng) {
    for c in &cx.cases {
        let n = c["n"].as_u64().unwrap() as usize;
        let prog: Vec<(String, u64)> =
            c["prog"].as_array().unwrap().iter().map(|o| (o[0].as_str().unwrap().to_string(), o[1].as_u64().unwrap())).collect();
        let (d, mut ops) = written(dir, n, r.chance(1, 4), r);
        for full in [false, true] {
            walk(&d, &prog, full, r, &mut ops);
        }
        out.emit("model", ops);
    }
    for _ in 0..cx.n(150, 3000) {
        let n = r.below(40) as usize;
        let (d, mut ops) = written(dir, n, r.chance(1, 4), r);
        for _ in 0..3 {
            let prog: Vec<(String, u64)> = (0..r.below(30))
                .map(|_| (r.pick(&["next", "next_back"]).to_string(), if r.chance(1, 5) { r.below(6) } else if r.chance(1, 30) { r.below(60) } else { 0 }))
                .collect();
            walk(&d, &prog, r.chance(1, 2), r, &mut ops);
        }
        ops.push(read_op(Ok(d)));
        out.emit("random", ops);
    }
    // more events than fit on a page
    for k in 0..cx.n(1, 4) {
        let m = Meta::rand(r);
        let evs: Vec<Ev> = (0..9000)
            .map(|i| Ev { ty: "integer", v1: i, v2: 0, tid: (i % 3) as u32, kind: "k".into(), label: "l".into(), args: vec![] })
            .collect();
        let p = dir.path("big.mm_profdata");
        if k == 1 {
            v8::write(&p, &m, &evs, Style::Plain);
        } else {
            v9::write(&p, &m, &evs, Style::Plain);
        }
        let d = open(&p).unwrap();
        // only the events near the page's end, from both sides
        let mut ops = vec![m.json(), json!({"op": "many", "n": evs.len()})];
        let far = [0usize, 1, 8189, 8190, 8191, 8192, 8193, 8998, 8999];
        for f in far {
            let a = d.iter().nth(f).map(|l| (l.event_index, light(&l, d.metadata().start_time).1, full_of(&d.to_full_event(&l), d.metadata().start_time).v1));
            let b = d.iter().nth_back(8999 - f).map(|l| (l.event_index, light(&l, d.metadata().start_time).1, full_of(&d.to_full_event(&l), d.metadata().start_time).v1));
            for (i, v, w) in [a.unwrap(), b.unwrap()] {
                ops.push(json!({"op": "at", "want": f, "pos": i, "light": v, "full": w}));
            }
        }
        let all: Vec<u64> = d.iter().map(|l| light(&l, d.metadata().start_time).1).collect();
        ops.push(json!({"op": "whole", "n": all.len(), "up": all.windows(2).all(|w| w[1] == w[0] + 1), "first": all[0], "num": d.num_events()}));
        out.emit("big", ops);
    }
}

// ---------------------------------------------------------------- R05

/// What the forms of an event answer, those that are not asked by calling something left out.
fn ask(d: &ProfilingData, l: &analyzeme::LightweightEvent) -> Value {
    let start = d.metadata().start_time;
    let time = |t: Option<std::time::SystemTime>| -> Value { json!(t.into_iter().map(|t| limbs(since(t, start))).collect::<Vec<_>>()) };
    let dur = |t: Option<std::time::Duration>| -> Value { json!(t.into_iter().map(|t| limbs(t.as_nanos() as u64)).collect::<Vec<_>>()) };
    let num = |t: Option<u64>| -> Value { json!(t.into_iter().map(limbs).collect::<Vec<_>>()) };
    let stamp = |t: Option<analyzeme::Timestamp>| match t {
        None => json!({"integer": true}),
        Some(t) => json!({"integer": false, "instant": t.is_instant(), "start": time(Some(t.start())), "end": time(Some(t.end())), "duration": dur(t.duration())}),
    };
    let pay = |p: &analyzeme::EventPayload| {
        json!({"interval": p.is_interval(), "instant": p.is_instant(), "integer": p.is_integer(), "duration": dur(p.duration()), "value": num(p.integer())})
    };
    let f = d.to_full_event(l);
    json!({
        "light": {"start": time(l.start()), "end": time(l.end()), "duration": dur(l.duration()), "thread": tid_json(l.thread_id)},
        "lightstamp": stamp(l.timestamp()),
        "lightpayload": pay(&l.payload),
        "full": {"duration": dur(f.duration()), "value": num(f.integer()), "thread": tid_json(f.thread_id)},
        "fullstamp": stamp(f.payload.timestamp()),
        "fullpayload": pay(&f.payload),
    })
}
fn hash_of<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn query_one(d: &ProfilingData, evs: &[Ev], pairs: &[(usize, usize)], r: &mut Rng, ops: &mut Vec<Value>) {
    let start = d.metadata().start_time;
    let n = evs.len();
    let ls: Vec<analyzeme::LightweightEvent> = if r.chance(1, 2) {
        d.iter().collect()
    } else {
        let mut v: Vec<_> = d.iter().rev().collect();
        v.reverse();
        v
    };
    assert!(ls.len() == n, "{} events instead of {}", ls.len(), n);
    let fs: Vec<analyzeme::Event<'_>> = if r.chance(1, 2) { d.iter_full().collect() } else { ls.iter().map(|l| d.to_full_event(l)).collect() };
    let got = |x: Result<Value, String>| x.unwrap_or(json!({"panic": {"panic": true}}));
    for k in 0..n {
        ops.push(json!({"op": "ask", "k": k + 1, "got": got(catch(|| ask(d, &ls[k])))}));
    }
    for &(k, j) in pairs {
        let c = catch(|| json!({"light": ls[k].contains(&ls[j]), "full": fs[k].contains(&fs[j]), "payload": ls[k].payload.contains(&fs[j].payload)}));
        let again = d.iter().nth(k).unwrap();
        ops.push(json!({"op": "pair", "k": k + 1, "j": j + 1, "contains": got(c),
            "same": {"payload": fs[k].payload == ls[j].payload, "full": fs[k] == fs[j], "light": again == ls[j],
                     "hash": hash_of(&fs[k]) == hash_of(&fs[j])}}));
    }
    // points of time around those of the events
    let mut points: Vec<u64> = evs.iter().filter(|e| e.ty != "integer").flat_map(|e| [e.v1, e.v2]).collect();
    points.push(rand_value(r));
    for k in 0..n {
        if let Some(t) = ls[k].timestamp() {
            for _ in 0..4 {
                let p = *r.pick(&points);
                let p = match r.below(4) {
                    0 => p + 1,
                    1 => p.saturating_sub(1),
                    _ => p,
                };
                let got = catch(|| t.contains(at(start, p)));
                ops.push(json!({"op": "point", "k": k + 1, "at": limbs(p), "early": false, "got": got.map_or(json!("panic"), |b| json!(b))}));
            }
            let before = UNIX_EPOCH - std::time::Duration::from_nanos(1 + r.below(1000));
            ops.push(json!({"op": "point", "k": k + 1, "at": limbs(0), "early": true, "got": t.contains(before)}));
        }
    }
}
fn query(cx: &Cx, out: &mut Out, dir: &Scratch, r: &mut Rng) {
    let mut one = |tag: &str, evs: Vec<Ev>, pairs: Vec<(usize, usize)>, r: &mut Rng, out: &mut Out| {
        let m = Meta::rand(r);
        let p = dir.path("query.mm_profdata");
        if r.chance(1, 4) {
            v8::write(&p, &m, &evs, Style::Plain);
        } else {
            v9::write(&p, &m, &evs, Style::Fancy(r.next()));
        }
        let d = open(&p).expect("a profile that was just written opens");
        let _ = std::fs::remove_file(&p);
        let mut ops = rec_ops(&m, &evs);
        query_one(&d, &evs, &pairs, r, &mut ops);
        out.emit(tag, ops);
    };
    for c in &cx.cases {
        // few points of time stand for any increasing ones
        let mut ts: Vec<u64> = vec![];
        while ts.len() < 4 {
            let v = rand_value(r).min(MAX_INTERVAL);
            if r.chance(1, 3) {
                ts = (0..4).map(|i| v.min(MAX_INTERVAL - 4) + i).collect();
            } else if !ts.contains(&v) {
                ts.push(v);
            }
        }
        ts.sort();
        let evs: Vec<Ev> = c["evs"].as_array().unwrap().iter().map(|e| {
            let ty = ["interval", "instant", "integer"].into_iter().find(|t| *t == e[0]).unwrap();
            let v = |k: usize| ts[e[k].as_u64().unwrap() as usize];
            Ev { ty, v1: v(1), v2: if ty == "interval" { v(2) } else { 0 }, tid: r.below(2) as u32, kind: "Query".into(), label: "q".into(), args: vec![] }
        }).collect();
        one("model", evs, vec![(0, 1), (1, 0), (0, 0)], r, out);
    }
    for _ in 0..cx.n(800, 12000) {
        let n = 1 + r.below(8) as usize;
        let mut evs: Vec<Ev> = vec![];
        for _ in 0..n {
            let mut e = rand_event(r);
            // twins, and events that share a time or differ in one thing only
            if !evs.is_empty() && r.chance(1, 2) {
                let o = r.pick(&evs).clone();
                match r.below(6) {
                    0 => e = o,
                    1 => e = Ev { tid: e.tid, ..o },
                    2 => e = Ev { label: e.label, ..o },
                    3 => e = Ev { args: e.args, ..o },
                    4 => e = Ev { kind: e.kind, ..o },
                    _ if e.ty == o.ty => {
                        e.v1 = o.v1;
                        if e.ty == "interval" {
                            e.v2 = e.v2.max(e.v1)
                        }
                    }
                    _ => {}
                }
            }
            evs.push(e);
        }
        let pairs = (0..n).flat_map(|k| (0..n).map(move |j| (k, j))).collect();
        one("random", evs, pairs, r, out);
    }
}

// ---------------------------------------------------------------- R02

fn formats(cx: &Cx, out: &mut Out, dir: &Scratch, r: &mut Rng) {
    let mut one = |m: &Meta, evs: &[Ev], tag: &str, r: &mut Rng, out: &mut Out| {
        let (a, b) = (dir.path("old.mm_profdata"), dir.path("new.mm_profdata"));
        let style = |r: &mut Rng| if r.chance(1, 2) { Style::Plain } else { Style::Fancy(r.next()) };
        v8::write(&a, m, evs, style(r));
        v9::write(&b, m, evs, style(r));
        let mut ops = rec_ops(m, evs);
        ops.push(read_op(open(&a)));
        ops.push(read_op(open(&b)));
        out.emit(tag, ops);
    };
    // the boundary values of the model of the encoding
    let maxv = cx.cases.iter().flat_map(|c| [c["ev"][1].as_u64(), c["ev"][2].as_u64()]).flatten().max().unwrap_or(0);
    let low = if maxv > 70 { 4 } else { 3 };
    let evs: Vec<Ev> = cx.cases.iter().map(|c| {
        let ty = match c["ev"][0].as_str().unwrap() {
            "interval" => "interval",
            "instant" => "instant",
            _ => "integer",
        };
        let v = |k: usize| crate::events::real(c["ev"][k].as_u64().unwrap(), low);
        Ev { ty, v1: v(1), v2: v(2), ..rand_event(r) }
    }).filter(|e| e.in_range()).collect();
    for c in evs.chunks(40) {
        one(&Meta::rand(r), c, "model", r, out);
    }
    // every type with the values at the limits of the encoding
    let edge: Vec<u64> = vec![0, 1, 2, 0xfffe, 0xffff, 0x10000, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_ffff,
        0xffff_0000_0000, 0x7fff_ffff_ffff, MAX_INTERVAL - 1, MAX_INTERVAL];
    let mut evs = vec![];
    for &x in &edge {
        for &y in &edge {
            if x <= y {
                evs.push(Ev { ty: "interval", v1: x, v2: y, ..rand_event(r) });
            }
        }
    }
    for x in edge.iter().copied().chain([MAX_SINGLE, MAX_SINGLE - 1]) {
        for ty in ["instant", "integer"] {
            evs.push(Ev { ty, v1: x, v2: 0, ..rand_event(r) });
        }
    }
    for c in evs.chunks(20) {
        one(&Meta::rand(r), c, "limits", r, out);
    }
    one(&Meta::rand(r), &[], "empty", r, out);
    for t in [0u32, 1, 0xfe, 0xff, 0xfefe, 0xffff, 0x10000, 0xfefefefe, 0xffffffff] {
        let e: Vec<Ev> = (0..3).map(|_| Ev { tid: t, ..rand_event(r) }).collect();
        let m = Meta { pid: t, cmd: format!("rustc {}", t), start: r.next() >> 2 };
        one(&m, &e, "threads", r, out);
    }
    for cmd in ["", " ", "é€😀", "a\"b\\c\n\t\u{7f}", "{}", "<unknown>"] {
        one(&Meta { pid: 1, cmd: cmd.into(), start: 5 }, &[rand_event(r)], "metadata", r, out);
    }
    for start in [0u64, 1, 999_999_999, 1_000_000_000, 1_000_000_001, u32::MAX as u64, i64::MAX as u64, 9_223_372_036_854_775_807] {
        one(&Meta { pid: 1, cmd: "rustc".into(), start }, &[rand_event(r), rand_event(r)], "metadata", r, out);
    }
    for _ in 0..cx.n(400, 8000) {
        let n = *r.pick(&[1, 2, 3, 5, 10, 30]);
        let evs: Vec<Ev> = (0..n)
            .map(|_| {
                let mut e = rand_event(r);
                if r.chance(1, 8) {
                    e.label = "long label ".repeat(r.range(1, 400) as usize).trim_end().to_string();
                }
                if r.chance(1, 8) {
                    e.args = (0..r.range(1, 12)).map(|i| format!("é{}", i)).collect();
                }
                e
            })
            .collect();
        one(&Meta::rand(r), &evs, "random", r, out);
    }
}

// ---------------------------------------------------------------- R03

fn header(h: &Value, magic: &[u8; 4], r: &mut Rng) -> Vec<u8> {
    let mut b = magic.to_vec();
    if h["magic"] == "bad" {
        match r.below(4) {
            0 => b = r.pick(&[b"MMES", b"MMSD", b"MMSI", b"MMPD"]).iter().filter(|_| true).copied().collect(),
            1 => b[r.below(4) as usize] ^= 1 << r.below(8),
            2 => b.reverse(),
            _ => b = vec![0; 4],
        }
        if b == magic {
            b[0] ^= 0x20;
        }
    }
    b.extend((h["version"].as_u64().unwrap() as u32).to_le_bytes());
    b.truncate(h["len"].as_u64().unwrap() as usize);
    b
}
fn page(tag: u8, d: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    v.extend((d.len() as u32).to_le_bytes());
    v.extend(d);
    v
}
/// The file a case describes, with two integer events in it.
pub fn build(c: &Value, r: &mut Rng) -> Vec<u8> {
    let ver = c["top"]["version"].as_u64().unwrap();
    let text = match c["meta"].as_str().unwrap() {
        "broken" => r.pick(&["{", "", "[]", "{\"start_time\": 1}", "{\"start_time\": -1, \"process_id\": 1, \"cmd\": \"x\"}",
            "{\"start_time\": 1, \"process_id\": 1, \"cmd\": \"x}"]).to_string(),
        _ => "{\"start_time\": 1, \"process_id\": 1, \"cmd\": \"x\"}".to_string(),
    };
    let mut data = text.into_bytes();
    data.push(0xff);
    let k = 8 + data.len() as u64;
    data.extend(b"kind\xff");
    let old = ver == 8;
    let (first, meta) = special(old).expect("a string table can be written");
    let mut index = vec![];
    let mut id = |v: u64, o: &mut Vec<u8>| if old { o.extend((v as u32).to_le_bytes()) } else { o.extend(v.to_le_bytes()) };
    if c["meta"] != "missing" {
        id(meta, &mut index);
        id(8, &mut index);
    } else if r.chance(1, 2) {
        id(5, &mut index);
        id(8, &mut index);
    }
    let mut events = vec![];
    for v in [7u64, 8] {
        let mut b = vec![0; if old { 24 } else { 32 }];
        if old {
            use measureme_10::*;
            RawEvent::new_integer(StringId::new((first + k) as u32), EventId::from_label(StringId::new((first + k) as u32)), 1, v).serialize(&mut b);
        } else {
            use measureme::*;
            RawEvent::new_integer(StringId::new(first + k), EventId::from_label(StringId::new(first + k)), 1, v).serialize(&mut b);
        }
        events.extend(b);
    }
    let mut f = header(&c["top"], b"MMPD", r);
    let mut pages = vec![];
    for s in c["streams"].as_array().unwrap() {
        let (tag, magic, body) = match s["s"].as_str().unwrap() {
            "events" => (0u8, b"MMES", &events),
            "data" => (1, b"MMSD", &data),
            _ => (2, b"MMSI", &index),
        };
        let mut b = header(&s["h"], magic, r);
        if s["h"]["len"] == 8 {
            b.extend(body);
        }
        if r.chance(1, 4) && b.len() > 1 {
            // in two pages
            let m = r.range(1, b.len() as u64 - 1) as usize;
            pages.push((s["s"].clone(), page(tag, &b[..m])));
            pages.push((s["s"].clone(), page(tag, &b[m..])));
        } else {
            pages.push((s["s"].clone(), page(tag, &b)));
        }
    }
    // The streams come in any order, the pages of each in theirs.
    let mut order: Vec<Value> = pages.iter().map(|p| p.0.clone()).collect();
    r.shuffle(&mut order);
    for o in order {
        let at = pages.iter().position(|p| p.0 == o).unwrap();
        f.extend(pages.remove(at).1);
    }
    if c["top"]["len"].as_u64() < Some(8) {
        // Nothing follows a header that was cut.
        f.truncate(c["top"]["len"].as_u64().unwrap() as usize);
    }
    f
}
/// (first regular string id, metadata id) of a format, found by writing a table.
fn special(old: bool) -> Option<(u64, u64)> {
    if old {
        use measureme_10::*;
        let b = SerializationSinkBuilder::new_in_memory();
        let (d, i) = (Arc::new(b.new_sink(PageTag::StringData)), Arc::new(b.new_sink(PageTag::StringIndex)));
        let t = StringTableBuilder::new(d.clone(), i.clone()).ok()?;
        t.alloc_metadata("");
        let x = t.alloc("a").as_u32() as u64;
        drop(t);
        let i = Arc::try_unwrap(i).ok()?.into_bytes();
        Some((x - 9, u32::from_le_bytes(i[8..12].try_into().ok()?) as u64))
    } else {
        use measureme::*;
        let b = SerializationSinkBuilder::new_in_memory();
        let (d, i) = (Arc::new(b.new_sink(PageTag::StringData)), Arc::new(b.new_sink(PageTag::StringIndex)));
        let t = StringTableBuilder::new(d.clone(), i.clone()).ok()?;
        t.alloc_metadata("");
        let x = t.alloc("a").as_u64();
        drop(t);
        let i = Arc::try_unwrap(i).ok()?.into_bytes();
        Some((x - 9, u64::from_le_bytes(i[8..16].try_into().ok()?)))
    }
}
fn try_open(d: Result<Result<ProfilingData, String>, String>) -> (&'static str, Value) {
    match d {
        Ok(Ok(d)) => {
            let v = catch(|| {
                d.iter().map(|l| light(&l, d.metadata().start_time).1).collect::<Vec<_>>()
            });
            ("ok", json!(v.unwrap_or_default()))
        }
        Ok(Err(_)) => ("err", json!([])),
        Err(_) => ("panic", json!([])),
    }
}
fn refuse(cx: &Cx, out: &mut Out, dir: &Scratch, r: &mut Rng) {
    let attempt = |c: &Value, tag: &str, r: &mut Rng, out: &mut Out| {
        let b = build(c, r);
        let mut ops = vec![];
        let (x, v) = try_open(catch(|| ProfilingData::from_paged_buffer(b.clone(), None).map_err(|e| e.to_string())));
        ops.push(json!({"op": "open", "how": "buffer", "file": c, "r": x, "values": v}));
        let p = dir.path("refuse.mm_profdata");
        std::fs::write(&p, &b).unwrap();
        let (x, v) = try_open(catch(|| ProfilingData::new(&dir.path("refuse")).map_err(|e| e.to_string())));
        ops.push(json!({"op": "open", "how": "file", "file": c, "r": x, "values": v}));
        let top_is_9 = c["top"]["len"] == 8 && c["top"]["magic"] == "good" && c["top"]["version"] == 9;
        if top_is_9 || r.chance(1, 4) {
            // The decoder of the current version on its own.
            if c["top"]["version"] == 9 {
                let x = match catch(|| decodeme::EventDecoder::new(b.clone(), Some(&p)).map(|d| d.num_events())) {
                    Ok(Ok(_)) => "ok",
                    Ok(Err(_)) => "err",
                    Err(_) => "panic",
                };
                ops.push(json!({"op": "open", "how": "decoder", "file": c, "r": x, "values": [7, 8]}));
            }
        }
        out.emit(tag, ops);
    };
    for c in &cx.cases {
        attempt(c, "model", r, out);
    }
    let good = |v: u64| {
        let h = json!({"len": 8, "magic": "good", "version": v});
        json!({"top": h, "meta": "good", "streams": [{"s": "events", "h": h}, {"s": "data", "h": h}, {"s": "index", "h": h}]})
    };
    // all the versions nearby, and others
    for v in (0..300).chain([512, 2048, 2305, 0x900, 0x90000, 0x9000000, 0x8000000, 65536 + 9, 0x7fffffff]) {
        attempt(&good(v), "versions", r, out);
        // the file's version is another than that of its streams
        let mut c = good(9);
        c["top"]["version"] = json!(v);
        if v != 9 && v != 8 {
            attempt(&c, "versions", r, out);
        }
        let mut c = good(9);
        c["streams"][r.below(3) as usize]["h"]["version"] = json!(v);
        attempt(&c, "versions", r, out);
    }
    for _ in 0..cx.n(200, 5000) {
        let mut c = good(*r.pick(&[9, 9, 9, 8]));
        for _ in 0..r.range(0, 2) {
            let k = r.below(4) as usize;
            let h = if k == 3 { &mut c["top"] } else { &mut c["streams"][k]["h"] };
            match r.below(3) {
                0 => h["len"] = json!(r.below(7) + 1),
                1 => h["magic"] = json!("bad"),
                _ => h["version"] = json!(r.below(0x7fff_ffff)),
            }
        }
        attempt(&c, "random", r, out);
    }
    // other contents altogether
    for n in 0..64usize {
        let b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
        let (x, v) = try_open(catch(|| ProfilingData::from_paged_buffer(b.clone(), None).map_err(|e| e.to_string())));
        let c = json!({"top": {"len": n.min(8), "magic": "bad", "version": 0}, "meta": "good", "streams": []});
        out.emit("noise", vec![json!({"op": "open", "how": "buffer", "file": c, "r": x, "values": v})]);
    }
    // paths at which there is no profile
    let nothing = dir.path("nothing");
    std::fs::create_dir_all(dir.path("dir.mm_profdata")).unwrap();
    for s in ["events", "string_data", "string_index"] {
        std::fs::write(dir.path(&format!("old3.{}", s)), b"x").unwrap();
    }
    std::fs::write(dir.path("plain"), b"MMPD").unwrap();
    std::fs::write(dir.path("empty.mm_profdata"), b"").unwrap();
    for p in [nothing.clone(), nothing.join("a/b"), dir.path("dir"), dir.path("old3"), dir.path("plain"), dir.path("empty"), dir.path("plain/x"), "".into(), "/".into()] {
        let (x, _) = try_open(catch(|| ProfilingData::new(&p).map_err(|e| e.to_string())));
        out.emit("paths", vec![json!({"op": "path", "path": p.to_string_lossy(), "there": false, "r": x})]);
    }
}

// ---------------------------------------------------------------- R04

struct Run {
    n: u64,
    ev: (&'static str, u64, u64, u32),
    full: Option<Ev>,
}
enum Snap {
    Fail,
    Ok(Value, usize, Vec<Run>),
}
fn meta_json(m: &analyzeme_meta::Metadata) -> Value {
    json!({"pid": tid_json(m.process_id), "cmd": text_json(&m.cmd), "start": limbs(since(m.start_time, UNIX_EPOCH))})
}
mod analyzeme_meta {
    pub use decodeme::Metadata;
}
fn examine(b: Vec<u8>) -> Snap {
    let Ok(Ok(d)) = catch(|| ProfilingData::from_paged_buffer(b, None).map_err(|e| e.to_string())) else { return Snap::Fail };
    let Ok(n) = catch(|| d.num_events()) else { return Snap::Fail };
    let start = d.metadata().start_time;
    let mut runs: Vec<Run> = vec![];
    let mut it = d.iter();
    for _ in 0..n {
        let Ok(l) = catch(|| it.next()) else { return Snap::Fail };
        let Some(l) = l else { return Snap::Ok(meta_json(d.metadata()), n, runs) };
        let (ty, v1, v2) = light(&l, start);
        let full = catch(|| full_of(&d.to_full_event(&l), start)).ok();
        if let Some(p) = runs.last_mut() {
            let mut same = p.full.clone();
            if let Some(f) = same.as_mut() {
                f.v1 += p.n;
            }
            if p.ev.0 == ty && p.ev.1 + p.n == v1 && p.ev.2 == v2 && p.ev.3 == l.thread_id && same == full {
                p.n += 1;
                continue;
            }
        }
        runs.push(Run { n: 1, ev: (ty, v1, v2, l.thread_id), full });
    }
    Snap::Ok(meta_json(d.metadata()), n, runs)
}
/// Cut the runs where the recorded groups of events end, so that they can be compared one to one.
fn shown(s: Snap, op: &str, groups: &[u64]) -> Value {
    let Snap::Ok(m, num, runs) = s else {
        return json!({"op": op, "r": "fail", "meta": [], "num": 0, "shown": []});
    };
    let mut ends: Vec<u64> = vec![];
    let mut at = 0;
    for g in groups {
        at += g;
        ends.push(at);
    }
    let (mut v, mut pos) = (vec![], 0u64);
    for r in runs {
        let mut off = 0;
        while off < r.n {
            let stop = ends.iter().copied().find(|e| *e > pos).map_or(r.n - off, |e| (e - pos).min(r.n - off));
            let l = |v1: u64| json!({"ty": r.ev.0, "v1": limbs(v1), "v2": limbs(r.ev.2), "tid": tid_json(r.ev.3)});
            let full = match &r.full {
                None => json!([]),
                Some(f) => json!([{"ev": {"ty": f.ty, "v1": limbs(f.v1 + off), "v2": limbs(f.v2), "tid": tid_json(f.tid)},
                    "kind": text_json(&f.kind), "label": text_json(&f.label),
                    "args": f.args.iter().map(|a| text_json(a)).collect::<Vec<_>>()}]),
            };
            v.push(json!({"n": stop, "light": l(r.ev.1 + off), "full": full}));
            off += stop;
            pos += stop;
        }
    }
    json!({"op": op, "r": "ok", "meta": m, "num": num, "shown": v})
}

/// The file with the pages of one or two streams cut short.
fn lost_pages(file: &[u8]) -> Vec<Vec<u8>> {
    let (mut pages, mut at) = (vec![], 8);
    while at + 5 <= file.len() {
        let n = 5 + u32::from_le_bytes(file[at + 1..at + 5].try_into().unwrap()) as usize;
        let Some(p) = file.get(at..at + n) else { break };
        pages.push(p);
        at += n;
    }
    let count = |t: u8| pages.iter().filter(|p| p[0] == t).count();
    let mut keeps = vec![];
    for t in 0..3u8 {
        for k in 0..count(t) {
            let mut keep = [usize::MAX; 3];
            keep[t as usize] = k;
            keeps.push(keep);
            for u in 0..t {
                keep[u as usize] = count(u).saturating_sub(1 + k % 2);
                keeps.push(keep);
            }
        }
    }
    let n = keeps.len();
    keeps
        .into_iter()
        .enumerate()
        .filter(|(i, _)| n <= 24 || i % (n / 24 + 1) == 0)
        .map(|(_, keep)| {
            let mut seen = [0; 3];
            let mut b = file[..8].to_vec();
            for p in &pages {
                let s = &mut seen[p[0] as usize];
                *s += 1;
                if *s <= keep[p[0] as usize] {
                    b.extend_from_slice(p);
                }
            }
            b
        })
        .collect()
}

struct Live {
    tab: Tab,
    path: std::path::PathBuf,
    snaps: Arc<Mutex<Vec<Snap>>>,
    groups: Vec<u64>,
    meta: Option<Value>,
    all: Vec<Value>,
    last: Option<Value>,
}
impl Live {
    fn new(dir: &Scratch, prof: bool, dense: bool, r: &mut Rng) -> Live {
        let path = dir.path("crash");
        let snaps = Arc::new(Mutex::new(vec![]));
        let mut disk: Vec<u8> = vec![];
        let s2 = snaps.clone();
        let mut rr = Rng::new(r.next());
        iohook::arm(
            None,
            Box::new(move |n, buf| {
                let mut cuts = vec![0, 1, 4, 5, 6, n / 2, n - n.min(1)];
                if dense {
                    cuts.extend((0..6).map(|_| rr.below(n as u64 + 1) as usize));
                }
                if n > 3000 {
                    cuts = vec![0, 5, n / 2, n - 1];
                }
                cuts.retain(|c| *c < n || n == 0);
                cuts.sort();
                cuts.dedup();
                for c in cuts {
                    let mut b = disk.clone();
                    b.extend(&buf[..c]);
                    let x = examine(b);
                    s2.lock().unwrap().push(x);
                }
                disk.extend(buf);
                Fault::None
            }),
        );
        let m = Meta { pid: r.next() as u32, cmd: "rustc --crate-name é".into(), start: 1_700_000_000_000_000_000 + r.below(1000) };
        let text = json!({"start_time": m.start, "process_id": m.pid, "cmd": m.cmd}).to_string();
        let tab = Tab::profile(&path, prof, &text);
        let mut mj = m.json();
        mj.as_object_mut().unwrap().remove("op");
        Live { tab, path, snaps, groups: vec![], meta: if prof { None } else { Some(mj) }, all: vec![], last: None }
    }
    fn drain(&mut self) {
        self.all.append(&mut self.tab.ops);
        let now = std::fs::read(self.path.with_extension("mm_profdata")).unwrap();
        let v: Vec<Snap> = std::mem::take(&mut *self.snaps.lock().unwrap());
        let some = !v.is_empty();
        for s in v {
            self.put(s);
        }
        if some {
            self.put(examine(now));
        }
    }
    fn put(&mut self, s: Snap) {
        let x = shown(s, "snap", &self.groups);
        if self.last.as_ref() != Some(&x) {
            self.last = Some(x.clone());
            self.all.push(x);
        }
    }
    fn event(&mut self, ty: &str, v1: u64, v2: u64, tid: u32, kind: Id, eid: Id, n: u64) {
        self.groups.push(n);
        self.tab.event(ty, v1, v2, tid, kind, eid, n);
        self.drain();
    }
    fn finish(mut self, order: &[usize]) -> Vec<Value> {
        self.tab.close(order);
        self.drain();
        iohook::disarm();
        let p = self.path.with_extension("mm_profdata");
        let whole = std::fs::read(&p).unwrap();
        // the machine dies as well: of every stream only some of the pages are there
        for b in lost_pages(&whole) {
            self.put(examine(b));
        }
        let s = examine(whole);
        let m = match (&self.meta, &s) {
            (Some(m), _) => m.clone(),
            (None, Snap::Ok(m, _, _)) => m.clone(),
            _ => json!([]),
        };
        self.all.push(shown(s, "final", &self.groups));
        let _ = std::fs::remove_file(&p);
        let mut ops = vec![json!({"op": "meta", "meta": m})];
        ops.append(&mut self.all);
        ops
    }
}
fn small_text(r: &mut Rng) -> String {
    r.pick(&["a", "bc", "label one", "é€", "x", "typeck", "<invalid>", ""]).to_string()
}
fn crash_step(l: &mut Live, r: &mut Rng, virt: u64) {
    let n = l.tab.ids.len() as u64;
    let any = |r: &mut Rng| -> Id {
        match r.below(8) {
            0 => Id::X,
            1 | 2 if virt > 0 => Id::M(1 + r.below(virt)),
            _ if n > 0 => Id::E(r.below(n) as usize),
            _ => Id::X,
        }
    };
    match r.below(if n < 2 { 4 } else { 12 }) {
        0..=3 => {
            let k = *r.pick(&[1, 1, 1, 2, 3]);
            let mut c: Vec<Comp> = (0..k)
                .map(|_| if r.chance(1, 2) { Comp::V(small_text(r)) } else { Comp::R(any(r)) })
                .collect();
            if r.chance(1, 16) {
                // longer than a page of the stream
                c.insert(r.below(c.len() as u64 + 1) as usize, Comp::V("L".repeat(*r.pick(&[262_139, 262_140, 262_144, 300_000, 600_000]))));
            }
            let how = r.below(3);
            l.tab.alloc(&c, how);
        }
        4 if virt > 0 => {
            let (v, e) = (1 + r.below(virt), r.below(n) as usize);
            if l.tab.may_map(v, e) {
                l.tab.map(v, e);
            }
        }
        5 | 6 if n > 1 => {
            let k = r.range(1, 3) as usize;
            let args: Vec<Id> = (0..k).map(|_| Id::E(r.below(n) as usize)).collect();
            let label = any(r);
            l.tab.event_id(label, &args, 2);
        }
        _ => {
            let e = rand_event(r);
            let (k, x) = (any(r), any(r));
            l.event(e.ty, e.v1.min(1 << 40), e.v2.max(1 << 40).min(MAX_INTERVAL), e.tid, k, x, 1);
        }
    }
    l.drain();
}
fn crash(cx: &Cx, out: &mut Out, dir: &Scratch, r: &mut Rng) {
    // By hand, flushing any stream at any time.
    for _ in 0..cx.n(500, 5000) {
        let mut l = Live::new(dir, false, r.chance(1, 2), r);
        let virt = r.below(4);
        for _ in 0..r.range(3, 14) {
            crash_step(&mut l, r, virt);
            while r.chance(1, 2) {
                let k = r.below(3) as usize;
                l.tab.flush(k);
                l.drain();
            }
        }
        let mut order = [0, 1, 2];
        r.shuffle(&mut order);
        out.emit("flush", l.finish(&order));
    }
    // Text first, so that what is missing is the rest of it.
    for k in 0..cx.n(120, 1000) {
        let mut l = Live::new(dir, false, true, r);
        for s in [2, 1] {
            l.tab.flush(s);
        }
        let a = l.tab.text("alpha");
        let b = l.tab.alloc(&[Comp::R(a), Comp::V(" and ".into()), Comp::R(Id::M(7)), Comp::V("z".repeat(1 + k % 40))], 0);
        let c = l.tab.event_id(a, &[b, a], 2);
        let mut todo = vec![0, 1, 2, 0, 1, 2];
        r.shuffle(&mut todo);
        for (j, s) in todo.into_iter().enumerate() {
            if j == 1 {
                l.tab.map(7, 0);
            }
            l.event("integer", 10 + j as u64, 0, j as u32, *r.pick(&[a, b, Id::M(7)]), *r.pick(&[a, b, c, Id::M(7)]), 1);
            l.tab.flush(s);
            l.drain();
        }
        out.emit("text", l.finish(&[0, 1, 2]));
    }
    // The profiler itself, with streams that fill their pages in different orders.
    for _ in 0..cx.n(14, 200) {
        let mut l = Live::new(dir, true, false, r);
        let k = l.tab.text("kind");
        for _ in 0..r.range(4, 10) {
            match r.below(4) {
                0 => {
                    // the index fills a page
                    let a = 1000 + r.below(1000) * 30_000;
                    l.tab.bulk(&[(a, a + 17_000)], r.below(l.tab.ids.len() as u64) as usize);
                }
                1 => {
                    l.tab.alloc(&[Comp::R(k), Comp::V("F".repeat(200_000 + r.below(70_000) as usize))], 0);
                    l.drain();
                }
                2 => {
                    let n = l.tab.ids.len() as u64;
                    let e = if n > 2 && r.chance(1, 3) { Id::E(n as usize - 1) } else { k };
                    let many = if e == k { 4000 + r.below(5000) } else { 1 + r.below(3) };
                    l.event("integer", r.below(1000), 0, r.next() as u32, k, e, many);
                }
                _ => crash_step(&mut l, r, 3),
            }
            l.drain();
        }
        out.emit("profiler", l.finish(&[]));
    }
}
