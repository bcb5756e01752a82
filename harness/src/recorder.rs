//! Histories of profiler calls in which some are refused or fail in the caller's own code (C06).
use crate::prof::*;
use crate::strings::{Comp, Id, Tab, FIRST, MAXV};
use crate::util::*;
use crate::clock;
use measureme::*;
use serde_json::{json, Value};
use std::collections::HashMap;

/// A serializer that fails: when asked for its size, or after writing `done` of its bytes.
struct Bad {
    n: usize,
    done: usize,
    size: bool,
}
impl SerializableString for Bad {
    fn serialized_size(&self) -> usize {
        if self.size {
            panic!("no size")
        }
        self.n
    }
    fn serialize(&self, bytes: &mut [u8]) {
        for (k, b) in bytes.iter_mut().take(self.done).enumerate() {
            *b = [0xff, 0xfe, b'j', 0x1e][k % 4];
        }
        panic!("no bytes")
    }
}
/// Ids of which the last makes the iterator fail.
struct Ids(Vec<StringId>, usize, bool);
impl Iterator for Ids {
    type Item = StringId;
    fn next(&mut self) -> Option<StringId> {
        self.1 += 1;
        if self.2 && self.1 == self.0.len() {
            panic!("no id")
        }
        self.0.get(self.1 - 1).copied()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.len() - self.1.min(self.0.len());
        (n, Some(n))
    }
}
impl ExactSizeIterator for Ids {}

/// A call that must fail.
#[derive(Clone, Debug)]
enum Call {
    Serializer(usize, usize),
    Size,
    /// ids, target, whether the iterator fails, whether it is a mapping of one id
    Map(Vec<u64>, u64, bool, bool),
    Integer(u64),
    Instant,
}
impl Call {
    fn json(&self) -> Value {
        match self {
            Call::Serializer(..) => json!({"f": "serializer"}),
            Call::Size => json!({"f": "size"}),
            Call::Map(_, _, true, _) => json!({"f": "iterator"}),
            Call::Map(ids, to, ..) => json!({"f": "map", "ids": ids.iter().map(|i| limbs(*i)).collect::<Vec<_>>(), "to": limbs(*to)}),
            Call::Integer(v) => json!({"f": "integer", "v": limbs(*v)}),
            Call::Instant => json!({"f": "instant"}),
        }
    }
    fn make(&self, p: &Profiler, kind: StringId, eid: EventId, tid: u32) {
        match self {
            Call::Serializer(n, done) => drop(p.alloc_string(&Bad { n: *n, done: *done, size: false })),
            Call::Size => drop(p.alloc_string(&Bad { n: 1, done: 0, size: true })),
            Call::Map(ids, to, _, true) => p.map_virtual_to_concrete_string(StringId::new(ids[0]), StringId::new(*to)),
            Call::Map(ids, to, it, false) => {
                p.bulk_map_virtual_to_single_concrete_string(Ids(ids.iter().map(|i| StringId::new(*i)).collect(), 0, *it), StringId::new(*to))
            }
            Call::Integer(v) => p.record_integer_event(kind, eid, tid, *v),
            Call::Instant => p.record_instant_event(kind, eid, tid),
        }
    }
}

struct H {
    t: Tab,
    path: std::path::PathBuf,
    held: HashMap<u64, DetachedTiming>,
    clock: u64,
    next: u64,
}
/// An hour, and more than fits an event.
const AHEAD: [u64; 3] = [0, 3_600_000_000_000, 1 << 49];

impl H {
    fn new(dir: &Scratch) -> H {
        clock::reset();
        H { t: Tab::new(dir, true), path: dir.path("strings"), held: HashMap::new(), clock: 0, next: 0 }
    }
    fn set_clock(&mut self, c: u64) {
        self.clock = c;
        clock::reset();
        clock::jump(AHEAD[c as usize]);
        self.t.ops.push(json!({"op": "clock", "to": c}));
    }
    fn newest(&self) -> Id {
        match self.t.ids.len() {
            0 => Id::X,
            n => Id::E(n - 1),
        }
    }
    fn any(&self, r: &mut Rng) -> Id {
        match r.below(6) {
            0 => Id::X,
            1 => Id::M(r.below(8)),
            _ if !self.t.ids.is_empty() => Id::E(r.below(self.t.ids.len() as u64) as usize),
            _ => Id::X,
        }
    }
    /// What an event is recorded with: a thread, a kind and an event id.
    fn who(&self, r: &mut Rng, newest: bool) -> (u32, Id, Id) {
        let tid = *r.pick(&[0, 1, 7, 65536, u32::MAX]);
        if newest {
            (tid, self.newest(), self.newest())
        } else {
            (tid, self.any(r), self.any(r))
        }
    }
    fn conc(&self, w: (u32, Id, Id)) -> (StringId, EventId) {
        (self.t.conc(w.1), EventId::from_u64(self.t.conc(w.2).as_u64()))
    }
    fn with(w: (u32, Id, Id), mut o: Value) -> Value {
        o["tid"] = tid_json(w.0);
        o["kind"] = w.1.json();
        o["eid"] = w.2.json();
        o
    }
    /// `away`: the call is made on another thread.
    fn refused(&mut self, c: &Call, around: bool, away: bool, w: (u32, Id, Id)) {
        let (k, e) = self.conc(w);
        let p = self.t.profiler();
        let f = || {
            catch(|| {
                let _g = if around { Some(p.start_recording_interval_event(k, e, w.0)) } else { None };
                c.make(p, k, e, w.0)
            })
            .is_ok()
        };
        let ok = if away { std::thread::scope(|s| s.spawn(f).join().unwrap()) } else { f() };
        let op = if ok { "accepted" } else if around { "refused_around" } else { "refused" };
        self.t.ops.push(H::with(w, json!({"op": op, "call": c.json()})));
    }
    fn integer(&mut self, v: u64, w: (u32, Id, Id)) {
        let (k, e) = self.conc(w);
        self.t.profiler().record_integer_event(k, e, w.0, v);
        self.t.ops.push(H::with(w, json!({"op": "integer", "v": limbs(v)})));
    }
    fn instant(&mut self, w: (u32, Id, Id)) {
        let (k, e) = self.conc(w);
        self.t.profiler().record_instant_event(k, e, w.0);
        self.t.ops.push(H::with(w, json!({"op": "instant"})));
    }
    fn start(&mut self, w: (u32, Id, Id)) {
        let (k, e) = self.conc(w);
        self.next += 1;
        let g = self.next;
        let d = self.t.profiler().start_recording_interval_event_detached(k, e, w.0);
        self.held.insert(g, d);
        self.t.ops.push(H::with(w, json!({"op": "start", "g": g})));
    }
    fn end(&mut self, g: u64) {
        let d = self.held.remove(&g).unwrap();
        let ok = catch(|| self.t.profiler().finish_recording_interval_event(d)).is_ok();
        self.t.ops.push(json!({"op": "end", "g": g, "r": if ok { "ok" } else { "fail" }}));
    }
    /// Use every string in an event, and read everything back.
    fn finish(mut self, r: &mut Rng) -> Vec<Value> {
        if self.clock != 0 {
            self.set_clock(0);
        }
        for k in 0..self.t.ids.len() {
            self.integer(k as u64, (3, Id::E(k), Id::E(k)));
        }
        let mut vs: Vec<u64> = self.t.mapped.clone();
        vs.extend([0, 1, 2, 9, MAXV, r.below(MAXV)]);
        vs.sort();
        vs.dedup();
        for v in vs {
            self.integer(v, (4, Id::M(v), Id::M(v)));
        }
        for g in std::mem::take(&mut self.held) {
            drop(g);
        }
        self.t.close(&[]);
        let o = match open(&self.path) {
            Err(e) => json!({"op": "unreadable", "why": e}),
            Ok(d) => {
                let m = d.metadata().start_time;
                match catch(|| d.iter_full().map(|e| full_of(&e, m)).collect::<Vec<_>>()) {
                    Err(e) => json!({"op": "unreadable", "why": e}),
                    Ok(evs) => json!({"op": "read", "events": evs.iter().map(|e| json!({"ty": e.ty,
                        "v": limbs(if e.ty == "integer" { e.v1 } else { 0 }), "tid": tid_json(e.tid), "kind": text_json(&e.kind),
                        "label": text_json(&e.label), "args": e.args.iter().map(|a| text_json(a)).collect::<Vec<_>>()})).collect::<Vec<_>>()}),
                }
            }
        };
        self.t.ops.push(o);
        self.t.ops
    }
}

fn bad_id(r: &mut Rng) -> u64 {
    *r.pick(&[MAXV + 1, MAXV + 2, FIRST, FIRST + 77, u64::MAX, 1 << 32, (1 << 32) + 5])
}
fn bad_target(r: &mut Rng) -> u64 {
    *r.pick(&[0, 5, MAXV, MAXV + 1, FIRST - 1])
}
fn sizes(r: &mut Rng) -> (usize, usize) {
    let n = *r.pick(&[1usize, 2, 17, 129, 16384, 262144, 262145, 300000]);
    (n, r.below(n as u64 + 1) as usize)
}

fn replay(c: &Value, dir: &Scratch, r: &mut Rng) -> Vec<Value> {
    let mut h = H::new(dir);
    let mut made: HashMap<u64, u64> = HashMap::new();
    for o in c["hist"].as_array().unwrap() {
        let away = r.chance(1, 5);
        let w = h.who(r, true);
        let target = |h: &H| match o["e"].as_u64().unwrap() {
            0 => None,
            e => Some(h.t.ids[e as usize - 1].as_u64()),
        };
        match o["op"].as_str().unwrap() {
            "alloc" => {
                let comps: Vec<Comp> = o["comps"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|c| match c[0].as_str().unwrap() {
                        "v" => {
                            let n = c[1].as_array().unwrap().iter().map(|x| x[1].as_u64().unwrap()).sum::<u64>();
                            let mut s = format!("{}", r.below(1000));
                            s.truncate(n as usize);
                            Comp::V(s)
                        }
                        "e" => Comp::R(Id::E(c[1].as_u64().unwrap() as usize - 1)),
                        _ => Comp::R(Id::M(c[1].as_u64().unwrap())),
                    })
                    .collect();
                let how = r.below(3);
                h.t.alloc(&comps, how);
            }
            "size" => h.refused(&Call::Size, false, away, w),
            "serializer" => {
                let (n, d) = sizes(r);
                h.refused(&Call::Serializer(n, d), false, away, w)
            }
            "map" => {
                let ids: Vec<u64> = o["ids"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
                let e = o["e"].as_u64().unwrap() as usize - 1;
                match ids[..] {
                    [v] if r.chance(1, 2) => h.t.map(v, e),
                    _ => h.t.bulk(&ids.iter().map(|v| (*v, *v)).collect::<Vec<_>>(), e),
                }
            }
            "badmap" => {
                let ids: Vec<u64> = o["ids"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap_or_else(|| bad_id(r))).collect();
                let to = target(&h).unwrap_or_else(|| bad_target(r));
                let it = o["why"] == "iterator";
                let one = ids.len() == 1 && !it && r.chance(1, 2);
                h.refused(&Call::Map(ids, to, it, one), false, away, w)
            }
            "integer" => h.integer(r.below(9), w),
            "badinteger" => h.refused(&Call::Integer(MAX_SINGLE + 1 + r.below(3)), false, away, w),
            "around" => h.refused(&Call::Integer(u64::MAX - r.below(3)), true, away, w),
            "instant" => h.instant(w),
            "badinstant" => h.refused(&Call::Instant, false, away, w),
            "start" => {
                h.start(w);
                made.insert(o["g"].as_u64().unwrap(), h.next);
            }
            "end" | "badend" => h.end(made[&o["g"].as_u64().unwrap()]),
            "clock" => h.set_clock(o["to"].as_u64().unwrap()),
            x => panic!("unknown {}", x),
        }
    }
    h.finish(r)
}

fn random(dir: &Scratch, r: &mut Rng) -> Vec<Value> {
    let mut h = H::new(dir);
    let mut lens = vec![];
    for _ in 0..*r.pick(&[5, 12, 30]) {
        let w = h.who(r, false);
        let away = r.chance(1, 5);
        match r.below(12) {
            0 | 1 => {
                let s = *r.pick(&["kind", "a label", "x\u{1e}arg1\u{1e}arg2", "", "é"]);
                h.t.text(s);
            }
            2 => {
                while lens.len() < h.t.ids.len() {
                    lens.push(100);
                }
                crate::strings::rand_step(&mut h.t, &mut lens, r)
            }
            3 if !h.t.ids.is_empty() => {
                let e = r.below(h.t.ids.len() as u64) as usize;
                let v = r.below(8);
                if h.t.may_map(v, e) {
                    match r.below(3) {
                        0 => h.t.map(v, e),
                        1 => h.t.bulk(&[(v, v + r.below(20))], e),
                        _ => h.t.bulk(&[(v, v), (v + 1000, v + 1000 + r.below(3000))], e),
                    }
                }
            }
            4 => h.integer(rand_value(r), w),
            5 if h.clock < 2 => h.instant(w),
            6 => h.start(w),
            7 if !h.held.is_empty() => {
                let mut gs: Vec<u64> = h.held.keys().copied().collect();
                gs.sort();
                let g = *r.pick(&gs);
                h.end(g)
            }
            8 => {
                let c = r.below(3);
                h.set_clock(c)
            }
            _ => {
                let c = match r.below(7) {
                    0 => Call::Size,
                    1 | 2 => {
                        let (n, d) = sizes(r);
                        Call::Serializer(n, d)
                    }
                    3 if h.clock == 2 => Call::Instant,
                    4 => Call::Integer(MAX_SINGLE + 1 + (r.next() >> (16 + r.below(48)))),
                    _ => {
                        let n = *r.pick(&[1, 2, 8, 9, 100, 1500]);
                        let mut ids: Vec<u64> = (0..n).map(|_| r.below(40)).collect();
                        let mut to = if h.t.ids.is_empty() { FIRST } else { r.pick(&h.t.ids).as_u64() };
                        match r.below(3) {
                            0 => to = bad_target(r),
                            1 => {
                                let k = r.below(n) as usize;
                                ids[k] = bad_id(r)
                            }
                            _ => {}
                        }
                        let it = ids.iter().all(|i| *i <= MAXV) && to >= FIRST;
                        let one = n == 1 && !it && r.chance(1, 2);
                        Call::Map(ids, to, it, one)
                    }
                };
                let around = h.clock < 2 && r.chance(1, 4);
                h.refused(&c, around, away, w)
            }
        }
    }
    h.finish(r)
}

pub fn run(cx: &Cx, out: &mut Out) {
    let dir = Scratch::new("recorder");
    let mut r = Rng::new(cx.seed);
    for c in &cx.cases {
        let ops = replay(c, &dir, &mut r);
        out.emit("model", ops);
    }
    for _ in 0..cx.n(300, 4000) {
        let ops = random(&dir, &mut r);
        out.emit("random", ops);
    }
}
