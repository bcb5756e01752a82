//! A profiler shared by threads: strings, mappings and events made concurrently (C07).
use crate::prof::*;
use crate::sched::{self, Strategy};
use crate::strings::{Id, FIRST, MAXV, SEP};
use crate::util::*;
use measureme::*;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
enum Op {
    /// literal bytes (0: a few), what it refers to
    Alloc(usize, Vec<Pick>),
    /// one of few texts, which other threads allocate as well
    Text(u64),
    /// label and arguments, by the builder
    EventId(Vec<Pick>),
    Map(Vec<(u64, u64)>, Pick, bool),
    Ev(Kind, Pick, Pick),
}
#[derive(Clone, Copy, Debug)]
enum Kind {
    Integer(u64),
    Instant,
    Guard,
    Detached,
}
#[derive(Clone, Copy, Debug)]
enum Pick {
    X,
    M(u64),
    /// the newest string that was given to anybody, to this thread, or another one
    New,
    Mine,
    Any(u64),
}

struct Given {
    id: StringId,
    virt: HashSet<u64>,
}
struct Log {
    ops: Vec<Value>,
    given: Vec<Given>,
    calls: usize,
    mapped: HashSet<u64>,
}
type Shared = Arc<Mutex<Log>>;
fn lk(l: &Shared) -> std::sync::MutexGuard<'_, Log> {
    l.lock().unwrap_or_else(|e| e.into_inner())
}
struct Th {
    n: usize,
    p: Arc<Profiler>,
    log: Shared,
    mine: Option<usize>,
}
impl Th {
    fn pick(&self, l: &Log, p: Pick) -> Id {
        let n = l.given.len();
        match p {
            Pick::X => Id::X,
            Pick::M(v) => Id::M(v),
            _ if n == 0 => Id::X,
            Pick::New => Id::E(n - 1),
            Pick::Mine => Id::E(self.mine.unwrap_or(n - 1)),
            Pick::Any(k) => Id::E(k as usize % n),
        }
    }
    fn conc(l: &Log, id: Id) -> StringId {
        match id {
            Id::E(i) => l.given[i].id,
            Id::M(v) => StringId::new_virtual(v),
            Id::X => StringId::INVALID,
        }
    }
    fn virt(l: &Log, ids: &[Id]) -> HashSet<u64> {
        let mut vs = HashSet::new();
        for i in ids {
            match i {
                Id::M(v) => {
                    vs.insert(*v);
                }
                Id::E(e) => vs.extend(l.given[*e].virt.iter().copied()),
                Id::X => {}
            }
        }
        vs
    }
    fn inv(&self, l: &mut Log, mut o: Value) -> usize {
        l.calls += 1;
        o["op"] = json!("inv");
        o["k"] = json!(l.calls);
        o["th"] = json!(self.n);
        l.ops.push(o);
        l.calls
    }
    fn ret(l: &mut Log, k: usize, ok: bool) {
        l.ops.push(json!({"op": "ret", "k": k, "r": if ok { "ok" } else { "panic" }}));
    }
    fn given(&mut self, k: usize, id: Option<StringId>, virt: HashSet<u64>) {
        let log = self.log.clone();
        let mut l = lk(&log);
        Th::ret(&mut l, k, id.is_some());
        if let Some(id) = id {
            l.given.push(Given { id, virt });
            self.mine = Some(l.given.len() - 1);
        }
    }
    fn alloc(&mut self, lit: &str, refs: Vec<Id>, ids: Vec<StringId>, virt: HashSet<u64>, k: usize) {
        let _ = refs;
        let id = catch(|| {
            if ids.is_empty() {
                return self.p.alloc_string(lit);
            }
            let mut c = vec![StringComponent::Value(lit)];
            c.extend(ids.iter().map(|i| StringComponent::Ref(*i)));
            self.p.alloc_string(&c[..])
        });
        self.given(k, id.ok(), virt);
    }
    fn exec(&mut self, o: &Op, salt: u64) {
        let log = self.log.clone();
        let mut l = lk(&log);
        match o {
            Op::Alloc(n, refs) => {
                let refs: Vec<Id> = refs.iter().map(|p| self.pick(&l, *p)).collect();
                let mut lit = format!("t{}c{}", self.n, l.calls + 1);
                let c = (b'A' + (l.calls % 26) as u8) as char;
                while lit.len() < *n {
                    lit.push(c);
                }
                let mut comps = vec![json!(["v", rle(lit.as_bytes())])];
                comps.extend(refs.iter().map(|i| i.json()));
                let ids: Vec<StringId> = refs.iter().map(|i| Th::conc(&l, *i)).collect();
                let virt = Th::virt(&l, &refs);
                let k = self.inv(&mut l, json!({"f": "alloc", "comps": comps}));
                drop(l);
                self.alloc(&lit, refs, ids, virt, k);
            }
            Op::Text(n) => {
                let lit = format!("text {}", n);
                let k = self.inv(&mut l, json!({"f": "alloc", "comps": [["v", rle(lit.as_bytes())]]}));
                drop(l);
                self.alloc(&lit, vec![], vec![], HashSet::new(), k);
            }
            Op::EventId(parts) => {
                let parts: Vec<Id> = parts.iter().map(|p| self.pick(&l, *p)).collect();
                let ids: Vec<StringId> = parts.iter().map(|i| Th::conc(&l, *i)).collect();
                let mut comps = vec![parts[0].json()];
                for p in &parts[1..] {
                    comps.push(json!(["v", rle(SEP.as_bytes())]));
                    comps.push(p.json());
                }
                let virt = Th::virt(&l, &parts);
                let k = self.inv(&mut l, json!({"f": "alloc", "comps": comps}));
                drop(l);
                let id = catch(|| {
                    let b = EventIdBuilder::new(&self.p);
                    match ids.len() {
                        2 => b.from_label_and_arg(ids[0], ids[1]),
                        _ => b.from_label_and_args(ids[0], &ids[1..]),
                    }
                    .to_string_id()
                });
                self.given(k, id.ok(), virt);
            }
            Op::Map(vs, to, bulk) => {
                let Id::E(mut e) = self.pick(&l, *to) else { return };
                let low = vs.iter().map(|v| v.0).min().unwrap();
                while l.given[e].virt.iter().any(|w| *w >= low) {
                    if e == 0 {
                        return;
                    }
                    e -= 1;
                }
                let c = l.given[e].id;
                for v in vs {
                    l.mapped.extend([v.0, v.1]);
                }
                let k = self.inv(&mut l, json!({"f": "map", "vs": vs, "e": e + 1}));
                drop(l);
                let all: Vec<StringId> = vs.iter().flat_map(|&(a, b)| a..=b).map(StringId::new_virtual).collect();
                let r = catch(|| {
                    if *bulk || all.len() != 1 {
                        self.p.bulk_map_virtual_to_single_concrete_string(all.into_iter(), c)
                    } else {
                        self.p.map_virtual_to_concrete_string(all[0], c)
                    }
                });
                Th::ret(&mut lk(&log), k, r.is_ok());
            }
            Op::Ev(kind, a, b) => {
                let (kn, eid) = (self.pick(&l, *a), self.pick(&l, *b));
                let (kc, ec) = (Th::conc(&l, kn), EventId::from_u64(Th::conc(&l, eid).as_u64()));
                let k = l.calls + 1;
                // the thread id of an event says which call it is of
                let tid = k as u32;
                let (ty, v) = match kind {
                    Kind::Integer(v) => ("integer", *v),
                    Kind::Instant => ("instant", 0),
                    _ => ("interval", 0),
                };
                let me = json!({"f": "ev", "ev": {"ty": ty, "v": limbs(v), "tid": tid_json(tid), "kind": kn.json(), "eid": eid.json()}});
                let p = self.p.clone();
                let r = match kind {
                    Kind::Guard => {
                        l.calls += 1;
                        drop(l);
                        let g = p.start_recording_interval_event(kc, ec, tid);
                        sched::yield_point();
                        self.inv_at(k, me);
                        match salt % 3 {
                            0 => catch(|| drop(g)),
                            1 => catch(|| g.finish_with_override_event_id(ec)),
                            // ended as a failure passes by
                            _ => {
                                let _ = catch(move || {
                                    let _g = g;
                                    panic!("unwinding")
                                });
                                Ok(())
                            }
                        }
                    }
                    Kind::Detached => {
                        l.calls += 1;
                        drop(l);
                        let d = p.start_recording_interval_event_detached(kc, ec, tid);
                        sched::yield_point();
                        self.inv_at(k, me);
                        catch(|| p.finish_recording_interval_event(d))
                    }
                    Kind::Instant => {
                        self.inv(&mut l, me);
                        drop(l);
                        catch(|| p.record_instant_event(kc, ec, tid))
                    }
                    Kind::Integer(v) => {
                        self.inv(&mut l, me);
                        drop(l);
                        catch(|| p.record_integer_event(kc, ec, tid, *v))
                    }
                };
                Th::ret(&mut lk(&log), k, r.is_ok());
            }
        }
    }
    /// The call that stores an interval is the one that ends it.
    fn inv_at(&self, k: usize, mut o: Value) {
        o["op"] = json!("inv");
        o["k"] = json!(k);
        o["th"] = json!(self.n);
        lk(&self.log).ops.push(o);
    }
}

/// Whether some thread never came back.
fn run_one(progs: &[Vec<Op>], strategy: Option<Strategy>, dir: &Scratch) -> (Vec<Value>, bool, Vec<(usize, usize, Option<usize>)>) {
    let path = dir.path("shared");
    let p = Arc::new(Profiler::new(&path).unwrap());
    let log: Shared = Arc::new(Mutex::new(Log { ops: vec![], given: vec![], calls: 0, mapped: HashSet::new() }));
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (n, prog) in progs.iter().enumerate() {
        let (prog, mut t) = (prog.clone(), Th { n: n + 1, p: p.clone(), log: log.clone(), mine: None });
        bodies.push(Box::new(move || {
            for (i, o) in prog.iter().enumerate() {
                t.exec(o, (i + t.n) as u64);
                sched::yield_point();
            }
        }));
    }
    let mut stuck = false;
    let mut dlog = vec![];
    match strategy {
        Some(s) => {
            let r = sched::run(bodies, s);
            stuck = r.stuck;
            dlog = r.log;
        }
        None => {
            let hs: Vec<_> = bodies.into_iter().map(std::thread::spawn).collect();
            let t0 = std::time::Instant::now();
            for h in hs {
                while !h.is_finished() && t0.elapsed().as_secs() < 30 {
                    std::thread::sleep(std::time::Duration::from_micros(20));
                }
                if h.is_finished() {
                    let _ = h.join();
                } else {
                    stuck = true;
                }
            }
        }
    }
    if stuck {
        let mut ops = lk(&log).ops.clone();
        ops.push(json!({"op": "stuck"}));
        return (ops, true, dlog);
    }
    // every string and id once more, by one thread
    let mut t = Th { n: 0, p: p.clone(), log: log.clone(), mine: None };
    let (n, mut vs) = {
        let l = lk(&log);
        (l.given.len(), l.mapped.iter().copied().collect::<Vec<_>>())
    };
    vs.sort();
    for k in 0..n {
        t.exec(&Op::Ev(Kind::Integer(k as u64), Pick::Any(k as u64), Pick::Any(k as u64)), 0);
    }
    for v in vs {
        t.exec(&Op::Ev(Kind::Integer(v), Pick::M(v), Pick::M(v)), 0);
    }
    drop(t);
    let mut ops = lk(&log).ops.clone();
    if catch(|| drop(Arc::try_unwrap(p).ok().expect("no handle is left"))).is_err() {
        ops.push(json!({"op": "unreadable", "why": "the end of the profiler"}));
        return (ops, false, dlog);
    }
    ops.push(match open(&path) {
        Err(e) => json!({"op": "unreadable", "why": e}),
        Ok(d) => {
            let m = d.metadata().start_time;
            match catch(|| d.iter_full().map(|e| full_of(&e, m)).collect::<Vec<_>>()) {
                Err(e) => json!({"op": "unreadable", "why": e}),
                Ok(evs) => json!({"op": "read", "events": evs.iter().map(|e| json!({"k": e.tid, "ev": {"ty": e.ty,
                    "v": limbs(if e.ty == "integer" { e.v1 } else { 0 }), "tid": tid_json(e.tid), "kind": text_json(&e.kind),
                    "label": text_json(&e.label), "args": e.args.iter().map(|a| text_json(a)).collect::<Vec<_>>()}})).collect::<Vec<_>>()}),
            }
        }
    });
    let _ = std::fs::remove_file(path.with_extension("mm_profdata"));
    (ops, false, dlog)
}

fn of_case(c: &Value, r: &mut Rng) -> Vec<Vec<Op>> {
    let pick = |s: &str| match s {
        "m1" => Pick::M(1),
        "m2" => Pick::M(2),
        "new" => Pick::New,
        _ => Pick::X,
    };
    let kind = |r: &mut Rng| *r.pick(&[Kind::Integer(7), Kind::Instant, Kind::Guard, Kind::Detached]);
    c["threads"]
        .as_array()
        .unwrap()
        .iter()
        .map(|t| {
            t.as_array()
                .unwrap()
                .iter()
                .map(|o| {
                    let to = pick(o["ref"].as_str().unwrap());
                    match o["f"].as_str().unwrap() {
                        "alloc" => Op::Alloc(*r.pick(&[0, 0, 0, 5000, 140_000, 262_200]), if let Pick::X = to { vec![] } else { vec![to] }),
                        "ev" => Op::Ev(kind(r), to, to),
                        _ => {
                            let vs: Vec<u64> = o["vs"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap()).collect();
                            match vs[..] {
                                [v] => Op::Map(vec![(v, v)], to, r.chance(1, 2)),
                                // the same ids, and many more
                                _ => Op::Map(vec![(1, 2 + *r.pick(&[0, 7, 9000, 20_000]))], to, true),
                            }
                        }
                    }
                })
                .collect()
        })
        .collect()
}
fn rand_pick(r: &mut Rng) -> Pick {
    match r.below(10) {
        0 => Pick::X,
        1 | 2 => Pick::M(r.below(5)),
        3 | 4 => Pick::New,
        5 | 6 => Pick::Mine,
        _ => Pick::Any(r.next() >> 8),
    }
}
fn rand_op(r: &mut Rng, big: bool) -> Op {
    match r.below(10) {
        0 | 1 => {
            if r.chance(1, 3) {
                return Op::Text(r.below(3));
            }
            let n = *r.pick(if big { &[0usize, 0, 3, 200, 70_000, 131_072, 262_143, 262_145, 600_000] } else { &[0usize, 0, 3, 20, 100, 128, 129, 1000, 4096] });
            Op::Alloc(n, (0..if big { r.below(2) } else { *r.pick(&[0, 0, 1, 2, 3]) }).map(|_| rand_pick(r)).collect())
        }
        2 => Op::EventId((0..if big { 2 } else { *r.pick(&[2, 2, 3, 5]) }).map(|_| rand_pick(r)).collect()),
        3 => {
            let v = r.below(6);
            Op::Map(vec![(v, v)], rand_pick(r), r.chance(1, 3))
        }
        4 => {
            let v = r.below(6);
            let n = *r.pick(if big { &[1u64, 8, 9, 1000, 8192, 8193, 17_000, 40_000] } else { &[1u64, 2, 7, 8, 9, 60] });
            let mut vs = vec![(v, v + n - 1)];
            if r.chance(1, 4) {
                vs.push((MAXV - 3, MAXV - r.below(3)));
            }
            Op::Map(vs, rand_pick(r), true)
        }
        _ => {
            let k = *r.pick(&[Kind::Integer(0), Kind::Integer(MAX_SINGLE), Kind::Instant, Kind::Guard, Kind::Detached]);
            Op::Ev(k, rand_pick(r), rand_pick(r))
        }
    }
}
fn small() -> Vec<Vec<Vec<Op>>> {
    let alloc = |n| Op::Alloc(n, vec![]);
    let ev = |k, p| Op::Ev(k, p, p);
    let map = |a, b| Op::Map(vec![(a, b)], Pick::Mine, true);
    let one = |a| Op::Map(vec![(a, a)], Pick::Mine, false);
    let i = Kind::Integer(1);
    vec![
        vec![vec![alloc(0), ev(i, Pick::Mine)], vec![alloc(0), ev(i, Pick::Mine)]],
        vec![vec![alloc(0), one(1), ev(i, Pick::M(1))], vec![alloc(0), one(1), ev(i, Pick::M(1))]],
        vec![vec![alloc(0), map(1, 2)], vec![alloc(0), map(1, 2)]],
        vec![vec![alloc(0), map(1, 20)], vec![alloc(0), map(1, 20)]],
        vec![vec![alloc(0), map(1, 9000)], vec![alloc(0), map(1, 9000)]],
        vec![vec![alloc(0), Op::EventId(vec![Pick::Mine, Pick::Mine])], vec![alloc(0), Op::EventId(vec![Pick::Mine, Pick::Mine, Pick::New])]],
        // the same mapping again, after that of another thread
        vec![vec![alloc(0), one(1), one(1)], vec![alloc(0), one(1)]],
        vec![vec![alloc(0), map(1, 9), map(1, 9)], vec![alloc(0), map(3, 5)]],
        vec![vec![Op::Text(1), Op::Text(1)], vec![Op::Text(2), Op::Text(1)]],
        vec![vec![alloc(262_100), alloc(300)], vec![alloc(100), alloc(300_000)]],
        vec![vec![ev(Kind::Guard, Pick::M(1)), ev(i, Pick::M(1))], vec![ev(Kind::Detached, Pick::X), ev(Kind::Instant, Pick::X)]],
        vec![vec![ev(Kind::Guard, Pick::X)], vec![ev(Kind::Guard, Pick::X)], vec![alloc(0), one(1)]],
        vec![vec![alloc(0), one(0)], vec![alloc(0), one(0)], vec![alloc(0), map(0, 10)]],
    ]
}

pub fn run(cx: &Cx, out: &mut Out) {
    let _ = FIRST;
    let dir = Scratch::new("shared");
    let mut r = Rng::new(cx.seed);
    let r = &mut r;
    for c in &cx.cases {
        let p = of_case(c, r);
        let s: Vec<usize> = c["sched"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize - 1).collect();
        let (ops, stuck, _) = run_one(&p, Some(Strategy::Threads(s)), &dir);
        out.emit("model", ops);
        if stuck {
            return;
        }
    }
    for (pi, p) in small().iter().enumerate() {
        let mut dfs = sched::Dfs::new(if p.len() == 2 { cx.n(2, 3) } else { cx.n(1, 2) });
        let mut n = 0;
        while let Some(st) = dfs.next() {
            let (ops, stuck, log) = run_one(p, Some(st), &dir);
            dfs.report(&log);
            out.emit(&format!("dfs{}", pi), ops);
            n += 1;
            if stuck {
                return;
            }
            if n >= cx.n(120, 3000) {
                break;
            }
        }
    }
    crate::storm::run(cx, out, &dir, r);
    let t0 = std::time::Instant::now();
    let budget = cx.n(60, 1200) as u64;
    for i in 0..cx.n(600, 15000) {
        if t0.elapsed().as_secs() > budget {
            break;
        }
        let nt = *r.pick(&[2, 2, 3, 4]);
        let big = r.chance(1, 4);
        let p: Vec<Vec<Op>> = (0..nt)
            .map(|_| {
                let mut v = vec![Op::Alloc(0, vec![])];
                v.extend((0..2 + r.below(if big { 5 } else { 9 })).map(|_| rand_op(r, big)));
                v
            })
            .collect();
        let (tag, st) = match i % 3 {
            0 => ("random", Some(Strategy::Random(Rng::new(r.next())))),
            1 => ("sticky", Some(Strategy::Sticky(Rng::new(r.next()), 3))),
            _ => ("free", None),
        };
        let (ops, stuck, _) = run_one(&p, st, &dir);
        out.emit(tag, ops);
        if stuck {
            return;
        }
    }
}
