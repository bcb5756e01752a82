//! Threads that use one profiler as fast as they can (C07). Nothing of the harness comes between them: each
//! call takes a ticket before and after, and the history is put together in the end. Of the many thousands of
//! calls a part goes into the history that the specification decides: some at random and those that look odd,
//! each with what it refers to. A call that nothing kept refers to leaves the others as they are.
use crate::prof::*;
use crate::strings::SEP;
use crate::util::*;
use measureme::*;
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};

#[derive(Clone, Debug)]
enum What {
    Text(String),
    /// label and arguments by number of call, by the builder
    Id(usize, Vec<usize>),
    Map(u64, u64, usize),
    /// kind, id: of a call or of a virtual id
    Ev(&'static str, u64, Ref, Ref),
}
#[derive(Clone, Copy, Debug)]
enum Ref {
    C(usize),
    M(u64),
}
#[derive(Clone, Debug)]
struct Did {
    th: usize,
    inv: u64,
    ret: u64,
    ok: bool,
    what: What,
    /// the id that an allocation gave
    id: u64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Same,
    Own,
    Builder,
    Events,
    Maps,
    Mixed,
}
const PER: usize = 1 << 20;

struct Th<'a> {
    n: usize,
    p: &'a Profiler,
    ticket: &'a AtomicU64,
    did: Vec<Did>,
}
impl Th<'_> {
    fn next(&self) -> usize {
        self.n * PER + self.did.len() + 1
    }
    fn made(&self, k: usize) -> StringId {
        StringId::new(self.did[k - self.n * PER - 1].id)
    }
    fn call(&mut self, what: What, f: impl FnOnce() -> u64) -> usize {
        let k = self.next();
        let inv = self.ticket.fetch_add(1, SeqCst);
        let r = catch(f);
        let ret = self.ticket.fetch_add(1, SeqCst);
        self.did.push(Did { th: self.n, inv, ret, ok: r.is_ok(), what, id: r.unwrap_or(0) });
        k
    }
    fn text(&mut self, s: String, parts: bool) -> usize {
        let p = self.p;
        let t = s.clone();
        self.call(What::Text(s), move || {
            if parts {
                let (a, b) = t.split_at(t.len() / 2);
                p.alloc_string(&[StringComponent::Value(a), StringComponent::Value(b)]).as_u64()
            } else {
                p.alloc_string(&t[..]).as_u64()
            }
        })
    }
    fn id(&mut self, label: usize, args: &[usize]) -> usize {
        let p = self.p;
        let (l, a): (StringId, Vec<StringId>) = (self.made(label), args.iter().map(|k| self.made(*k)).collect());
        self.call(What::Id(label, args.to_vec()), move || {
            let b = EventIdBuilder::new(p);
            match a.len() {
                0 => b.from_label(l),
                1 => b.from_label_and_arg(l, a[0]),
                _ => b.from_label_and_args(l, &a),
            }
            .to_string_id()
            .as_u64()
        })
    }
    fn map(&mut self, v: u64, n: u64, to: usize) {
        let p = self.p;
        let c = self.made(to);
        self.call(What::Map(v, n, to), move || {
            if n == 1 {
                p.map_virtual_to_concrete_string(StringId::new_virtual(v), c)
            } else {
                p.bulk_map_virtual_to_single_concrete_string((0..n as usize).map(|x| StringId::new_virtual(v + x as u64)), c)
            }
            0
        });
    }
    fn ev(&mut self, r: &mut Rng, kind: (Ref, StringId), eid: (Ref, StringId), value: u64) {
        let p = self.p;
        let k = self.next();
        let id = EventId::from_u64(eid.1.as_u64());
        match r.below(6) {
            0 => self.call(What::Ev("instant", 0, kind.0, eid.0), || (p.record_instant_event(kind.1, id, k as u32), 0).1),
            1 => {
                let g = p.start_recording_interval_event(kind.1, id, k as u32);
                self.call(What::Ev("interval", 0, kind.0, eid.0), move || (drop(g), 0).1)
            }
            2 => {
                let d = p.start_recording_interval_event_detached(kind.1, id, k as u32);
                self.call(What::Ev("interval", 0, kind.0, eid.0), move || (p.finish_recording_interval_event(d), 0).1)
            }
            _ => self.call(What::Ev("integer", value, kind.0, eid.0), || (p.record_integer_event(kind.1, id, k as u32, value), 0).1),
        };
    }
}

fn body(t: &mut Th<'_>, mode: Mode, n: usize, k0: (usize, StringId), r: &mut Rng) {
    let th = t.n;
    match mode {
        Mode::Same => {
            // few texts, the same ones in every thread
            let f = *r.pick(&[1usize, 2, 3]);
            for i in 0..n {
                let s = match f {
                    1 => format!("text {}", (th + i) % 2),
                    2 => format!("text {} {}", th % 2, i / 4),
                    _ => "abcdefgh"[..1 + (i / 8 + th) % 4].to_string(),
                };
                t.text(s, false);
            }
        }
        Mode::Own => {
            for i in 0..n {
                let len = *r.pick(&[1usize, 5, 40, 127, 128, 129, 300]);
                t.text(format!("t{}c{}{}", th, i, "x".repeat(len)), i % 3 == 0);
            }
        }
        Mode::Builder => {
            let own: Vec<usize> = (0..8).map(|i| t.text(format!("t{}s{}", th, i), false)).collect();
            for i in 0..n {
                let args: Vec<usize> = (0..(i + th) % 4).map(|_| *r.pick(&own)).collect();
                let l = *r.pick(&own);
                t.id(l, &args);
            }
        }
        Mode::Events => {
            let own = t.text(format!("t{}", th), false);
            let id = t.made(own);
            for i in 0..n {
                t.ev(r, (Ref::C(k0.0), k0.1), (Ref::C(own), id), (th * n + i) as u64);
            }
        }
        Mode::Maps => {
            let own: Vec<usize> = (0..4).map(|i| t.text(format!("t{}s{}", th, i), false)).collect();
            let each = 40 * 8;
            for i in 0..n {
                // every id is of one thread, though neighbours are of different ones
                let v = ((i / each * 8 + r.below(8) as usize) * 8 + th) as u64;
                t.map(v, 1, *r.pick(&own));
                if i % 50 == 7 {
                    t.ev(r, (Ref::C(k0.0), k0.1), (Ref::M(v), StringId::new_virtual(v)), i as u64);
                }
            }
        }
        Mode::Mixed => {
            let mut own = vec![t.text(format!("t{}", th), false)];
            for i in 0..n {
                let k = *r.pick(&own);
                match r.below(6) {
                    0 => own.push(t.text(format!("t{}i{}", th, i), false)),
                    1 => own.push(t.text(format!("i{}", i), true)),
                    2 => {
                        let x = own[own.len() - 1];
                        let a = if matches!(t.did[x - th * PER - 1].what, What::Text(_)) { x } else { own[0] };
                        own.push(t.id(own[0], &[a]))
                    }
                    3 if matches!(t.did[k - th * PER - 1].what, What::Text(_)) => t.map((i / 100 * 8 + th) as u64, 1, k),
                    _ => {
                        let id = t.made(k);
                        t.ev(r, (Ref::C(k0.0), k0.1), (Ref::C(k), id), i as u64)
                    }
                }
                if own.len() > 6 {
                    own.remove(1);
                }
            }
        }
    }
}

fn text_of(d: &HashMap<usize, Did>, last: &HashMap<u64, usize>, r: Ref) -> String {
    let k = match r {
        Ref::C(k) => k,
        Ref::M(v) => match d[&last[&v]].what {
            What::Map(_, _, k) => k,
            _ => unreachable!(),
        },
    };
    match &d[&k].what {
        What::Text(s) => s.clone(),
        What::Id(l, a) => {
            let mut s = text_of(d, last, Ref::C(*l));
            for x in a {
                s += SEP;
                s += &text_of(d, last, Ref::C(*x));
            }
            s
        }
        _ => unreachable!(),
    }
}

fn storm(mode: Mode, threads: usize, n: usize, r: &mut Rng, dir: &Scratch) -> Vec<Value> {
    let path = dir.path("storm");
    let p = Profiler::new(&path).unwrap();
    let ticket = AtomicU64::new(0);
    let mut main = Th { n: 0, p: &p, ticket: &ticket, did: vec![] };
    let k0 = main.text("k".into(), false);
    let k0 = (k0, main.made(k0));
    let go = AtomicUsize::new(0);
    let seeds: Vec<u64> = (0..threads).map(|_| r.next()).collect();
    let mut all: Vec<Vec<Did>> = std::thread::scope(|s| {
        let (p, ticket, go) = (&p, &ticket, &go);
        let hs: Vec<_> = seeds
            .iter()
            .enumerate()
            .map(|(i, seed)| {
                s.spawn(move || {
                    let mut t = Th { n: i + 1, p, ticket, did: Vec::with_capacity(n + 16) };
                    go.fetch_add(1, SeqCst);
                    while go.load(SeqCst) < threads {
                        std::hint::spin_loop();
                    }
                    body(&mut t, mode, n, k0, &mut Rng::new(*seed));
                    t.did
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    // every string and virtual id once more
    let mut d: HashMap<usize, Did> = HashMap::new();
    let mut last: HashMap<u64, usize> = HashMap::new();
    for (i, v) in all.drain(..).enumerate() {
        for (j, x) in v.into_iter().enumerate() {
            let k = (i + 1) * PER + j + 1;
            if let What::Map(v, _, _) = x.what {
                last.insert(v, k);
            }
            d.insert(k, x);
        }
    }
    d.insert(k0.0, main.did[0].clone());
    let mut keys: Vec<usize> = d.keys().copied().collect();
    keys.sort();
    let same = &mut Rng::new(5);
    for k in &keys {
        if matches!(d[k].what, What::Text(_) | What::Id(..)) {
            let me = (Ref::C(*k), StringId::new(d[k].id));
            main.ev(same, (Ref::C(k0.0), k0.1), me, *k as u64);
        }
    }
    let mut vs: Vec<u64> = last.keys().copied().collect();
    vs.sort();
    for v in vs {
        let me = (Ref::M(v), StringId::new_virtual(v));
        main.ev(same, (Ref::C(k0.0), k0.1), me, v);
    }
    for (j, x) in main.did.into_iter().enumerate() {
        d.insert(j + 1, x);
    }
    let closed = catch(|| drop(p)).is_ok();
    let read = if closed { open(&path) } else { Err("the end of the profiler".into()) }
        .and_then(|p| {
            let m = p.metadata().start_time;
            catch(|| p.iter_full().map(|e| full_of(&e, m)).collect::<Vec<_>>())
        });
    let _ = std::fs::remove_file(path.with_extension("mm_profdata"));
    // what goes into the history
    let mut keep: BTreeSet<usize> = BTreeSet::new();
    let mut odd = 0;
    let evs = match &read {
        Ok(v) => &v[..],
        Err(_) => &[],
    };
    let mut seen: HashMap<usize, usize> = HashMap::new();
    let mut newest: Option<usize> = None;
    for e in evs {
        let k = e.tid as usize;
        let Some(x) = d.get(&k) else { continue };
        *seen.entry(k).or_insert(0) += 1;
        let mut strange = seen[&k] > 1;
        if let What::Ev(ty, v, a, b) = &x.what {
            let mut got = e.label.clone();
            for a in &e.args {
                got += SEP;
                got += a;
            }
            strange |= e.ty != *ty || (*ty == "integer" && e.v1 != *v) || text_of(&d, &last, *a) != e.kind || text_of(&d, &last, *b) != got;
        } else {
            strange = true;
        }
        if let Some(m) = newest {
            if x.ret < d[&m].inv {
                strange = true;
                keep.insert(m);
            }
        }
        if newest.map_or(true, |m| d[&m].inv < x.inv) {
            newest = Some(k);
        }
        if strange && odd < 12 {
            odd += 1;
            keep.insert(k);
        }
    }
    let mut ev_keys: Vec<usize> = d.iter().filter(|(_, x)| matches!(x.what, What::Ev(..))).map(|(k, _)| *k).collect();
    ev_keys.sort();
    for k in &ev_keys {
        if odd < 16 && (!seen.contains_key(k) || !d[k].ok) {
            odd += 1;
            keep.insert(*k);
        }
    }
    for (k, x) in &d {
        if !x.ok && odd < 16 {
            odd += 1;
            keep.insert(*k);
        }
    }
    for _ in 0..match mode { Mode::Maps => 6, Mode::Events => 50, _ => 24 } {
        keep.insert(*r.pick(&ev_keys));
    }
    // and what that refers to
    let mut by_v: HashMap<u64, Vec<usize>> = HashMap::new();
    for (k, x) in &d {
        if let What::Map(v, _, _) = x.what {
            by_v.entry(v).or_default().push(*k);
        }
    }
    let mut todo: Vec<usize> = keep.iter().copied().collect();
    while let Some(k) = todo.pop() {
        let mut refs = vec![];
        match &d[&k].what {
            What::Text(_) => {}
            What::Id(l, a) => {
                refs.push(*l);
                refs.extend(a);
            }
            What::Map(v, _, to) => {
                refs.push(*to);
                refs.extend(&by_v[v]);
            }
            What::Ev(_, _, a, b) => {
                for x in [a, b] {
                    match x {
                        Ref::C(k) => refs.push(*k),
                        Ref::M(v) => refs.extend(by_v.get(v).into_iter().flatten()),
                    }
                }
            }
        }
        for x in refs {
            if keep.insert(x) {
                todo.push(x);
            }
        }
    }
    // of the kept mappings of an id every event is about it, or none
    let mut steps: Vec<(u64, bool, usize)> = keep.iter().flat_map(|k| [(d[k].inv, true, *k), (d[k].ret, false, *k)]).collect();
    steps.sort();
    let mut entry: HashMap<usize, usize> = HashMap::new();
    let mut ops = vec![];
    let rf = |entry: &HashMap<usize, usize>, r: &Ref| match r {
        Ref::C(k) => json!(["e", entry[k]]),
        Ref::M(v) => json!(["m", v]),
    };
    for (_, start, k) in steps {
        let x = &d[&k];
        if !start {
            if matches!(x.what, What::Text(_) | What::Id(..)) {
                let n = entry.len() + 1;
                entry.insert(k, n);
            }
            ops.push(json!({"op": "ret", "k": k, "r": if x.ok { "ok" } else { "panic" }}));
            continue;
        }
        let mut o = match &x.what {
            What::Text(s) => json!({"f": "alloc", "comps": [["v", rle(s.as_bytes())]]}),
            What::Id(l, a) => {
                let mut c = vec![json!(["e", entry[l]])];
                for k in a {
                    c.push(json!(["v", rle(SEP.as_bytes())]));
                    c.push(json!(["e", entry[k]]));
                }
                json!({"f": "alloc", "comps": c})
            }
            What::Map(v, n, to) => json!({"f": "map", "vs": [[v, v + n - 1]], "e": entry[to]}),
            What::Ev(ty, v, a, b) => json!({"f": "ev", "ev": {"ty": ty, "v": limbs(*v), "tid": tid_json(k as u32),
                "kind": rf(&entry, a), "eid": rf(&entry, b)}}),
        };
        o["op"] = json!("inv");
        o["k"] = json!(k);
        o["th"] = json!(x.th);
        ops.push(o);
    }
    ops.push(match &read {
        Err(why) => json!({"op": "unreadable", "why": why}),
        Ok(v) => {
            let v: Vec<Value> = v
                .iter()
                .filter(|e| !d.contains_key(&(e.tid as usize)) || keep.contains(&(e.tid as usize)))
                .take(400)
                .map(|e| {
                    json!({"k": e.tid, "ev": {"ty": e.ty, "v": limbs(if e.ty == "integer" { e.v1 } else { 0 }), "tid": tid_json(e.tid),
                    "kind": text_json(&e.kind), "label": text_json(&e.label), "args": e.args.iter().map(|a| text_json(a)).collect::<Vec<_>>()}})
                })
                .collect();
            json!({"op": "read", "events": v})
        }
    });
    ops
}

pub fn run(cx: &Cx, out: &mut Out, dir: &Scratch, r: &mut Rng) {
    let modes = [Mode::Same, Mode::Own, Mode::Builder, Mode::Events, Mode::Maps, Mode::Mixed];
    let t0 = std::time::Instant::now();
    for i in 0..cx.n(60, 1200) {
        if t0.elapsed().as_secs() > cx.n(40, 600) as u64 {
            break;
        }
        let threads = *r.pick(&[2, 4, 7]);
        let n = *r.pick(&[400, 3000, 6000]);
        let ops = storm(modes[i % modes.len()], threads, n, r, dir);
        out.emit("storm", ops);
    }
}
