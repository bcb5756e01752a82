//! What analyzeme makes of a profile: self times, the summary, collapsed stacks.
use crate::prof::*;
use crate::util::*;
use analyzeme::{collapse_stacks, ProfilingData, ProfilingDataBuilder};
use serde_json::{json, Value};

/// A text as an ASCII string; concatenating texts concatenates these.
pub fn nm(s: &str) -> String {
    s.escape_default().to_string()
}
/// Nanoseconds (or another large number) in two digits of base 10^9.
pub fn pair(n: u128) -> Value {
    json!([(n / 1_000_000_000) as u64, (n % 1_000_000_000) as u64])
}
pub fn dur(d: std::time::Duration) -> Value {
    pair(d.as_nanos())
}
pub fn ev_json(e: &Ev) -> Value {
    json!({"ty": e.ty, "k": nm(&e.kind), "l": nm(&e.label), "th": e.tid.to_string(), "s": pair(e.v1 as u128), "e": pair(e.v2 as u128)})
}
pub fn evs_json(evs: &[Ev]) -> Value {
    evs.iter().map(ev_json).collect()
}
fn num(v: &Value) -> u64 {
    v[0].as_u64().unwrap() * 1_000_000_000 + v[1].as_u64().unwrap()
}
/// The events of a case of MCAnalysis, with times scaled.
pub fn of_case(c: &Value, scale: u64, th: impl Fn(u64) -> u32) -> Vec<Ev> {
    c["evs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|e| {
            let ty = match e["ty"].as_str().unwrap() {
                "interval" => "interval",
                "instant" => "instant",
                _ => "integer",
            };
            Ev {
                ty,
                v1: num(&e["s"]) * scale,
                v2: num(&e["e"]) * scale,
                tid: th(e["th"].as_u64().unwrap()),
                kind: e["k"].as_str().unwrap().to_string(),
                label: e["l"].as_str().unwrap().to_string(),
                args: vec![],
            }
        })
        .collect()
}

pub struct Shape {
    pub threads: usize,
    /// activities and marks per thread
    pub n: usize,
    pub depth: usize,
    /// how long a step takes: an index into STEPS
    pub step: usize,
    pub marks: bool,
    pub labels: &'static [&'static str],
    pub kinds: &'static [&'static str],
    pub args: bool,
}
pub const LABELS: [&str; 10] = ["Typeck", "a", "ab", "typeck", "a;b", "rustc", "é€ x", "b", "<x::y>", "codegen module"];
fn step(r: &mut Rng, s: usize) -> u64 {
    match s {
        0 => r.below(3),
        1 => r.below(1000),
        2 => r.below(3) * 500_000 + r.below(3),
        3 => *r.pick(&[0, 1, 999, 1000, 1001, 999_999_999, 1_000_000_000, 1_000_000_001, 4_294_967_296]),
        _ => *r.pick(&[0, 1, 1 << 32, 1 << 38, 123_456_789_012]),
    }
}
/// The events of one thread, recorded by nested activities, from the given time on.
fn one(r: &mut Rng, s: &Shape, tid: u32, mut now: u64) -> Vec<Ev> {
    let mut evs = vec![];
    let mut open: Vec<(String, String, Vec<String>, u64)> = vec![];
    let mut left = r.range(0, s.n as u64) as usize;
    while left > 0 || !open.is_empty() {
        if r.chance(3, 4) {
            now += step(r, s.step);
        }
        let l = r.pick(s.labels).to_string();
        let args: Vec<String> = if s.args && r.chance(1, 3) { (0..r.range(1, 3)).map(|i| format!("v{}", i)).collect() } else { vec![] };
        let c = r.below(10);
        if left > 0 && c < 5 && open.len() < s.depth {
            left -= 1;
            open.push((r.pick(s.kinds).to_string(), l, args, now));
        } else if left > 0 && c < 7 && s.marks {
            left -= 1;
            let ty = *r.pick(&["instant", "instant", "integer"]);
            let kind = if r.chance(2, 3) { if ty == "instant" { "QueryCacheHit" } else { "ArtifactSize" } } else { *r.pick(&KINDS) };
            let v1 = if ty == "instant" { now } else { rand_value(r) };
            evs.push(Ev { ty, v1, v2: 0, tid, kind: kind.to_string(), label: l, args });
        } else if let Some((kind, label, args, start)) = open.pop() {
            evs.push(Ev { ty: "interval", v1: start, v2: now, tid, kind, label, args });
            // sometimes everything ends at once
            while r.chance(1, 4) && !open.is_empty() {
                let (kind, label, args, start) = open.pop().unwrap();
                evs.push(Ev { ty: "interval", v1: start, v2: now, tid, kind, label, args });
            }
        }
    }
    evs
}
/// Deep nesting, many activities inside one, or many threads.
pub fn towering(r: &mut Rng, labels: &'static [&'static str], kinds: &'static [&'static str]) -> Vec<Ev> {
    let mut evs = vec![];
    let d = *r.pick(&[20u64, 33, 40, 66]);
    let unit = *r.pick(&[1u64, 1000, 700_000]);
    let mut mk = |r: &mut Rng, tid: u32, a: u64, b: u64| {
        evs.push(Ev { ty: "interval", v1: a * unit, v2: b * unit, tid, kind: r.pick(kinds).to_string(), label: r.pick(labels).to_string(), args: vec![] })
    };
    match r.below(3) {
        0 => {
            // the k-th from within lies around [2d - k, 2d + k], and something is beside some of them
            for k in 0..d {
                mk(r, 1, 3 * d - 2 * k, 3 * d + 2 * k);
                if r.chance(1, 4) {
                    let x = r.below(3);
                    mk(r, 1, 3 * d + 2 * k, 3 * d + 2 * k + x);
                }
            }
        }
        1 => {
            for k in 0..d {
                let x = r.below(3);
                mk(r, 1, 2 * k + 1, 2 * k + 1 + x);
            }
            mk(r, 1, 0, 2 * d + 3);
        }
        _ => {
            for k in 0..d {
                let a = r.below(20);
                let x = r.below(3);
                mk(r, k as u32 * 3, a + 1, a + 3);
                mk(r, k as u32 * 3, a, a + 3 + x);
            }
        }
    }
    evs
}
pub const TIDS: [u32; 7] = [0, 1, 2, 3, 70_000, u32::MAX, 5];
/// Numbers that are alike in their low or their high bits.
const ALIKE: [u32; 7] = [1, 65_537, 257, 0x8000_0001, 0x100_0001, 0, 65_536];
/// A profile whose intervals nest properly within each thread.
pub fn nested(r: &mut Rng, s: &Shape) -> Vec<Ev> {
    let tids = *r.pick(&[TIDS, TIDS, ALIKE]);
    let mut parts: Vec<Vec<Ev>> = (0..s.threads)
        .map(|k| {
            let from = *r.pick(&[0, 0, 7, 1000, 3_000_000_000]);
            let mut p = one(r, s, tids[k % tids.len()], from);
            p.reverse();
            p
        })
        .collect();
    let mut evs = vec![];
    let bursts = r.chance(1, 3);
    while parts.iter().any(|p| !p.is_empty()) {
        let k = r.below(parts.len() as u64) as usize;
        for _ in 0..if bursts { r.range(1, 6) } else { 1 } {
            evs.extend(parts[k].pop());
        }
    }
    evs
}

/// A profile in memory, or read back from a file in one of two formats.
pub fn data(r: &mut Rng, sc: &Scratch, evs: &[Ev]) -> Result<ProfilingData, String> {
    match r.below(4) {
        0 => {
            let mut b = ProfilingDataBuilder::new();
            for e in evs {
                let mut id = e.label.clone();
                for a in &e.args {
                    id.push('\u{1e}');
                    id.push_str(a);
                }
                match e.ty {
                    "interval" => b.interval(&e.kind, &id, e.tid, e.v1, e.v2, |_| {}),
                    "instant" => b.instant(&e.kind, &id, e.tid, e.v1),
                    _ => b.integer(&e.kind, &id, e.tid, e.v1),
                };
            }
            Ok(b.into_profiling_data())
        }
        k => {
            let p = sc.path("a.mm_profdata");
            let m = Meta::rand(r);
            let style = if r.chance(1, 2) { Style::Plain } else { Style::Fancy(r.next()) };
            if k == 3 {
                v8::write(&p, &m, evs, style)
            } else {
                v9::write(&p, &m, evs, style)
            }
            open(&p)
        }
    }
}

fn result_op(mode: &str, d: ProfilingData) -> Value {
    let r = catch(|| match mode {
        "stacks" => {
            let s: Vec<Value> = collapse_stacks(&d).iter().map(|(p, v)| json!({"l": nm(p), "v": pair(*v as u128)})).collect();
            json!({"op": "stacks", "r": "ok", "stacks": s})
        }
        _ => {
            let a = d.perform_analysis();
            if mode == "self" {
                let q: Vec<Value> = a.query_data.iter().map(|q| json!({"l": nm(&q.label), "self": dur(q.self_time)})).collect();
                json!({"op": "self", "r": "ok", "items": q})
            } else {
                let q: Vec<Value> = a
                    .query_data
                    .iter()
                    .map(|q| {
                        json!({"l": nm(&q.label), "d": {"self": [0, 0], "time": dur(q.time), "misses": q.number_of_cache_misses,
                            "hits": q.number_of_cache_hits, "inv": q.invocation_count, "blocked": dur(q.blocked_time),
                            "load": dur(q.incremental_load_time), "hash": dur(q.incremental_hashing_time)}})
                    })
                    .collect();
                let s: Vec<Value> = a.artifact_sizes.iter().map(|s| json!({"l": nm(&s.label), "v": pair(s.value as u128)})).collect();
                json!({"op": "items", "r": "ok", "items": q, "sizes": s, "total": dur(a.total_time)})
            }
        }
    });
    r.unwrap_or_else(|e| json!({"op": mode, "r": "panic", "why": e}))
}

pub fn run(cx: &Cx, out: &mut Out) {
    let sc = Scratch::new("analysis");
    let mut r = Rng::new(cx.seed ^ 0xa11);
    let mut go = |tag: &str, evs: &[Ev], r: &mut Rng, out: &mut Out| {
        let op = match data(r, &sc, evs) {
            Ok(d) => result_op(&cx.mode, d),
            Err(e) => json!({"op": cx.mode, "r": "err", "why": e}),
        };
        out.emit(tag, vec![json!({"op": "profile", "evs": evs_json(evs)}), op]);
    };
    for c in &cx.cases {
        let scale = *r.pick(&[1, 1, 1_000, 500_000_000, 1 << 33]);
        let (a, b) = (*r.pick(&TIDS), *r.pick(&[0u32, 0, 1, 2, 3]));
        let evs = of_case(c, scale, |t| a.wrapping_add((t as u32) << (b * 8)));
        go("case", &evs, &mut r, out);
    }
    for k in 0..cx.n(600, 12_000) {
        let big = k % 20 == 19;
        let s = Shape {
            threads: r.range(1, if big { 7 } else { 4 }) as usize,
            n: if big { 40 } else { *r.pick(&[2, 5, 10, 20]) },
            depth: *r.pick(&[1, 2, 4, 30]),
            step: r.below(5) as usize,
            marks: cx.mode == "items" || r.chance(1, 2),
            labels: *r.pick(&[&LABELS[..], &LABELS[..2], &LABELS[..1], &LABELS[2..6]]),
            kinds: *r.pick(&[&KINDS[..], &KINDS[..4], &KINDS[1..3], &KINDS[3..5]]),
            args: r.chance(1, 2),
        };
        let evs = if k % 40 == 7 { towering(&mut r, s.labels, s.kinds) } else { nested(&mut r, &s) };
        go("random", &evs, &mut r, out);
    }
}

/// Profiles of any size whose results the specification has in closed form.
pub struct Big {
    pub shape: &'static str,
    pub n: u64,
    pub m: u64,
    pub h: u64,
    pub z: u64,
    pub v: u64,
    /// length of the inner interval of each of the lanes
    pub w: u64,
}
impl Big {
    pub fn json(&self) -> Value {
        json!({"shape": self.shape, "n": self.n, "m": self.m, "h": self.h, "z": self.z, "v": self.v, "w": self.w})
    }
    pub fn rand(r: &mut Rng, shape: &'static str, n: u64) -> Big {
        Big {
            shape,
            n,
            m: *r.pick(&[1, 2, 3, 7, 300]),
            h: *r.pick(&[0, 3, 300, 70_000]),
            z: *r.pick(&[0, 2, 300, 66_000]),
            v: *r.pick(&[1, 5, 30_000]),
            w: if shape == "lanes" && n < 2000 { *r.pick(&[1, 2, 9]) } else { 1 },
        }
    }
    pub fn events(&self, unit: u64) -> Vec<Ev> {
        let mut evs = vec![];
        let n = self.n;
        let mut add = |ty: &'static str, kind: &str, label: String, tid: u64, v1: u64, v2: u64| {
            evs.push(Ev { ty, v1, v2, tid: tid as u32, kind: kind.to_string(), label, args: vec![] })
        };
        let mark = |k: u64| format!("ab{}", k % self.m);
        let p = || "p".to_string();
        match self.shape {
            "tower" => (1..=n).for_each(|k| add("interval", "Query", mark(k), 1, (3 * n - 2 * k) * unit, (3 * n + 2 * k) * unit)),
            "comb" => {
                (0..n).for_each(|k| add("interval", "Query", p(), 1, (3 * k + 1) * unit, (3 * k + 2) * unit));
                (1..=n).for_each(|k| add("interval", "Query", mark(k), 1, 3 * (n - k) * unit, (3 * n + k) * unit));
            }
            "row" => {
                (1..=n).for_each(|k| add("interval", "Query", mark(k), 1, 2 * k * unit, (2 * k + 1) * unit));
                add("interval", "Query", p(), 1, 0, (2 * n + 3) * unit);
            }
            _ => (1..=n).for_each(|k| {
                add("interval", "Query", mark(k), 3 * k, (k + 1) * unit, (k + 1 + self.w) * unit);
                add("interval", "Query", p(), 3 * k, k * unit, (k + 2 + self.w) * unit);
            }),
        }
        (0..self.h).for_each(|_| add("instant", "QueryCacheHit", mark(0), 1, 0, 0));
        (0..self.z).for_each(|_| add("integer", "ArtifactSize", "z".to_string(), 1, self.v, 0));
        evs
    }
}
/// A time in units, if it is some number of units that TLC can count.
pub fn units(v: u128, unit: u64) -> Value {
    let q = v / unit as u128;
    if v % unit as u128 == 0 && q < 1 << 31 {
        json!(q as u64)
    } else {
        json!(-1)
    }
}
pub fn large_op(mode: &str, a: &analyzeme::AnalysisResults, unit: u64) -> Value {
    let t = |d: std::time::Duration| units(d.as_nanos(), unit);
    let q: Vec<Value> = a
        .query_data
        .iter()
        .map(|q| {
            if mode == "self" {
                return json!({"l": nm(&q.label), "self": t(q.self_time)});
            }
            json!({"l": nm(&q.label), "d": {"self": 0, "time": t(q.time), "misses": q.number_of_cache_misses,
                "hits": q.number_of_cache_hits, "inv": q.invocation_count, "blocked": t(q.blocked_time),
                "load": t(q.incremental_load_time), "hash": t(q.incremental_hashing_time)}})
        })
        .collect();
    if mode == "self" {
        return json!({"op": "self", "r": "ok", "items": q});
    }
    let s: Vec<Value> = a.artifact_sizes.iter().map(|s| json!({"l": nm(&s.label), "v": units(s.value as u128, 1)})).collect();
    json!({"op": "items", "r": "ok", "items": q, "sizes": s, "total": t(a.total_time)})
}
pub fn large(cx: &Cx, out: &mut Out) {
    let sc = Scratch::new("large");
    let mut r = Rng::new(cx.seed ^ 0x1a6e);
    let mut sizes = vec![];
    let deep: &[u64] = if cx.mode == "stacks" { &[0, 1, 129, 257, 600] } else { &[0, 1, 127, 129, 257, 1025, 4000, 15_000] };
    let wide: &[u64] = &[0, 1, 255, 257, 32_769, 66_000];
    for _ in 0..cx.n(1, 4) {
        sizes.extend(deep.iter().map(|&n| ("tower", n)));
        sizes.extend(deep.iter().map(|&n| ("comb", n)));
        sizes.extend(wide.iter().map(|&n| ("row", n)));
        sizes.extend(wide.iter().map(|&n| ("lanes", n)));
    }
    for (shape, n) in sizes {
        let b = Big::rand(&mut r, shape, n);
        let unit = *r.pick(&[1u64, 1000, 1_000_000]);
        let op = data(&mut r, &sc, &b.events(unit)).and_then(|d| {
            catch(|| match cx.mode.as_str() {
                "stacks" => {
                    let s: Vec<Value> = collapse_stacks(&d).iter().map(|(p, v)| json!({"l": nm(p), "v": units(*v as u128, unit)})).collect();
                    json!({"op": "stacks", "r": "ok", "stacks": s})
                }
                mode => large_op(mode, &d.perform_analysis(), unit),
            })
        });
        let op = op.unwrap_or_else(|e| json!({"op": cx.mode, "r": "err", "why": e}));
        out.emit(shape, vec![json!({"op": "profile", "q": b.json()}), op]);
    }
}
