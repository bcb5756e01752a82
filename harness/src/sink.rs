//! Serialization sinks: C01 (sequential), C02/C03 (concurrent), C04 (crash), C05 (I/O faults),
//! C06 (failing callbacks).
use crate::iohook::{self, Fault};
use crate::sched::{self, Strategy};
use crate::util::*;
use measureme::{split_streams, PageTag, SerializationSink, SerializationSinkBuilder};
use serde_json::{json, Value};
use std::cell::Cell;
use std::io::Write;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

pub const TAGS: [PageTag; 3] = [PageTag::Events, PageTag::StringData, PageTag::StringIndex];

#[derive(Clone, Debug)]
pub struct Op {
    /// cb | bytes | std | panic | flush | drop | yield
    pub f: String,
    pub s: usize,
    pub n: usize,
}
pub fn op(f: &str, s: usize, n: usize) -> Op {
    Op { f: f.to_string(), s, n }
}

#[derive(Clone, Default)]
pub struct Opts {
    pub mem: bool,
    pub snaps: bool,
    pub faults: Vec<(usize, Fault2)>,
    /// fault applied to every n-th write in addition
    pub every: Option<(usize, Fault2)>,
    /// nothing is written any more from the n-th write on
    pub dead: Option<(usize, Fault2)>,
    pub free: bool,
    /// calls made before the threads start
    pub setup: Vec<Op>,
    /// one call in so many is made by a destructor while the thread unwinds
    pub unwind: usize,
    pub salt: usize,
}
impl Opts {
    fn late(&self, unwind: usize, r: &mut Rng) -> Opts {
        Opts { unwind, salt: r.below(1000) as usize, ..self.clone() }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Fault2 {
    Short(usize),
    Eintr,
    Error(i32),
    /// the call accepts nothing
    Zero,
}

/// Payload of call `k`: position dependent, different for each call.
pub fn payload(k: usize, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 8);
    let mut j = 0u64;
    while v.len() < n {
        let mut z = ((k as u64) << 40 | j).wrapping_add(1).wrapping_mul(0x9E3779B97F4A7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z ^= z >> 27;
        v.extend_from_slice(&z.to_le_bytes());
        j += 1;
    }
    v.truncate(n);
    v
}

struct Call {
    s: usize,
    n: usize,
    a: Option<u64>,
}

struct Log {
    ev: Vec<Value>,
    calls: Vec<Call>,
    broken: bool,
}

thread_local! { static CUR: Cell<usize> = const { Cell::new(0) }; }

#[derive(Default, Debug, Clone)]
pub struct Pages {
    pub streams: [Vec<u8>; 3],
    pub torn: bool,
    pub bad: bool,
    /// every event page ended 8 + 32 n bytes into the event stream
    pub evb: bool,
}
/// Independent parser of the container format.
pub fn parse_pages(d: &[u8]) -> Pages {
    let mut p = Pages { evb: true, ..Default::default() };
    let mut i = 0;
    while i < d.len() {
        if d.len() - i < 5 {
            p.torn = true;
            p.bad |= d[i] > 2;
            return p;
        }
        let n = u32::from_le_bytes([d[i + 1], d[i + 2], d[i + 3], d[i + 4]]) as usize;
        if d[i] > 2 || n == 0 {
            p.bad = true;
            return p;
        }
        if d.len() - i - 5 < n {
            p.torn = true;
            return p;
        }
        let t = d[i] as usize;
        p.streams[t].extend_from_slice(&d[i + 5..i + 5 + n]);
        if t == 0 {
            let l = p.streams[0].len();
            p.evb &= l >= 8 && (l - 8) % 32 == 0;
        }
        i += 5 + n;
    }
    p
}

/// The stream as runs [call, length]; bytes that are no call's payload give call 0.
fn project(d: &[u8], s: usize, calls: &[Call], heads: &[Vec<u8>]) -> Value {
    let mut runs: Vec<(usize, usize)> = vec![];
    let mut used = vec![false; calls.len()];
    let mut p = 0;
    while p < d.len() {
        let rem = &d[p..];
        let fits = |k: usize| -> usize {
            let c = &calls[k];
            let n = c.n.min(rem.len());
            let h = n.min(8);
            if c.n > 0 && rem[..h] == heads[k][..h] && rem[..n] == heads[k][..n] {
                n
            } else {
                0
            }
        };
        let mut hit = None;
        for k in 0..calls.len() {
            if !used[k] && calls[k].s == s && calls[k].a == Some(p as u64) && fits(k) > 0 {
                hit = Some((k, fits(k)));
                break;
            }
        }
        if hit.is_none() {
            for k in 0..calls.len() {
                let f = fits(k);
                if !used[k] && (f >= 8 || (f > 0 && calls[k].a.is_none() && calls[k].s == s)) {
                    // prefer the longest match
                    if hit.map_or(true, |h: (usize, usize)| fits(k) > h.1) {
                        hit = Some((k, fits(k)));
                    }
                }
            }
        }
        match hit {
            Some((k, n)) => {
                used[k] = true;
                runs.push((k + 1, n));
                p += n;
            }
            None => {
                match runs.last_mut() {
                    Some(l) if l.0 == 0 => l.1 += 1,
                    _ => runs.push((0, 1)),
                }
                p += 1;
            }
        }
    }
    json!(runs.iter().map(|&(k, n)| json!([k, n])).collect::<Vec<_>>())
}

type Shared = Arc<Mutex<Log>>;
fn lk(l: &Shared) -> std::sync::MutexGuard<'_, Log> {
    l.lock().unwrap_or_else(|e| e.into_inner())
}

fn snap(log: &mut Log, path: &PathBuf, cuts: bool, extra: Option<&[u8]>) {
    let mut d = std::fs::read(path).unwrap();
    let mut views = vec![d.len()];
    if let (true, Some(x)) = (cuts, extra) {
        // the crash may hit in the middle of the write that is about to happen
        let base = d.len();
        d.extend_from_slice(x);
        for c in [1, 4, x.len() / 2, x.len().saturating_sub(1)] {
            if c > 0 && c < x.len() {
                views.push(base + c);
            }
        }
    }
    for v in views {
        let p = parse_pages(&d[..v]);
        log.ev.push(json!({"op": "snap", "ok": !p.bad && (p.evb || p.streams[0].is_empty()),
            "raw": [Value::Null, Value::Null, Value::Null], "bytes": 0}));
        // the projection needs all addresses, which come later: keep the bytes for now
        let i = log.ev.len() - 1;
        PENDING.with(|q| q.lock().unwrap().push((i, p.streams)));
    }
}
// (event index, stream bytes) of snapshots to be projected at the end of the run
struct PendingSnaps(Mutex<Vec<(usize, [Vec<u8>; 3])>>);
impl PendingSnaps {
    fn with<R>(&self, f: impl FnOnce(&Mutex<Vec<(usize, [Vec<u8>; 3])>>) -> R) -> R {
        f(&self.0)
    }
}
static PENDING: PendingSnaps = PendingSnaps(Mutex::new(vec![]));

pub struct RunOut {
    pub ev: Vec<Value>,
    pub claims: Vec<i64>,
    pub log: Vec<(usize, usize, Option<usize>)>,
    pub writes: usize,
}

fn exec(o: &Op, k: usize, sinks: &mut [Option<Arc<SerializationSink>>], sys: bool) -> (&'static str, Option<u64>) {
    let s = o.s;
    let r = match o.f.as_str() {
        "cb" => {
            let data = payload(k, o.n);
            let sk = sinks[s].as_ref().unwrap();
            catch(|| {
                Ok(Some(
                    sk.write_atomic(o.n, |b| {
                        if b.len() != data.len() {
                            return; // the wrong size shows in the contents
                        }
                        let h = data.len() / 2;
                        b[..h].copy_from_slice(&data[..h]);
                        if sys {
                            sched::yield_point();
                        }
                        b[h..].copy_from_slice(&data[h..]);
                    })
                    .0,
                ))
            })
        }
        // many 32 byte records, one call each; the address of the first one
        "batch" => {
            let data = payload(k, o.n);
            let sk = sinks[s].as_ref().unwrap();
            catch(|| {
                let mut first = None;
                for (i, rec) in data.chunks(32).enumerate() {
                    let a = sk.write_atomic(32, |b| b.copy_from_slice(rec)).0;
                    let f = *first.get_or_insert(a);
                    if a != f + 32 * i as u64 {
                        first = Some(1 << 30); // no such address
                    }
                }
                Ok(first)
            })
        }
        "bytes" => {
            let data = payload(k, o.n);
            let sk = sinks[s].as_ref().unwrap();
            catch(|| Ok(Some(sk.write_bytes_atomic(&data).0)))
        }
        "std" => {
            let data = payload(k, o.n);
            let sk = sinks[s].as_ref().unwrap();
            catch(|| sk.as_std_write().write_all(&data).map(|_| None))
        }
        "panic" => {
            let sk = sinks[s].as_ref().unwrap();
            let n = o.n;
            catch(|| {
                Ok(Some(
                    sk.write_atomic(n, |b| {
                        let h = (k * 7 + 3) % (b.len() + 1);
                        for x in b[..h].iter_mut() {
                            *x = 0xEE;
                        }
                        panic!("serializer failed");
                    })
                    .0,
                ))
            })
        }
        "flush" => {
            let sk = sinks[s].as_ref().unwrap();
            catch(|| sk.as_std_write().flush().map(|_| None))
        }
        "drop" => {
            let sk = sinks[s].take();
            catch(|| {
                drop(sk);
                Ok(None)
            })
        }
        _ => unreachable!(),
    };
    match r {
        Ok(Ok(a)) => ("ok", a),
        _ => ("fail", None),
    }
}

/// The call made by a destructor that runs because of a panic elsewhere.
fn exec_unwinding(o: &Op, k: usize, sinks: &mut [Option<Arc<SerializationSink>>], sys: bool) -> (&'static str, Option<u64>) {
    struct Late<F: FnMut()>(F);
    impl<F: FnMut()> Drop for Late<F> {
        fn drop(&mut self) {
            (self.0)()
        }
    }
    let mut r = ("fail", None);
    let _ = catch(|| {
        let _late = Late(|| r = exec(o, k, sinks, sys));
        panic!("elsewhere");
    });
    r
}

/// Run a program and record its history.
pub fn run_program(threads: &[Vec<Op>], strategy: Option<Strategy>, o: &Opts, dir: &Scratch) -> RunOut {
    let path = dir.path("sink.bin");
    let _ = std::fs::remove_file(&path);
    PENDING.with(|q| q.lock().unwrap().clear());
    let builder = if o.mem {
        SerializationSinkBuilder::new_in_memory()
    } else {
        SerializationSinkBuilder::new_from_file(std::fs::File::create(&path).unwrap()).unwrap()
    };
    let sinks: Vec<Arc<SerializationSink>> = TAGS.iter().map(|&t| Arc::new(builder.new_sink(t))).collect();
    drop(builder);
    let log: Shared = Arc::new(Mutex::new(Log { ev: vec![], calls: vec![], broken: false }));
    let writes = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    if !o.mem {
        let (log, o2, path2, writes) = (log.clone(), o.clone(), path.clone(), writes.clone());
        iohook::arm(
            Some(&path),
            Box::new(move |_n, buf| {
                let i = writes.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let mut l = lk(&log);
                if o2.snaps {
                    snap(&mut l, &path2, true, Some(buf));
                }
                let dead = o2.dead.as_ref().filter(|d| i >= d.0).map(|d| d.1.clone());
                let f = dead.or_else(|| o2.faults.iter().find(|f| f.0 == i).map(|f| f.1.clone())).or_else(|| {
                    o2.every.as_ref().and_then(|(m, f)| if i % m == 0 { Some(f.clone()) } else { None })
                });
                match f {
                    None => Fault::None,
                    Some(f) => {
                        let k = CUR.with(|c| c.get());
                        let (name, r) = match f {
                            Fault2::Short(m) => ("short", Fault::Short(m)),
                            Fault2::Eintr => ("eintr", Fault::Eintr),
                            Fault2::Error(e) => ("error", Fault::Error(e)),
                            Fault2::Zero => ("error", Fault::Zero),
                        };
                        if name == "error" {
                            l.broken = true;
                        }
                        l.ev.push(json!({"op": "fault", "k": k, "e": name}));
                        r
                    }
                }
            }),
        );
    }
    let scheduled = strategy.is_some();
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (ti, prog) in std::iter::once(&o.setup).chain(threads).enumerate() {
        let mut prog = prog.clone();
        if ti > 0 && !o.mem {
            // every thread gives up all its handles in the end
            for s in 0..3 {
                if !prog.iter().any(|x| x.f == "drop" && x.s == s) {
                    prog.push(op("drop", s, 0));
                }
            }
        }
        let mut mine: Vec<Option<Arc<SerializationSink>>> = sinks.iter().cloned().map(Some).collect();
        let (log, path, o) = (log.clone(), path.clone(), o.clone());
        bodies.push(Box::new(move || {
            for p in &prog {
                if p.f == "yield" {
                    sched::yield_point();
                    continue;
                }
                let k = {
                    let mut l = lk(&log);
                    let k = l.calls.len() + 1;
                    let w = matches!(p.f.as_str(), "cb" | "bytes" | "std" | "panic" | "batch");
                    l.calls.push(Call { s: if w { p.s } else { 9 }, n: if w && p.f != "panic" { p.n } else { 0 }, a: None });
                    let f = if p.f == "panic" { "bad" } else if w { "write" } else { p.f.as_str() };
                    l.ev.push(json!({"op": "inv", "k": k, "f": f, "s": p.s + 1, "n": p.n, "api": p.f}));
                    k
                };
                CUR.with(|c| c.set(k));
                let late = o.unwind > 0 && (k * 7919 + p.n * 31 + o.salt) % o.unwind == 0;
                let (r, a) = if late { exec_unwinding(p, k, &mut mine, scheduled) } else { exec(p, k, &mut mine, scheduled) };
                let mut l = lk(&log);
                l.calls[k - 1].a = a;
                if o.snaps {
                    snap(&mut l, &path, false, None);
                }
                l.ev.push(json!({"op": "ret", "k": k, "r": r}));
            }
        }));
    }
    bodies.remove(0)();
    let mut keep = Some(sinks);
    if !o.mem {
        keep = None;
    }
    let mut stuck = false;
    let mut dlog = vec![];
    match strategy {
        Some(st) => {
            let r = sched::run(bodies, st);
            stuck = r.stuck;
            dlog = r.log;
        }
        None if o.free => {
            let hs: Vec<_> = bodies.into_iter().map(std::thread::spawn).collect();
            let t0 = std::time::Instant::now();
            for h in hs {
                while !h.is_finished() && t0.elapsed().as_secs() < 30 {
                    std::thread::sleep(std::time::Duration::from_micros(50));
                }
                if h.is_finished() {
                    let _ = h.join();
                } else {
                    stuck = true;
                }
            }
        }
        None => {
            for b in bodies {
                b();
            }
        }
    }
    iohook::disarm();
    let mut end = None;
    if !stuck {
        end = Some(if o.mem {
            let v = keep.take().unwrap();
            let mut it = v.into_iter().map(|s| {
                let s = Arc::try_unwrap(s).unwrap();
                catch(|| s.into_bytes()).unwrap_or(vec![0xBD; 3])
            });
            ("ok", [it.next().unwrap(), it.next().unwrap(), it.next().unwrap()], None)
        } else {
            let d = std::fs::read(&path).unwrap();
            let p = parse_pages(&d);
            let split = catch(|| {
                let mut m = split_streams(&d);
                let mut g = |t| m.remove(&t).unwrap_or_default();
                [g(TAGS[0]), g(TAGS[1]), g(TAGS[2])]
            });
            (if p.bad || p.torn { "bad" } else { "ok" }, p.streams, Some(split.unwrap_or_default()))
        });
    }
    let mut l = lk(&log);
    let l = &mut *l;
    // addresses of writes whose API does not return one: where the contents are found
    if let Some((_, streams, _)) = &end {
        if threads.len() > 1 || threads[0].iter().any(|x| x.f == "panic") {
            for k in 0..l.calls.len() {
                let c = &l.calls[k];
                if c.s < 3 && c.a.is_none() && c.n >= 8 {
                    let p = payload(k + 1, c.n);
                    let hit = streams[c.s].windows(8).position(|w| w == &p[..8]);
                    l.calls[k].a = hit.map(|x| x as u64);
                }
            }
        }
    }
    let heads: Vec<Vec<u8>> = l.calls.iter().enumerate().map(|(k, c)| payload(k + 1, c.n)).collect();
    for (i, st) in PENDING.with(|q| std::mem::take(&mut *q.lock().unwrap())) {
        let v: Vec<Value> = (0..3).map(|s| project(&st[s], s, &l.calls, &heads)).collect();
        l.ev[i]["bytes"] = json!(st.iter().map(|x| x.len()).collect::<Vec<_>>());
        l.ev[i]["raw"] = json!(v);
    }
    // drop snapshots that repeat the one before without anything in between
    let mut ev: Vec<Value> = vec![];
    for e in std::mem::take(&mut l.ev) {
        if ev.last() == Some(&e) && e["op"] == "snap" {
            continue;
        }
        ev.push(e);
    }
    if let Some((pages, streams, split)) = end {
        let v: Vec<Value> = (0..3).map(|s| project(&streams[s], s, &l.calls, &heads)).collect();
        let w = match split {
            Some(sp) => json!((0..3).map(|s| project(&sp[s], s, &l.calls, &heads)).collect::<Vec<_>>()),
            None => json!(v),
        };
        ev.push(json!({"op": "end", "pages": pages, "raw": v, "split": w}));
    } else {
        ev.push(json!({"op": "stuck"}));
    }
    let claims = l.calls.iter().map(|c| c.a.map_or(-1, |a| a as i64)).collect();
    RunOut { ev, claims, log: dlog, writes: writes.load(std::sync::atomic::Ordering::SeqCst) }
}

pub const SIZES: [usize; 20] = [
    0, 1, 16, 32, 127, 128, 129, 4096, 131071, 131072, 131073, 262143, 262144, 262145, 393216, 524287, 524288, 524289,
    655361, 800000,
];
const APIS: [&str; 3] = ["cb", "bytes", "std"];

/// Calls of the page model: its unit is 16 KiB (a page has 16). A size that is not a whole number
/// of units stands for the neighbourhood of a limit.
fn ops_of(v: &Value, r: &mut Rng, exact: Option<usize>) -> Vec<Op> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| {
            let s = x["s"].as_u64().unwrap() as usize - 1;
            let mut n = x["n"].as_u64().unwrap() as usize * 16384;
            if n > 0 && exact != Some(s) {
                n = n + *r.pick(&[1usize, 1, 1, 0, 2, 33]) - 1;
            }
            op(x["f"].as_str().unwrap(), s, n)
        })
        .collect()
}
fn threads_of(c: &Value, r: &mut Rng, exact: Option<usize>) -> Vec<Vec<Op>> {
    c["threads"].as_array().unwrap().iter().map(|t| ops_of(t, r, exact)).collect()
}

fn rand_size(r: &mut Rng) -> usize {
    match r.below(10) {
        0..=3 => *r.pick(&SIZES),
        4 | 5 => r.below(300) as usize,
        6 => r.below(5000) as usize,
        7 => r.below(270_000) as usize,
        8 => *r.pick(&SIZES) + r.below(3) as usize,
        _ => 32,
    }
}
fn rand_op(r: &mut Rng, streams: u64) -> Op {
    let s = r.below(streams) as usize;
    match r.below(12) {
        0 => op("flush", s, 0),
        _ => {
            let f = *r.pick(&APIS);
            op(f, s, rand_size(r))
        }
    }
}

fn emit(out: &mut Out, tag: &str, o: &Opts, prog: &[Vec<Op>], r: RunOut) {
    let desc: Vec<String> =
        prog.iter().map(|t| t.iter().map(|x| format!("{}{}:{}", x.f, x.s + 1, x.n)).collect::<Vec<_>>().join(" ")).collect();
    // the call during which the file stopped taking data
    let dead = if o.dead.is_none() { json!(0) } else { r.ev.iter().find(|e| e["op"] == "fault").map_or(json!(0), |e| e["k"].clone()) };
    out.emit_with(
        tag,
        r.ev,
        json!({"claims": r.claims, "snaps": o.snaps, "dead": dead, "threads": prog.len(), "prog": desc}),
    );
}

pub fn run(cx: &Cx, out: &mut Out) {
    let dir = Scratch::new("sink");
    let mut r = Rng::new(cx.seed);
    match cx.mode.as_str() {
        "seq" => seq(cx, out, &dir, &mut r),
        "conc" => conc(cx, out, &dir, &mut r),
        "crash" => crash(cx, out, &dir, &mut r),
        "fault" => fault(cx, out, &dir, &mut r),
        "panic" => panics(cx, out, &dir, &mut r),
        m => panic!("mode {}", m),
    }
}

fn seq(cx: &Cx, out: &mut Out, dir: &Scratch, r: &mut Rng) {
    let file = Opts::default();
    let mem = Opts { mem: true, ..Default::default() };
    for c in &cx.cases {
        let p = threads_of(c, r, None);
        for o in [&file, &mem] {
            emit(out, "spec", o, &p, run_program(&p, None, o, dir));
        }
    }
    for i in 0..cx.n(250, 4000) {
        let len = *r.pick(&[3, 5, 8, 13, 30]);
        let mut p = vec![];
        // biased: mostly one stream, so that buffer states matter
        let streams = *r.pick(&[1, 2, 3]);
        for _ in 0..len {
            p.push(rand_op(r, streams));
        }
        // fill the buffer up to just around the page limit first
        if i % 3 == 0 {
            let fill = *r.pick(&[131071 - 16, 131072, 262144 - 32, 262144 - 128, 262144 - 129, 262144, 262143]);
            p.insert(0, op("cb", 0, fill));
        }
        if i % 8 == 1 {
            let at = r.below(p.len() as u64 + 1) as usize;
            p.insert(at, op(*r.pick(&APIS), 0, *r.pick(&HUGE)));
        }
        let o = if i % 2 == 0 { &file } else { &mem }.late(if i % 5 == 4 { 3 } else { 0 }, r);
        let p = vec![p];
        emit(out, "random", &o, &p, run_program(&p, None, &o, dir));
    }
    // many small records, crossing several page limits
    for i in 0..cx.n(60, 600) {
        let mut p = vec![op("std", 0, 8)];
        for _ in 0..r.range(1, 4) {
            let cnt = *r.pick(&[1usize, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 12287, 20000]);
            let s = r.below(2) as usize;
            p.push(op("batch", s, 32 * cnt));
            if r.chance(1, 3) {
                p.push(rand_op(r, 2));
            }
        }
        let o = if i % 2 == 0 { &file } else { &mem };
        let p = vec![p];
        emit(out, "batch", o, &p, run_program(&p, None, o, dir));
    }
}

/// Small concurrent programs around the page limits.
fn small_programs() -> Vec<Vec<Vec<Op>>> {
    let w = |f: &str, s, n| op(f, s, n);
    vec![
        // two writers of one stream, with and without page overflow
        vec![vec![w("cb", 0, 32), w("cb", 0, 32)], vec![w("cb", 0, 32)]],
        vec![vec![w("cb", 0, 262144)], vec![w("cb", 0, 32), w("cb", 0, 64)]],
        vec![vec![w("bytes", 0, 300000)], vec![w("cb", 0, 32), w("bytes", 0, 200)]],
        vec![vec![w("bytes", 0, 300000)], vec![w("bytes", 0, 300001)]],
        vec![vec![w("cb", 0, 300000)], vec![w("cb", 0, 300016), w("cb", 0, 16)]],
        vec![vec![w("std", 0, 140000)], vec![w("std", 0, 140032), w("std", 0, 131072)]],
        // records of many pages
        vec![vec![w("bytes", 0, 1_100_000)], vec![w("cb", 0, 32), w("bytes", 0, 300)]],
        vec![vec![w("cb", 0, 2_300_000)], vec![w("bytes", 0, 1_048_577)]],
        vec![vec![w("std", 0, 1_500_000)], vec![w("cb", 0, 32), w("cb", 1, 262144)]],
        // two streams
        vec![vec![w("bytes", 0, 400000)], vec![w("bytes", 1, 400000)]],
        vec![vec![w("cb", 0, 262144), w("cb", 0, 32)], vec![w("cb", 1, 262144), w("cb", 1, 32)]],
        vec![vec![w("cb", 0, 200000), w("cb", 1, 100000)], vec![w("cb", 1, 200000), w("cb", 0, 100000)]],
        vec![vec![w("bytes", 0, 300000), w("flush", 1, 0)], vec![w("bytes", 1, 300000), w("flush", 0, 0)]],
        // flushes against writes
        vec![vec![w("cb", 0, 40), w("flush", 0, 0)], vec![w("cb", 0, 50), w("flush", 0, 0)]],
        vec![vec![w("flush", 0, 0), w("flush", 1, 0)], vec![w("cb", 1, 50), w("flush", 1, 0), w("flush", 0, 0)]],
        // three threads
        vec![vec![w("cb", 0, 100000)], vec![w("bytes", 0, 200000)], vec![w("std", 0, 50000)]],
        vec![vec![w("cb", 0, 262000)], vec![w("cb", 0, 200)], vec![w("flush", 0, 0)]],
        vec![vec![w("bytes", 0, 131073)], vec![w("bytes", 1, 131073)], vec![w("bytes", 2, 131073)]],
    ]
}

/// Sizes of records of many pages.
const HUGE: [usize; 7] = [1_048_576, 1_048_577, 1_100_000, 2_300_001, 4_194_305, 8_400_000, 17_000_000];
fn rand_prog(r: &mut Rng, threads: usize) -> Vec<Vec<Op>> {
    (0..threads)
        .map(|_| {
            (0..r.range(1, 4))
                .map(|_| {
                    let s = r.below(3).min(r.below(3)) as usize;
                    if r.chance(1, 6) {
                        op("flush", s, 0)
                    } else {
                        let f = *r.pick(&APIS);
                        let n = *r.pick(&[16, 32, 100, 129, 5000, 131072, 131073, 262144, 262145, 300000, 530000]);
                        op(f, s, if r.chance(1, 40) { *r.pick(&HUGE) } else { n })
                    }
                })
                .collect()
        })
        .collect()
}

fn conc(cx: &Cx, out: &mut Out, dir: &Scratch, r: &mut Rng) {
    let t0 = std::time::Instant::now();
    let file = Opts::default();
    let mem = Opts { mem: true, ..Default::default() };
    let stop = |ro: &RunOut| ro.ev.last().map_or(false, |e| e["op"] == "stuck");
    // schedules of the specification
    for c in &cx.cases {
        let p = threads_of(c, r, None);
        let s: Vec<usize> = c["sched"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize - 1).collect();
        let ro = run_program(&p, Some(Strategy::Threads(s)), &file, dir);
        let st = stop(&ro);
        emit(out, "spec", &file, &p, ro);
        if st {
            return; // stuck threads stay behind; one such history decides
        }
    }
    // all schedules of small programs up to a preemption bound
    for (pi, p) in small_programs().iter().enumerate() {
        for o in [&file, &mem] {
            let mut dfs = sched::Dfs::new(if p.len() == 2 { cx.n(2, 3) } else { cx.n(1, 2) });
            let mut n = 0;
            while let Some(st) = dfs.next() {
                let ro = run_program(p, Some(st), o, dir);
                dfs.report(&ro.log);
                let st = stop(&ro);
                emit(out, &format!("dfs{}", pi), o, p, ro);
                n += 1;
                if st {
                    return;
                }
                if n >= cx.n(150, 3000) {
                    break;
                }
            }
        }
    }
    // random programs, random schedules, and free running threads
    let budget = cx.n(60, 900) as u64;
    for i in 0..cx.n(900, 20000) {
        if t0.elapsed().as_secs() > budget {
            break;
        }
        let nt = *r.pick(&[2, 2, 3, 4]);
        let p = rand_prog(r, nt);
        let o = &if i % 4 == 0 { &mem } else { &file }.late(if i % 5 == 4 { 2 } else { 0 }, r);
        let (tag, ro) = match i % 3 {
            0 => ("random", run_program(&p, Some(Strategy::Random(Rng::new(r.next()))), o, dir)),
            1 => ("sticky", run_program(&p, Some(Strategy::Sticky(Rng::new(r.next()), 3)), o, dir)),
            _ => ("free", run_program(&p, None, &Opts { free: true, ..o.clone() }, dir)),
        };
        let st = stop(&ro);
        emit(out, tag, o, &p, ro);
        if st {
            return;
        }
    }
}

/// The event stream starts with an 8 byte header and then has 32 byte records, as in a profile.
fn profile_like(r: &mut Rng, n: usize) -> Vec<Op> {
    let mut v = vec![op("std", 0, 8), op("std", 1, 8), op("std", 2, 8)];
    for _ in 0..n {
        match r.below(10) {
            0..=3 => v.push(op("cb", 0, 32)),
            4 | 5 => {
                let n = rand_size(r);
                v.push(op("cb", 1, n.max(1)))
            }
            6 => v.push(op("cb", 2, 16)),
            7 => {
                let n = 16 * *r.pick(&[1usize, 8, 9, 100, 8192, 16384, 20000, 40000]);
                v.push(op("bytes", 2, n))
            }
            8 => v.push(op("cb", 1, 1 + r.below(60) as usize)),
            _ => {
                let s = r.below(3) as usize;
                if r.chance(1, 2) {
                    v.push(op("flush", s, 0))
                }
            }
        }
    }
    v
}
/// Like `profile_like`, but with the event stream close to a page limit.
fn event_heavy(r: &mut Rng) -> Vec<Op> {
    let mut v = vec![op("std", 0, 8), op("std", 1, 8), op("std", 2, 8)];
    // 8191 events fill 262112 + 8 bytes; sinks do not care that several events come in one write
    let k = *r.pick(&[8190usize, 8191, 8189, 4095, 4096]);
    v.push(op(if r.chance(2, 3) { "batch" } else { "cb" }, 0, 32 * k));
    for _ in 0..r.range(2, 6) {
        v.push(op("cb", 0, 32));
        if r.chance(1, 4) {
            v.push(op("cb", 1, 100_000));
        }
        if r.chance(1, 8) {
            v.push(op("flush", 0, 0));
        }
    }
    v
}

fn crash(cx: &Cx, out: &mut Out, dir: &Scratch, r: &mut Rng) {
    let o = Opts { snaps: true, ..Default::default() };
    for c in &cx.cases {
        let mut p = vec![op("std", 0, 8), op("std", 1, 8), op("std", 2, 8)];
        p.extend(ops_of(&c["threads"][0], r, Some(0)));
        let p = vec![p];
        let o = o.late(*r.pick(&[0, 4]), r);
        emit(out, "spec", &o, &p, run_program(&p, None, &o, dir));
    }
    for i in 0..cx.n(120, 1500) {
        let p = if i % 3 == 0 {
            event_heavy(r)
        } else {
            let n = *r.pick(&[5, 10, 20]);
            profile_like(r, n)
        };
        let p = vec![p];
        let o = o.late(*r.pick(&[0, 4]), r);
        emit(out, "random", &o, &p, run_program(&p, None, &o, dir));
    }
    for i in 0..cx.n(150, 3000) {
        let nt = *r.pick(&[2, 3]);
        let mut p = vec![];
        for _ in 0..nt {
            let n = *r.pick(&[2, 4]);
            let mut q = if i % 2 == 0 { event_heavy(r) } else { profile_like(r, n) };
            q.drain(..3);
            q.retain(|x| x.f == "flush" || x.n >= 16);
            q.truncate(6);
            for x in q.iter_mut() {
                if x.f == "batch" {
                    x.f = "cb".into();
                }
            }
            p.push(q);
        }
        let st = Strategy::Sticky(Rng::new(r.next()), *r.pick(&[2, 6, 16]));
        let o = Opts { setup: vec![op("std", 0, 8), op("std", 1, 8), op("std", 2, 8)], ..o.late(*r.pick(&[0, 4]), r) };
        emit(out, "conc", &o, &p, run_program(&p, Some(st), &o, dir));
    }
}

fn fault(cx: &Cx, out: &mut Out, dir: &Scratch, r: &mut Rng) {
    let base = Opts::default();
    let mut progs: Vec<Vec<Op>> = cx.cases.iter().map(|c| ops_of(&c["threads"][0], r, None)).collect();
    for _ in 0..cx.n(25, 300) {
        let n = *r.pick(&[4, 8]);
        progs.push((0..n).map(|_| rand_op(r, 3)).collect());
    }
    for p in progs {
        let p = vec![p];
        let clean = run_program(&p, None, &base, dir);
        let w = clean.writes;
        // one fault at every write of the run
        let idx: Vec<usize> = if w <= cx.n(12, 60) { (0..w).collect() } else { (0..cx.n(12, 60)).map(|_| r.below(w as u64) as usize).collect() };
        for i in idx {
            for f in [Fault2::Short(1), Fault2::Short(3), Fault2::Short(100_000), Fault2::Eintr, Fault2::Error(libc::ENOSPC)] {
                let o = Opts { faults: vec![(i, f)], ..base.clone() };
                emit(out, "one", &o, &p, run_program(&p, None, &o, dir));
            }
        }
        // the file takes nothing any more from some write on
        for i in 0..w.min(cx.n(4, 20)) {
            let f = r.pick(&[
                Fault2::Error(libc::ENOSPC),
                Fault2::Error(libc::EIO),
                Fault2::Error(libc::EPIPE),
                Fault2::Error(libc::EFBIG),
                Fault2::Error(libc::EDQUOT),
                Fault2::Error(libc::EAGAIN),
                Fault2::Error(libc::EINVAL),
                Fault2::Error(libc::EBADF),
                Fault2::Error(libc::ETIMEDOUT),
                Fault2::Zero,
            ]);
            let i = if i < 2 { i } else { r.below(w as u64) as usize };
            // more is asked for afterwards
            let mut p = p[0].clone();
            p.extend((0..r.below(4)).map(|_| rand_op(r, 3)));
            let o = Opts { dead: Some((i, f.clone())), ..base.clone() };
            let p = vec![p];
            emit(out, "dead", &o, &p, run_program(&p, None, &o, dir));
        }
        // faults all over
        for (m, f) in [(1usize, Fault2::Short(40_001)), (2, Fault2::Eintr), (3, Fault2::Short(2)), (2, Fault2::Short(200_000))] {
            let o = Opts { every: Some((m, f)), ..base.clone() };
            emit(out, "many", &o, &p, run_program(&p, None, &o, dir));
        }
    }
    // faults with concurrent writers
    for _ in 0..cx.n(150, 3000) {
        let p = rand_prog(r, 2);
        let f = r.pick(&[Fault2::Short(1), Fault2::Short(70_000), Fault2::Eintr]).clone();
        let o = Opts { every: Some((*r.pick(&[1usize, 2, 3]), f.clone())), ..base.clone() };
        let o = if o.every == Some((1, Fault2::Eintr)) || o.every == Some((1, Fault2::Short(1))) {
            Opts { every: Some((2, Fault2::Eintr)), ..base.clone() }
        } else {
            o
        };
        let st = Strategy::Sticky(Rng::new(r.next()), 6);
        emit(out, "conc", &o, &p, run_program(&p, Some(st), &o, dir));
    }
}

fn panics(cx: &Cx, out: &mut Out, dir: &Scratch, r: &mut Rng) {
    let file = Opts::default();
    let mem = Opts { mem: true, ..Default::default() };
    let mut progs: Vec<Vec<Op>> = vec![];
    for c in &cx.cases {
        let mut p = ops_of(&c["threads"][0], r, None);
        let at = r.below(p.len() as u64 + 1) as usize;
        let n = *r.pick(&[1usize, 32, 100, 16384, 131072, 262144, 300000]);
        p.insert(at, op("panic", 0, n));
        progs.push(p);
    }
    for _ in 0..cx.n(250, 4000) {
        let n = *r.pick(&[3, 6, 12]);
        let streams = *r.pick(&[1, 2, 3]);
        let mut p: Vec<Op> = (0..n).map(|_| rand_op(r, streams)).collect();
        for _ in 0..r.range(1, 3) {
            let at = r.below(p.len() as u64 + 1) as usize;
            let s = r.below(streams) as usize;
            let n = rand_size(r).max(1);
            p.insert(at, op("panic", s, n));
        }
        progs.push(p);
    }
    for (i, mut p) in progs.into_iter().enumerate() {
        for x in p.iter_mut() {
            // the address of a write through the adapter is found by its contents
            if x.f == "std" && x.n < 8 {
                x.f = "bytes".into();
            }
        }
        let o = &if i % 2 == 0 { &file } else { &mem }.late(if i % 3 == 2 { 3 } else { 0 }, r);
        let p = vec![p];
        emit(out, "seq", o, &p, run_program(&p, None, o, dir));
    }
    for _ in 0..cx.n(200, 3000) {
        let mut p = rand_prog(r, 2);
        let t = r.below(2) as usize;
        let at = r.below(p[t].len() as u64 + 1) as usize;
        let n = *r.pick(&[16, 300, 131072, 262144, 300000]);
        let s = r.below(2) as usize;
        p[t].insert(at, op("panic", s, n));
        let st = Strategy::Sticky(Rng::new(r.next()), 5);
        let ro = run_program(&p, Some(st), &file, dir);
        let st = ro.ev.last().map_or(false, |e| e["op"] == "stuck");
        emit(out, "conc", &file, &p, ro);
        if st {
            return;
        }
    }
}
