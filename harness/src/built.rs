//! Profiles put together by hand (R06), and the same streams in different pages (R07).
use crate::prof::*;
use crate::util::*;
use analyzeme::{ProfilingData, ProfilingDataBuilder};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;

pub fn run(cx: &Cx, out: &mut Out) {
    let dir = Scratch::new("built");
    let mut r = Rng::new(cx.seed);
    match cx.mode.as_str() {
        "hand" => hand(cx, out, &mut r),
        "pages" => pages(cx, out, &dir, &mut r),
        m => panic!("unknown mode {}", m),
    }
}

// ---------------------------------------------------------------- R06

#[derive(Clone, Debug)]
enum Node {
    /// what is inside, and whether that fails at its end
    Interval(Ev, Vec<Node>, bool),
    Single(Ev),
}
type Log = Rc<RefCell<Vec<Value>>>;
/// The text of the event id.
fn text(e: &Ev) -> String {
    let mut s = e.label.clone();
    for a in &e.args {
        s.push('\u{1e}');
        s += a;
    }
    s
}
fn x(e: &Ev) -> Value {
    json!({"kind": text_json(&e.kind), "text": text_json(&text(e)), "tid": tid_json(e.tid), "v1": limbs(e.v1), "v2": limbs(e.v2)})
}
struct Fails;
fn single(b: &mut ProfilingDataBuilder, e: &Ev, log: &Log) {
    let t = text(e);
    let r = catch(|| {
        if e.ty == "instant" {
            b.instant(&e.kind, &t, e.tid, e.v1);
        } else {
            b.integer(&e.kind, &t, e.tid, e.v1);
        }
    });
    log.borrow_mut().push(json!({"op": "single", "ty": e.ty, "x": x(e), "r": if r.is_ok() { "ok" } else { "refused" }}));
}
fn make(b: &mut ProfilingDataBuilder, nodes: &[Node], log: &Log) {
    let mut k = 0;
    while k < nodes.len() {
        match &nodes[k] {
            Node::Single(e) => single(b, e, log),
            Node::Interval(e, inside, fails) => {
                log.borrow_mut().push(json!({"op": "begin", "x": x(e)}));
                // what follows may be chained to it
                let next = match nodes.get(k + 1) {
                    Some(Node::Single(n)) if n.in_range() && !fails && e.in_range() && e.v1 % 2 == 0 => Some(n),
                    _ => None,
                };
                let came = std::cell::Cell::new(0);
                let end = |r: &str| log.borrow_mut().push(json!({"op": "end", "r": r}));
                let t = text(e);
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let c = b.interval(&e.kind, &t, e.tid, e.v1, e.v2, |c| {
                        came.set(came.get() + 1);
                        make(c, inside, log);
                        if *fails {
                            std::panic::panic_any(Fails)
                        }
                    });
                    if let Some(n) = next {
                        end("ok");
                        single(c, n, log);
                    }
                }));
                match res {
                    _ if came.get() != 1 => end("inside"),
                    Ok(()) if next.is_some() => k += 1,
                    Ok(()) => end("ok"),
                    Err(e) if e.is::<Fails>() => end("left"),
                    Err(_) => end("refused"),
                }
            }
        }
        k += 1;
    }
}
fn hand(cx: &Cx, out: &mut Out, r: &mut Rng) {
    let one = |tag: &str, nodes: &[Node], out: &mut Out| {
        let log: Log = Default::default();
        let mut b = ProfilingDataBuilder::new();
        make(&mut b, nodes, &log);
        let d = catch(|| b.into_profiling_data());
        let mut ops = log.borrow().clone();
        ops.push(read_op(d));
        out.emit(tag, ops);
    };
    for c in &cx.cases {
        // the calls of the model, with values of all sizes
        let mut stack: Vec<(Option<Ev>, Vec<Node>)> = vec![(None, vec![])];
        for o in c["prog"].as_array().unwrap() {
            match o.as_str().unwrap() {
                "begin" => stack.push((Some(good(r, "interval")), vec![])),
                "begin bad" => stack.push((Some(bad(r, "interval")), vec![])),
                s @ ("end" | "leave") => {
                    let (e, inside) = stack.pop().unwrap();
                    stack.last_mut().unwrap().1.push(Node::Interval(e.unwrap(), inside, s == "leave"));
                }
                s => {
                    let e = good(r, if s == "instant" { "instant" } else { "integer" });
                    stack.last_mut().unwrap().1.push(Node::Single(e))
                }
            }
        }
        one("model", &stack.pop().unwrap().1, out);
    }
    for _ in 0..cx.n(800, 12000) {
        let mut left = r.range(1, 40);
        let nodes = tree(r, 0, &mut left);
        one("random", &nodes, out);
    }
    // as deep as compilers nest
    for depth in [50usize, 200] {
        let mut n = vec![];
        for _ in 0..depth {
            n = vec![Node::Interval(good(r, "interval"), n, false), Node::Single(good(r, "integer"))];
        }
        one("deep", &n, out);
    }
    // with more strings and events than fit into a page
    for big in [3000usize, 9000] {
        let n: Vec<Node> = (0..60)
            .map(|i| Node::Single(Ev { label: format!("{}{}", "l".repeat(big), i), kind: format!("{}{}", i, "k".repeat(big)), ..good(r, "instant") }))
            .collect();
        one("large", &n, out);
    }
    // events of more than a page
    let n = cx.n(12_000, 30_000) as u64;
    let e = Ev { ty: "integer", v1: 0, v2: 0, tid: 70_000, kind: "k".into(), label: "l".into(), args: vec![] };
    let mut b = ProfilingDataBuilder::new();
    for i in 0..n {
        b.integer(&e.kind, &e.label, e.tid, i);
    }
    out.emit("many", vec![json!({"op": "many", "n": n, "x": x(&e)}), read_op(catch(|| b.into_profiling_data()))]);
}
fn good(r: &mut Rng, ty: &str) -> Ev {
    loop {
        let e = rand_event(r);
        let e = odd(r, e);
        if e.ty == ty && e.in_range() {
            return e;
        }
    }
}
/// Now and then texts that need care.
fn odd(r: &mut Rng, mut e: Ev) -> Ev {
    if r.chance(1, 10) {
        e.kind = r.pick(&["", "Query", "\u{1e}", "k\nl", "é", "\u{0}"]).to_string();
    }
    if r.chance(1, 10) {
        e.label = r.pick(&["", " ", "\u{1}", "é€😀", "a\u{b}b", "\t", "label\u{7f}", "0", "\u{1e}", "<parse error>"]).to_string();
    }
    if r.chance(1, 10) {
        e.args = (0..r.range(0, 4)).map(|_| r.pick(&["", "a", " ", "\u{2}", "é", "a b"]).to_string()).collect();
    }
    e
}
fn bad(r: &mut Rng, ty: &str) -> Ev {
    let mut e = good(r, ty);
    match (r.below(3), ty) {
        (0, "interval") => {
            e.v2 = r.below(1 << 40);
            e.v1 = e.v2 + 1 + r.below(1 << 30);
        }
        (1, "interval") => e.v2 = MAX_INTERVAL + 1 + r.below(100),
        (_, "interval") => e.v2 = MAX_INTERVAL + 1,
        (0, _) => e.v1 = MAX_SINGLE + 1,
        _ => e.v1 = MAX_SINGLE + 1 + (r.next() >> 20),
    }
    e
}
fn tree(r: &mut Rng, depth: usize, left: &mut u64) -> Vec<Node> {
    let mut v = vec![];
    while *left > 0 && !(depth > 0 && r.chance(1, 3)) {
        *left -= 1;
        let ty = *r.pick(&["interval", "interval", "instant", "integer"]);
        let e = if r.chance(1, 12) { bad(r, ty) } else { good(r, ty) };
        if ty == "interval" {
            let inside = if depth < 12 && r.chance(2, 3) { tree(r, depth + 1, left) } else { vec![] };
            v.push(Node::Interval(e, inside, r.chance(1, 14)));
        } else {
            v.push(Node::Single(e));
        }
    }
    v
}

// ---------------------------------------------------------------- R07

/// The streams of a file and their pages, as (tag, bytes).
fn split(file: &[u8]) -> Vec<(u8, Vec<u8>)> {
    let (mut v, mut at) = (vec![], 8);
    while at < file.len() {
        let n = u32::from_le_bytes(file[at + 1..at + 5].try_into().unwrap()) as usize;
        v.push((file[at], file[at + 5..at + 5 + n].to_vec()));
        at += 5 + n;
    }
    v
}
fn paged(head: &[u8], pages: &[(u8, &[u8])]) -> Vec<u8> {
    let mut f = head.to_vec();
    for (t, c) in pages {
        f.push(*t);
        f.extend((c.len() as u32).to_le_bytes());
        f.extend_from_slice(c);
    }
    f
}
fn decoder_op(d: Result<decodeme::EventDecoder, String>) -> Value {
    let d = match d {
        Ok(d) => d,
        Err(e) => return json!({"op": "read", "r": "err", "why": e}),
    };
    let m = d.metadata();
    let r = catch(|| {
        let n = d.num_events();
        let full: Vec<Value> = (0..n).map(|k| full_of(&d.decode_full_event(k), m.start_time).json()).collect();
        // from the last to the first
        let mut li: Vec<Value> = (0..n)
            .rev()
            .map(|k| {
                let l = d.decode_lightweight_event(k);
                if l.event_index != k {
                    return json!("another event");
                }
                light_json(&l, m.start_time)
            })
            .collect();
        li.reverse();
        (n, full, li)
    });
    match r {
        Ok((n, full, li)) => json!({"op": "read", "r": "ok", "num": n, "events": full, "light": li,
            "meta": {"pid": tid_json(m.process_id), "cmd": text_json(&m.cmd), "start": limbs(since(m.start_time, std::time::UNIX_EPOCH))}}),
        Err(e) => json!({"op": "read", "r": "panic", "why": e}),
    }
}
fn ways(file: &[u8], old: bool, dir: &Scratch, r: &mut Rng, ops: &mut Vec<Value>) {
    let err = |e: Box<dyn std::error::Error + Send + Sync>| e.to_string();
    let stem = *r.pick(&["p", "q.r", "s t"]);
    let path = dir.path(&format!("{}.mm_profdata", stem));
    std::fs::write(&path, file).unwrap();
    let named = if stem.contains('.') || r.chance(1, 2) { path.clone() } else { dir.path(stem) };
    ops.push(read_op(open(&named)));
    let _ = std::fs::remove_file(&path);
    let way = r.below(4);
    let from = if r.chance(1, 2) { Some(std::path::Path::new("/nowhere")) } else { None };
    ops.push(match way {
        0 | 1 if !old => decoder_op(catch(|| {
            let mut s = measureme::split_streams(&file[8..]);
            let mut take = |t| s.remove(&t).ok_or("no stream".to_string());
            let (d, x, e) = (take(measureme::PageTag::StringData)?, take(measureme::PageTag::StringIndex)?, take(measureme::PageTag::Events)?);
            decodeme::EventDecoder::from_separate_buffers(d, x, e, from).map_err(err)
        }).and_then(|x| x)),
        2 if !old => decoder_op(catch(|| decodeme::EventDecoder::new(file.to_vec(), from).map_err(err)).and_then(|x| x)),
        _ => read_op(catch(|| ProfilingData::from_paged_buffer(file.to_vec(), from).map_err(err)).and_then(|x| x)),
    });
}
fn pages(cx: &Cx, out: &mut Out, dir: &Scratch, r: &mut Rng) {
    let mut one = |tag: &str, n: usize, layout: &mut dyn FnMut(&mut Rng, [usize; 3]) -> Vec<(u8, usize)>, r: &mut Rng| {
        let old = r.chance(1, 4);
        let m = Meta::rand(r);
        let evs: Vec<Ev> = (0..n).map(|_| rand_event(r)).collect();
        let path = dir.path("source.mm_profdata");
        if old {
            v8::write(&path, &m, &evs, if r.chance(1, 2) { Style::Plain } else { Style::Fancy(r.next()) });
        } else {
            v9::write(&path, &m, &evs, if r.chance(1, 3) { Style::Plain } else { Style::Fancy(r.next()) });
        }
        let file = std::fs::read(&path).unwrap();
        let _ = std::fs::remove_file(&path);
        let mut streams: [Vec<u8>; 3] = Default::default();
        for (t, c) in split(&file) {
            streams[t as usize].extend(c);
        }
        let mut at = [0; 3];
        let mut new = vec![];
        for (t, n) in layout(r, [streams[0].len(), streams[1].len(), streams[2].len()]) {
            let s = &streams[t as usize];
            new.push((t, &s[at[t as usize]..at[t as usize] + n]));
            at[t as usize] += n;
        }
        for t in 0..3 {
            assert!(at[t] == streams[t].len());
        }
        let new = paged(&file[..8], &new);
        let mut ops = vec![m.json()];
        ops.extend(evs.iter().map(|e| json!({"op": "rec", "ev": e.json(), "r": "ok"})));
        ways(&new, old, dir, r, &mut ops);
        if r.chance(1, 3) {
            ways(&file, old, dir, r, &mut ops);
        }
        out.emit(tag, ops);
    };
    const TAGS: [&str; 3] = ["events", "data", "index"];
    for c in &cx.cases {
        let p: Vec<(usize, usize)> = c["pages"].as_array().unwrap().iter()
            .map(|x| (TAGS.iter().position(|t| x[0] == *t).unwrap(), x[1].as_u64().unwrap() as usize)).collect();
        let mut f = |r: &mut Rng, len: [usize; 3]| {
            // a unit of the model is some bytes: cuts between units anywhere, at the bounds of records, or after the first bytes
            let mut cuts: Vec<Vec<usize>> = vec![];
            for t in 0..3 {
                let units: usize = p.iter().filter(|x| x.0 == t).map(|x| x.1).sum();
                let grid = *r.pick(&[0usize, 1, 2]);
                let mut c = std::collections::BTreeSet::new();
                while c.len() < units - 1 {
                    let k = match grid {
                        0 => 1 + r.below(len[t] as u64 - 1) as usize,
                        1 => (8 + [24, 1, 16][t] * r.below(4) as usize).min(len[t] - 1),
                        _ => 1 + r.below(16.min(len[t] as u64 - 1)) as usize,
                    };
                    if !c.insert(k) {
                        c.insert(1 + r.below(len[t] as u64 - 1) as usize);
                    }
                }
                let mut c: Vec<usize> = c.into_iter().collect();
                c.insert(0, 0);
                c.push(len[t]);
                cuts.push(c);
            }
            let mut at = [0; 3];
            p.iter().map(|&(t, n)| {
                let b = cuts[t][at[t] + n] - cuts[t][at[t]];
                at[t] += n;
                (t as u8, b)
            }).collect()
        };
        let n = *r.pick(&[1, 2, 3, 6]);
        one("model", n, &mut f, r);
    }
    for _ in 0..cx.n(400, 8000) {
        let most = *r.pick(&[1u64, 2, 16, 24, 100, 1000, 100_000]);
        let mut f = |r: &mut Rng, mut len: [usize; 3]| {
            let mut v = vec![];
            let sticky = r.chance(1, 2);
            let mut t = 0;
            while len.iter().any(|l| *l > 0) {
                if !sticky || len[t] == 0 || r.chance(1, 5) {
                    t = r.below(3) as usize;
                }
                if len[t] > 0 {
                    let n = (1 + r.below(most) as usize).min(len[t]);
                    v.push((t as u8, n));
                    len[t] -= n;
                }
            }
            v
        };
        let n = *r.pick(&[0, 1, 2, 5, 12]);
        one("random", n, &mut f, r);
    }
}
