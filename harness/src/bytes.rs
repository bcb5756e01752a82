//! The bytes of profile files, what was recorded in them, and what the reader makes of them (R08).
use crate::prof::*;
use crate::util::*;
use analyzeme::ProfilingData;
use serde_json::{json, Value};
use std::time::UNIX_EPOCH;

fn whole(e: &Ev) -> Vec<u8> {
    let mut s = e.label.clone();
    for a in &e.args {
        s.push('\u{1e}');
        s += a;
    }
    s.into_bytes()
}
fn ev_json(e: &Ev, times: bool) -> Value {
    let mut v = json!({"ty": e.ty, "tid": tid_json(e.tid), "kind": bytes_json(e.kind.as_bytes()), "text": bytes_json(&whole(e))});
    if times {
        v["v1"] = limbs(e.v1);
        v["v2"] = limbs(e.v2);
    }
    v
}
fn meta_json(pid: u32, cmd: Option<&str>, start: Option<u64>) -> Value {
    let mut v = json!({"pid": bytes_json(pid.to_string().as_bytes())});
    if let Some(c) = cmd {
        v["cmd"] = bytes_json(c.as_bytes());
    }
    if let Some(s) = start {
        v["start"] = bytes_json(s.to_string().as_bytes());
    }
    v
}
fn read(p: Result<ProfilingData, String>) -> Value {
    let d = match p {
        Ok(d) => d,
        Err(e) => return json!({"op": "read", "r": "err", "why": e}),
    };
    let m = d.metadata().clone();
    match catch(|| d.iter_full().map(|e| ev_json(&full_of(&e, m.start_time), true)).collect::<Vec<_>>()) {
        Ok(evs) => json!({"op": "read", "r": "ok", "events": evs,
            "meta": meta_json(m.process_id, Some(&m.cmd), Some(since(m.start_time, UNIX_EPOCH)))}),
        Err(e) => json!({"op": "read", "r": "panic", "why": e}),
    }
}
fn read_either(file: Vec<u8>, dir: &Scratch, r: &mut Rng) -> Value {
    if r.chance(1, 2) {
        let path = dir.path("given.mm_profdata");
        std::fs::write(&path, file).unwrap();
        let v = read(open(&path));
        let _ = std::fs::remove_file(&path);
        v
    } else {
        read(catch(|| ProfilingData::from_paged_buffer(file, None).map_err(|e| e.to_string())).and_then(|x| x))
    }
}

pub fn run(cx: &Cx, out: &mut Out) {
    let dir = Scratch::new("bytes");
    let mut r = Rng::new(cx.seed);
    for c in &cx.cases {
        let file: Vec<u8> = c["bytes"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
        let op = json!({"op": "file", "w": c["w"], "bytes": c["bytes"]});
        let v = read_either(file, &dir, &mut r);
        out.emit("model", vec![op, v]);
    }
    for _ in 0..cx.n(150, 1500) {
        let old = r.chance(1, 3);
        let m = Meta::rand(&mut r);
        let n = *r.pick(&[0, 1, 2, 4]);
        let mut evs: Vec<Ev> = vec![];
        while evs.len() < n {
            let e = rand_event(&mut r);
            if whole(&e).len() < 90 && e.kind.len() < 90 {
                evs.push(e);
            }
        }
        let path = dir.path("p.mm_profdata");
        let style = if r.chance(1, 3) { Style::Plain } else { Style::Fancy(r.next()) };
        if old {
            v8::write(&path, &m, &evs, style);
        } else {
            v9::write(&path, &m, &evs, style);
        }
        let file = std::fs::read(&path).unwrap();
        let _ = std::fs::remove_file(&path);
        let says = json!({"op": "says", "meta": meta_json(m.pid, Some(&m.cmd), Some(m.start)),
            "events": evs.iter().map(|e| ev_json(e, true)).collect::<Vec<_>>()});
        let op = json!({"op": "file", "w": if old { 4 } else { 8 }, "bytes": bytes_json(&file)});
        let v = read_either(file, &dir, &mut r);
        out.emit("written", vec![op, says, v]);
    }
    for k in 0..cx.n(60, 600) {
        profiled(k, out, &dir, &mut r);
    }
}
/// A profiler, with everything it offers.
fn profiled(k: usize, out: &mut Out, dir: &Scratch, r: &mut Rng) {
    use measureme::*;
    let own = dir.path(&format!("own{}", k));
    std::fs::create_dir(&own).unwrap();
    let stem = *r.pick(&["p", "a b", "rustc-123"]);
    let p = Profiler::new(own.join(stem)).unwrap();
    let ids = EventIdBuilder::new(&p);
    let mut said = vec![];
    let mut open = vec![];
    let n = r.below(5);
    let mut virt = 0;
    for _ in 0..n {
        let mut e = rand_event(r);
        while whole(&e).len() > 90 || e.kind.len() > 90 || e.args.len() > 2 {
            e = rand_event(r);
        }
        let kind = if r.chance(1, 2) {
            p.alloc_string(&e.kind[..])
        } else {
            virt += 1 + r.below(1000);
            let v = StringId::new_virtual(virt);
            let c = p.alloc_string(&e.kind[..]);
            if r.chance(1, 2) {
                p.map_virtual_to_concrete_string(v, c);
            } else {
                p.bulk_map_virtual_to_single_concrete_string([v, StringId::new_virtual(virt + 1)].into_iter(), c);
                virt += 1;
            }
            v
        };
        let label = p.alloc_string(&e.label[..]);
        let args: Vec<StringId> = e.args.iter().map(|a| p.alloc_string(&a[..])).collect();
        let id = match args.len() {
            0 => ids.from_label(label),
            1 => ids.from_label_and_arg(label, args[0]),
            _ => ids.from_label_and_args(label, &args),
        };
        match e.ty {
            "instant" => p.record_instant_event(kind, id, e.tid),
            "integer" => p.record_integer_event(kind, id, e.tid, e.v1),
            _ => {
                // the interval is recorded at its end
                open.push((p.start_recording_interval_event(kind, id, e.tid), e));
                if r.chance(1, 2) {
                    let (g, e) = open.pop().unwrap();
                    drop(g);
                    said.push(ev_json(&e, false));
                }
                continue;
            }
        }
        said.push(ev_json(&e, e.ty == "integer"));
    }
    while let Some((g, e)) = open.pop() {
        drop(g);
        said.push(ev_json(&e, false));
    }
    drop(open);
    drop(p);
    let mut names: Vec<String> = std::fs::read_dir(&own).unwrap().map(|f| f.unwrap().file_name().into_string().unwrap()).collect();
    names.sort();
    let file = names.first().and_then(|n| std::fs::read(own.join(n)).ok()).unwrap_or_default();
    let op = json!({"op": "file", "w": 8, "bytes": bytes_json(&file), "stem": bytes_json(stem.as_bytes()),
        "names": names.iter().map(|n| bytes_json(n.as_bytes())).collect::<Vec<_>>()});
    let says = json!({"op": "says", "meta": meta_json(std::process::id(), None, None), "events": said});
    let v = read_either(file, dir, r);
    out.emit("profiler", vec![op, says, v]);
    let _ = std::fs::remove_dir_all(&own);
}
