//! Streams that grow beyond four gigabytes (C01, S01). What is written goes to /dev/null, or through
//! a pipe into memory that holds only what is not zero.
use crate::util::*;
use measureme::file_header::*;
use measureme::*;
use serde_json::{json, Value};
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::OwnedFd;
use std::sync::Arc;

const FOUR: u64 = 1 << 32;
fn num(n: u64) -> Value {
    json!([n >> 20, n & 0xfffff])
}
pub fn run(cx: &Cx, out: &mut Out) {
    let mut r = Rng::new(cx.seed);
    for _ in 0..cx.n(1, 4) {
        match cx.mode.as_str() {
            "sink" => sink(out, &mut r),
            "strings" => strings(out, &mut r),
            m => panic!("unknown mode {}", m),
        }
    }
}
fn sink(out: &mut Out, r: &mut Rng) {
    let null = File::options().write(true).open("/dev/null").unwrap();
    let b = SerializationSinkBuilder::new_from_file(null).unwrap();
    let s = b.new_sink(PageTag::Events);
    let big = vec![0u8; 64 << 20];
    let (mut done, mut ops) = (0u64, vec![]);
    let end = FOUR + r.below(200 << 20);
    while done < end {
        // near the limit, small ones
        let near = done + (64 << 20) > FOUR && done < FOUR + (1 << 20);
        let n = if near {
            let gap = FOUR.saturating_sub(done);
            *r.pick(&[gap.saturating_sub(40), gap / 2, 32, 1, 300_000, 262_144]).min(&(64 << 20))
        } else {
            *r.pick(&[64 << 20, 64 << 20, 64 << 20, 5_000_000, 262_145, 100])
        };
        let n = n.min(64 << 20) as usize;
        let at = if r.chance(1, 2) { s.write_atomic(n, |b| b.copy_from_slice(&big[..n])) } else { s.write_bytes_atomic(&big[..n]) };
        ops.push(json!({"op": "write", "n": num(n as u64), "at": num(at.0)}));
        done += n as u64;
    }
    out.emit("raw", ops);
}

/// Takes the pages off the pipe: the data stream, of which zeros cost nothing, the index, and the events.
fn collect(mut from: File) -> [Vec<u8>; 3] {
    let zeros = vec![0u8; 1 << 16];
    let mut data = vec![0u8; (FOUR + (300 << 20)) as usize];
    let mut at = 0usize;
    let (mut events, mut index) = (vec![], vec![]);
    let mut head = [0u8; 5];
    while from.read_exact(&mut head).is_ok() {
        let n = u32::from_le_bytes(head[1..].try_into().unwrap()) as usize;
        let mut page = vec![0u8; n];
        if from.read_exact(&mut page).is_err() {
            break;
        }
        match head[0] {
            0 => events.extend(page),
            2 => index.extend(page),
            _ => {
                for c in page.chunks(1 << 16) {
                    if at + c.len() <= data.len() && c != &zeros[..c.len()] {
                        data[at..at + c.len()].copy_from_slice(c);
                    }
                    at += c.len();
                }
            }
        }
    }
    data.truncate(at);
    [data, index, events]
}
struct Far {
    t: StringTableBuilder,
    ids: Vec<StringId>,
    plain: Vec<usize>,
    /// the end of the data stream
    done: u64,
    ops: Vec<Value>,
}
impl Far {
    fn log(&mut self, parts: Value, size: u64, id: StringId) -> usize {
        self.ops.push(json!({"op": "alloc", "parts": parts, "id": num(id.as_u64())}));
        self.ids.push(id);
        self.done += size + 1;
        self.ids.len()
    }
    fn fill(&mut self, zeros: &str) {
        let id = self.t.alloc(zeros);
        self.log(json!([{"k": "fill", "n": num(zeros.len() as u64)}]), zeros.len() as u64, id);
    }
    fn some(&mut self, r: &mut Rng) -> usize {
        let s = *r.pick(&["a", "some text", "é", "x y"]);
        let text = |s: &str| json!({"k": "text", "b": bytes_json(s.as_bytes())});
        let k = if self.plain.is_empty() || r.chance(1, 2) {
            let id = self.t.alloc(s);
            self.log(json!([text(s)]), s.len() as u64, id)
        } else {
            let to = *r.pick(&self.plain);
            let id = self.ids[to - 1];
            if r.chance(1, 3) {
                let id = self.t.alloc(&[StringComponent::Ref(id)][..]);
                self.log(json!([{"k": "ref", "to": to}]), 9, id)
            } else {
                let id = self.t.alloc(&[StringComponent::Value(s), StringComponent::Ref(id), StringComponent::Value("z")][..]);
                self.log(json!([text(s), {"k": "ref", "to": to}, text("z")]), s.len() as u64 + 10, id)
            }
        };
        self.plain.push(k);
        k
    }
}
fn strings(out: &mut Out, r: &mut Rng) {
    let (a, b) = std::io::pipe().unwrap();
    let reader = std::thread::spawn(move || collect(File::from(OwnedFd::from(a))));
    let b = SerializationSinkBuilder::new_from_file(File::from(OwnedFd::from(b))).unwrap();
    let events = Arc::new(b.new_sink(PageTag::Events));
    write_file_header(&mut events.as_std_write(), FILE_MAGIC_EVENT_STREAM).unwrap();
    let t = StringTableBuilder::new(Arc::new(b.new_sink(PageTag::StringData)), Arc::new(b.new_sink(PageTag::StringIndex))).unwrap();
    let mut f = Far { t, ids: vec![], plain: vec![], done: 8, ops: vec![] };
    let meta = "{\"start_time\": 7, \"process_id\": 4, \"cmd\": \"x\"}";
    f.t.alloc_metadata(meta);
    // as the first string, without its id
    f.done += meta.len() as u64 + 1;
    let zeros = "\0".repeat(64 << 20);
    let mut want = vec![];
    let mut virt = 3u64;
    let mut group = |f: &mut Far, r: &mut Rng, n: u64, want: &mut Vec<(usize, usize)>| {
        for _ in 0..n {
            let (k, e) = (f.some(r), f.some(r));
            let mut id = f.ids[k - 1];
            if r.chance(1, 2) {
                let v = StringId::new_virtual(virt);
                virt += 1 + r.below(1000);
                f.t.map_virtual_to_concrete_string(v, id);
                id = v;
            }
            let raw = RawEvent::new_integer(id, EventId::from_u64(f.ids[e - 1].as_u64()), 1, want.len() as u64);
            events.write_atomic(32, |b| raw.serialize(b));
            want.push((k, e));
        }
    };
    group(&mut f, r, 3, &mut want);
    // ids reach 2^32 before addresses do
    for limit in [FOUR - 100_000_003, FOUR, FOUR + (100 << 20)] {
        let stop = limit - r.below(60);
        while f.done < stop {
            let n = (stop - f.done - 1).min(64 << 20) as usize;
            f.fill(&zeros[..n]);
        }
        group(&mut f, r, 8, &mut want);
    }
    let Far { t, mut ops, .. } = f;
    let _ = std::io::stdout().flush();
    drop(t);
    drop(events);
    drop(b);
    let [data, index, ev] = reader.join().unwrap();
    // from the metadata on, as the specification has it
    ops.insert(0, json!({"op": "alloc", "parts": [{"k": "text", "b": bytes_json(meta.as_bytes())}], "id": num(100_000_003 + 8)}));
    let want: Vec<Value> = want.iter().map(|(k, e)| json!([k + 1, e + 1])).collect();
    for o in ops.iter_mut() {
        for p in o["parts"].as_array_mut().unwrap() {
            if p["k"] == "ref" {
                p["to"] = json!(p["to"].as_u64().unwrap() + 1);
            }
        }
    }
    let got = catch(|| {
        let d = decodeme::EventDecoder::from_separate_buffers(data, index, ev, None).map_err(|e| e.to_string())?;
        let all: Vec<Value> = (0..d.num_events())
            .map(|k| {
                let e = d.decode_full_event(k);
                let same = e.payload.integer() == Some(k as u64) && e.additional_data.is_empty();
                // nothing as long as the filling is among what was asked for
                let some = |s: &str| if s.len() > 10_000 { json!([-1]) } else { bytes_json(s.as_bytes()) };
                json!([some(&e.event_kind), if same { some(&e.label) } else { json!([-2]) }])
            })
            .collect();
        Ok::<_, String>(all)
    })
    .and_then(|x| x);
    ops.push(match got {
        Ok(v) => json!({"op": "read", "r": "ok", "want": want, "got": v}),
        Err(e) => json!({"op": "read", "r": "err", "why": e}),
    });
    out.emit("strings", ops);
}
