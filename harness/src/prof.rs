//! Profiles with given contents, written in the current format or the previous one, and reading
//! them back through analyzeme.
use crate::util::*;
use analyzeme::{EventPayload, LightweightEvent, ProfilingData, Timestamp};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::path::Path;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub const MAX_SINGLE: u64 = 0xFFFF_FFFF_FFFF;
pub const MAX_INTERVAL: u64 = 0xFFFF_FFFF_FFFD;

#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    /// interval, instant or integer
    pub ty: &'static str,
    pub v1: u64,
    pub v2: u64,
    pub tid: u32,
    pub kind: String,
    pub label: String,
    pub args: Vec<String>,
}
pub fn tid_json(t: u32) -> Value {
    json!([t & 0xffff, t >> 16])
}
pub fn text_json(s: &str) -> Value {
    json!(rle(s.as_bytes()))
}
impl Ev {
    pub fn json(&self) -> Value {
        json!({"ty": self.ty, "v1": limbs(self.v1), "v2": limbs(self.v2), "tid": tid_json(self.tid),
            "kind": text_json(&self.kind), "label": text_json(&self.label),
            "args": self.args.iter().map(|a| text_json(a)).collect::<Vec<_>>()})
    }
    pub fn in_range(&self) -> bool {
        if self.ty == "interval" {
            self.v1 <= self.v2 && self.v2 <= MAX_INTERVAL
        } else {
            self.v1 <= MAX_SINGLE
        }
    }
}

#[derive(Clone, Debug)]
pub struct Meta {
    pub pid: u32,
    pub cmd: String,
    /// nanoseconds since the epoch
    pub start: u64,
}
impl Meta {
    pub fn json(&self) -> Value {
        json!({"op": "meta", "pid": tid_json(self.pid), "cmd": text_json(&self.cmd), "start": limbs(self.start)})
    }
    fn text(&self) -> String {
        json!({"start_time": self.start, "process_id": self.pid, "cmd": self.cmd}).to_string()
    }
    pub fn rand(r: &mut Rng) -> Meta {
        Meta {
            pid: r.next() as u32,
            cmd: r.pick(&["rustc", "rustc --crate-name foo x.rs ", "", "a \"b\" \\ c é\n"]).to_string(),
            start: *r.pick(&[0, 1_700_000_000_123_456_789, 999_999_999, 4_000_000_000_000_000_000]),
        }
    }
}

/// How strings are laid out; `Fancy` mixes references, virtual ids and late mappings.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style {
    Plain,
    Fancy(u64),
}

macro_rules! writer {
    ($name:ident, $m:ident, $int:ty, $lead:expr) => {
        pub mod $name {
            use super::*;
            use std::sync::Arc;
            use $m::file_header::*;
            use $m::*;

            pub struct W {
                st: StringTableBuilder,
                pub events: Arc<SerializationSink>,
                plain: HashMap<String, StringId>,
                late: Vec<(StringId, StringId)>,
                next_virtual: $int,
                r: Option<Rng>,
            }
            impl W {
                pub fn new(path: &Path, meta: &Meta, style: Style) -> W {
                    let mut f = std::fs::File::create(path).unwrap();
                    write_file_header(&mut f, FILE_MAGIC_TOP_LEVEL).unwrap();
                    let b = SerializationSinkBuilder::new_from_file(f).unwrap();
                    let events = Arc::new(b.new_sink(PageTag::Events));
                    write_file_header(&mut events.as_std_write(), FILE_MAGIC_EVENT_STREAM).unwrap();
                    let st = StringTableBuilder::new(
                        Arc::new(b.new_sink(PageTag::StringData)),
                        Arc::new(b.new_sink(PageTag::StringIndex)),
                    )
                    .unwrap();
                    st.alloc_metadata(&*meta.text());
                    W {
                        st,
                        events,
                        plain: HashMap::new(),
                        late: vec![],
                        next_virtual: 0,
                        r: match style {
                            Style::Plain => None,
                            Style::Fancy(s) => Some(Rng::new(s)),
                        },
                    }
                }
                fn concrete(&mut self, s: &str) -> StringId {
                    let reuse = self.r.as_mut().map_or(true, |r| r.chance(3, 4));
                    if reuse {
                        if let Some(i) = self.plain.get(s) {
                            return *i;
                        }
                    }
                    let split = self.r.as_mut().map_or(false, |r| r.chance(1, 3));
                    let i = if split && s.len() > 1 {
                        let m = (1..s.len()).find(|k| s.is_char_boundary(*k)).unwrap_or(0);
                        let tail = self.st.alloc(&s[m..]);
                        self.st.alloc(&[StringComponent::Value(&s[..m]), StringComponent::Ref(tail)])
                    } else {
                        self.st.alloc(s)
                    };
                    self.plain.insert(s.to_string(), i);
                    i
                }
                pub fn text(&mut self, s: &str) -> StringId {
                    let i = self.concrete(s);
                    let v = match self.r.as_mut() {
                        Some(r) => r.below(6),
                        None => 9,
                    };
                    if v > 1 {
                        return i;
                    }
                    let id = StringId::new_virtual(self.next_virtual);
                    self.next_virtual += 1 + self.r.as_mut().unwrap().below(300) as $int;
                    if v == 0 {
                        self.st.map_virtual_to_concrete_string(id, i);
                    } else {
                        self.late.push((id, i));
                    }
                    id
                }
                pub fn event_id(&mut self, label: &str, args: &[String]) -> StringId {
                    let how = self.r.as_mut().map_or(0, |r| r.below(3));
                    if how == 0 || args.len() > 8 {
                        let mut s = label.to_string();
                        for a in args {
                            s.push('\u{1e}');
                            s.push_str(a);
                        }
                        return self.text(&s);
                    }
                    // The old reader takes some strings that start with a reference for that reference alone.
                    let m = if $lead { 0 } else { (1..label.len() + 1).find(|k| label.is_char_boundary(*k)).unwrap_or(0) };
                    let l = self.text(&label[m..]);
                    let ids: Vec<StringId> = args.iter().map(|a| self.text(a)).collect();
                    let mut c = vec![];
                    if m > 0 {
                        c.push(StringComponent::Value(&label[..m]));
                    }
                    c.push(StringComponent::Ref(l));
                    for (k, a) in ids.iter().enumerate() {
                        c.push(StringComponent::Value("\u{1e}"));
                        if how == 1 {
                            c.push(StringComponent::Ref(*a));
                        } else {
                            c.push(StringComponent::Value(&args[k]));
                        }
                    }
                    self.st.alloc(&c[..])
                }
                /// Whether the event was accepted.
                pub fn event(&mut self, e: &Ev) -> bool {
                    let kind = self.text(&e.kind);
                    let id = EventId::from_label(self.event_id(&e.label, &e.args));
                    match catch(|| match e.ty {
                        "interval" => RawEvent::new_interval(kind, id, e.tid, e.v1, e.v2),
                        "instant" => RawEvent::new_instant(kind, id, e.tid, e.v1),
                        _ => RawEvent::new_integer(kind, id, e.tid, e.v1),
                    }) {
                        Ok(raw) => {
                            self.events.write_atomic(std::mem::size_of::<RawEvent>(), |b| raw.serialize(b));
                            true
                        }
                        Err(_) => false,
                    }
                }
                pub fn finish(mut self) {
                    for (a, b) in std::mem::take(&mut self.late) {
                        self.st.map_virtual_to_concrete_string(a, b);
                    }
                }
            }
            pub fn write(path: &Path, meta: &Meta, evs: &[Ev], style: Style) {
                let mut w = W::new(path, meta, style);
                for e in evs {
                    assert!(w.event(e));
                }
                w.finish();
            }
        }
    };
}
writer!(v9, measureme, u64, true);
writer!(v8, measureme_10, u32, false);

pub fn since(t: SystemTime, start: SystemTime) -> u64 {
    t.duration_since(start).map(|d| d.as_nanos() as u64).unwrap_or(u64::MAX)
}
pub fn light(l: &LightweightEvent, start: SystemTime) -> (&'static str, u64, u64) {
    payload(&l.payload, start)
}
pub fn payload(p: &EventPayload, start: SystemTime) -> (&'static str, u64, u64) {
    match p {
        EventPayload::Integer(v) => ("integer", *v, 0),
        EventPayload::Timestamp(Timestamp::Instant(t)) => ("instant", since(*t, start), 0),
        EventPayload::Timestamp(Timestamp::Interval { start: s, end }) => ("interval", since(*s, start), since(*end, start)),
    }
}
pub fn light_json(l: &LightweightEvent, start: SystemTime) -> Value {
    let (ty, v1, v2) = light(l, start);
    json!({"ty": ty, "v1": limbs(v1), "v2": limbs(v2), "tid": tid_json(l.thread_id)})
}
pub fn full_of(e: &analyzeme::Event<'_>, start: SystemTime) -> Ev {
    let (ty, v1, v2) = payload(&e.payload, start);
    Ev {
        ty,
        v1,
        v2,
        tid: e.thread_id,
        kind: e.event_kind.to_string(),
        label: e.label.to_string(),
        args: e.additional_data.iter().map(|a| a.to_string()).collect(),
    }
}
/// Everything in a profile as one "read" step. `with_meta`: also give its metadata.
pub fn read_op(p: Result<ProfilingData, String>) -> Value {
    let d = match p {
        Ok(d) => d,
        Err(e) => return json!({"op": "read", "r": "err", "why": e}),
    };
    let m = d.metadata().clone();
    let r = catch(|| {
        let full: Vec<Value> = d.iter_full().map(|e| full_of(&e, m.start_time).json()).collect();
        let li: Vec<Value> = d.iter().map(|l| light_json(&l, m.start_time)).collect();
        (full, li)
    });
    match r {
        Ok((full, li)) => json!({"op": "read", "r": "ok", "num": d.num_events(), "events": full, "light": li,
            "meta": {"pid": tid_json(m.process_id), "cmd": text_json(&m.cmd), "start": limbs(since(m.start_time, UNIX_EPOCH))}}),
        Err(e) => json!({"op": "read", "r": "panic", "why": e}),
    }
}
pub fn open(path: &Path) -> Result<ProfilingData, String> {
    catch(|| ProfilingData::new(path).map_err(|e| e.to_string())).and_then(|x| x)
}
pub fn at(start: SystemTime, n: u64) -> SystemTime {
    start + Duration::from_nanos(n)
}

pub const KINDS: [&str; 9] = [
    "GenericActivity",
    "IncrementalLoadResult",
    "IncrementalResultHashing",
    "Query",
    "QueryBlocked",
    "QueryCacheHit",
    "ArtifactSize",
    "Weird",
    "Kind é",
];
pub fn rand_value(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => r.below(4),
        1 => MAX_SINGLE - r.below(4),
        2 => (1 << r.below(48)) - r.below(2),
        3 => 0xFFFF_FFFF + r.below(3),
        4 => (r.below(4) << 46) | r.below(4),
        _ => r.next() & MAX_SINGLE,
    }
}
/// An event that may be recorded.
/// A text that is nearly the same.
pub fn near(r: &mut Rng, s: &str) -> String {
    match r.below(8) {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        2 => format!("{} ", s),
        3 => format!(" {}", s),
        4 => format!("{}{}", s, s),
        5 => s.chars().take(s.chars().count().max(2) - 1).collect(),
        6 => s.chars().rev().collect(),
        _ => format!("{}{}", s, "x".repeat(*r.pick(&[1, 30, 200]))),
    }
}
pub fn rand_event(r: &mut Rng) -> Ev {
    let ty = *r.pick(&["interval", "interval", "instant", "integer"]);
    let (mut a, mut b) = (rand_value(r), 0);
    if ty == "interval" {
        b = rand_value(r).min(MAX_INTERVAL);
        a = a.min(MAX_INTERVAL);
        if r.chance(1, 6) {
            b = a;
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
    }
    let mut args: Vec<String> = (0..*r.pick(&[0, 0, 1, 2, 5])).map(|i| format!("arg{} {}", i, r.below(3))).collect();
    let mut kind = r.pick(&KINDS).to_string();
    let mut label = r.pick(&["a", "b", "label with spaces", "typeck", "é€", "<x::y>"]).to_string();
    if r.chance(1, 8) {
        kind = near(r, &kind);
    }
    if r.chance(1, 8) {
        label = near(r, &label);
    }
    if r.chance(1, 8) && !args.is_empty() {
        let k = r.below(args.len() as u64) as usize;
        args[k] = near(r, &args[k]);
    }
    Ev {
        ty,
        v1: a,
        v2: b,
        tid: *r.pick(&[0, 1, 2, 7, 65535, 65536, u32::MAX]),
        kind,
        label,
        args,
    }
}
