//! String tables and event ids: S01 (texts), S02 (virtual ids), S03 (event ids).
use crate::util::*;
use analyzeme::ProfilingData;
use decodeme::stringtable::StringTable;
use measureme::{
    EventId, EventIdBuilder, PageTag, Profiler, SerializationSinkBuilder, StringComponent, StringId,
    StringTableBuilder,
};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::Arc;

pub const FIRST: u64 = 100_000_003;
pub const MAXV: u64 = 100_000_000;
pub const SEP: &str = "\u{1e}";

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Id {
    E(usize), // 0-based; 1-based in traces
    M(u64),
    X,
}
impl Id {
    pub fn json(&self) -> Value {
        match *self {
            Id::E(i) => json!(["e", i + 1]),
            Id::M(v) => json!(["m", v]),
            Id::X => json!(["x", 0]),
        }
    }
}
#[derive(Clone, Debug)]
pub enum Comp {
    V(String),
    R(Id),
}
impl Comp {
    fn json(&self) -> Value {
        match self {
            Comp::V(s) => json!(["v", rle(s.as_bytes())]),
            Comp::R(i) => i.json(),
        }
    }
}

enum Back {
    Prof(Profiler, std::path::PathBuf),
    Build(StringTableBuilder, [Arc<measureme::SerializationSink>; 2]),
    /// a profile put together by hand: sinks of events, string data, index
    File(StringTableBuilder, [Arc<measureme::SerializationSink>; 3]),
}

/// A string table being written, in a whole profile or on its own, and the log of what was done.
pub struct Tab {
    back: Option<Back>,
    pub ids: Vec<StringId>,
    pub virt: Vec<HashSet<u64>>,
    pub ops: Vec<Value>,
    pub mapped: Vec<u64>,
    events: Vec<Id>,
}

macro_rules! arr {
    ($t:expr, $v:expr, $($n:literal),*) => {
        match $v.len() {
            $($n => { let a: [StringComponent<'_>; $n] = $v.try_into().ok().unwrap(); $t.alloc_any(&a) })*
            _ => $t.alloc_any(&$v[..]),
        }
    };
}

impl Tab {
    pub fn new(dir: &Scratch, prof: bool) -> Tab {
        let back = if prof {
            let p = dir.path("strings");
            Back::Prof(Profiler::new(&p).unwrap(), p)
        } else {
            let b = SerializationSinkBuilder::new_in_memory();
            let d = Arc::new(b.new_sink(PageTag::StringData));
            let i = Arc::new(b.new_sink(PageTag::StringIndex));
            Back::Build(StringTableBuilder::new(d.clone(), i.clone()).unwrap(), [d, i])
        };
        Tab { back: Some(back), ids: vec![], virt: vec![], ops: vec![], mapped: vec![], events: vec![] }
    }
    /// A profile at `path`, by the profiler or by hand (which can flush).
    pub fn profile(path: &std::path::Path, prof: bool, meta: &str) -> Tab {
        use measureme::file_header::*;
        let back = if prof {
            Back::Prof(Profiler::new(path).unwrap(), path.to_path_buf())
        } else {
            let mut f = std::fs::File::create(path.with_extension("mm_profdata")).unwrap();
            write_file_header(&mut f, FILE_MAGIC_TOP_LEVEL).unwrap();
            let b = SerializationSinkBuilder::new_from_file(f).unwrap();
            let s = [PageTag::Events, PageTag::StringData, PageTag::StringIndex].map(|t| Arc::new(b.new_sink(t)));
            write_file_header(&mut s[0].as_std_write(), FILE_MAGIC_EVENT_STREAM).unwrap();
            let st = StringTableBuilder::new(s[1].clone(), s[2].clone()).unwrap();
            st.alloc_metadata(meta);
            Back::File(st, s)
        };
        Tab { back: Some(back), ids: vec![], virt: vec![], ops: vec![], mapped: vec![], events: vec![] }
    }
    /// Store n events, with values v1, v1 + 1, ..
    pub fn event(&mut self, ty: &str, v1: u64, v2: u64, tid: u32, kind: Id, eid: Id, n: u64) {
        let (k, e) = (self.conc(kind), EventId::from_label(self.conc(eid)));
        for j in 0..n {
            match self.back() {
                Back::File(_, s) => {
                    let raw = match ty {
                        "interval" => measureme::RawEvent::new_interval(k, e, tid, v1 + j, v2),
                        "instant" => measureme::RawEvent::new_instant(k, e, tid, v1 + j),
                        _ => measureme::RawEvent::new_integer(k, e, tid, v1 + j),
                    };
                    s[0].write_atomic(std::mem::size_of::<measureme::RawEvent>(), |b| raw.serialize(b));
                }
                Back::Prof(p, _) => p.record_integer_event(k, e, tid, v1 + j),
                _ => unreachable!(),
            }
        }
        let ty = if let Some(Back::Prof(..)) = self.back { "integer" } else { ty };
        self.ops.push(json!({"op": "event", "ty": ty, "v1": limbs(v1), "v2": limbs(if ty == "interval" { v2 } else { 0 }),
            "tid": crate::prof::tid_json(tid), "kind": kind.json(), "eid": eid.json(), "n": n}));
    }
    pub fn flush(&mut self, k: usize) {
        if let Back::File(_, s) = self.back() {
            std::io::Write::flush(&mut s[k].as_std_write()).unwrap();
            self.ops.push(json!({"op": "flush", "s": k}));
        }
    }
    /// End the profile. By hand, the sinks go in the order given.
    pub fn close(&mut self, order: &[usize]) {
        match self.back.take() {
            Some(Back::File(st, s)) => {
                drop(st);
                let mut s = s.map(Some);
                for &k in order {
                    s[k] = None;
                }
            }
            b => drop(b),
        }
    }
    pub fn profiler(&self) -> &Profiler {
        match self.back() {
            Back::Prof(p, _) => p,
            _ => unreachable!(),
        }
    }
    fn back(&self) -> &Back {
        self.back.as_ref().unwrap()
    }
    fn alloc_any<S: measureme::SerializableString + ?Sized>(&self, s: &S) -> StringId {
        match self.back() {
            Back::Prof(p, _) => p.alloc_string(s),
            Back::Build(b, _) | Back::File(b, _) => b.alloc(s),
        }
    }
    pub fn conc(&self, id: Id) -> StringId {
        match id {
            Id::E(i) => self.ids[i],
            Id::M(v) => StringId::new_virtual(v),
            Id::X => StringId::INVALID,
        }
    }
    fn log_alloc(&mut self, comps: &[Comp], id: StringId) -> Id {
        let mut vs = HashSet::new();
        for c in comps {
            match c {
                Comp::R(Id::M(v)) => {
                    vs.insert(*v);
                }
                Comp::R(Id::E(i)) => vs.extend(self.virt[*i].iter().copied()),
                _ => {}
            }
        }
        self.ops.push(json!({"op": "alloc", "comps": comps.iter().map(|c| c.json()).collect::<Vec<_>>()}));
        self.ids.push(id);
        self.virt.push(vs);
        Id::E(self.ids.len() - 1)
    }
    /// `how`: 0 as a slice of components, 1 as an array, 2 as a plain str if it is a single value.
    pub fn alloc(&mut self, comps: &[Comp], how: u64) -> Id {
        let id = match comps {
            [Comp::V(s)] if how == 2 => self.alloc_any(s.as_str()),
            _ => {
                let v: Vec<StringComponent<'_>> = comps
                    .iter()
                    .map(|c| match c {
                        Comp::V(s) => StringComponent::Value(s),
                        Comp::R(i) => StringComponent::Ref(self.conc(*i)),
                    })
                    .collect();
                if how == 0 {
                    self.alloc_any(&v[..])
                } else {
                    arr!(self, v, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16)
                }
            }
        };
        self.log_alloc(comps, id)
    }
    pub fn text(&mut self, s: &str) -> Id {
        self.alloc(&[Comp::V(s.to_string())], 2)
    }
    /// Build an event id with the event id builder.
    pub fn event_id(&mut self, label: Id, args: &[Id], how: u64) -> Id {
        let l = self.conc(label);
        let a: Vec<StringId> = args.iter().map(|x| self.conc(*x)).collect();
        if args.is_empty() && how == 0 {
            if let Some(Back::Prof(p, _)) = &self.back {
                assert_eq!(EventIdBuilder::new(p).from_label(l).to_string_id(), l);
            }
            return label;
        }
        let mut comps = vec![Comp::R(label)];
        for x in args {
            comps.push(Comp::V(SEP.to_string()));
            comps.push(Comp::R(*x));
        }
        let id = match self.back() {
            Back::Prof(p, _) => {
                let b = EventIdBuilder::new(p);
                if a.len() == 1 && how == 1 {
                    b.from_label_and_arg(l, a[0])
                } else {
                    b.from_label_and_args(l, &a)
                }
                .to_string_id()
            }
            Back::Build(..) | Back::File(..) => return self.alloc(&comps, 0),
        };
        self.log_alloc(&comps, id)
    }
    /// Whether mapping v to e keeps strings free of cycles.
    pub fn may_map(&self, v: u64, e: usize) -> bool {
        self.virt[e].iter().all(|w| *w < v)
    }
    pub fn map(&mut self, v: u64, e: usize) {
        let (a, b) = (StringId::new_virtual(v), self.ids[e]);
        match self.back() {
            Back::Prof(p, _) => p.map_virtual_to_concrete_string(a, b),
            Back::Build(t, _) | Back::File(t, _) => t.map_virtual_to_concrete_string(a, b),
        }
        self.mapped.push(v);
        self.ops.push(json!({"op": "map", "vs": [[v, v]], "e": e + 1, "r": "ok", "how": "one"}));
    }
    pub fn bulk(&mut self, vs: &[(u64, u64)], e: usize) {
        let all: Vec<StringId> = vs.iter().flat_map(|&(a, b)| a..=b).map(StringId::new_virtual).collect();
        let c = self.ids[e];
        match self.back() {
            Back::Prof(p, _) => p.bulk_map_virtual_to_single_concrete_string(all.into_iter(), c),
            Back::Build(t, _) | Back::File(t, _) => t.bulk_map_virtual_to_single_concrete_string(all.into_iter(), c),
        }
        for &(a, b) in vs {
            self.mapped.push(a);
            self.mapped.push(b);
            if b > a + 1 {
                self.mapped.push(a + (b - a) / 2);
            }
        }
        self.ops.push(json!({"op": "map", "vs": vs, "e": e + 1, "r": "ok", "how": "bulk"}));
    }
    /// Mapping ids of which at least one is not virtual must be refused.
    pub fn bad_map(&mut self, raw: &[u64], e: usize, single: bool) {
        let ids: Vec<StringId> = raw.iter().map(|&r| StringId::new(r)).collect();
        let c = self.ids[e];
        let r = catch(|| match (self.back(), single) {
            (Back::Prof(p, _), true) => p.map_virtual_to_concrete_string(ids[0], c),
            (Back::Build(t, _) | Back::File(t, _), true) => t.map_virtual_to_concrete_string(ids[0], c),
            (Back::Prof(p, _), false) => p.bulk_map_virtual_to_single_concrete_string(ids.into_iter(), c),
            (Back::Build(t, _) | Back::File(t, _), false) => t.bulk_map_virtual_to_single_concrete_string(ids.into_iter(), c),
        });
        self.ops.push(json!({"op": "badmap", "ids": raw.iter().map(|r| limbs(*r)).collect::<Vec<_>>(), "e": e + 1,
            "r": if r.is_ok() { "ok" } else { "fail" }}));
    }
    /// Record an event with the id as its kind and event id.
    pub fn use_in_event(&mut self, id: Id) {
        if let Some(Back::Prof(p, _)) = &self.back {
            let c = self.conc(id);
            p.record_integer_event(c, EventId::from_u64(c.as_u64()), 1, self.events.len() as u64);
            self.events.push(id);
        }
    }
    /// Read everything back and return the history.
    pub fn finish(mut self, extra: &[u64], r: &mut Rng) -> Vec<Value> {
        let mut want: Vec<Id> = (0..self.ids.len()).map(Id::E).collect();
        want.push(Id::X);
        let mut vs: HashSet<u64> = self.mapped.iter().copied().collect();
        vs.extend(self.mapped.iter().map(|v| (v + 1).min(MAXV)));
        vs.extend(self.mapped.iter().map(|v| v.saturating_sub(1)));
        vs.extend(extra.iter().copied());
        vs.extend([0, MAXV, r.below(MAXV)]);
        let mut vs: Vec<u64> = vs.into_iter().collect();
        vs.sort();
        want.extend(vs.into_iter().map(Id::M));
        let mut seen: HashSet<(Id, String)> = HashSet::new();
        let mut reads: Vec<(Id, String)> = vec![];
        let mut evs: HashSet<(Id, String, Vec<String>)> = HashSet::new();
        if let Some(Back::Prof(..)) = self.back {
            for id in &want {
                self.use_in_event(*id);
            }
        }
        match self.back.take().unwrap() {
            Back::File(..) => unreachable!(),
            Back::Build(b, [d, i]) => {
                drop(b);
                let (d, i) = (Arc::try_unwrap(d).ok().unwrap(), Arc::try_unwrap(i).ok().unwrap());
                let t = StringTable::new(d.into_bytes(), i.into_bytes(), None).unwrap();
                for id in want {
                    let c = self.conc(id);
                    let s = t.get(c);
                    reads.push((id, catch(|| s.to_string().into_owned()).unwrap_or_else(|e| format!("PANIC {}", e))));
                    reads.push((
                        id,
                        catch(|| {
                            let mut o = String::from("x");
                            s.write_to_string(&mut o);
                            o[1..].to_string()
                        })
                        .unwrap_or_else(|e| format!("PANIC {}", e)),
                    ));
                }
            }
            Back::Prof(p, path) => {
                drop(p);
                let d = ProfilingData::new(&path).unwrap();
                let full: Vec<_> = d.iter_full().map(|e| catch_ev(e)).collect();
                assert_eq!(full.len(), self.events.len());
                for (id, (k, l, a)) in self.events.iter().zip(full) {
                    reads.push((*id, k));
                    if evs.insert((*id, l.clone(), a.clone())) {
                        self.ops.push(json!({"op": "event", "id": id.json(), "label": rle(l.as_bytes()),
                            "args": a.iter().map(|x| rle(x.as_bytes())).collect::<Vec<_>>()}));
                    }
                }
            }
        }
        for (id, s) in reads {
            if seen.insert((id, s.clone())) {
                self.ops.push(json!({"op": "read", "id": id.json(), "text": rle(s.as_bytes())}));
            }
        }
        self.ops
    }
}
fn catch_ev(e: analyzeme::Event<'_>) -> (String, String, Vec<String>) {
    (e.event_kind.into_owned(), e.label.into_owned(), e.additional_data.into_iter().map(|x| x.into_owned()).collect())
}

/// An address at or after `from` whose id's two low bytes are of the given classes
/// (0, 1: ordinary; 2: 0xFE; 3: 0xFF).
fn addr_for(from: u64, c: [u64; 2]) -> u64 {
    let ok = |b: u64, c: u64| match c {
        2 => b == 0xfe,
        3 => b == 0xff,
        _ => b < 0xfe,
    };
    (from..).find(|a| ok((a + FIRST) & 0xff, c[0]) && ok(((a + FIRST) >> 8) & 0xff, c[1])).unwrap()
}
/// Make the next string start at address `a`.
fn pad_to(t: &mut Tab, a: u64) {
    let here = t.alloc(&[], 0);
    let Id::E(k) = here else { unreachable!() };
    let next = t.ids[k].as_u64() - FIRST + 1;
    if a > next {
        t.alloc(&[Comp::V("p".repeat((a - next - 1) as usize))], 2);
    }
}

pub fn run(cx: &Cx, out: &mut Out) {
    let dir = Scratch::new("strings");
    let mut r = Rng::new(cx.seed);
    match cx.mode.as_str() {
        "table" => table(cx, out, &dir, &mut r),
        "virtual" => virtuals(cx, out, &dir, &mut r),
        "eventid" => eventids(cx, out, &dir, &mut r),
        m => panic!("unknown mode {}", m),
    }
}

/// The real virtual id standing for a model's: same classes of the two low digits.
fn virt_of(v: u64) -> u64 {
    let d = [v % 4, v / 4 % 4, v / 16];
    let b = |c: u64, o: u64| match c {
        2 => 0xfe,
        3 => 0xff,
        _ => 0x10 + 0x20 * c + o,
    };
    b(d[0], 1) | b(d[1], 2) << 8 | d[2] << 16
}
fn replay(c: &Value, dir: &Scratch, prof: bool, r: &mut Rng) -> Vec<Value> {
    let mut t = Tab::new(dir, prof);
    let mut idx: Vec<usize> = vec![];
    for o in c["hist"].as_array().unwrap() {
        if o["op"] == "alloc" {
            let d = &o["id"];
            let cl = [d[0].as_u64().unwrap(), d[1].as_u64().unwrap()];
            if cl[0] >= 2 || cl[1] >= 2 {
                let here = t.alloc(&[], 0);
                let Id::E(k) = here else { unreachable!() };
                let next = t.ids[k].as_u64() - FIRST + 1;
                pad_to(&mut t, addr_for(next + 2, cl));
            }
            let comps: Vec<Comp> = o["comps"]
                .as_array()
                .unwrap()
                .iter()
                .map(|c| match c[0].as_str().unwrap() {
                    "v" => {
                        let n: u64 = c[1].as_array().unwrap().iter().map(|x| x[1].as_u64().unwrap()).sum();
                        // The model's references take 4 bytes, the real ones 9.
                        let n = if n >= 4 { 9 + (n - 4) } else { n };
                        Comp::V(some_text(r, n as usize))
                    }
                    "e" => Comp::R(Id::E(idx[c[1].as_u64().unwrap() as usize - 1])),
                    "m" => Comp::R(Id::M(virt_of(c[1].as_u64().unwrap()))),
                    _ => Comp::R(Id::X),
                })
                .collect();
            let how = r.below(3);
            let Id::E(k) = t.alloc(&comps, how) else { unreachable!() };
            idx.push(k);
        } else {
            t.map(virt_of(o["v"].as_u64().unwrap()), idx[o["e"].as_u64().unwrap() as usize - 1]);
        }
    }
    t.finish(&[], r)
}
/// Text of n bytes.
fn some_text(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    while s.len() < n {
        let left = n - s.len();
        match r.below(8) {
            0 if left >= 2 => s.push('é'),
            1 if left >= 3 => s.push('€'),
            2 if left >= 4 => s.push('\u{10fffe}'),
            3 if left >= 2 => s.push('\u{7fe}'),
            4 => s.push('\0'),
            _ => s.push(*r.pick(&['a', 'b', ' ', '\n', '<', '}'])),
        }
    }
    s
}
fn rand_text(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => some_text(r, 9),
        2 => some_text(r, 8),
        3 => "z".repeat(r.range(10, 600) as usize),
        _ => {
            let n = r.range(0, 12) as usize;
            some_text(r, n)
        }
    }
}
fn rand_virtual(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => r.below(4),
        1 => MAXV - r.below(3),
        2 => *r.pick(&[254, 255, 0xfefe, 0xfeff, 0xfffe, 0xffff, 0xfe_0000, 0xff_0000, 0xfefefe, 0xffffff, 0x1fefefe, 0x4fefefe, 0x4ff0000]),
        3 => r.below(MAXV + 1),
        _ => 10 + r.below(6),
    }
}
fn rand_comp(r: &mut Rng, t: &Tab) -> Comp {
    let n = t.ids.len();
    match r.below(10) {
        0..=3 => Comp::V(rand_text(r)),
        4 => Comp::R(Id::X),
        5 => Comp::R(Id::M(rand_virtual(r))),
        _ if n > 0 => {
            let k = if r.chance(1, 2) { n - 1 - r.below(n.min(4) as u64) as usize } else { r.below(n as u64) as usize };
            Comp::R(Id::E(k))
        }
        _ => Comp::V(rand_text(r)),
    }
}
/// Bounds the text lengths: the sum of the lengths of what a string refers to.
fn len_of(t: &[u64], c: &Comp) -> u64 {
    match c {
        Comp::V(s) => s.len() as u64,
        Comp::R(Id::E(i)) => t[*i],
        _ => 9,
    }
}
pub fn rand_step(t: &mut Tab, lens: &mut Vec<u64>, r: &mut Rng) {
    while lens.len() < t.ids.len() {
        lens.push(1000);
    }
    let n = match r.below(12) {
        0 => 0,
        1..=4 => 1,
        5..=7 => 2,
        8 => r.range(10, 18),
        _ => r.range(3, 5),
    };
    let mut comps: Vec<Comp> = (0..n).map(|_| rand_comp(r, t)).collect();
    while comps.iter().map(|c| len_of(lens, c)).sum::<u64>() > 3000 {
        comps.pop();
    }
    let how = r.below(3);
    lens.push(comps.iter().map(|c| len_of(lens, c)).sum());
    t.alloc(&comps, how);
}

fn table(cx: &Cx, out: &mut Out, dir: &Scratch, r: &mut Rng) {
    for (k, c) in cx.cases.iter().enumerate() {
        let ops = replay(c, dir, k % 16 == 0, r);
        out.emit("model", ops);
    }
    // Strings made of a reference and as many bytes of text as their own address says, and near it.
    for k in 0..cx.n(60, 400) {
        let mut t = Tab::new(dir, k % 4 == 0);
        let base = if k % 2 == 0 { t.text("base") } else { Id::M(12) };
        let to = 9 + r.below(400);
        pad_to(&mut t, to);
        for d in [0i64, -1, 1, 9, -9] {
            let Id::E(here) = t.alloc(&[], 0) else { unreachable!() };
            let a = (t.ids[here].as_u64() - FIRST + 1) as i64;
            let n = (a + d).max(0) as usize;
            t.alloc(&[Comp::R(base), Comp::V("q".repeat(n))], 0);
        }
        if k % 2 == 1 {
            t.map(12, 0);
        }
        out.emit("own-address", t.finish(&[], r));
    }
    // Addresses whose ids hold marker bytes at any place, referred to first, last, alone and twice.
    for k in 0..cx.n(40, 250) {
        let mut t = Tab::new(dir, k % 8 == 0);
        let mut at = vec![];
        for _ in 0..3 {
            let cl = [r.below(4), r.below(4)];
            let here = t.alloc(&[], 0);
            let Id::E(e) = here else { unreachable!() };
            let from = t.ids[e].as_u64() - FIRST + 3;
            pad_to(&mut t, addr_for(from, cl));
            let s = rand_text(r);
            at.push(t.text(&s));
            for f in 0..4 {
                let x = Comp::R(*r.pick(&at));
                let v = Comp::V(rand_text(r));
                let comps = match f {
                    0 => vec![x],
                    1 => vec![x, v],
                    2 => vec![v, x],
                    _ => vec![x.clone(), v, x],
                };
                let how = r.below(2);
                t.alloc(&comps, how);
            }
        }
        out.emit("marker-bytes", t.finish(&[], r));
    }
    // Strings longer than pages, and references to them.
    for k in 0..cx.n(4, 24) {
        let mut t = Tab::new(dir, k % 2 == 0);
        let first = t.text("first");
        for n in [262_134u64, 262_135, 262_143, 262_144, 262_145, 300_000, 700_000] {
            let n = n + r.below(3);
            let big = t.text(&"B".repeat(n as usize));
            let after = t.text("after");
            t.alloc(&[Comp::R(first), Comp::R(after), Comp::V("-".into())], 0);
            if n < 270_000 {
                t.alloc(&[Comp::R(big), Comp::V("x".into()), Comp::R(big)], 1);
                t.alloc(&[Comp::R(big)], 1);
            }
        }
        out.emit("long", t.finish(&[], r));
    }
    // One deep chain, and one wide string.
    for k in 0..2 {
        let mut t = Tab::new(dir, k == 1);
        let mut c = t.text("end");
        for _ in 0..cx.n(300, 1000) {
            c = t.alloc(&[Comp::V(if r.chance(1, 3) { "(".into() } else { String::new() }), Comp::R(c)], 0);
        }
        let wide: Vec<Comp> = (0..200).map(|i| if i % 3 == 0 { Comp::V("w".into()) } else { Comp::R(Id::E(i % 2)) }).collect();
        t.alloc(&wide, 0);
        let Id::E(n) = c else { unreachable!() };
        for i in 0..17usize.min(n) {
            t.alloc(&(0..i).map(|j| if j % 2 == 0 { Comp::R(Id::E(0)) } else { Comp::V(format!("{}", j)) }).collect::<Vec<_>>(), 1);
        }
        out.emit("chain", t.finish(&[], r));
    }
    for _ in 0..cx.n(500, 6000) {
        let prof = r.chance(1, 5);
        let mut t = Tab::new(dir, prof);
        let mut lens = vec![];
        if r.chance(1, 2) {
            let n = r.below(1000);
            pad_to(&mut t, n);
        }
        for _ in 0..r.range(2, 14) {
            rand_step(&mut t, &mut lens, r);
            if r.chance(1, 5) {
                let (v, e) = (rand_virtual(r), r.below(t.ids.len() as u64) as usize);
                if t.may_map(v, e) {
                    t.map(v, e);
                }
            }
        }
        out.emit("random", t.finish(&[], r));
    }
}

fn virtuals(cx: &Cx, out: &mut Out, dir: &Scratch, r: &mut Rng) {
    for (k, c) in cx.cases.iter().enumerate() {
        let ops = replay(c, dir, k % 4 == 0, r);
        out.emit("model", ops);
    }
    // Bulk mappings around the sizes at which the index sink changes its way of writing.
    let sizes = [0u64, 1, 2, 7, 8, 9, 15, 16, 17, 100, 1023, 1024, 8191, 8192, 8193, 16382, 16383, 16384, 16385, 20000, 40000, 65536];
    for k in 0..cx.n(22, 110) {
        let prof = k % 2 == 0;
        let mut t = Tab::new(dir, prof);
        let a = t.text("alpha");
        let b = t.text("beta");
        let c = t.alloc(&[Comp::V("c:".into()), Comp::R(Id::M(5)), Comp::R(Id::M(7_000_000))], 1);
        let pre = r.below(4);
        for j in 0..pre {
            t.map(j, 0);
        }
        let n = if k < sizes.len() { sizes[k] } else { r.below(70_000) };
        let lo = *r.pick(&[0, 5, 1000, 7_000_000 - n / 2, MAXV + 1 - n.max(1)]);
        let Id::E(bi) = b else { unreachable!() };
        let _ = (a, c);
        if n == 0 {
            t.bulk(&[], bi);
        } else {
            let vs = match r.below(3) {
                0 => vec![(lo, lo + n - 1)],
                // twice the same ids, out of order
                1 if n > 1 => vec![(lo + n / 2, lo + n - 1), (lo, lo + n / 2 - 1)],
                _ => vec![(lo, lo + n - 1), (lo, lo)],
            };
            t.bulk(&vs, bi);
        }
        if r.chance(2, 3) {
            let (x, _y) = (lo + r.below(n.max(1)), 0);
            if x <= MAXV {
                t.map(x, 0);
            }
        }
        if r.chance(1, 2) {
            t.bulk(&[(lo, lo), (lo.min(MAXV - 3), lo.min(MAXV - 3) + 2)], 0);
        }
        let extra: Vec<u64> = (0..12).map(|_| (lo + r.below(n.max(2))).min(MAXV)).collect();
        for v in &extra {
            t.use_in_event(Id::M(*v));
        }
        out.emit("bulk", t.finish(&extra, r));
    }
    // What may not be mapped.
    for k in 0..cx.n(40, 200) {
        let mut t = Tab::new(dir, k % 3 == 0);
        t.text("alpha");
        t.text("beta");
        t.bulk(&[(3, 9)], 0);
        let bad = *r.pick(&[MAXV + 1, MAXV + 2, MAXV + 3, MAXV + 4, t.ids[1].as_u64(), u64::MAX, 1 << 32, (1 << 32) + 4, (1 << 63) + 4]);
        let good = 4 + r.below(3);
        match r.below(4) {
            0 => t.bad_map(&[bad], 1, true),
            1 => t.bad_map(&[bad], 1, false),
            2 => t.bad_map(&[good, bad], 1, false),
            _ => t.bad_map(&[good, good + 1, bad, good + 2], 1, false),
        }
        if r.chance(1, 2) {
            t.map(good, 1);
        }
        out.emit("refused", t.finish(&[], r));
    }
    for _ in 0..cx.n(700, 8000) {
        let prof = r.chance(1, 3);
        let mut t = Tab::new(dir, prof);
        t.text("zero");
        let mut lens = vec![];
        for _ in 0..r.range(3, 24) {
            match r.below(10) {
                0..=2 => rand_step(&mut t, &mut lens, r),
                3 => {
                    let v = rand_virtual(r);
                    t.use_in_event(Id::M(v));
                }
                4 => {
                    let e = r.below(t.ids.len() as u64) as usize;
                    let vs: Vec<(u64, u64)> = (0..r.below(5))
                        .map(|_| {
                            let v = rand_virtual(r);
                            (v, (v + r.below(4)).min(MAXV))
                        })
                        .filter(|(a, _)| t.may_map(*a, e))
                        .collect();
                    t.bulk(&vs, e);
                }
                5 if r.chance(1, 4) => {
                    let e = r.below(t.ids.len() as u64) as usize;
                    let bad = MAXV + 1 + r.below(300);
                    let g = rand_virtual(r);
                    t.bad_map(&[g, bad], e, false);
                }
                _ => {
                    let e = r.below(t.ids.len() as u64) as usize;
                    let v = rand_virtual(r);
                    if t.may_map(v, e) {
                        t.map(v, e);
                    }
                }
            }
        }
        let extra: Vec<u64> = (0..3).map(|_| rand_virtual(r)).collect();
        out.emit("random", t.finish(&extra, r));
    }
}

fn sym(c: u64) -> char {
    char::from_u32(c as u32).unwrap()
}
fn good_text(r: &mut Rng) -> String {
    let n = if r.chance(1, 12) { 300 } else { r.range(1, 5) };
    (0..n).map(|_| *r.pick(&['a', 'B', ' ', '\t', '\n', '\u{b}', '\u{c}', '\r', '~', '!', 'é', '\u{80}', '\u{9f}', '\u{85}', '\u{2028}', '\u{10ffff}', '<', '"', '\\'])).collect()
}
fn any_text(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => {
            let mut s = good_text(r);
            let c = if r.chance(1, 8) { 127 } else { r.below(32) as u32 };
            let at = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).nth(r.below(2) as usize).unwrap_or(0);
            s.insert(at, char::from_u32(c).unwrap());
            s
        }
        _ => good_text(r),
    }
}

fn eventids(cx: &Cx, out: &mut Out, dir: &Scratch, r: &mut Rng) {
    // Every short text over the classes of characters, as one string or pieced together.
    for (k, ch) in cx.cases.chunks(40).enumerate() {
        let mut t = Tab::new(dir, true);
        for c in ch {
            let s: String = c["text"].as_array().unwrap().iter().map(|x| sym(x.as_u64().unwrap())).collect();
            let id = if k % 3 == 0 {
                t.text(&s)
            } else {
                let ps: Vec<Id> = s.split('\u{1e}').map(str::to_string).collect::<Vec<_>>().iter().map(|p| t.text(p)).collect();
                t.event_id(ps[0], &ps[1..], k as u64 % 3)
            };
            t.use_in_event(id);
        }
        out.emit("model", t.finish(&[], r));
    }
    // Every character up to U+0100 on its own and inside, as label and as argument.
    for c in 0..cx.n(256, 1200) as u32 {
        let mut t = Tab::new(dir, true);
        let ch = char::from_u32(c).unwrap();
        for s in [format!("{}", ch), format!("a{}b", ch), format!("{}{}x", ch, SEP), format!("x{}{}", SEP, ch), format!("x{}a{}b{}y", SEP, ch, SEP)] {
            let e = t.text(&s);
            t.use_in_event(e);
        }
        out.emit("char", t.finish(&[], r));
    }
    for _ in 0..cx.n(800, 9000) {
        let mut t = Tab::new(dir, true);
        let late = r.chance(1, 3);
        let mut todo: Vec<(u64, usize)> = vec![];
        for _ in 0..r.range(1, 5) {
            let n = match r.below(6) {
                0 => 0,
                1 => 1,
                2 => r.range(4, 20),
                _ => r.range(1, 3),
            };
            let mut parts: Vec<Id> = vec![];
            let bad = r.chance(1, 3);
            for _ in 0..=n {
                let s = if bad { any_text(r) } else { good_text(r) };
                let e = t.text(&s);
                let Id::E(ei) = e else { unreachable!() };
                parts.push(if r.chance(1, 4) {
                    let v = rand_virtual(r);
                    if late {
                        todo.push((v, ei))
                    } else {
                        t.map(v, ei)
                    }
                    Id::M(v)
                } else {
                    e
                });
            }
            let how = r.below(3);
            let id = t.event_id(parts[0], &parts[1..], how);
            t.use_in_event(id);
        }
        for (v, e) in todo {
            t.map(v, e);
        }
        out.emit("random", t.finish(&[], r));
    }
}
