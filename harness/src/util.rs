//! Small utilities: seeded random numbers, trace output, run-length projection.
use serde_json::{json, Value};
use std::io::Write;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    /// Uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            xs.swap(i, j);
        }
    }
}

/// Writes traces, one JSON object per line: {"id": .., "ops": [..], ...}
pub struct Out {
    w: std::io::BufWriter<std::fs::File>,
    pub n: usize,
    pub executions: usize,
    seen: std::collections::HashSet<u64>,
    path: String,
}
impl Out {
    pub fn create(path: &str) -> Out {
        Out {
            w: std::io::BufWriter::new(std::fs::File::create(path).unwrap()),
            n: 0,
            executions: 0,
            seen: Default::default(),
            path: path.to_string(),
        }
    }
    /// Emit a trace unless an identical one was emitted before.
    pub fn emit(&mut self, tag: &str, ops: Vec<Value>) {
        self.emit_with(tag, ops, json!({}));
    }
    pub fn emit_with(&mut self, tag: &str, ops: Vec<Value>, extra: Value) {
        use std::hash::{Hash, Hasher};
        self.executions += 1;
        let body = serde_json::to_string(&json!([&ops, &extra])).unwrap();
        let mut h = std::collections::hash_map::DefaultHasher::new();
        body.hash(&mut h);
        if !self.seen.insert(h.finish()) {
            return;
        }
        self.n += 1;
        let mut o = json!({"id": self.n, "tag": tag, "ops": ops});
        if let Value::Object(m) = extra {
            for (k, v) in m {
                o[k] = v;
            }
        }
        serde_json::to_writer(&mut self.w, &o).unwrap();
        self.w.write_all(b"\n").unwrap();
        // Keep the file complete in case the code under test aborts the process.
        self.w.flush().unwrap();
    }
    /// Tell the driver that the harness came to its end, and how much it did.
    pub fn finish(&mut self) {
        let o = json!({"traces": self.n, "executions": self.executions});
        std::fs::write(format!("{}.end", self.path), o.to_string()).unwrap();
    }
}

/// Run a closure, turning a panic into an Err with its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

thread_local! { static QUIET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| q.get()) == 0 {
            old(i)
        }
    }));
}

/// A scratch directory removed on drop.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let base = std::env::var("MMV_SCRATCH").unwrap_or("/tmp".into());
        let p = std::path::PathBuf::from(base).join(format!("mmv-{}-{}", tag, std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn path(&self, n: &str) -> std::path::PathBuf {
        self.0.join(n)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Run lengths of equal bytes: [[value, count], ...]
pub fn rle(bytes: &[u8]) -> Vec<(u64, u64)> {
    let mut v: Vec<(u64, u64)> = vec![];
    for &b in bytes {
        match v.last_mut() {
            Some(l) if l.0 == b as u64 => l.1 += 1,
            _ => v.push((b as u64, 1)),
        }
    }
    v
}

pub fn bytes_json(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|&x| json!(x)).collect())
}

/// A 64-bit value as four 16-bit limbs, least significant first (TLC integers have 32 bits).
pub fn limbs(v: u64) -> Value {
    json!([v & 0xffff, (v >> 16) & 0xffff, (v >> 32) & 0xffff, v >> 48])
}

/// What the driver asked for.
pub struct Cx {
    pub mode: String,
    pub seed: u64,
    pub thorough: bool,
    pub cases: Vec<Value>,
}
impl Cx {
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
}

pub fn read_cases(p: &str) -> Vec<Value> {
    std::fs::read_to_string(p)
        .unwrap()
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(l).unwrap())
        .collect()
}
