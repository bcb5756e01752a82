//! Runs of the command line tools on inputs that may be no profiles, with results that may find no place.
use crate::analysis::*;
use crate::prof::*;
use crate::reader::build;
use crate::util::*;
use serde_json::{json, Value};
use std::fs;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn signal(signum: i32, handler: usize) -> usize;
}
const RLIMIT_FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;

struct Ran {
    r: &'static str,
    said: u64,
    err: String,
}
/// Runs a tool with its output in a file, with room for so many bytes in any file.
fn run_tool(dir: &Path, name: &str, args: &[String], room: Option<u64>, full: bool) -> Ran {
    let exe = Path::new(&std::env::var("MMV_TOOLS").expect("MMV_TOOLS")).join(name);
    let so = dir.join("stdout.txt");
    let f = if full { fs::OpenOptions::new().write(true).open("/dev/full").unwrap() } else { fs::File::create(&so).unwrap() };
    let mut c = Command::new(&exe);
    c.args(args).current_dir(dir).stdin(Stdio::null()).stdout(f).stderr(Stdio::piped());
    if let Some(n) = room {
        unsafe {
            c.pre_exec(move || {
                signal(SIGXFSZ, 1); // ignored: writes fail
                if setrlimit(RLIMIT_FSIZE, &[n, n]) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
    }
    let o = c.spawn().unwrap().wait_with_output().unwrap();
    let r = match (o.status.code(), o.status.signal()) {
        (Some(0), _) => "ok",
        (Some(_), _) => "fail",
        _ => "killed",
    };
    Ran { r, said: if full { 0 } else { fs::metadata(&so).map_or(0, |m| m.len()) }, err: String::from_utf8_lossy(&o.stderr).into_owned() }
}

#[derive(Clone)]
struct Input {
    class: String,
    json: Value,
    /// contents of the profile, the saved summary, or another file
    bytes: Option<Vec<u8>>,
    /// what stands there when it is no file
    other: &'static str,
}
/// A profile of one thread with some time in it.
fn profile(evs: &[Ev], old: bool, sc: &Scratch, r: &mut Rng) -> Vec<u8> {
    let m = Meta {
        pid: 77,
        cmd: "rustc --crate-name foo x.rs".into(),
        start: *r.pick(&[0, 1_700_000_000_123_456_789]),
    };
    let p = sc.path("making.mm_profdata");
    let style = if r.chance(1, 2) { Style::Plain } else { Style::Fancy(r.next()) };
    if old {
        v8::write(&p, &m, evs, style)
    } else {
        v9::write(&p, &m, evs, style)
    }
    let b = fs::read(&p).unwrap();
    fs::remove_file(&p).unwrap();
    b
}
fn head(len: u64, magic: &str, version: u64) -> Value {
    json!({"len": len, "magic": magic, "version": version})
}
fn made(f: Value, r: &mut Rng) -> Input {
    let b = build(&f, r);
    Input { class: "made".into(), json: json!({"kind": "made", "file": f}), bytes: Some(b), other: "" }
}
fn input(class: &str, evs: &[Ev], saved: &[u8], sc: &Scratch, r: &mut Rng) -> Input {
    let v = *r.pick(&[9, 9, 8]);
    let h = head(8, "good", v);
    let good = json!({"top": h, "meta": "good", "streams": [{"s": "events", "h": h}, {"s": "data", "h": h}, {"s": "index", "h": h}]});
    let nothing = |bytes: Option<Vec<u8>>, other| Input { class: class.into(), json: json!({"kind": "nothing"}), bytes, other };
    match class {
        "profile" => {
            let old = r.chance(1, 3);
            Input { class: class.into(), json: json!({"kind": "profile"}), bytes: Some(profile(evs, old, sc, r)), other: "" }
        }
        "none" => nothing(None, "none"),
        "directory" => nothing(None, "directory"),
        "three files" => nothing(None, "three files"),
        "empty" => nothing(Some(vec![]), ""),
        "noise" => {
            let n = r.range(1, 200);
            nothing(Some((0..n).map(|k| if k == 0 { b'x' } else { r.next() as u8 }).collect()), "")
        }
        "magic" => {
            let mut c = good;
            c["top"] = head(8, "bad", v);
            made(c, r)
        }
        "version" => {
            let mut c = good;
            c["top"]["version"] = json!(*r.pick(&[0, 1, 6, 10, 11, 255, 256 + 9, 0x900]));
            made(c, r)
        }
        "cut" => {
            let mut c = good;
            c["top"]["len"] = json!(r.below(8));
            made(c, r)
        }
        "streams" => {
            // one of the streams is not there, or is another
            let h = head(8, "good", 9);
            let mut c = json!({"top": h, "meta": "good", "streams": [{"s": "events", "h": h}, {"s": "data", "h": h}, {"s": "index", "h": h}]});
            let k = r.below(3) as usize;
            if r.chance(1, 2) {
                c["streams"].as_array_mut().unwrap().remove(k);
            } else {
                c["streams"][k]["h"] = match r.below(3) {
                    0 => head(8, "bad", 9),
                    1 => head(8, "good", 8),
                    _ => head(r.range(1, 7), "good", 9),
                };
            }
            made(c, r)
        }
        "meta" => {
            let mut c = good;
            c["top"] = head(8, "good", 9);
            for k in 0..3 {
                c["streams"][k]["h"] = head(8, "good", 9);
            }
            c["meta"] = json!(*r.pick(&["broken", "missing"]));
            made(c, r)
        }
        // summaries in JSON
        "saved" => Input { class: class.into(), json: json!({"kind": "summary", "whole": true}), bytes: Some(saved.to_vec()), other: "" },
        "saved cut" => {
            let n = r.below(saved.len() as u64) as usize;
            Input { class: class.into(), json: json!({"kind": "summary", "whole": false}), bytes: Some(saved[..n].to_vec()), other: "" }
        }
        "saved other" if r.chance(1, 2) => {
            // one of its parts is not there
            let mut v: Value = serde_json::from_slice(saved).unwrap();
            let part = *r.pick(&["query_data", "artifact_sizes", "total_time"]);
            let x = v.as_object_mut().unwrap().remove(part).unwrap();
            if r.chance(1, 2) {
                v["other"] = x;
            }
            Input { class: class.into(), json: json!({"kind": "summary", "whole": false}), bytes: Some(v.to_string().into_bytes()), other: "" }
        }
        "saved other" => {
            let b = r.pick(&["[]", "{}", "null", "{\"query_data\": []}", "3", "{\"query_data\": [], \"artifact_sizes\": [], \"total_time\": \"x\"}"]);
            Input { class: class.into(), json: json!({"kind": "summary", "whole": false}), bytes: Some(b.as_bytes().to_vec()), other: "" }
        }
        "saved none" => Input { class: class.into(), json: json!({"kind": "summary", "whole": false}), bytes: None, other: "none" },
        c => panic!("unknown class {}", c),
    }
}

struct Job<'a> {
    cmd: &'a str,
    ins: &'a [Input],
    sc: &'a Scratch,
    /// names with their extension, or without
    full_names: bool,
}
impl Job<'_> {
    fn name(&self, k: usize) -> String {
        let ext = if self.ins[k].class.starts_with("saved") { "json" } else { "mm_profdata" };
        let dir = if self.cmd == "crox dir" { "dir/" } else { "" };
        format!("{}p{}.{}", dir, k, ext)
    }
    fn result(&self) -> Option<PathBuf> {
        Some(self.sc.path(match self.cmd {
            "summarize json" => "p0.json",
            "diff json" => "p1.json",
            "crox" | "crox dir" => "chrome_profiler.json",
            "truncate" => "p0.truncated.mm_profdata",
            "stacks" => "out.stacks_folded",
            "flame" => "rustc.svg",
            _ => return None,
        }))
    }
    fn clean(&self) {
        for e in fs::read_dir(&self.sc.0).unwrap().flatten() {
            let p = e.path();
            if p.symlink_metadata().map_or(false, |m| m.is_dir()) {
                fs::remove_dir_all(p).unwrap();
            } else {
                fs::remove_file(p).unwrap();
            }
        }
    }
    fn place(&self) {
        self.clean();
        let sc = self.sc;
        if self.cmd == "crox dir" {
            fs::create_dir_all(sc.path("dir")).unwrap();
            fs::write(sc.path("dir/notes.txt"), b"x").unwrap();
            fs::write(sc.path("dir/mm_profdata"), b"x").unwrap();
        }
        for (k, i) in self.ins.iter().enumerate() {
            let p = sc.path(&self.name(k));
            match &i.bytes {
                Some(b) => fs::write(&p, b).unwrap(),
                None => match i.other {
                    "directory" => fs::create_dir_all(&p).unwrap(),
                    "three files" if self.cmd != "crox dir" => {
                        for s in ["events", "string_data", "string_index"] {
                            fs::write(p.with_extension(s), b"MMES").unwrap();
                        }
                    }
                    _ if self.cmd == "crox dir" => std::os::unix::fs::symlink("nowhere", &p).unwrap(),
                    _ => {}
                },
            }
        }
    }
    fn command(&self) -> (&'static str, Vec<String>) {
        let names = (0..self.ins.len()).map(|k| {
            let n = self.name(k);
            if self.full_names || self.cmd == "truncate" {
                n
            } else {
                n.strip_suffix(".mm_profdata").unwrap_or(&n).to_string()
            }
        });
        let (tool, mut args) = match self.cmd {
            "summarize" => ("summarize", vec!["summarize"]),
            "summarize json" => ("summarize", vec!["summarize", "--json"]),
            "diff" => ("summarize", vec!["diff"]),
            "diff json" => ("summarize", vec!["diff", "--json"]),
            "aggregate" => ("summarize", vec!["aggregate"]),
            "crox" => ("crox", vec![]),
            "crox dir" => ("crox", vec!["--dir", "dir"]),
            "view" => ("mmview", vec![]),
            "truncate" => ("mmedit", vec!["truncate"]),
            "stacks" => ("stack_collapse", vec![]),
            "flame" => ("flamegraph", vec![]),
            c => panic!("unknown command {}", c),
        };
        let mut args: Vec<String> = args.drain(..).map(|a| a.to_string()).collect();
        if self.cmd != "crox dir" {
            args.extend(names);
        }
        (tool, args)
    }
    /// One run. `room`: bytes; `full`: the place is a full device; `blocked`: a directory.
    fn run(&self, room: Option<u64>, full: bool, blocked: bool, need: Option<u64>) -> (Value, u64) {
        self.place();
        let out = self.result();
        if let Some(o) = &out {
            if full {
                let _ = fs::remove_file(o);
                std::os::unix::fs::symlink("/dev/full", o).unwrap();
            } else if blocked {
                fs::create_dir_all(o).unwrap();
            }
        }
        let (tool, args) = self.command();
        let x = run_tool(&self.sc.0, tool, &args, room, full && out.is_none());
        let got = match &out {
            None => x.said,
            Some(o) => o.metadata().map_or(0, |m| if m.is_file() { m.len() } else { 0 }),
        };
        let need = need.unwrap_or(got);
        let room = if full { 0 } else { room.map_or(-1, |n| n as i64) };
        (
            json!({"op": "run", "cmd": self.cmd, "ins": self.ins.iter().map(|i| i.json.clone()).collect::<Vec<_>>(),
                "room": room, "blocked": blocked, "need": need, "got": got, "r": x.r,
                "said": x.said > 0, "told": !x.err.trim().is_empty()}),
            got,
        )
    }
    fn output(&self) -> Option<String> {
        Some(self.name(self.ins.len() - 1)).filter(|n| Some(self.sc.path(n)) == self.result())
    }
    fn all(&self, place: &str, r: &mut Rng) -> Vec<Value> {
        let (op, need) = self.run(None, false, false, None);
        let mut ops = vec![op];
        // The result may take the place of an input.
        let own = self.output().is_some();
        match place {
            "none" => ops.push(self.run(Some(0), false, false, Some(need)).0),
            "short" if need > 1 => {
                for _ in 0..3 {
                    let n = r.below(need);
                    ops.push(self.run(Some(n), false, false, Some(need)).0);
                }
            }
            "last" if need > 0 => ops.push(self.run(Some(need - 1), false, false, Some(need)).0),
            "exact" => {
                // the profiles are there already; a file may be as long as the limit says
                ops.push(self.run(Some(need), false, false, Some(need)).0);
                ops.push(self.run(Some(need + r.below(1000)), false, false, Some(need)).0);
            }
            "blocked" if !own => {
                if self.result().is_some() {
                    ops.push(self.run(None, false, true, Some(need)).0);
                }
                ops.push(self.run(None, true, false, Some(need)).0);
            }
            _ => {}
        }
        ops
    }
}
fn events(r: &mut Rng, n: usize) -> Vec<Ev> {
    let s = Shape {
        threads: 1,
        n,
        depth: *r.pick(&[1, 3]),
        step: 2,
        marks: r.chance(1, 2),
        labels: &["a", "typeck", "codegen module", "b"],
        kinds: &KINDS[..3],
        args: false,
    };
    let mut evs = nested(r, &s);
    for (k, e) in evs.iter_mut().enumerate() {
        if n > 20 {
            e.label = format!("{}_{:03}", e.label, k % (n / 3));
        }
    }
    let end = evs.iter().filter(|e| e.ty != "integer").map(|e| e.v2.max(e.v1)).max().unwrap_or(0);
    evs.push(Ev { ty: "interval", v1: end + 10, v2: end + 5000, tid: 0, kind: "Query".into(), label: "last".into(), args: vec![] });
    let tid = evs[0].tid;
    for e in &mut evs {
        e.tid = tid;
    }
    evs
}
/// The summary of a profile as `summarize` saves it.
fn summary(evs: &[Ev], sc: &Scratch, r: &mut Rng) -> Vec<u8> {
    let b = profile(evs, false, sc, r);
    fs::write(sc.path("s.mm_profdata"), b).unwrap();
    run_tool(&sc.0, "summarize", &["summarize".into(), "--json".into(), "s".into()], None, false);
    let t = fs::read(sc.path("s.json")).unwrap_or_default();
    let _ = fs::remove_file(sc.path("s.json"));
    let _ = fs::remove_file(sc.path("s.mm_profdata"));
    if t.is_empty() {
        b"{\"query_data\": [], \"artifact_sizes\": [], \"total_time\": {\"secs\": 0, \"nanos\": 0}}".to_vec()
    } else {
        t
    }
}
pub fn run(cx: &Cx, out: &mut Out) {
    let mut r = Rng::new(cx.seed ^ 0xfa11);
    let sc = Scratch::new("runs");
    let classes: Vec<&Value> = cx.cases.iter().filter(|c| c["cmd"].is_string()).collect();
    let files: Vec<&Value> = cx.cases.iter().filter(|c| c["top"].is_object()).collect();
    for round in 0..cx.n(1, 6) {
        for c in &classes {
            let fine = c["room"] != "free";
            let n = if fine || round > 0 { *r.pick(&[1usize, 4, 30, 60, 150, 400, 900]) } else { 5 };
            let evs = events(&mut r, n);
            let saved = summary(&evs, &sc, &mut r);
            let ins: Vec<Input> = c["ins"].as_array().unwrap().iter().map(|k| input(k.as_str().unwrap(), &evs, &saved, &sc, &mut r)).collect();
            let full_names = r.chance(1, 4);
            let j = Job { cmd: c["cmd"].as_str().unwrap(), ins: &ins, sc: &sc, full_names };
            out.emit("classes", j.all(c["room"].as_str().unwrap(), &mut r));
        }
    }
    // every kind of header, for some commands
    let commands = ["summarize", "summarize json", "diff", "diff json", "aggregate", "crox", "crox dir", "view", "truncate", "stacks", "flame"];
    for f in files {
        for cmd in commands {
            if cx.thorough || r.chance(1, 6) {
                let x = made(f.clone(), &mut r);
                let mut ins = vec![x];
                if cmd.starts_with("diff") {
                    let evs = events(&mut r, 3);
                    let y = input("profile", &evs, &[], &sc, &mut r);
                    ins.insert(r.below(2) as usize, y);
                }
                let j = Job { cmd, ins: &ins, sc: &sc, full_names: false };
                out.emit("headers", j.all("free", &mut r));
            }
        }
    }
}
