//! Runs of the command line tools on profiles with known contents.
use crate::analysis::*;
use crate::prof::*;
use crate::util::*;
use serde_json::{json, Value};
use std::path::Path;
use std::process::{Command, Stdio};

pub struct Ran {
    pub ok: bool,
    pub out: String,
    pub err: String,
}
fn tool(dir: &Path, name: &str, args: &[&str]) -> Ran {
    let exe = Path::new(&std::env::var("MMV_TOOLS").expect("MMV_TOOLS")).join(name);
    let o = Command::new(&exe).args(args).current_dir(dir).stdin(Stdio::null()).output().unwrap();
    Ran {
        ok: o.status.success(),
        out: String::from_utf8_lossy(&o.stdout).into_owned(),
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
    }
}
fn bad(op: &str, why: &str) -> Value {
    json!({"op": op, "r": "bad", "why": why.chars().take(300).collect::<String>()})
}
fn tev_json(e: &Ev) -> Value {
    let mut j = ev_json(e);
    j["a"] = json!(e.args.iter().map(|a| nm(a)).collect::<Vec<_>>());
    j
}
fn prof_op(evs: &[Ev], nested: bool, m: &Meta, args: &[String]) -> Value {
    json!({"op": "profile", "nested": nested, "evs": evs.iter().map(tev_json).collect::<Vec<_>>(), "pid": m.pid.to_string(),
        "start": pair(m.start as u128), "args": args.iter().map(|a| nm(a)).collect::<Vec<_>>()})
}
fn meta(r: &mut Rng) -> Meta {
    Meta {
        pid: *r.pick(&[1, 77, 1234, 4_000_000_000, u32::MAX]),
        cmd: "rustc x.rs".into(),
        start: *r.pick(&[0, 999, 1_700_000_000_123_456_789, 1_999_999_999_999_999_999, 1_000_000_000]),
    }
}
fn write(r: &mut Rng, path: &Path, m: &Meta, evs: &[Ev]) {
    let style = if r.chance(2, 3) { Style::Plain } else { Style::Fancy(r.next()) };
    if r.chance(1, 4) {
        v8::write(path, m, evs, style)
    } else {
        v9::write(path, m, evs, style)
    }
}
const SAFE: [&str; 8] = ["Typeck", "a", "ab", "typeck", "codegen module", "é€ x", "<x::y>", "b"];
const ASCII: [&str; 7] = ["Typeck", "a", "ab", "typeck", "codegen module", "x::ab", "b"];
/// Random properly nested events; `step` and labels as given.
fn random(r: &mut Rng, labels: &'static [&'static str], steps: &[usize], n: usize) -> Vec<Ev> {
    let s = Shape {
        threads: r.range(1, 3) as usize,
        n,
        depth: *r.pick(&[1, 2, 4, 9]),
        step: *r.pick(steps),
        marks: r.chance(2, 3),
        labels,
        kinds: *r.pick(&[&KINDS[..], &KINDS[..4], &KINDS[1..3], &KINDS[3..5]]),
        args: r.chance(1, 3),
    };
    let mut evs = if r.chance(1, 40) { towering(r, s.labels, s.kinds) } else { nested(r, &s) };
    if r.chance(1, 5) {
        many(r, &mut evs);
    }
    evs
}
/// Gives the events many different labels.
fn many(r: &mut Rng, evs: &mut [Ev]) {
    let n = *r.pick(&[3, 20, 100]);
    for e in evs {
        e.label = format!("{}_{:03}", e.label, r.below(n));
    }
}

// ------------------------------------------------------------------ reading what the tools print

fn big(mut n: u128) -> Value {
    let mut v = vec![];
    while n > 0 {
        v.push((n % 10_000) as u64);
        n /= 10_000;
    }
    json!(v)
}
/// A duration as Rust prints it: nanoseconds and the weight of the last digit.
fn dur_text(s: &str) -> Option<(u128, u128)> {
    for (u, w) in [("ns", 1u128), ("µs", 1_000), ("ms", 1_000_000), ("s", 1_000_000_000)] {
        if let Some(x) = s.strip_suffix(u) {
            let (a, b) = x.split_once('.').unwrap_or((x, ""));
            if a.is_empty() || !a.chars().chain(b.chars()).all(|c| c.is_ascii_digit()) {
                continue;
            }
            let scale = 10u128.checked_pow(b.len() as u32)?;
            let digits: u128 = format!("{}{}", a, b).parse().ok()?;
            return Some(if w >= scale { (digits * (w / scale), w / scale) } else { (digits / (scale / w), 1) });
        }
    }
    None
}
/// How a shown time counts: exact if the last digit is a nanosecond or less.
fn shown(s: &str) -> Option<Value> {
    let (v, o) = dur_text(s)?;
    Some(json!({"v": pair(v), "o": pair(if o <= 1 { 0 } else { o })}))
}
fn shown_signed(s: &str) -> Option<Value> {
    let (n, t) = match s.chars().next()? {
        '-' => (true, &s[1..]),
        '+' => (false, &s[1..]),
        _ => (false, s),
    };
    let mut v = shown(t)?;
    v["n"] = json!(n);
    Some(v)
}
/// A percentage in text with the given number of decimals, in units of the last one.
fn percent_text(s: &str, decimals: usize) -> Option<Value> {
    let s = s.trim_end_matches('%');
    let (n, t) = match s.chars().next()? {
        '-' => (true, &s[1..]),
        '+' => (false, &s[1..]),
        _ => (false, s),
    };
    if t == "inf" || t == "NaN" {
        return Some(json!({"k": "none"}));
    }
    let (a, b) = t.split_once('.').unwrap_or((t, ""));
    let mut d = b.to_string();
    if d.len() > decimals {
        return None;
    }
    while d.len() < decimals {
        d.push('0');
    }
    Some(json!({"k": "num", "n": n, "v": big(format!("{}{}", a, d).parse().ok()?)}))
}
/// Tables of cells, in order.
fn tables(out: &str) -> Vec<Vec<Vec<String>>> {
    let mut ts: Vec<Vec<Vec<String>>> = vec![];
    let mut inside = false;
    for l in out.lines() {
        if l.starts_with('|') {
            if !inside {
                ts.push(vec![]);
                inside = true;
            }
            let c: Vec<String> = l.trim().trim_matches('|').split('|').map(|x| x.trim().to_string()).collect();
            ts.last_mut().unwrap().push(c);
        } else if !l.starts_with('+') {
            inside = false;
        }
    }
    ts
}
fn column(t: &[Vec<String>], name: &str) -> Option<usize> {
    t.first()?.iter().position(|h| h == name)
}
fn int(s: &str) -> Option<i64> {
    s.trim_start_matches('+').parse().ok()
}
fn signed_json(v: &Value) -> Option<Value> {
    let d = &v["duration"];
    let n = d["secs"].as_u64()? as u128 * 1_000_000_000 + d["nanos"].as_u64()? as u128;
    Some(json!({"n": !v["is_positive"].as_bool()?, "v": pair(n)}))
}
fn percent_json(v: &Value) -> Value {
    match v.as_f64() {
        Some(f) => json!({"k": "num", "n": f < 0.0, "v": big((f.abs() * 100.0).round() as u128)}),
        None => json!({"k": "none"}),
    }
}

// ------------------------------------------------------------------ summarize diff

fn diff_json_op(text: &str, b: usize, c: usize) -> Option<Value> {
    let j: Value = serde_json::from_str(text).ok()?;
    let mut items = vec![];
    for q in j["query_data"].as_array()? {
        items.push(json!({"l": nm(q["label"].as_str()?), "self": signed_json(&q["self_time"])?, "time": signed_json(&q["time"])?,
            "misses": q["number_of_cache_misses"].as_i64()?, "hits": q["number_of_cache_hits"].as_i64()?, "inv": q["invocation_count"].as_i64()?,
            "blocked": signed_json(&q["blocked_time"])?, "load": signed_json(&q["incremental_load_time"])?,
            "hash": signed_json(&q["incremental_hashing_time"])?,
            "selfpct": percent_json(&q["self_time_change"]), "timepct": percent_json(&q["time_change"])}));
    }
    let mut sizes = vec![];
    for s in j["artifact_sizes"].as_array()? {
        let v = s["size_change"].as_i64()?;
        sizes.push(json!({"l": nm(s["label"].as_str()?), "v": {"n": v < 0, "v": pair(v.unsigned_abs() as u128)}}));
    }
    Some(json!({"op": "diff", "r": "ok", "b": b, "c": c, "items": items, "sizes": sizes, "total": signed_json(&j["total_time"])?}))
}
fn diff_table_op(out: &str, b: usize, c: usize, exclude: &[String]) -> Option<Value> {
    let ts = tables(out);
    let t = &ts[0];
    let col = |n: &str| column(t, n);
    let names = ["Item", "Self Time", "Self Time Change", "Time", "Time Change", "Item count", "Cache hits", "Blocked time",
        "Incremental load time", "Incremental hashing time"];
    let ix: Vec<usize> = names.iter().map(|n| col(n)).collect::<Option<_>>()?;
    let mut items = vec![];
    for row in &t[1..] {
        let g = |k: usize| row[ix[k]].as_str();
        items.push(json!({"l": nm(g(0)), "self": shown_signed(g(1))?, "selfpct": percent_text(g(2), 2)?, "time": shown_signed(g(3))?,
            "timepct": percent_text(g(4), 2)?, "inv": int(g(5))?, "hits": int(g(6))?, "blocked": shown_signed(g(7))?,
            "load": shown_signed(g(8))?, "hash": shown_signed(g(9))?}));
    }
    let mut sizes = vec![];
    for row in &ts[1][1..] {
        let v = int(row[1].strip_suffix(" bytes")?)?;
        sizes.push(json!({"l": nm(&row[0]), "v": {"n": v < 0, "v": pair(v.unsigned_abs() as u128)}}));
    }
    let total = out.lines().find_map(|l| l.strip_prefix("Total cpu time: "))?;
    Some(json!({"op": "difftable", "r": "ok", "b": b, "c": c, "exclude": exclude.iter().map(|e| nm(e)).collect::<Vec<_>>(),
        "items": items, "sizes": sizes, "total": shown_signed(total)?}))
}
fn diff(cx: &Cx, out: &mut Out) {
    let mut r = Rng::new(cx.seed ^ 0xd1ff);
    let cases: Vec<Vec<Ev>> = cx.cases.iter().map(|c| of_case(c, 1, |t| t as u32)).collect();
    let n = cx.n(700, 8000);
    for k in 0..n {
        let sc = Scratch::new("diff");
        let mut ops = vec![];
        let mut two: Vec<Vec<Ev>> = if k % 3 == 0 && !cases.is_empty() {
            vec![r.pick(&cases).clone(), r.pick(&cases).clone()]
        } else {
            let steps = *r.pick(&[&[0usize, 1][..], &[1, 2, 3, 4][..]]);
            let n = *r.pick(&[3, 8, 16, 40]);
            vec![random(&mut r, &ASCII, steps, n), random(&mut r, &ASCII, steps, n)]
        };
        if r.chance(1, 8) {
            two[1] = two[0].clone();
        }
        for (name, evs) in ["base", "change"].iter().zip(&two) {
            let m = meta(&mut r);
            write(&mut r, &sc.path(&format!("{}.mm_profdata", name)), &m, evs);
            ops.push(prof_op(evs, true, &m, &[]));
        }
        // the summaries as JSON, under other names
        let saved = r.chance(1, 2);
        if saved {
            for name in ["base", "change"] {
                let x = tool(&sc.0, "summarize", &["summarize", "--json", name]);
                let _ = std::fs::create_dir_all(sc.path("saved"));
                if !x.ok || std::fs::rename(sc.path(&format!("{}.json", name)), sc.path(&format!("saved/{}.json", name))).is_err() {
                    ops.push(bad("diff", &x.err));
                }
            }
        }
        for (b, c) in [(1usize, 2usize), (2, 1)] {
            let side = |i: usize, r: &mut Rng| {
                let n = ["base", "change"][i - 1];
                if saved && r.chance(2, 3) {
                    format!("saved/{}.json", n)
                } else {
                    n.to_string()
                }
            };
            // The result is written next to the change, so that must not be a summary itself.
            let (x, y) = (side(b, &mut r), ["base", "change"][c - 1].to_string());
            let t = tool(&sc.0, "summarize", &["diff", "--json", &x, &y]);
            let text = std::fs::read_to_string(sc.path(&format!("{}.json", y))).unwrap_or_default();
            let op = if t.ok { diff_json_op(&text, b, c) } else { None };
            ops.push(op.unwrap_or_else(|| bad("diff", &t.err)));
            let y = side(c, &mut r);
            let mut ex: Vec<String> = vec![];
            let mut args = vec!["diff".to_string(), x, y];
            while r.chance(1, 3) && ex.len() < 2 {
                let e = r.pick(&["a", "b", "typ", "::", "codegen module", "zz"]).to_string();
                args.push(r.pick(&["-e", "--exclude"]).to_string());
                args.push(e.clone());
                ex.push(e);
            }
            let t = tool(&sc.0, "summarize", &args.iter().map(|a| a.as_str()).collect::<Vec<_>>());
            let op = if t.ok { diff_table_op(&t.out, b, c, &ex) } else { None };
            ops.push(op.unwrap_or_else(|| bad("difftable", &format!("{} {}", t.err, t.out))));
        }
        out.emit("diff", ops);
    }
}

// ------------------------------------------------------------------ summarize summarize

fn summary_op(out: &str, above: u64) -> Option<Value> {
    let ts = tables(out);
    let t = &ts[0];
    let opt = [("hits", "Cache hits"), ("blocked", "Blocked time"), ("load", "Incremental load time"), ("hash", "Incremental result hashing time")];
    let (l, s, p, ti, inv) = (column(t, "Item")?, column(t, "Self time")?, column(t, "% of total time")?, column(t, "Time")?, column(t, "Item count")?);
    let mut items = vec![];
    for row in &t[1..] {
        let share = if row[p] == "NaN" { json!([]) } else { percent_text(&row[p], 3)?["v"].clone() };
        let mut x = json!({"l": nm(&row[l]), "self": shown(&row[s])?, "share": share, "time": shown(&row[ti])?, "inv": int(&row[inv])?});
        for (k, n) in opt {
            if let Some(c) = column(t, n) {
                x[k] = if k == "hits" { json!(int(&row[c])?) } else { shown(&row[c])? };
            }
        }
        items.push(x);
    }
    let columns: Vec<&str> = opt.iter().filter(|(_, n)| column(t, n).is_some()).map(|x| x.0).collect();
    let mut sizes = vec![];
    for row in &ts[1][1..] {
        sizes.push(json!({"l": nm(&row[0]), "v": pair(row[1].strip_suffix(" bytes")?.parse::<u128>().ok()?)}));
    }
    let total = out.lines().find_map(|l| l.strip_prefix("Total cpu time: "))?;
    let filtered: Vec<Value> = out
        .lines()
        .filter_map(|l| l.strip_prefix("Filtered results account for ")?.strip_suffix("% of total time."))
        .filter_map(|x| if x == "NaN" { Some(json!([])) } else { Some(percent_text(x, 3)?["v"].clone()) })
        .collect();
    Some(json!({"op": "summary", "r": "ok", "above": above, "items": items, "columns": columns, "sizes": sizes,
        "total": shown(total)?, "filtered": filtered}))
}
fn summary_json_op(text: &str) -> Option<Value> {
    let a: analyzeme::AnalysisResults = serde_json::from_str(text).ok()?;
    let q: Vec<Value> = a
        .query_data
        .iter()
        .map(|q| {
            json!({"l": nm(&q.label), "d": {"self": dur(q.self_time), "time": dur(q.time), "misses": q.number_of_cache_misses,
                "hits": q.number_of_cache_hits, "inv": q.invocation_count, "blocked": dur(q.blocked_time),
                "load": dur(q.incremental_load_time), "hash": dur(q.incremental_hashing_time)}})
        })
        .collect();
    let s: Vec<Value> = a.artifact_sizes.iter().map(|s| json!({"l": nm(&s.label), "v": pair(s.value as u128)})).collect();
    Some(json!({"op": "summaryjson", "r": "ok", "items": q, "sizes": s, "total": dur(a.total_time)}))
}
/// A profile in which the items have the given shares of the total time (which is their sum and the gap).
fn shares(r: &mut Rng, parts: &[u64], gap: u64) -> Vec<Ev> {
    let mut evs = vec![];
    let mut now = 0;
    for (k, p) in parts.iter().enumerate() {
        let end = now + p;
        evs.push(Ev { ty: "interval", v1: now, v2: end, tid: 1, kind: r.pick(&KINDS[..5]).to_string(), label: SAFE[k % SAFE.len()].into(), args: vec![] });
        now = end;
    }
    if gap > 0 {
        now += gap;
        evs.push(Ev { ty: "interval", v1: now, v2: now, tid: 1, kind: "Query".into(), label: "end".into(), args: vec![] });
    }
    evs
}
fn summary(cx: &Cx, out: &mut Out) {
    let mut r = Rng::new(cx.seed ^ 0x5a3);
    let cases: Vec<Vec<Ev>> = cx.cases.iter().map(|c| of_case(c, 1, |t| t as u32)).collect();
    for k in 0..cx.n(1000, 12000) {
        let sc = Scratch::new("sum");
        let (mut evs, mut levels): (Vec<Ev>, Vec<u64>) = (vec![], vec![0]);
        match k % 4 {
            0 if !cases.is_empty() => evs = r.pick(&cases).clone(),
            1 => {
                // items at, just above and just below the thresholds
                let unit = *r.pick(&[1, 3, 7, 1000, 123_457, 1 << 30]);
                let parts: Vec<u64> = (0..r.range(1, 5)).map(|_| r.range(0, 40) * unit).collect();
                let sum: u64 = parts.iter().sum::<u64>() / unit;
                let to = *r.pick(&[100, 200, 128, 160, 250]);
                evs = shares(&mut r, &parts, to.max(sum) * unit - sum * unit);
                for p in &parts {
                    levels.push((p / unit) * 100_000 / to.max(sum));
                }
            }
            _ => {
                let n = *r.pick(&[2, 6, 14, 30, 80]);
                let labels = *r.pick(&[&SAFE[..], &SAFE[..2]]);
                evs = random(&mut r, labels, &[0, 1, 2, 3, 4], n)
            }
        }
        for l in [50_000, 25_000, 12_500, 100_000, 1, 33_333] {
            if r.chance(1, 2) {
                levels.push(l);
            }
        }
        let m = meta(&mut r);
        write(&mut r, &sc.path("p.mm_profdata"), &m, &evs);
        let mut ops = vec![prof_op(&evs, true, &m, &[])];
        let any_time = {
            let mut t = std::collections::HashMap::new();
            for e in evs.iter().filter(|e| e.ty == "interval") {
                let x = t.entry(e.tid).or_insert((u64::MAX, 0));
                *x = (x.0.min(e.v1), x.1.max(e.v2));
            }
            t.values().any(|x| x.1 > x.0)
        };
        levels.dedup();
        for &above in &levels {
            // shares of no time at all are undefined
            if above > 0 && !any_time {
                continue;
            }
            let text = format!("{}.{:03}", above / 1000, above % 1000);
            let p = *r.pick(&["p", "p.mm_profdata"]);
            let args = if above == 0 && r.chance(1, 2) { vec!["summarize", p] } else { vec!["summarize", "-p", &text, p] };
            let t = tool(&sc.0, "summarize", &args);
            let op = if t.ok { summary_op(&t.out, above) } else { None };
            ops.push(op.unwrap_or_else(|| bad("summary", &format!("{} {}", t.err, t.out))));
        }
        let t = tool(&sc.0, "summarize", &["summarize", "--json", "p"]);
        let text = std::fs::read_to_string(sc.path("p.json")).unwrap_or_default();
        let op = if t.ok { summary_json_op(&text) } else { None };
        ops.push(op.unwrap_or_else(|| bad("summaryjson", &t.err)));
        out.emit("summary", ops);
    }
}

// ------------------------------------------------------------------ summarize aggregate

fn squeeze(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}
fn aggregate_op(out: &str) -> Option<Value> {
    let mut lists: Vec<Vec<Value>> = vec![];
    // a row may go on over several lines
    let mut rows: Vec<String> = vec![];
    for l in out.lines() {
        let head = (l.starts_with("Smallest ") || l.starts_with("Largest ")) && l.ends_with(':');
        if head || l.starts_with("  ") && !l.starts_with("    ") {
            rows.push(l.to_string());
        } else if let Some(x) = rows.last_mut() {
            x.push(' ');
            x.push_str(l);
        }
    }
    let mut wanted = vec![];
    for row in rows {
        if !row.starts_with(' ') {
            lists.push(vec![]);
            wanted.push(row.split(' ').nth(1)?.parse::<usize>().ok()?);
            continue;
        }
        let (v, what) = row.split_once(" ns: ")?;
        let v = v.trim();
        let ns: u128 = match v.strip_prefix('±') {
            Some(h) => {
                let (a, b) = h.split_once('.').unwrap_or((h, "0"));
                let half = match b {
                    "0" => 0,
                    "5" => 1,
                    _ => return None,
                };
                a.parse::<u128>().ok()? * 2 + half
            }
            None => v.parse().ok()?,
        };
        let what = squeeze(what);
        let many = what.split_once(" occurrences, or ").and_then(|(n, p)| {
            let p = p.strip_suffix('%')?;
            let (a, b) = p.split_once('.')?;
            if b.len() != 2 {
                return None;
            }
            Some((n.parse::<u64>().ok()?, format!("{}{}", a, b).parse::<u64>().ok()?))
        });
        let (text, n, p) = match many {
            Some((n, p)) => (String::new(), n, p),
            None => (nm(&what), 1, 0),
        };
        lists.last_mut()?.push(json!({"v": pair(ns), "what": text, "n": n, "pct": p}));
    }
    if lists.len() != 4 || lists.iter().zip(&wanted).any(|(l, w)| l.len() != *w) {
        return None;
    }
    Some(json!({"op": "aggregate", "r": "ok", "smallest": lists[0], "largest": lists[1], "narrow": lists[2], "wide": lists[3]}))
}
/// The same sequence of points with other times in between.
fn rerun(r: &mut Rng, evs: &[Ev], how: u64, scale: u64) -> Vec<Ev> {
    // the times that occur, in order, get new distances; distinct times stay distinct
    let mut ts: Vec<u64> = evs.iter().filter(|e| e.ty != "integer").flat_map(|e| if e.ty == "interval" { vec![e.v1, e.v2] } else { vec![e.v1] }).collect();
    ts.sort();
    ts.dedup();
    let mut map = std::collections::HashMap::new();
    let mut now = r.below(5) * scale;
    let mut before = 0;
    for (k, t) in ts.iter().enumerate() {
        if k > 0 {
            now += match how {
                0 => t - before,
                1 => r.range(1, 4) * scale,
                2 => (t - before) * 2,
                3 => t - before + if r.chance(1, 6) { r.range(1, 3) * scale } else { 0 },
                _ => r.range(1, 1000) * scale + r.below(2),
            };
        }
        before = *t;
        map.insert(*t, now);
    }
    evs.iter()
        .map(|e| {
            let mut e = e.clone();
            if e.ty != "integer" {
                e.v1 = map[&e.v1];
                if e.ty == "interval" {
                    e.v2 = map[&e.v2];
                }
            }
            e
        })
        .collect()
}
fn aggregate(cx: &Cx, out: &mut Out) {
    let mut r = Rng::new(cx.seed ^ 0xa66);
    let cases: Vec<Vec<Ev>> = cx.cases.iter().map(|c| of_case(c, 1, |t| t as u32)).collect();
    let total = cx.n(1500, 15000);
    for k in 0..total {
        let sc = Scratch::new("agg");
        let base: Vec<Ev> = if k % 3 == 0 && !cases.is_empty() {
            r.pick(&cases).clone()
        } else {
            let s = Shape {
                threads: 1,
                n: *r.pick(&[1, 3, 8, 20, 40, 100]),
                depth: *r.pick(&[1, 2, 4, 9]),
                step: *r.pick(&[0, 0, 1, 3]),
                marks: r.chance(3, 4),
                labels: *r.pick(&[&SAFE[..], &SAFE[..2]]),
                kinds: *r.pick(&[&KINDS[..], &KINDS[3..4]]),
                args: r.chance(1, 2),
            };
            nested(&mut r, &s)
        };
        let scale = *r.pick(&[1, 1, 500, 1_000_000_007]);
        let n = *r.pick(&[1usize, 2, 2, 3, 3, 5, 12]);
        let mut ps: Vec<Vec<Ev>> = vec![];
        for _ in 0..n {
            let how = *r.pick(&[0, 1, 1, 2, 3, 3, 4]);
            ps.push(rerun(&mut r, &base, how, scale));
        }
        // sometimes one of them is different
        let x = r.below(n as u64) as usize;
        let p = &mut ps[x];
        let timed: Vec<usize> = (0..p.len()).filter(|&k| p[k].ty != "integer").collect();
        let what = if r.chance(1, 2) && !timed.is_empty() { r.range(1, 15) } else { 0 };
        if what > 0 {
            let k = *r.pick(&timed);
            match what {
                1 => p[k].label.push('x'),
                10..=14 => {
                    // an argument is another one, gone, empty, in another place, or split in two
                    let with: Vec<usize> = timed.iter().copied().filter(|&k| !p[k].args.is_empty()).collect();
                    let Some(&k) = (!with.is_empty()).then(|| r.pick(&with)) else { continue };
                    let a = &mut p[k].args;
                    let j = r.below(a.len() as u64) as usize;
                    match what {
                        10 => a[j] = if a[j].ends_with('1') { a[j].replace('1', "2") } else { format!("{}1", &a[j][..a[j].len() - a[j].chars().last().map_or(0, |c| c.len_utf8())]) },
                        11 => drop(a.remove(j)),
                        12 => a[j] = "_".into(),
                        13 => a.rotate_left(1),
                        _ => {
                            let x = a[j].clone();
                            a.insert(j, x)
                        }
                    }
                }
                15 => p[k].label = if p[k].label == "b" { "c".into() } else { "b".into() },
                2 => p[k].kind.push('x'),
                3 => p[k].args.push("more".into()),
                4 => {
                    p.remove(k);
                }
                5 => {
                    let e = p[k].clone();
                    p.insert(k, Ev { ty: "instant", v1: if e.ty == "interval" { e.v2 } else { e.v1 }, v2: 0, ..e })
                }
                6 => p[k].tid = p[k].tid.wrapping_add(1),
                7 => {
                    // one more event at the start: a leftover
                    let e = p[0].clone();
                    p.insert(0, Ev { ty: "instant", v1: if e.ty == "integer" { 0 } else { e.v1 }, v2: 0, ..e })
                }
                8 => {
                    // the same two events, not nested or nested
                    if let Some(j) = (1..p.len()).find(|&j| p[j].ty == "interval" && p[j - 1].ty == "interval" && p[j].v1 < p[j - 1].v1) {
                        p[j].v1 = p[j - 1].v2;
                    }
                }
                _ => {
                    // an integer event, which does not matter
                    let e = p[k].clone();
                    p.insert(k, Ev { ty: "integer", v1: 7, v2: 0, tid: e.tid + 1, ..e })
                }
            }
        }
        let mut ops = vec![];
        let mut names = vec![];
        for (j, p) in ps.iter().enumerate() {
            let m = meta(&mut r);
            let name = format!("p{}", j);
            write(&mut r, &sc.path(&format!("{}.mm_profdata", name)), &m, p);
            ops.push(prof_op(p, false, &m, &[]));
            names.push(name);
        }
        let mut args = vec!["aggregate"];
        args.extend(names.iter().map(|s| s.as_str()));
        let t = tool(&sc.0, "summarize", &args);
        ops.push(if t.ok {
            aggregate_op(&t.out).unwrap_or_else(|| bad("aggregate", &t.out))
        } else {
            json!({"op": "aggregate", "r": "refused", "why": t.err.chars().take(200).collect::<String>()})
        });
        out.emit(&format!("aggregate {}", what), ops);
    }
}

// ------------------------------------------------------------------ crox

fn micro(n: u64) -> Value {
    json!([n / 1_000_000, n % 1_000_000])
}
fn chrome_op(op: &str, text: &str, min: u64) -> Option<Value> {
    let j: Value = serde_json::from_str(text).ok()?;
    let (mut evs, mut names, mut order, mut other) = (vec![], vec![], vec![], 0);
    for e in j.as_array()? {
        let pid = e["pid"].as_u64()?.to_string();
        match (e["ph"].as_str()?, e["name"].as_str()?) {
            ("X", name) => {
                let mut a = vec![];
                if let Some(o) = e["args"].as_object() {
                    for k in 0..o.len() {
                        a.push(nm(o.get(&format!("arg{}", k))?.as_str()?));
                    }
                }
                evs.push(json!({"name": nm(name), "cat": nm(e["cat"].as_str()?), "a": a, "pid": pid, "th": e["tid"].as_u64()?.to_string(),
                    "ts": micro(e["ts"].as_u64()?), "dur": micro(e["dur"].as_u64()?)}));
            }
            ("M", "process_name") => names.push(json!({"pid": pid, "name": nm(e["args"]["name"].as_str()?)})),
            ("M", "process_sort_index") => order.push(json!({"pid": pid, "at": micro(e["args"]["sort_index"].as_u64()?)})),
            _ => other += 1,
        }
    }
    Some(json!({"op": op, "r": "ok", "min": micro(min), "events": evs, "names": names, "order": order, "other": other}))
}
fn run_crox(sc: &Scratch, op: &str, args: &[String], min: u64) -> Value {
    let cwd = sc.path("out");
    let _ = std::fs::create_dir_all(&cwd);
    let t = tool(&cwd, "crox", &args.iter().map(|s| s.as_str()).collect::<Vec<_>>());
    let text = std::fs::read_to_string(cwd.join("chrome_profiler.json")).unwrap_or_default();
    let o = if t.ok { chrome_op(op, &text, min) } else { None };
    o.unwrap_or_else(|| bad(op, &t.err))
}
/// Events that need not nest.
fn loose(r: &mut Rng, n: u64) -> Vec<Ev> {
    let step = *r.pick(&[1u64, 500, 1000, 1_000_000_000]);
    (0..r.below(n + 1))
        .map(|_| {
            let mut e = rand_event(r);
            e.label = r.pick(&SAFE).to_string();
            if e.ty != "integer" {
                let t = r.below(6) * step + r.below(2);
                let d = r.below(5) * *r.pick(&[1, 500, 999, 1000, 1001, step]);
                e.v1 = t;
                e.v2 = if e.ty == "interval" { t + d } else { 0 };
            }
            e
        })
        .collect()
}
fn chrome(cx: &Cx, out: &mut Out) {
    let mut r = Rng::new(cx.seed ^ 0xc0c0);
    let cases: Vec<Vec<Ev>> = cx.cases.iter().map(|c| of_case(c, 1, |t| t as u32)).collect();
    for k in 0..cx.n(1200, 12000) {
        let sc = Scratch::new("crox");
        let mut ops = vec![];
        let n = *r.pick(&[1usize, 1, 2, 3, 6]);
        let use_dir = r.chance(1, 4);
        let _ = std::fs::create_dir_all(sc.path("d"));
        let mut args: Vec<String> = vec![];
        for j in 0..n {
            let evs = if k % 4 == 0 && !cases.is_empty() {
                let c = r.pick(&cases).clone();
                let s = *r.pick(&[500, 1000, 1_000_000]);
                c.into_iter().map(|mut e| { e.v1 *= s; e.v2 *= s; e }).collect()
            } else if r.chance(1, 2) {
                random(&mut r, &SAFE, &[1, 2, 3, 4], 16)
            } else {
                loose(&mut r, 15)
            };
            let mut m = meta(&mut r);
            let words = ["rustc", "--crate-name", "foo", "x.rs", "--crate-name=bar", "--crate-type", "lib", "é\"q", "--crate-names", "-C"];
            let argv: Vec<String> = if r.chance(1, 2) {
                let mut v = vec!["rustc".to_string(), "--crate-name".into(), r.pick(&["foo", "a_b", "é"]).to_string()];
                for _ in 0..r.below(3) {
                    v.insert(r.range(1, v.len() as u64) as usize, r.pick(&words).to_string());
                }
                v
            } else {
                (0..r.range(1, 6)).map(|_| r.pick(&words).to_string()).collect()
            };
            m.cmd = argv.join(" ");
            if r.chance(1, 2) && argv.last().map(|a| a != "--crate-name").unwrap_or(false) {
                m.cmd.push(' ');
            }
            let name = format!("p{}", j);
            let inside = use_dir && r.chance(2, 3);
            let p = if inside { sc.path(&format!("d/{}.mm_profdata", name)) } else { sc.path(&format!("{}.mm_profdata", name)) };
            write(&mut r, &p, &m, &evs);
            ops.push(prof_op(&evs, false, &m, &argv));
            if !inside {
                args.push(format!("../{}", name));
            }
        }
        if use_dir {
            let _ = std::fs::write(sc.path("d/other.txt"), "nothing");
            args.push("--dir".into());
            args.push("../d".into());
        }
        if args.is_empty() {
            continue;
        }
        let min = if r.chance(1, 2) { *r.pick(&[1u64, 2, 3, 500, 1000, 1_000_000]) } else { 0 };
        if min > 0 || r.chance(1, 4) {
            args.push("--minimum-duration".into());
            args.push(min.to_string());
        }
        ops.push(run_crox(&sc, "chrome", &args, min));
        out.emit("chrome", ops);
    }
}
fn lanes(cx: &Cx, out: &mut Out) {
    let mut r = Rng::new(cx.seed ^ 0x1a9e);
    let tids: [u32; 16] = [0, 1, 2, 3, 4, 70_000, u32::MAX, 9, 5, 6, 7, 8, 1 << 31, 65_535, 65_536, 10];
    let n = cx.n(2000, 12000);
    let mut cases = cx.cases.clone();
    r.shuffle(&mut cases);
    for k in 0..n {
        let sc = Scratch::new("lanes");
        let mut ops = vec![];
        let mut args = vec!["--collapse-threads".to_string()];
        let profiles = if r.chance(1, 5) { 2 } else { 1 };
        for j in 0..profiles {
            let mut own = tids.to_vec();
            r.shuffle(&mut own);
            // sometimes very many threads
            let crowd = if k % 2 == 1 && r.chance(1, 12) { r.range(17, 70) } else { 0 };
            while (own.len() as u64) < crowd {
                let t = if r.chance(1, 2) { r.next() as u32 } else { r.below(300) as u32 };
                if !own.contains(&t) {
                    own.push(t)
                }
            }
            let scale = *r.pick(&[1u64, 1000, 1_000_000, 700]);
            // the span of each thread
            let spans: Vec<(u64, u64)> = if k % 2 == 0 && !cases.is_empty() {
                let c = &cases[(k / 2) % cases.len()]["sp"];
                c.as_array().unwrap().iter().map(|s| (s[0][1].as_u64().unwrap() * scale, s[1][1].as_u64().unwrap() * scale)).collect()
            } else {
                let most = *r.pick(&[4, 8, 16, 40]);
                let most = if crowd > 0 { 30 } else { most };
                let n = if crowd > 0 { crowd } else if r.chance(1, 3) { r.range(5, 14) } else { r.range(1, 5) };
                (0..n).map(|_| { let a = r.below(most); (a * scale, (a + r.below(most / 2)) * scale) }).collect()
            };
            let mut evs = vec![];
            for (t, &(a, b)) in spans.iter().enumerate() {
                let mut mk = |ty: &'static str, v1, v2| evs.push(Ev { ty, v1, v2, tid: own[t], kind: "Query".into(), label: format!("t{}", if spans.len() > 4 { t } else { t % 3 }), args: vec![] });
                let mid = a + (b - a) / 2;
                match r.below(6) {
                    0 => {
                        mk("interval", a, mid);
                        mk("interval", mid, b);
                    }
                    1 => {
                        mk("interval", mid, b);
                        mk("interval", a, a);
                    }
                    2 => {
                        mk("instant", a, 0);
                        mk("interval", mid, b);
                        mk("integer", 5, 0);
                    }
                    3 => {
                        mk("interval", a, mid);
                        mk("instant", b, 0);
                    }
                    _ => mk("interval", a, b),
                }
            }
            if r.chance(1, 3) {
                r.shuffle(&mut evs);
            }
            if r.chance(1, 6) {
                // a thread with nothing but an integer, and one with nothing but an instant
                evs.push(Ev { ty: "integer", v1: 3, v2: 0, tid: own[14], kind: "x".into(), label: "i".into(), args: vec![] });
                evs.insert(0, Ev { ty: "instant", v1: 2 * scale, v2: 0, tid: own[15], kind: "x".into(), label: "i".into(), args: vec![] });
            }
            let mut m = meta(&mut r);
            m.pid = 100 + j as u32;
            let name = format!("p{}", j);
            write(&mut r, &sc.path(&format!("{}.mm_profdata", name)), &m, &evs);
            ops.push(prof_op(&evs, false, &m, &[]));
            args.push(format!("../{}", name));
        }
        ops.push(run_crox(&sc, "lanes", &args, 0));
        out.emit("lanes", ops);
    }
}

// ------------------------------------------------------------------ mmview

fn view_op(out: &str, filter: Option<u32>) -> Option<Value> {
    let mut evs = vec![];
    let lines: Vec<&str> = out.lines().collect();
    if lines.len() % 7 != 0 {
        return None;
    }
    for b in lines.chunks(7) {
        if b[0] != "{" || b[6] != "}" {
            return None;
        }
        let f = |k: usize, n: &str| b[k].strip_prefix(&format!("    {}: ", n))?.strip_suffix(',');
        let a = f(3, "additional_data")?.strip_prefix('[')?.strip_suffix(']')?;
        let a: Vec<String> = if a.is_empty() { vec![] } else { a.split(',').map(nm).collect() };
        let p = f(4, "payload")?;
        let us = |s: &str| s.strip_suffix(" μs").and_then(|x| x.parse::<u64>().ok()).map(micro);
        let (ty, v) = if let Some((x, y)) = p.split_once(" - ") {
            ("interval", json!([us(x)?, us(y)?]))
        } else if let Some(x) = us(p) {
            ("instant", json!([x]))
        } else {
            ("integer", json!([pair(p.parse().ok()?)]))
        };
        evs.push(json!({"k": nm(f(1, "kind")?), "l": nm(f(2, "label")?), "a": a, "th": f(5, "thread_id")?, "v": v, "ty": ty}));
    }
    Some(json!({"op": "view", "r": "ok", "filter": filter.map(|t| vec![t.to_string()]).unwrap_or_default(), "events": evs}))
}
fn view(cx: &Cx, out: &mut Out) {
    let mut r = Rng::new(cx.seed ^ 0x51e4);
    for c in &cx.cases {
        view_one(&mut r, of_case(c, 700, |t| t as u32), out);
    }
    for _ in 0..cx.n(700, 9000) {
        let evs = match r.below(5) {
            0 => random(&mut r, &SAFE, &[0, 1, 2, 3, 4], 20),
            1 => {
                let mut v = loose(&mut r, 8);
                v.retain(|e| e.ty == "integer");
                v
            }
            2 => (0..r.below(12)).map(|_| rand_event(&mut r)).collect(),
            3 if r.chance(1, 10) => loose(&mut r, 400),
            _ => loose(&mut r, 25),
        };
        view_one(&mut r, evs, out);
    }
}
fn view_one(r: &mut Rng, evs: Vec<Ev>, out: &mut Out) {
    let sc = Scratch::new("view");
    let m = meta(r);
    write(r, &sc.path("p.mm_profdata"), &m, &evs);
    let mut ops = vec![prof_op(&evs, false, &m, &[])];
    let mut filters = vec![None];
    if r.chance(2, 3) && !evs.is_empty() {
        filters.push(Some(r.pick(&evs).tid));
    }
    if r.chance(1, 4) {
        filters.push(Some(*r.pick(&[0, 1, 12345, u32::MAX])));
    }
    for f in filters {
        let text = f.map(|t| t.to_string()).unwrap_or_default();
        let args = if f.is_some() { vec!["-t", &text, "p"] } else { vec!["p"] };
        let t = tool(&sc.0, "mmview", &args);
        let op = if t.ok { view_op(&t.out, f) } else { None };
        ops.push(op.unwrap_or_else(|| bad("view", &format!("{} {}", t.err, t.out))));
    }
    out.emit("view", ops);
}

// ------------------------------------------------------------------ mmedit truncate

/// The pages after the header: tag and content.
fn pages(file: &[u8]) -> Option<Vec<(u8, Vec<u8>)>> {
    let mut v = vec![];
    let mut p = 8;
    while p < file.len() {
        let n = u32::from_le_bytes(file.get(p + 1..p + 5)?.try_into().ok()?) as usize;
        v.push((file[p], file.get(p + 5..p + 5 + n)?.to_vec()));
        p += 5 + n;
    }
    Some(v)
}
fn tag(t: u8) -> &'static str {
    match t {
        0 => "events",
        1 => "data",
        2 => "index",
        _ => "unknown",
    }
}
fn digest(b: &[u8]) -> String {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    format!("{}:{:x}", b.len(), h)
}
fn pages_json(p: &[(u8, Vec<u8>)], bytes: bool) -> Value {
    p.iter().map(|(t, b)| json!({"tag": tag(*t), "data": if bytes { json!(b) } else { json!([digest(b)]) }, "len": b.len()})).collect()
}
fn short(e: &Ev) -> String {
    format!("{} {} {} {} {}|{}|{}", e.ty, e.v1, e.v2, e.tid, nm(&e.kind), nm(&e.label), e.args.iter().map(|a| nm(a)).collect::<Vec<_>>().join("|"))
}
fn opened(path: &Path) -> Value {
    match open(path) {
        Err(e) => json!({"r": "err", "why": e}),
        Ok(d) => {
            let m = d.metadata().clone();
            let r = catch(|| d.iter_full().map(|e| short(&full_of(&e, m.start_time))).collect::<Vec<_>>());
            match r {
                Ok(v) => json!({"r": "ok", "num": d.num_events(), "events": v, "meta": format!("{} {} {}", m.process_id, nm(&m.cmd), since(m.start_time, std::time::UNIX_EPOCH))}),
                Err(e) => json!({"r": "panic", "why": e}),
            }
        }
    }
}
fn truncate_op(sc: &Scratch, file: &[u8], m: &Meta, evs: &[Ev], bytes: bool) -> Value {
    let p = sc.path("x.mm_profdata");
    std::fs::write(&p, file).unwrap();
    let t = tool(&sc.0, "mmedit", &["truncate", "x.mm_profdata"]);
    if !t.ok {
        return bad("truncate", &t.err);
    }
    let after = std::fs::read(sc.path("x.truncated.mm_profdata")).unwrap_or_default();
    let (before_pages, after_pages) = match (pages(file), pages(&after)) {
        (Some(a), Some(b)) if after.len() >= 8 && after[..8] == file[..8] => (a, b),
        _ => return bad("truncate", "not a profile"),
    };
    json!({"op": "truncate", "r": "ok", "version": file[4], "unchanged": std::fs::read(&p).map(|b| b == file).unwrap_or(false),
        "before": pages_json(&before_pages, bytes), "after": pages_json(&after_pages, bytes),
        "opened": opened(&sc.path("x.truncated.mm_profdata")),
        "meta": format!("{} {} {}", m.pid, nm(&m.cmd), m.start), "events": evs.iter().map(short).collect::<Vec<_>>()})
}
fn repage(r: &mut Rng, file: &[u8], tags: &[&str]) -> Option<Vec<u8>> {
    let ps = pages(file)?;
    let stream = |k: u8| ps.iter().filter(|p| p.0 == k).flat_map(|p| p.1.clone()).collect::<Vec<u8>>();
    let mut left: Vec<Vec<u8>> = (0..3).map(stream).collect();
    let mut out = file[..8].to_vec();
    let size = if file[4] == 8 { 24 } else { 32 }; // of an event
    let mut seen = [0usize; 3];
    let want: Vec<usize> = (0..3).map(|k| tags.iter().filter(|t| **t == tag(k as u8)).count()).collect();
    let mut first = true;
    for t in tags {
        let k = (0..3usize).find(|k| tag(*k as u8) == *t)?;
        seen[k] += 1;
        let s = &mut left[k];
        let n = if seen[k] == want[k] {
            s.len()
        } else if k == 0 {
            let whole = if first { 8 } else { 0 };
            first = false;
            whole + size * r.below(((s.len() - whole) / size) as u64 + 1) as usize
        } else {
            r.below(s.len() as u64 + 1) as usize
        };
        if n == 0 {
            continue; // pages are never empty
        }
        let b: Vec<u8> = s.drain(..n).collect();
        out.push(k as u8);
        out.extend((b.len() as u32).to_le_bytes());
        out.extend(b);
    }
    if left.iter().any(|s| !s.is_empty()) {
        return None;
    }
    Some(out)
}
/// Pages that repeat earlier ones: an id mapped back and forth, strings stored again.
fn again(r: &mut Rng, f: &mut Vec<u8>) {
    let Some(ps) = pages(f) else { return };
    let index: Vec<u8> = ps.iter().filter(|p| p.0 == 2).flat_map(|p| p.1.clone()).collect();
    let wide = if f[4] == 8 { 4 } else { 8 };
    if index.len() < 8 + 2 * wide {
        return;
    }
    let mut pool: Vec<(u8, Vec<u8>)> = vec![];
    for _ in 0..2 {
        let n = ((index.len() - 8) / (2 * wide)) as u64;
        let e = 8 + r.below(n) as usize * 2 * wide;
        let mut b = vec![0; wide];
        b[0] = 77 + r.below(2) as u8;
        b.extend(&index[e + wide..e + 2 * wide]);
        pool.push((2, b));
        pool.push((1, vec![b'd' + r.below(2) as u8, 0xff]));
    }
    for _ in 0..r.range(2, 6) {
        let (t, b) = r.pick(&pool).clone();
        f.push(t);
        f.extend((b.len() as u32).to_le_bytes());
        f.extend(b);
    }
}
fn truncate(cx: &Cx, out: &mut Out) {
    let mut r = Rng::new(cx.seed ^ 0x72c);
    let mut cases: Vec<Vec<String>> = cx.cases.iter().map(|c| c["tags"].as_array().unwrap().iter().map(|t| t.as_str().unwrap().to_string()).collect()).collect();
    cases.retain(|c| ["events", "data", "index"].iter().all(|t| c.iter().any(|x| x == t)));
    for k in 0..cases.len().max(1) + cx.n(400, 5000) {
        let sc = Scratch::new("trunc");
        let m = meta(&mut r);
        let evs = if r.chance(1, 2) { random(&mut r, &SAFE, &[0, 3], 6) } else { (0..r.below(9)).map(|_| rand_event(&mut r)).collect() };
        write(&mut r, &sc.path("o.mm_profdata"), &m, &evs);
        let file = std::fs::read(sc.path("o.mm_profdata")).unwrap();
        let tags: Vec<String> = if k < cases.len() {
            cases[k].clone()
        } else {
            let mut t: Vec<String> = (0..r.range(0, 12)).map(|_| tag(r.below(3) as u8).to_string()).collect();
            for x in ["events", "data", "index"] {
                t.insert(r.below(t.len() as u64 + 1) as usize, x.to_string());
            }
            t
        };
        let tags: Vec<&str> = tags.iter().map(|s| s.as_str()).collect();
        if let Some(mut f) = repage(&mut r, &file, &tags) {
            if r.chance(1, 3) {
                again(&mut r, &mut f);
            }
            let op = truncate_op(&sc, &f, &m, &evs, true);
            out.emit("truncate", vec![prof_op(&[], false, &m, &[]), op]);
        }
    }
    // real page sizes
    for _ in 0..cx.n(4, 12) {
        let sc = Scratch::new("trunc");
        let m = meta(&mut r);
        let n = *r.pick(&[10_900u64, 10_923, 12_000, 23_000]);
        let evs: Vec<Ev> = (0..n).map(|k| Ev { ty: "instant", v1: k, v2: 0, tid: (k % 3) as u32, kind: "Query".into(), label: "a".into(), args: vec![] }).collect();
        v9::write(&sc.path("o.mm_profdata"), &m, &evs, Style::Plain);
        let file = std::fs::read(sc.path("o.mm_profdata")).unwrap();
        let op = truncate_op(&sc, &file, &m, &evs, false);
        out.emit("truncate large", vec![prof_op(&[], false, &m, &[]), op]);
    }
}

// ------------------------------------------------------------------ stack_collapse, flamegraph

fn folded_op(text: &str) -> Option<Value> {
    let mut v = vec![];
    for l in text.lines() {
        let (p, n) = l.rsplit_once(' ')?;
        v.push(json!({"l": nm(p), "v": pair(n.parse().ok()?)}));
    }
    Some(json!({"op": "folded", "r": "ok", "stacks": v}))
}
fn attr(s: &str, name: &str) -> Option<f64> {
    let p = format!(" {}=\"", name);
    let i = s.find(&p)? + p.len();
    s[i..i + s[i..].find('"')?].parse().ok()
}
fn flame_op(svg: &str) -> Option<Value> {
    // frames: name, samples, height on the page, and the range of samples
    let mut fr: Vec<(String, u128, f64, f64, f64)> = vec![];
    let mut rest = svg;
    while let Some(i) = rest.find("<title>") {
        rest = &rest[i + 7..];
        let e = rest.find("</title>")?;
        let title = rest[..e].replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&apos;", "'").replace("&amp;", "&");
        rest = &rest[e..];
        let rect = &rest[rest.find("<rect")?..];
        let rect = &rect[..rect.find('>')?];
        let (name, n) = title.rsplit_once(" (")?;
        let n: u128 = n.split(' ').next()?.replace(',', "").parse().ok()?;
        let x = attr(rect, "fg:x").or_else(|| attr(rect, "x"))?;
        let w = attr(rect, "fg:w").or_else(|| attr(rect, "width"))?;
        fr.push((name.to_string(), n, attr(rect, "y")?, x, x + w));
    }
    // the frame below in the graph is the caller: frames grow towards smaller y
    let mut ys: Vec<f64> = fr.iter().map(|f| f.2).collect();
    ys.sort_by(|a, b| b.partial_cmp(a).unwrap());
    ys.dedup();
    let mut paths: Vec<(f64, f64, f64, String)> = vec![];
    let mut out = vec![];
    for (d, y) in ys.iter().enumerate() {
        for f in fr.iter().filter(|f| f.2 == *y) {
            if d == 0 {
                // everything
                paths.push((*y, f.3, f.4, String::new()));
                continue;
            }
            let up = ys[d - 1];
            let p = paths.iter().find(|p| p.0 == up && p.1 <= f.3 + 1e-6 && f.4 <= p.2 + 1e-6)?;
            let path = if p.3.is_empty() { f.0.clone() } else { format!("{};{}", p.3, f.0) };
            out.push(json!({"l": nm(&path), "v": pair(f.1)}));
            paths.push((*y, f.3, f.4, path));
        }
    }
    Some(json!({"op": "flame", "r": "ok", "frames": out}))
}
fn stacks(cx: &Cx, out: &mut Out) {
    let mut r = Rng::new(cx.seed ^ 0xf1a);
    let cases: Vec<Vec<Ev>> = cx.cases.iter().map(|c| of_case(c, 1, |t| t as u32)).collect();
    for k in 0..cx.n(900, 9000) {
        let sc = Scratch::new("stacks");
        let evs = if k % 3 == 0 && !cases.is_empty() {
            r.pick(&cases).clone()
        } else {
            let n = *r.pick(&[2, 6, 14, 30, 60]);
            random(&mut r, &SAFE, &[0, 0, 1, 2, 3, 4], n)
        };
        let m = meta(&mut r);
        write(&mut r, &sc.path("p.mm_profdata"), &m, &evs);
        let mut ops = vec![prof_op(&evs, true, &m, &[])];
        let t = tool(&sc.0, "stack_collapse", &["p"]);
        let text = std::fs::read_to_string(sc.path("out.stacks_folded")).unwrap_or_default();
        let op = if t.ok { folded_op(&text) } else { None };
        ops.push(op.unwrap_or_else(|| bad("folded", &t.err)));
        // there is no flame graph of no time at all
        if evs.iter().any(|e| e.ty == "interval" && e.v1 < e.v2) {
            let t = tool(&sc.0, "flamegraph", &["p"]);
            let svg = std::fs::read_to_string(sc.path("rustc.svg")).unwrap_or_default();
            let op = if t.ok { flame_op(&svg) } else { None };
            ops.push(op.unwrap_or_else(|| bad("flame", &t.err)));
        }
        out.emit("stacks", ops);
    }
}

/// Profiles with as many events as the specification can only count.
fn large_meta() -> Meta {
    Meta { pid: 7, cmd: "x".into(), start: 0 }
}
/// A signed time or size of an operation in units.
fn signed_units(v: &Value, unit: u64) -> Option<Value> {
    let n = v["v"][0].as_u64()? as u128 * 1_000_000_000 + v["v"][1].as_u64()? as u128;
    let u = units(n, unit).as_i64().filter(|u| *u >= 0);
    let u = u?;
    Some(json!(if v["n"] == json!(true) { -u } else { u }))
}
fn large_diff(cx: &Cx, out: &mut Out) {
    let mut r = Rng::new(cx.seed ^ 0x1add);
    let pairs: &[(&str, u64, &str, u64)] =
        &[("tower", 1_500, "comb", 700), ("row", 1_150, "row", 1_140), ("row", 66_000, "lanes", 300), ("lanes", 257, "row", 257), ("tower", 257, "tower", 300)];
    for &(s1, n1, s2, n2) in pairs {
        let sc = Scratch::new("large");
        let unit = 1000 * *r.pick(&[1u64, 1000]);
        let mut ops = vec![];
        for (name, shape, n) in [("b", s1, n1), ("c", s2, n2)] {
            let mut b = Big::rand(&mut r, shape, n);
            if n1 == 1_150 {
                b.m = n - 50;
            }
            write(&mut r, &sc.path(&format!("{}.mm_profdata", name)), &large_meta(), &b.events(unit));
            ops.push(json!({"op": "profile", "q": b.json()}));
        }
        let small = |v: Value, table: bool| {
            let mut items = vec![];
            for q in v["items"].as_array()? {
                let d = if table {
                    json!({"inv": q["inv"], "hits": q["hits"]})
                } else {
                    json!({"self": signed_units(&q["self"], unit)?, "time": signed_units(&q["time"], unit)?, "misses": q["misses"], "hits": q["hits"], "inv": q["inv"],
                        "blocked": signed_units(&q["blocked"], unit)?, "load": signed_units(&q["load"], unit)?, "hash": signed_units(&q["hash"], unit)?})
                };
                items.push(json!({"l": q["l"], "d": d}));
            }
            let mut sizes = vec![];
            for q in v["sizes"].as_array()? {
                sizes.push(json!({"l": q["l"], "v": signed_units(&q["v"], 1)?}));
            }
            let total = if table { json!(0) } else { signed_units(&v["total"], unit)? };
            Some(json!({"op": v["op"], "r": "ok", "items": items, "sizes": sizes, "total": total}))
        };
        let t = tool(&sc.0, "summarize", &["diff", "--json", "b", "c"]);
        let text = std::fs::read_to_string(sc.path("c.json")).unwrap_or_default();
        let op = if t.ok { diff_json_op(&text, 1, 2).and_then(|v| small(v, false)) } else { None };
        ops.push(op.unwrap_or_else(|| bad("diff", &t.err)));
        let t = tool(&sc.0, "summarize", &["diff", "b", "c"]);
        let op = if t.ok { diff_table_op(&t.out, 1, 2, &[]).and_then(|v| small(v, true)) } else { None };
        ops.push(op.unwrap_or_else(|| bad("difftable", &t.err)));
        out.emit("large diff", ops);
    }
}
fn large_aggregate(cx: &Cx, out: &mut Out) {
    let mut r = Rng::new(cx.seed ^ 0x1a66);
    for &(shape, n, count) in &[("tower", 5u64, 40u64), ("comb", 3, 300), ("row", 5, 20), ("tower", 300, 3), ("comb", 400, 2), ("row", 2_000, 5), ("row", 66_000, 2), ("tower", 1_500, 1)] {
        let sc = Scratch::new("large");
        let unit = *r.pick(&[1u64, 1000, 1_000_000]);
        let b = Big { h: 0, ..Big::rand(&mut r, shape, n) };
        let mut runs: Vec<u64> = (0..count).map(|_| r.range(3, 9)).collect();
        // the extremes late
        if r.chance(2, 3) {
            let k = runs.len() - 1;
            runs[k] = *r.pick(&[1, 20]);
        }
        let mut names = vec![];
        for (k, u) in runs.iter().enumerate() {
            write(&mut r, &sc.path(&format!("p{}.mm_profdata", k)), &large_meta(), &b.events(unit * u));
            names.push(format!("p{}", k));
        }
        let mut args = vec!["aggregate"];
        args.extend(names.iter().map(|s| &s[..]));
        let t = tool(&sc.0, "summarize", &args);
        let small = |v: Value| {
            let mut o = json!({"op": "aggregate", "r": "ok", "runs": runs});
            for l in ["smallest", "largest", "narrow", "wide"] {
                let mut rows = v[l].as_array()?.clone();
                for x in rows.iter_mut() {
                    x["v"] = signed_units(&json!({"v": x["v"]}), unit)?;
                }
                o[l] = json!(rows);
            }
            Some(o)
        };
        let op = if t.ok { aggregate_op(&t.out).and_then(small) } else { None };
        out.emit("large aggregate", vec![json!({"op": "profile", "q": b.json()}), op.unwrap_or_else(|| bad("aggregate", &t.err))]);
    }
}
fn large_lanes(cx: &Cx, out: &mut Out) {
    let mut r = Rng::new(cx.seed ^ 0x1a4e);
    for &(n, w) in &[(257u64, 300u64), (1_000, 300), (2_000, 20), (20_000, 1), (70_000, 1)] {
        let sc = Scratch::new("large");
        let unit = 1000 * *r.pick(&[1u64, 1000]);
        let us = unit / 1000;
        let b = Big { h: 0, w, ..Big::rand(&mut r, "lanes", n) };
        write(&mut r, &sc.path("p.mm_profdata"), &large_meta(), &b.events(unit));
        let v = run_crox(&sc, "lanes", &["--collapse-threads".to_string(), "../p".to_string()], 0);
        let op = crox_listed(&v, us).map(|l| json!({"op": "lanes", "r": "ok", "events": l}));
        out.emit("large lanes", vec![json!({"op": "profile", "q": b.json()}), op.unwrap_or_else(|| bad("lanes", &v.to_string()))]);
    }
}
/// The events of an exported profile in units.
fn crox_listed(v: &Value, us: u64) -> Option<Vec<Value>> {
    let t = |v: &Value| Some(units(v[0].as_u64()? as u128 * 1_000_000 + v[1].as_u64()? as u128, us));
    let mut l = vec![];
    for e in v["events"].as_array()? {
        let (a, d) = (&e["ts"], &e["dur"]);
        let end = json!([a[0].as_u64()? + d[0].as_u64()?, a[1].as_u64()? + d[1].as_u64()?]);
        l.push(json!(["interval", e["cat"], e["name"], e["th"].as_str()?.parse::<u64>().ok()?, t(a)?, t(&end)?]));
    }
    Some(l)
}
fn large(cx: &Cx, out: &mut Out) {
    match &cx.mode[6..] {
        "diff" => return large_diff(cx, out),
        "aggregate" => return large_aggregate(cx, out),
        "lanes" => return large_lanes(cx, out),
        _ => (),
    }
    let mut r = Rng::new(cx.seed ^ 0x1a7e);
    let sizes: &[(&str, u64)] = match &cx.mode[6..] {
        "stacks" => &[("tower", 300), ("comb", 129), ("comb", 400), ("row", 300), ("row", 66_000), ("lanes", 257), ("lanes", 33_000)],
        "summary" => &[("tower", 2_000), ("comb", 700), ("row", 300), ("row", 1_150), ("row", 66_000), ("lanes", 257), ("lanes", 66_000)],
        _ => &[("tower", 257), ("comb", 3000), ("row", 300), ("row", 66_000), ("lanes", 257), ("lanes", 33_000)],
    };
    for &(shape, n) in sizes {
        let mut b = Big::rand(&mut r, shape, n);
        if n == 1_150 {
            b.m = 1_100;
        }
        if cx.mode == "large-view" && b.h > 1000 {
            b.h = 257;
        }
        let sc = Scratch::new("large");
        let unit = 1000 * *r.pick(&[1u64, 1000]);
        let us = unit / 1000;
        let evs = b.events(unit);
        write(&mut r, &sc.path("p.mm_profdata"), &large_meta(), &evs);
        let mut ops = vec![json!({"op": "profile", "q": b.json()})];
        let t = |v: &Value| Some(units(v[0].as_u64()? as u128 * 1_000_000 + v[1].as_u64()? as u128, us));
        let num = |v: &Value| v.as_str()?.parse::<u64>().ok();
        match &cx.mode[6..] {
            "view" => {
                let o = tool(&sc.0, "mmview", &["p"]);
                let listed = || {
                    let v = view_op(&o.out, None)?;
                    let mut l = vec![];
                    for e in v["events"].as_array()? {
                        let (ty, w) = (e["ty"].as_str()?, &e["v"]);
                        let (s, x) = match ty {
                            "interval" => (t(&w[0])?, t(&w[1])?),
                            "instant" => (t(&w[0])?, json!(0)),
                            _ => (w[0][1].clone(), json!(0)),
                        };
                        l.push(json!([ty, e["k"], e["l"], num(&e["th"])?, s, x]));
                    }
                    Some(l)
                };
                ops.push(match listed() {
                    Some(l) if o.ok => json!({"op": "view", "r": "ok", "events": l}),
                    _ => bad("view", &o.err),
                });
            }
            "chrome" => {
                let v = run_crox(&sc, "chrome", &["../p".to_string()], 0);
                ops.push(match crox_listed(&v, us) {
                    Some(l) => json!({"op": "chrome", "r": "ok", "events": l}),
                    None => bad("chrome", &v.to_string()),
                });
            }
            "summary" => {
                let o = tool(&sc.0, "summarize", &["summarize", "p"]);
                let rows = || {
                    let ts = tables(&o.out);
                    let (l, inv) = (column(&ts[0], "Item")?, column(&ts[0], "Item count")?);
                    ts[0][1..].iter().map(|row| Some(json!({"l": nm(&row[l]), "inv": int(&row[inv])?}))).collect::<Option<Vec<_>>>()
                };
                ops.push(match rows() {
                    Some(l) if o.ok => json!({"op": "rows", "r": "ok", "rows": l}),
                    _ => bad("rows", &o.err),
                });
                let o = tool(&sc.0, "summarize", &["summarize", "--json", "p"]);
                let text = std::fs::read_to_string(sc.path("p.json")).unwrap_or_default();
                match serde_json::from_str(&text) {
                    Ok(a) if o.ok => {
                        ops.push(large_op("self", &a, unit));
                        ops.push(large_op("items", &a, unit));
                    }
                    _ => ops.push(bad("items", &o.err)),
                }
            }
            _ => {
                let o = tool(&sc.0, "stack_collapse", &["p"]);
                let text = std::fs::read_to_string(sc.path("out.stacks_folded")).unwrap_or_default();
                let listed = || {
                    text.lines()
                        .map(|l| {
                            let (p, v) = l.rsplit_once(' ')?;
                            Some(json!({"l": nm(p), "v": units(v.parse().ok()?, unit)}))
                        })
                        .collect::<Option<Vec<_>>>()
                };
                ops.push(match listed() {
                    Some(l) if o.ok => json!({"op": "stacks", "r": "ok", "stacks": l}),
                    _ => bad("stacks", &o.err),
                });
            }
        }
        out.emit(shape, ops);
    }
}

pub fn run(cx: &Cx, out: &mut Out) {
    match cx.mode.as_str() {
        "diff" => diff(cx, out),
        "summary" => summary(cx, out),
        "aggregate" => aggregate(cx, out),
        "chrome" => chrome(cx, out),
        "lanes" => lanes(cx, out),
        "view" => view(cx, out),
        "truncate" => truncate(cx, out),
        "stacks" => stacks(cx, out),
        "runs" => crate::toolrun::run(cx, out),
        m if m.starts_with("large-") => large(cx, out),
        m => panic!("unknown mode {}", m),
    }
}
