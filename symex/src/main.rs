#![allow(dead_code)]
//! Symbolic executor for the LLVM IR of the code under check.
//!
//! `symex --ll FILE --json OUT [--jobs N] [--z3 PATH]... [--secs S] [--paths P]
//!        [--qms MS] [--wall S] HARNESS...`
mod exec;
mod expr;
mod ir;
mod z3;

use exec::*;
use ir::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

struct Viol {
    kind: String,
    msg: String,
    stack: Vec<(String, u32)>,
    input: Vec<u8>,
}

#[derive(Default)]
struct HState {
    paths: u64,
    ok: u64,
    assume: u64,
    known: BTreeMap<u32, (u64, Vec<u8>)>,
    insts: u64,
    branches: u64,
    unknown: u64,
    maxbytes: usize,
    cpu_us: u64,
    covers: BTreeMap<u32, u64>,
    viols: Vec<Viol>,
    nviol: u64,
    aborts: BTreeMap<String, u64>,
    samples: Vec<(Vec<u8>, u64)>,
    pending: u64,
    stopped: Option<&'static str>,
    rng: u64,
}

struct Queue {
    stack: Vec<Item>,
    active: usize,
    h: Vec<HState>,
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dbg<'a> {
    m: &'a Module,
    subs: HashMap<u32, (String, String)>,
}

impl<'a> Dbg<'a> {
    fn text(&self, id: u32) -> &'a str {
        match self.m.meta.get(&id) {
            Some(&(p, e)) => &self.m.text[p..e],
            None => "",
        }
    }
    fn field(t: &'a str, k: &str) -> Option<&'a str> {
        let pat = format!("{k}: ");
        let mut from = 0;
        loop {
            let i = t[from..].find(&pat)? + from;
            let prev = t[..i].chars().last().unwrap_or(' ');
            if prev == '(' || prev == ' ' {
                let r = &t[i + pat.len()..];
                if let Some(r) = r.strip_prefix('"') {
                    return Some(&r[..r.find('"').unwrap_or(r.len())]);
                }
                let e = r.find([',', ')']).unwrap_or(r.len());
                return Some(&r[..e]);
            }
            from = i + pat.len();
        }
    }
    fn node(t: &'a str, k: &str) -> Option<u32> {
        Self::field(t, k)?.strip_prefix('!')?.parse().ok()
    }
    fn sub(&mut self, mut id: u32) -> (String, String) {
        let id0 = id;
        if let Some(s) = self.subs.get(&id0) {
            return s.clone();
        }
        let mut r = (String::from("?"), String::from("?"));
        for _ in 0..64 {
            let t = self.text(id);
            if t.contains("!DISubprogram(") {
                let f = Self::node(t, "file").map(|f| self.text(f)).unwrap_or("");
                let name = Self::field(t, "name").unwrap_or("?").to_string();
                let mut file = Self::field(f, "filename").unwrap_or("?").to_string();
                if !file.starts_with('/') {
                    file = format!("{}/{}", Self::field(f, "directory").unwrap_or(""), file);
                }
                r = (name, file);
                break;
            }
            match Self::node(t, "scope") {
                Some(s) => id = s,
                None => break,
            }
        }
        self.subs.insert(id0, r.clone());
        r
    }
    /// Frames (function, file, line) from innermost outwards.
    fn frames(&mut self, mut id: u32) -> Vec<(String, String, u32)> {
        let mut out = vec![];
        for _ in 0..200 {
            let t = self.text(id);
            if !t.contains("!DILocation(") {
                break;
            }
            let line = Self::field(t, "line").and_then(|l| l.parse().ok()).unwrap_or(0);
            if let Some(s) = Self::node(t, "scope") {
                let (n, f) = self.sub(s);
                out.push((n, f, line));
            }
            match Self::node(t, "inlinedAt") {
                Some(i) => id = i,
                None => break,
            }
        }
        out
    }
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut ll = String::new();
    let mut out = String::new();
    let mut jobs = 8usize;
    let mut z3p = vec![];
    let mut secs = 600u64;
    let mut wall = 800u64;
    let mut maxpaths = 5_000_000u64;
    let mut qms = 20_000u32;
    let mut samples = 64usize;
    let mut harnesses = vec![];
    let mut verbose = false;
    while let Some(a) = args.next() {
        let mut n = || args.next().expect("value");
        match a.as_str() {
            "--ll" => ll = n(),
            "--json" => out = n(),
            "--jobs" => jobs = n().parse().unwrap(),
            "--z3" => z3p.push(n()),
            "--secs" => secs = n().parse().unwrap(),
            "--wall" => wall = n().parse().unwrap(),
            "--paths" => maxpaths = n().parse().unwrap(),
            "--qms" => qms = n().parse().unwrap(),
            "--samples" => samples = n().parse().unwrap(),
            "-v" => verbose = true,
            _ => harnesses.push(a),
        }
    }
    let t0 = Instant::now();
    let Some((api, zver)) = z3::load(&z3p) else {
        eprintln!("cannot load libz3");
        std::process::exit(3);
    };
    let text = std::fs::read_to_string(&ll).expect("read ll");
    let m = Module::parse(text);
    if harnesses.is_empty() || harnesses[0] == "--list" {
        for f in &m.funcs {
            if f.name.starts_with("h_") && f.body.is_some() {
                println!("{}", f.name);
            }
        }
        return;
    }
    let entries: Vec<usize> = harnesses
        .iter()
        .map(|h| match m.syms.get(h) {
            Some(Sym::F(i)) => *i,
            _ => {
                eprintln!("no harness {h}");
                std::process::exit(3);
            }
        })
        .collect();
    if verbose {
        eprintln!("parsed in {:?}", t0.elapsed());
    }
    let sh = Shared::new();
    let lim = Limits { prof: verbose, insts: 60_000_000, enumerate: 600, ite: 4096, heap: 1 << 23 };
    let mut q = Queue { stack: vec![], active: 0, h: vec![] };
    for i in (0..entries.len()).rev() {
        q.stack.push(Item { harness: i, model: Arc::new(vec![]), bound: 0 });
    }
    for i in 0..entries.len() {
        q.h.push(HState { pending: 1, rng: 0x9e37 + i as u64, ..Default::default() });
    }
    let q = Mutex::new(q);
    let cv = Condvar::new();
    let seen_all: Mutex<(BTreeSet<u32>, BTreeSet<usize>)> = Mutex::new(Default::default());
    let report = |g: &Queue, sa: &(BTreeSet<u32>, BTreeSet<usize>)| {
        let mut d = Dbg { m: &m, subs: HashMap::new() };
        let mut funcs: BTreeSet<String> = BTreeSet::new();
        for &id in &sa.0 {
            for (n, f, _) in d.frames(id) {
                if let Some(i) = f.find("/crates/") {
                    funcs.insert(format!("{}:{}", &f[i + 8..], n));
                }
            }
        }
        if verbose {
            let p = sh.prof.lock().unwrap();
            let mut v: Vec<_> = p.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(x.1 .1));
            for (d_, (n, us)) in v.into_iter().take(25) {
                let f = d.frames(*d_).into_iter().take(2).map(|(n, f, l)| format!("{n} {}:{l}", f.rsplit('/').take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/"))).collect::<Vec<_>>().join(" < ");
                eprintln!("PROF {:7} ms {:6} queries {f}", us / 1000, n);
            }
        }
        let ld = |x: &std::sync::atomic::AtomicU64| x.load(std::sync::atomic::Ordering::Relaxed);
        let mut o = String::from("{\n");
        o.push_str(&format!(
            "\"solver\": {}, \"wall_ms\": {}, \"queries\": {}, \"cached\": {}, \"domain\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"solver_ms\": {},\n",
            js(&zver),
            t0.elapsed().as_millis(),
            ld(&sh.q_total),
            ld(&sh.q_cached),
            ld(&sh.q_domain),
            ld(&sh.q_sat),
            ld(&sh.q_unsat),
            ld(&sh.q_unknown),
            ld(&sh.solver_us) / 1000
        ));
        o.push_str("\"functions\": [");
        o.push_str(&funcs.iter().map(|f| js(f)).collect::<Vec<_>>().join(","));
        o.push_str("],\n\"harnesses\": {\n");
        for (i, h) in g.h.iter().enumerate() {
            let complete = h.stopped.is_none() && h.pending == 0;
            o.push_str(&format!(
                "{}: {{\"complete\": {}, \"stopped\": {}, \"paths\": {}, \"ok\": {}, \"assume\": {}, \"insts\": {}, \"branches\": {}, \"unknown\": {}, \"bytes\": {}, \"cpu_ms\": {},\n",
                js(&harnesses[i]),
                complete,
                js(h.stopped.unwrap_or("")),
                h.paths,
                h.ok,
                h.assume,
                h.insts,
                h.branches,
                h.unknown,
                h.maxbytes,
                h.cpu_us / 1000
            ));
            o.push_str("  \"covers\": {");
            o.push_str(&h.covers.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect::<Vec<_>>().join(", "));
            o.push_str("}, \"known\": {");
            o.push_str(
                &h.known.iter().map(|(k, v)| format!("\"{k}\": [{}, \"{}\"]", v.0, hex(&v.1))).collect::<Vec<_>>().join(", "),
            );
            o.push_str("}, \"aborts\": {");
            o.push_str(&h.aborts.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "));
            o.push_str("},\n  \"violations\": [");
            let mut vs = vec![];
            for v in &h.viols {
                let mut st = vec![];
                for (f, dbg) in &v.stack {
                    let fr = d.frames(*dbg);
                    if fr.is_empty() {
                        st.push(js(f));
                    }
                    for (n, f, l) in fr {
                        st.push(js(&format!("{n} at {f}:{l}")));
                    }
                }
                vs.push(format!(
                    "{{\"kind\": {}, \"msg\": {}, \"input\": \"{}\", \"stack\": [{}]}}",
                    js(&v.kind),
                    js(&v.msg),
                    hex(&v.input),
                    st.join(", ")
                ));
            }
            o.push_str(&vs.join(",\n    "));
            o.push_str("],\n  \"samples\": [");
            o.push_str(&h.samples.iter().map(|(a, b)| format!("[\"{}\", \"{b:016x}\"]", hex(a))).collect::<Vec<_>>().join(", "));
            o.push_str("]}");
            o.push_str(if i + 1 < g.h.len() { ",\n" } else { "\n" });
        }
        o.push_str("}}\n");
        if out.is_empty() {
            print!("{o}");
        } else {
            std::fs::write(&out, o).expect("write json");
        }
    };
    let live = std::sync::atomic::AtomicUsize::new(jobs);
    std::thread::scope(|s| {
        // Queries the solver does not interrupt: report without them.
        s.spawn(|| {
            let mut g = q.lock().unwrap();
            loop {
                if live.load(std::sync::atomic::Ordering::SeqCst) == 0 {
                    return;
                }
                if t0.elapsed().as_secs() > wall + 30 {
                    for h in &mut g.h {
                        if h.pending > 0 && h.stopped.is_none() {
                            h.stopped = Some("wall");
                        }
                    }
                    report(&g, &seen_all.lock().unwrap());
                    std::process::exit(0);
                }
                g = cv.wait_timeout(g, std::time::Duration::from_secs(2)).unwrap().0;
            }
        });
        for _ in 0..jobs {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    let mut ex = Exec::new(&m, z3::Solver::new(api, qms), &sh, &lim);
                    for turn in 1u64.. {
                        let it;
                        {
                            let mut g = q.lock().unwrap();
                            loop {
                                if let Some(i) = g.stack.pop() {
                                    if t0.elapsed().as_secs() > wall {
                                        g.h[i.harness].stopped = Some("wall");
                                    }
                                    if g.h[i.harness].stopped.is_some() {
                                        continue;
                                    }
                                    g.active += 1;
                                    it = i;
                                    break;
                                }
                                if g.active == 0 {
                                    cv.notify_all();
                                    let mut sa = seen_all.lock().unwrap();
                                    sa.0.extend(ex.seen_dbg.iter().copied());
                                    sa.1.extend(ex.seen_fn.iter().copied());
                                    live.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
                                    cv.notify_all();
                                    return;
                                }
                                g = cv.wait(g).unwrap();
                            }
                        }
                        let t = Instant::now();
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            ex.run(entries[it.harness], it.model.to_vec(), it.bound)
                        }));
                        let p = match r {
                            Ok(p) => p,
                            Err(e) => {
                                let msg = e
                                    .downcast_ref::<String>()
                                    .cloned()
                                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                                    .unwrap_or_default();
                                ex = Exec::new(&m, z3::Solver::new(api, qms), &sh, &lim);
                                exec::PathOut {
                                    end: End::Abort(format!("engine: {msg}")),
                                    children: vec![],
                                    insts: 0,
                                    branches: 0,
                                    covers: vec![],
                                    trace: 0,
                                    nbytes: 0,
                                    unknown: 0,
                                    stack: vec![],
                                    model: it.model.to_vec(),
                                }
                            }
                        };
                        let us = t.elapsed().as_micros() as u64;
                        if turn % 64 == 0 {
                            let mut sa = seen_all.lock().unwrap();
                            sa.0.extend(ex.seen_dbg.iter().copied());
                            sa.1.extend(ex.seen_fn.iter().copied());
                        }
                        let mut g = q.lock().unwrap();
                        g.active -= 1;
                        for (mm, b) in &p.children {
                            g.stack.push(Item { harness: it.harness, model: mm.clone(), bound: *b });
                        }
                        let h = &mut g.h[it.harness];
                        h.pending += p.children.len() as u64;
                        h.pending -= 1;
                        h.paths += 1;
                        h.insts += p.insts;
                        h.branches += p.branches as u64;
                        h.unknown += p.unknown;
                        h.cpu_us += us;
                        h.maxbytes = h.maxbytes.max(p.nbytes);
                        match p.end {
                            End::Ok => {
                                h.ok += 1;
                                for c in &p.covers {
                                    *h.covers.entry(*c).or_default() += 1;
                                }
                                h.rng = h.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                                if h.samples.len() < samples {
                                    h.samples.push((p.model, p.trace));
                                } else {
                                    let j = (h.rng >> 20) % h.ok;
                                    if (j as usize) < samples {
                                        h.samples[j as usize] = (p.model, p.trace);
                                    }
                                }
                            }
                            End::Assume => h.assume += 1,
                            End::Known(k) => {
                                for c in &p.covers {
                                    *h.covers.entry(*c).or_default() += 1;
                                }
                                let e = h.known.entry(k).or_insert((0, p.model.clone()));
                                e.0 += 1;
                            }
                            End::Violation(kind, msg) => {
                                if verbose {
                                    eprintln!("{}: VIOL {kind}: {msg} {}", harnesses[it.harness], hex(&p.model));
                                }
                                h.nviol += 1;
                                let site = p.stack.first().map(|s| s.1);
                                if !h.viols.iter().any(|v| v.kind == kind && v.msg == msg && v.stack.first().map(|s| s.1) == site) {
                                    h.viols.push(Viol { kind, msg, stack: p.stack, input: p.model });
                                }
                                if h.viols.len() >= 3 || h.nviol >= 20 {
                                    h.stopped = Some("violations");
                                }
                            }
                            End::Abort(r) => {
                                if verbose && !h.aborts.contains_key(&r) {
                                    eprintln!("{}: ABORT {r} {:?}", harnesses[it.harness], p.stack.iter().take(4).collect::<Vec<_>>());
                                }
                                *h.aborts.entry(r).or_default() += 1;
                                if h.aborts.values().sum::<u64>() > 200 {
                                    h.stopped = Some("aborts");
                                }
                            }
                        }
                        if h.stopped.is_none() && (h.cpu_us > secs * 1_000_000) {
                            h.stopped = Some("time");
                        }
                        if h.stopped.is_none() && h.paths > maxpaths {
                            h.stopped = Some("paths");
                        }
                        cv.notify_all();
                    }
                })
                .unwrap();
        }
    });
    report(&q.into_inner().unwrap(), &seen_all.into_inner().unwrap());
}
