//! msx: exhaustive path exploration of LLVM IR with an SMT solver deciding every branch.
//!
//!   msx prep IN.ll OUT.ll             strip metadata, cut the panic machinery loose
//!   msx run OPTIONS                   explore harness entry points, write a JSON report

mod exec;
mod expr;
mod ir;
mod ll;
mod z3;

use exec::{builtin, Config, End, Path, Stats, Violation, Work, Worker};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(String::as_str) {
        Some("prep") => prep(&a[2], &a[3]),
        Some("run") => run(&a[2..]),
        Some("parse") => {
            let m = ll::load(&std::fs::read_to_string(&a[2]).unwrap());
            println!("{} functions, {} globals", m.funcs.len(), m.globals.len());
        }
        _ => {
            eprintln!("usage: msx prep IN OUT | msx run --ll F --out F --entry E[,E...] [limits]");
            std::process::exit(64)
        }
    }
}

// ---- prep --------------------------------------------------------------------------------------

/// Functions whose bodies are replaced by the engine's own behaviour.
fn stubbed(name: &str) -> bool {
    !matches!(builtin(name), exec::Builtin::None)
}

fn strip_md(line: &str) -> String {
    // drop ", !kind !N" attachments and " !dbg !N" on definitions; quoted text is left alone
    let b = line.as_bytes();
    let mut o = String::with_capacity(line.len());
    let mut i = 0;
    let mut q = false;
    let mut st = 0;
    while i < b.len() {
        let c = b[i];
        if c == b'"' {
            q = !q;
        }
        if !q && c == b'!' && i > 0 && b[i - 1] == b' ' && i + 1 < b.len() && b[i + 1].is_ascii_alphabetic() {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || b[j] == b'_') {
                j += 1;
            }
            if j + 1 < b.len() && b[j] == b' ' && b[j + 1] == b'!' {
                let mut k = j + 2;
                if k < b.len() && b[k] == b'{' {
                    while b[k] != b'}' {
                        k += 1;
                    }
                    k += 1;
                } else {
                    while k < b.len() && b[k].is_ascii_digit() {
                        k += 1;
                    }
                }
                let mut e = i - 1;
                if e > 0 && b[e - 1] == b',' {
                    e -= 1;
                }
                o.push_str(&line[st..e]);
                st = k;
                i = k;
                continue;
            }
        }
        i += 1;
    }
    o.push_str(&line[st..]);
    o
}

fn prep(inp: &str, out: &str) {
    let text = std::fs::read_to_string(inp).expect("input");
    let mut o = String::with_capacity(text.len() / 2);
    let mut skip = false;
    for line in text.lines() {
        if skip {
            if line == "}" {
                skip = false;
            }
            continue;
        }
        if line.starts_with('!') || line.starts_with("^") {
            continue;
        }
        let tr = line.trim_start();
        if tr.starts_with("#dbg_") || tr.contains("@llvm.experimental.noalias.scope.decl(") || tr.contains("call void @llvm.dbg.") {
            continue;
        }
        let line = if line.contains('!') { strip_md(line) } else { line.to_string() };
        if line.starts_with("define ") {
            if let Some(at) = line.find('@') {
                let rest = &line[at + 1..];
                let name = if let Some(r) = rest.strip_prefix('"') { &r[..r.find('"').unwrap()] } else { &rest[..rest.find('(').unwrap()] };
                if stubbed(name) {
                    skip = true;
                    // keep a declaration: cut everything after the parameter list
                    let open = at + 1 + rest.find('(').unwrap();
                    let mut d = 0;
                    let mut end = line.len();
                    for (i, c) in line[open..].char_indices() {
                        match c {
                            '(' => d += 1,
                            ')' => {
                                d -= 1;
                                if d == 0 {
                                    end = open + i + 1;
                                    break;
                                }
                            }
                            _ => {}
                        }
                    }
                    let mut head = line["define ".len()..end].to_string();
                    for w in ["internal ", "private ", "linkonce_odr ", "weak_odr ", "weak ", "available_externally ", "hidden ", "dso_local ", "protected ", "unnamed_addr ", "local_unnamed_addr "] {
                        if let Some(p) = head.find('@') {
                            let (h, t) = head.split_at(p);
                            head = h.replacen(w, "", 1) + t;
                        }
                    }
                    o.push_str("declare ");
                    o.push_str(&head);
                    o.push('\n');
                    continue;
                }
            }
        }
        o.push_str(&line);
        o.push('\n');
    }
    std::fs::write(out, o).expect("output");
}

// ---- run ---------------------------------------------------------------------------------------

struct Shared {
    queue: Vec<Work>,
    active: usize,
    stop: bool,
}

#[derive(Default)]
struct Found {
    viols: Vec<(Violation, u64)>,
    keys: HashMap<(String, String), usize>,
    samples: Vec<(Vec<u8>, Vec<u64>)>,
    incon: BTreeMap<String, u64>,
    incon_input: BTreeMap<String, Vec<u8>>,
    touched: HashSet<u32>,
    stats: Stats,
}

struct Opts {
    ll: String,
    out: String,
    entries: Vec<String>,
    threads: usize,
    time: f64,
    paths: u64,
    query_ms: u32,
    samples: usize,
    max_viol: usize,
    budget: f64,
    patient: Vec<String>,
    cfg: Config,
    trace: bool,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn run(a: &[String]) {
    let mut o = Opts {
        ll: String::new(),
        out: String::new(),
        entries: vec![],
        threads: std::thread::available_parallelism().map_or(4, |n| n.get()),
        time: 60.0,
        paths: u64::MAX,
        query_ms: 200_000_000,
        samples: 32,
        max_viol: 64,
        budget: 1e6,
        patient: vec![],
        cfg: Config { max_steps: 20_000_000, max_heap: 64 << 20, max_one_alloc: 16 << 20, selfcheck: true },
        trace: false,
    };
    let mut i = 0;
    while i < a.len() {
        let v = || a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ll" => o.ll = v(),
            "--out" => o.out = v(),
            "--entry" => o.entries = v().split(',').map(String::from).collect(),
            "--threads" => o.threads = v().parse().unwrap(),
            "--time" => o.time = v().parse().unwrap(),
            "--paths" => o.paths = v().parse().unwrap(),
            "--query-ms" => o.query_ms = v().parse().unwrap(),
            "--samples" => o.samples = v().parse().unwrap(),
            "--steps" => o.cfg.max_steps = v().parse().unwrap(),
            "--heap" => o.cfg.max_heap = v().parse().unwrap(),
            "--alloc" => o.cfg.max_one_alloc = v().parse().unwrap(),
            "--budget" => o.budget = v().parse().unwrap(),
            "--patient" => o.patient = v().split(',').map(String::from).collect(),
            "--max-viol" => o.max_viol = v().parse().unwrap(),
            "--no-selfcheck" => {
                o.cfg.selfcheck = false;
                i += 1;
                continue;
            }
            "--trace" => {
                o.trace = true;
                i += 1;
                continue;
            }
            x => {
                eprintln!("msx: unknown option {x}");
                std::process::exit(64)
            }
        }
        i += 2;
    }
    let t0 = Instant::now();
    // All entry points have to be done by then; sooner if one of them showed an unexpected violation.
    let mut end = t0 + Duration::from_secs_f64(o.budget);
    let text = std::fs::read_to_string(&o.ll).unwrap_or_else(|e| {
        eprintln!("msx: {}: {e}", o.ll);
        std::process::exit(66)
    });
    let m = ll::load(&text);
    drop(text);
    let bi: Vec<_> = m.funcs.iter().map(|f| builtin(&f.name)).collect();
    let load_s = t0.elapsed().as_secs_f64();
    let mut out = String::new();
    let _ = write!(
        out,
        "{{\"z3\":\"{}\",\"load_s\":{load_s:.3},\"functions_loaded\":{},\"threads\":{},\"entries\":[",
        esc(&z3::version()),
        m.funcs.iter().filter(|f| !f.blocks.is_empty()).count(),
        o.threads
    );
    for (n, e) in o.entries.iter().enumerate() {
        let Some(&id) = m.by_name.get(e.as_str()) else {
            eprintln!("msx: no entry point {e}");
            std::process::exit(66)
        };
        if n > 0 {
            out.push(',');
        }
        out.push('\n');
        let (report, violated) = explore(&o, &m, &bi, e, id, end);
        out += &report;
        if violated && !o.patient.contains(e) {
            end = end.min(Instant::now() + Duration::from_secs(120));
        }
    }
    out.push_str("\n]}\n");
    std::fs::write(&o.out, out).expect("report");
}

fn explore(o: &Opts, m: &ir::Module, bi: &[exec::Builtin], name: &str, entry: u32, end: Instant) -> (String, bool) {
    let t0 = Instant::now();
    let deadline = (t0 + Duration::from_secs_f64(o.time)).min(end.max(t0 + Duration::from_secs(1)));
    let patient = o.patient.iter().any(|p| p == name);
    let cut = Mutex::new(deadline);
    let sh = Mutex::new(Shared {
        queue: vec![Work { input: vec![], bound: 0, excl: vec![], hash: 0 }],
        active: 0,
        stop: false,
    });
    let cv = Condvar::new();
    let found = Mutex::new(Found::default());
    let npaths = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..o.threads {
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(s, || {
                    let mut w = Worker::new(o.query_ms);
                    let mut touched = HashSet::new();
                    loop {
                        let work = {
                            let mut g = sh.lock().unwrap();
                            loop {
                                if g.stop {
                                    break None;
                                }
                                if let Some(x) = g.queue.pop() {
                                    g.active += 1;
                                    break Some(x);
                                }
                                if g.active == 0 {
                                    cv.notify_all();
                                    break None;
                                }
                                g = cv.wait(g).unwrap();
                            }
                        };
                        let Some(work) = work else { break };
                        w.trim();
                        let mut p = Path::new(m, bi, &o.cfg, &mut w, work, &mut touched);
                        let end = p.run(entry);
                        let spawned = std::mem::take(&mut p.spawned);
                        let input = p.input();
                        let obs = std::mem::take(&mut p.obs);
                        if o.trace {
                            eprintln!("{name}: path {} -> {end:?}, {} spawned", hex(&input), spawned.len());
                        }
                        let n = npaths.fetch_add(1, std::sync::atomic::Ordering::Relaxed) + 1;
                        let mut stop = false;
                        {
                            let mut f = found.lock().unwrap();
                            match end {
                                End::Done => {
                                    if f.samples.len() < o.samples || n % 97 == 0 {
                                        if f.samples.len() < o.samples {
                                            f.samples.push((input, obs));
                                        } else if o.samples > 0 {
                                            let k = (n / 97) as usize % o.samples;
                                            f.samples[k] = (input, obs);
                                        }
                                    }
                                }
                                End::Assume => {}
                                End::Violation(v) => {
                                    let k = (v.kind.clone(), v.what.clone());
                                    if let Some(&i) = f.keys.get(&k) {
                                        f.viols[i].1 += 1;
                                    } else {
                                        let i = f.viols.len();
                                        f.keys.insert(k, i);
                                        f.viols.push((v, 1));
                                        if i == 0 && !patient {
                                            let mut c = cut.lock().unwrap();
                                            *c = (*c).min(Instant::now() + Duration::from_secs(20));
                                        }
                                        stop = f.viols.len() >= o.max_viol;
                                    }
                                }
                                End::Inconclusive(r) => {
                                    *f.incon.entry(r.clone()).or_default() += 1;
                                    f.incon_input.entry(r).or_insert(input);
                                }
                            }
                        }
                        let now = Instant::now();
                        let mut g = sh.lock().unwrap();
                        g.active -= 1;
                        g.queue.extend(spawned);
                        if now > *cut.lock().unwrap() || n >= o.paths || stop {
                            g.stop = true;
                        }
                        cv.notify_all();
                    }
                    let mut f = found.lock().unwrap();
                    f.stats.add(&w.stats);
                    f.touched.extend(touched);
                })
                .unwrap();
        }
    });
    let left = sh.into_inner().unwrap().queue.len();
    let f = found.into_inner().unwrap();
    let st = &f.stats;
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\"entry\":\"{}\",\"complete\":{},\"unexplored\":{left},\"wall_s\":{:.3},\"paths\":{},\"done\":{},\"assumed_away\":{},\
         \"instructions\":{},\"decisions\":{},\"checks\":{},\"checks_by_solver\":{},\"queries_sat\":{},\"queries_unsat\":{},\
         \"queries_unknown\":{},\"queries_cached\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"symbolic_bytes\":{},",
        esc(name),
        left == 0 && f.incon.is_empty(),
        t0.elapsed().as_secs_f64(),
        st.paths,
        st.done,
        st.assumed_away,
        st.steps,
        st.decisions,
        st.checks,
        st.checks_solver,
        st.q_sat,
        st.q_unsat,
        st.q_unknown,
        st.q_cached,
        st.solver_ns as f64 / 1e9,
        st.max_query_ns as f64 / 1e9,
        st.max_vars
    );
    let mut c: Vec<_> = st.covers.iter().collect();
    c.sort();
    s += "\"covers\":{";
    s += &c.iter().map(|(k, v)| format!("\"{}\":{v}", esc(k))).collect::<Vec<_>>().join(",");
    let mut c: Vec<_> = st.check_sites.iter().collect();
    c.sort();
    s += "},\"check_sites\":{";
    s += &c.iter().map(|(k, v)| format!("\"{}\":[{},{}]", esc(k), v.0, v.1)).collect::<Vec<_>>().join(",");
    s += "},\"inconclusive\":[";
    s += &f
        .incon
        .iter()
        .map(|(k, v)| format!("{{\"reason\":\"{}\",\"count\":{v},\"input\":\"{}\"}}", esc(k), hex(&f.incon_input[k])))
        .collect::<Vec<_>>()
        .join(",");
    s += "],\"violations\":[";
    s += &f
        .viols
        .iter()
        .map(|(v, n)| {
            format!(
                "{{\"kind\":\"{}\",\"what\":\"{}\",\"count\":{n},\"input\":\"{}\",\"stack\":[{}]}}",
                esc(&v.kind),
                esc(&v.what),
                hex(&v.input),
                v.stack.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(",")
            )
        })
        .collect::<Vec<_>>()
        .join(",");
    s += "],\"samples\":[";
    s += &f
        .samples
        .iter()
        .map(|(i, o)| format!("{{\"input\":\"{}\",\"obs\":[{}]}}", hex(i), o.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(",")))
        .collect::<Vec<_>>()
        .join(",");
    let mut t: Vec<_> = f.touched.iter().map(|i| m.funcs[*i as usize].name.clone()).collect();
    t.sort();
    s += "],\"functions\":[";
    s += &t.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(",");
    s += "]}";
    (s, !f.viols.is_empty())
}
