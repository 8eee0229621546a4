mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
use exec::*;
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn esc(n: &[u8]) -> String {
    n.iter().map(|&c| if !(32..=126).contains(&c) { format!("\\x{:02x}", c) } else { (c as char).to_string() }).collect()
}
fn pe_json(e: &PathEnd) -> String {
    let (k, m) = match &e.kind {
        OutKind::Ok => ("ok", String::new()),
        OutKind::Assume => ("assume", String::new()),
        OutKind::Check(m) => ("check", m.clone()),
        OutKind::Panic(m) => ("panic", m.clone()),
        OutKind::Fault(m) => ("fault", m.clone()),
        OutKind::Limit(m) => ("limit", m.clone()),
        OutKind::Inconclusive(m) => ("inconclusive", m.clone()),
    };
    format!(
        "{{\"kind\":{},\"msg\":{},\"draws\":[{}],\"notes\":[{}],\"insts\":{},\"cons\":{},\"stack\":[{}]}}",
        js(k),
        js(&m),
        e.draws.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        e.notes.iter().map(|n| js(&esc(n))).collect::<Vec<_>>().join(","),
        e.icount,
        e.cons,
        e.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")
    )
}

/// Turn the bodies of the hooked functions into declarations (before the
/// optimiser runs, so that they are neither inlined nor kept).
fn prep(inp: &str, out: &str) {
    let text = std::fs::read(inp).unwrap();
    let mut w = std::io::BufWriter::with_capacity(1 << 20, std::fs::File::create(out).unwrap());
    let mut skip = false;
    for line in text.split_inclusive(|&c| c == b'\n') {
        if skip {
            if line[0] == b'}' {
                skip = false;
            }
            continue;
        }
        if line.starts_with(b"define ") {
            let at = line.iter().position(|&c| c == b'@').unwrap();
            let end = at + line[at..].iter().position(|&c| c == b'(').unwrap();
            let name = String::from_utf8_lossy(&line[at + 1..end]).into_owned();
            let k = ext_kind(&name);
            if k == X_HASH || k == X_PANIC {
                let s = String::from_utf8_lossy(line).into_owned();
                let mut head = s[..s.rfind('{').unwrap()].to_string();
                if let Some(i) = head.find(" personality ") {
                    head.truncate(i);
                }
                if let Some(i) = head.find(" !") {
                    head.truncate(i);
                }
                let mut h = head.replacen("define ", "declare ", 1);
                for l in [" internal ", " private ", " linkonce_odr ", " weak_odr ", " hidden ", " protected ", " dso_local "] {
                    h = h.replacen(l, " ", 1);
                }
                w.write_all(h.as_bytes()).unwrap();
                w.write_all(b"\n").unwrap();
                skip = true;
                continue;
            }
        }
        w.write_all(line).unwrap();
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "prep" {
        prep(&args[2], &args[3]);
        return;
    }
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut i = 2;
    while i + 1 < args.len() {
        opt.insert(args[i].trim_start_matches("--").to_string(), args[i + 1].clone());
        i += 2;
    }
    let get = |k: &str, d: &str| opt.get(k).cloned().unwrap_or(d.to_string());
    let t0 = Instant::now();
    let text: &'static [u8] = Box::leak(std::fs::read(get("ll", "")).unwrap().into_boxed_slice());
    let m: &'static ir::Module = Box::leak(Box::new(ir::load(text)));
    let entry = get("entry", "");
    if let Some(d) = opt.get("dump") {
        let c = m.code(m.fmap[d.as_str()]);
        for (i, x) in c.insts.iter().enumerate() {
            println!("{:4} {:?}", i, x);
        }
        for (i, x) in c.consts.iter().enumerate() {
            println!("c{:4} {:?}", i, x);
        }
        return;
    }
    let st = init_state(m, &entry);
    let tload = t0.elapsed().as_secs_f64();
    let nt: usize = get("threads", "8").parse().unwrap();
    let limit: f64 = get("time", "600").parse().unwrap();
    let sh = Arc::new(Shared {
        m,
        queue: Mutex::new(vec![st]),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        nthreads: nt,
        stop: AtomicBool::new(false),
        deadline: Instant::now() + Duration::from_secs_f64(limit),
        max_path: get("max-path", "2000000000").parse().unwrap(),
        thorough: get("thorough", "0") == "1",
        ends: Mutex::new(vec![]),
        samples: Mutex::new(vec![]),
        nsamples: get("samples", "40").parse().unwrap(),
        paths: AtomicU64::new(0),
        reached: Mutex::new(HashMap::new()),
        stats: Mutex::new(Stats::default()),
        max_bad: get("max-bad", "8").parse().unwrap(),
        qcache: (0..64).map(|_| Mutex::new(Default::default())).collect(),
        prof: get("prof", "0") == "1",
        forkprof: Mutex::new(HashMap::new()),
        seed: get("seed", "1").parse().unwrap(),
    });
    let mut hs = vec![];
    for i in 0..nt {
        let sh = sh.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let mut w = Worker::new(sh.clone(), i);
                        w.main_loop();
                    }));
                    if r.is_err() {
                        eprintln!("worker panicked");
                        std::process::exit(2);
                    }
                })
                .unwrap(),
        );
    }
    let verbose = get("verbose", "0") == "1";
    if verbose {
        let sh = sh.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(5));
            eprintln!(
                "[{:.0}s] paths={} nodes={} queue={} idle={}",
                t0.elapsed().as_secs_f64(),
                sh.paths.load(Ordering::Relaxed),
                expr::node_count(),
                sh.queue.lock().unwrap().len(),
                sh.idle.load(Ordering::Relaxed)
            );
        });
    }
    for h in hs {
        h.join().unwrap();
    }
    let st = sh.stats.lock().unwrap().clone();
    let ends = sh.ends.lock().unwrap();
    let mut samples = sh.samples.lock().unwrap().clone();
    // thin the samples deterministically
    if samples.len() > sh.nsamples {
        samples.sort_by(|a, b| a.draws.cmp(&b.draws));
        let n = samples.len();
        let k = sh.nsamples;
        samples = (0..k).map(|i| samples[i * n / k].clone()).collect();
    }
    let mut reached: Vec<_> = sh.reached.lock().unwrap().clone().into_iter().collect();
    reached.sort();
    let mut funcs: Vec<String> = m
        .funcs
        .iter()
        .filter(|f| f.hits.load(Ordering::Relaxed))
        .map(|f| exec::short(&f.name))
        .collect();
    funcs.sort();
    funcs.dedup();
    let mut o = String::from("{");
    o.push_str(&format!("\"entry\":{},\"load_s\":{:.3},\"wall_s\":{:.3},", js(&entry), tload, t0.elapsed().as_secs_f64()));
    o.push_str(&format!(
        "\"paths\":{},\"ok\":{},\"assume\":{},\"insts\":{},\"forks\":{},\"dec_table\":{},\"certs\":{},\"cert_hits\":{},\"dec_multi\":{},\"dec_implied\":{},\"dec_model\":{},\"checks_const\":{},\"checks_folded\":{},\"checks_solver\":{},\"luts\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"query_cache_hits\":{},\"fd_queries\":{},\"fd_unsat\":{},\"fd_crosschecked\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"max_cons\":{},\"max_path_insts\":{},\"nodes\":{},\"z3\":{},",
        st.paths, st.ok, st.assume, st.insts, st.forks, st.dec_table, st.certs, st.cert_hits, st.dec_multi, st.dec_syn, st.dec_local, st.checks_const,
        st.checks_table, st.checks_solver, st.luts, st.queries, st.sat, st.unsat, st.unknown, st.qcache, st.fd, st.fd_unsat, st.fd_cross, st.solver_s, st.max_q_s,
        st.maxcons, st.max_path_insts, expr::node_count(), js(&solver::version())
    ));
    o.push_str(&format!(
        "\"reached\":{{{}}},",
        reached.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")
    ));
    o.push_str(&format!("\"ends\":[{}],", ends.iter().map(pe_json).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"samples\":[{}],", samples.iter().map(pe_json).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"functions\":[{}]", funcs.iter().map(|f| js(f)).collect::<Vec<_>>().join(",")));
    o.push_str("}\n");
    let outp = get("out", "");
    if outp.is_empty() {
        println!("{}", o);
    } else {
        std::fs::write(outp, o).unwrap();
    }
    if sh.prof {
        let g = sh.forkprof.lock().unwrap();
        let mut v: Vec<_> = g.iter().collect();
        v.sort_by(|a, b| b.1.cmp(a.1));
        for (k, n) in v.iter().take(40) {
            eprintln!("{:8} {}", n, k);
        }
    }
    // skip destructors of large structures
    std::process::exit(0);
}
