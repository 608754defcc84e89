mod exec;
mod expr;
mod ir;
mod z3;
use exec::*;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn run_native(bin: &str, input: &str, timeout: Duration) -> (Option<i32>, String, bool) {
    // returns (exit code, stdout, timed out)
    let mut ch = Command::new(bin).arg("batch").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("native harness");
    let mut si = ch.stdin.take().unwrap();
    let inp = input.to_string();
    let w = std::thread::spawn(move || {
        let _ = si.write_all(inp.as_bytes());
    });
    let mut so = ch.stdout.take().unwrap();
    let r = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = so.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t0 = Instant::now();
    let mut timed = false;
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break Some(s);
        }
        if t0.elapsed() > timeout {
            timed = true;
            let _ = ch.kill();
            break ch.wait().ok();
        }
        std::thread::sleep(Duration::from_millis(3));
    };
    let _ = w.join();
    let out = r.join().unwrap();
    (st.and_then(|s| s.code()), out, timed)
}

fn case_line(sp: &HSpec, w: &Witness) -> String {
    let ins: Vec<String> = w.inputs.iter().map(|x| x.to_string()).collect();
    format!("{} {} {}\n", sp.name, sp.arg, if ins.is_empty() { "-".to_string() } else { ins.join(",") })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ir = String::new();
    let mut native = String::new();
    let mut out = String::from("report.json");
    let mut jobs = 8usize;
    let mut deadline = 600u64;
    let mut optd = 60u64;
    let mut specs_s: Vec<String> = vec![];
    let mut max_steps = 20_000_000u64;
    let mut sample_cap = 4000usize;
    let mut problem_cap = 2000usize;
    let mut solver_ms = 20_000u32;
    let mut profile = false;
    let mut smtdir: Option<String> = None;
    let mut i = 1;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--ir" => ir = v,
            "--native" => native = v,
            "--out" => out = v,
            "--jobs" => jobs = v.parse().unwrap(),
            "--deadline" => deadline = v.parse().unwrap(),
            "--opt-deadline" => optd = v.parse().unwrap(),
            "--max-steps" => max_steps = v.parse().unwrap(),
            "--samples" => sample_cap = v.parse().unwrap(),
            "--problems" => problem_cap = v.parse().unwrap(),
            "--solver-ms" => solver_ms = v.parse().unwrap(),
            "--smt-dir" => smtdir = Some(v),
            "--spec" => specs_s.push(v),
            "--profile" => {
                profile = true;
                i += 1;
                continue;
            }
            x => {
                eprintln!("unknown option {}", x);
                std::process::exit(2);
            }
        }
        i += 2;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ir).expect("read IR");
    let irlen = text.len();
    let m = ir::Module::load(text);
    let load_s = t0.elapsed().as_secs_f64();
    let ndef = m.fns.iter().filter(|f| f.line.is_some()).count();
    let mut specs = vec![];
    for s in &specs_s {
        // name:arg[:opt]
        let p: Vec<&str> = s.split(':').collect();
        let entry = match m.fn_by_name.get(p[0]) {
            Some(e) => *e,
            None => {
                eprintln!("no harness {} in the IR", p[0]);
                std::process::exit(2);
            }
        };
        specs.push(HSpec { name: p[0].into(), arg: p.get(1).map(|x| x.parse().unwrap()).unwrap_or(0), entry, optional: p.get(2) == Some(&"opt"), label: s.clone() });
    }
    let n = specs.len();
    let sh = Shared {
        m: &m,
        stats: (0..n).map(|_| HStat { pending: AtomicUsize::new(1), ..Default::default() }).collect(),
        specs,
        queue: Mutex::new((0..n).map(|i| (i, VecDeque::from(vec![vec![]]))).collect::<BTreeMap<_, _>>()),
        qlen: AtomicUsize::new(n),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        nworkers: jobs,
        stop: AtomicBool::new(false),
        cache: (0..64).map(|_| Mutex::new(HashMap::new())).collect(),
        certs: Mutex::new(HashSet::new()),
        q_total: AtomicU64::new(0),
        q_sat: AtomicU64::new(0),
        q_unsat: AtomicU64::new(0),
        q_unknown: AtomicU64::new(0),
        q_cert: AtomicU64::new(0),
        q_cached: AtomicU64::new(0),
        q_ns: AtomicU64::new(0),
        quick_dom: AtomicU64::new(0),
        quick_wit: AtomicU64::new(0),
        samples: Mutex::new(vec![]),
        problems: Mutex::new(vec![]),
        covers: Mutex::new(BTreeMap::new()),
        fns: Mutex::new(HashSet::new()),
        smt: Mutex::new(vec![]),
        deadline: t0 + Duration::from_secs(deadline),
        opt_deadline: t0 + Duration::from_secs(optd.min(deadline)),
        max_steps,
        sample_cap,
        problem_cap,
        problem_keep: 3,
        nproblems: AtomicUsize::new(0),
        solver_ms,
        profile,
        forkprof: Mutex::new(HashMap::new()),
    };
    std::thread::scope(|s| {
        let mut hs = vec![];
        for k in 0..jobs {
            let shr = &sh;
            hs.push(std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, move || Worker::new(shr, k as u64).work()).unwrap());
        }
        for h in hs {
            h.join().unwrap();
        }
    });
    let explore_s = t0.elapsed().as_secs_f64() - load_s;
    // ---- replay of problems against the native build
    let t1 = Instant::now();
    let mut problems = sh.problems.lock().unwrap().clone();
    problems.sort_by(|a, b| (a.h, a.inputs.len(), &a.inputs).cmp(&(b.h, b.inputs.len(), &b.inputs)));
    let mut pj = vec![];
    for p in &problems {
        let sp = &sh.specs[p.h];
        let line = case_line(sp, p);
        let (code, so, timed) = if native.is_empty() { (Some(0), String::new(), false) } else { run_native(&native, &line, Duration::from_secs(10)) };
        let first = so.lines().next().unwrap_or("").to_string();
        let txt = so.lines().find(|l| l.starts_with("TEXT ")).map(|l| l[5..].to_string()).unwrap_or_default();
        let res = so.lines().find(|l| !l.starts_with("TEXT ")).unwrap_or("").to_string();
        let reproduced = match &p.end {
            End::Panic(_) => res.starts_with("PANIC") || (res.is_empty() && code != Some(0)),
            End::Fail(_) => res.starts_with("FAIL") || res.starts_with("PANIC"),
            End::Steps => timed || (res.is_empty() && code != Some(0)),
            End::Unsup(_) => res.starts_with("PANIC") || res.starts_with("FAIL") || timed || (res.is_empty() && code != Some(0)),
            _ => false,
        };
        let (kind, msg) = match &p.end {
            End::Panic(s) => ("panic", s.clone()),
            End::Fail(s) => ("fail", s.clone()),
            End::Steps => ("steps", "step bound exceeded (non-termination candidate)".to_string()),
            End::Unsup(s) => ("unsupported", s.clone()),
            _ => ("?", String::new()),
        };
        let _ = first;
        pj.push(format!(
            "{{\"harness\":{},\"spec\":{},\"kind\":{},\"msg\":{},\"inputs\":{:?},\"native\":{},\"timed_out\":{},\"reproduced\":{},\"text\":{},\"case\":{}}}",
            js(&sp.name),
            js(&sp.label),
            js(kind),
            js(&msg),
            p.inputs,
            js(&res),
            timed,
            reproduced,
            js(&txt),
            js(line.trim_end())
        ));
    }
    // ---- validation of completed paths
    let samples = sh.samples.lock().unwrap().clone();
    let mut validated = 0u64;
    let mut mism: Vec<String> = vec![];
    let mut sample_out: Vec<String> = vec![];
    if !native.is_empty() {
        for chunk in samples.chunks(1000) {
            let mut inp = String::new();
            for s in chunk {
                inp.push_str(&case_line(&sh.specs[s.h], s));
            }
            let (_c, so, timed) = run_native(&native, &inp, Duration::from_secs(60));
            let mut it = so.lines().peekable();
            for s in chunk {
                let mut txt = String::new();
                let mut l = it.next().unwrap_or("").to_string();
                if l.starts_with("TEXT ") {
                    txt = l[5..].to_string();
                    l = it.next().unwrap_or("").to_string();
                }
                let exp = format!("OK {}", s.outs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
                let ok = if s.approx { l.starts_with("OK") } else { l == exp };
                if ok {
                    validated += 1;
                    if sample_out.len() < 12 && validated % 37 == 1 {
                        sample_out.push(format!("{{\"harness\":{},\"inputs\":{:?},\"text\":{},\"outs\":{}}}", js(&sh.specs[s.h].label), s.inputs, js(&txt), js(&exp)));
                    }
                } else if mism.len() < 10 {
                    mism.push(format!("{} expected [{}] got [{}] text {} timed {}", case_line(&sh.specs[s.h], s).trim(), exp, l, txt, timed));
                }
            }
        }
    }
    let native_s = t1.elapsed().as_secs_f64();
    if let Some(d) = &smtdir {
        let _ = std::fs::create_dir_all(d);
        for (i, (q, sat)) in sh.smt.lock().unwrap().iter().enumerate() {
            let _ = std::fs::write(format!("{}/q{}_{}.smt2", d, i, if *sat { "sat" } else { "unsat" }), format!("(set-logic QF_BV)\n{}\n(check-sat)\n", q));
        }
    }
    // ---- report
    let mut hj = vec![];
    let mut complete = true;
    for i in 0..n {
        let st = &sh.stats[i];
        let pend = st.pending.load(Relaxed);
        if pend != 0 && !sh.specs[i].optional {
            complete = false;
        }
        let cov: Vec<String> = sh.covers.lock().unwrap().iter().filter(|((h, _), _)| *h == i).map(|((_, c), n)| format!("\"{}\":{}", c, n)).collect();
        hj.push(format!(
            "{{\"spec\":{},\"optional\":{},\"complete\":{},\"paths\":{},\"done\":{},\"infeasible\":{},\"forks\":{},\"decisions\":{},\"insts\":{},\"max_symbolic_inputs\":{},\"max_path_steps\":{},\"covers\":{{{}}}}}",
            js(&sh.specs[i].label),
            sh.specs[i].optional,
            pend == 0,
            st.paths.load(Relaxed),
            st.done.load(Relaxed),
            st.infeasible.load(Relaxed),
            st.forks.load(Relaxed),
            st.decisions.load(Relaxed),
            st.insts.load(Relaxed),
            st.maxvars.load(Relaxed),
            st.maxsteps.load(Relaxed),
            cov.join(",")
        ));
    }
    let fns: Vec<String> = {
        let mut v: Vec<String> = sh.fns.lock().unwrap().iter().map(|f| m.fns[*f as usize].name.clone()).collect();
        v.sort();
        v
    };
    let repo_fns: Vec<&String> = fns.iter().filter(|f| f.contains("ruruby_parse")).collect();
    let q = |a: &AtomicU64| a.load(Relaxed);
    let q2 = |a: &AtomicUsize| a.load(Relaxed);
    let rep = format!(
        "{{\"ir_bytes\":{},\"ir_functions\":{},\"load_s\":{:.2},\"explore_s\":{:.2},\"native_s\":{:.2},\"complete\":{},\"stopped_early\":{},\n\"harnesses\":[{}],\n\"problems\":[{}],\n\"validated\":{},\"samples_total\":{},\"mismatches\":[{}],\n\"samples\":[{}],\n\"functions_encoded\":{},\"repo_functions_encoded\":[{}],\n\"solver\":{{\"name\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"certificates\":{},\"cache_hits\":{},\"by_certified_table\":{},\"by_witness\":{},\"time_s\":{:.3}}}}}\n",
        irlen,
        ndef,
        load_s,
        explore_s,
        native_s,
        complete,
        q2(&sh.nproblems) >= problem_cap,
        hj.join(",\n "),
        pj.join(",\n "),
        validated,
        samples.len(),
        mism.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        sample_out.join(",\n "),
        fns.len(),
        repo_fns.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        js(&z3::version()),
        q(&sh.q_total),
        q(&sh.q_sat),
        q(&sh.q_unsat),
        q(&sh.q_unknown),
        q(&sh.q_cert),
        q(&sh.q_cached),
        q(&sh.quick_dom),
        q(&sh.quick_wit),
        q(&sh.q_ns) as f64 / 1e9
    );
    std::fs::write(&out, rep).expect("write report");
    if profile {
        let mut v: Vec<_> = sh.forkprof.lock().unwrap().clone().into_iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1));
        for (k, n) in v.iter().take(25) {
            eprintln!("{:8} {}", n, k);
        }
    }
}
