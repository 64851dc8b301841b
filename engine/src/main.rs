//! symex: path-exhaustive symbolic execution of rustc-generated LLVM IR with Z3.
mod exec;
mod expr;
mod ir;
mod mem;
mod narrow;
mod z3;
use exec::*;
use std::io::Write;
use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn fork() -> i32;
    fn _exit(c: i32) -> !;
    fn getpid() -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn signal(s: i32, h: usize) -> usize;
}

pub fn demangle(s: &str) -> String {
    if !s.starts_with("_ZN") {
        return s.to_string();
    }
    let b = s.as_bytes();
    let mut i = 3;
    let mut parts: Vec<String> = vec![];
    while i < b.len() && b[i].is_ascii_digit() {
        let mut n = 0;
        while i < b.len() && b[i].is_ascii_digit() {
            n = n * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if i + n > b.len() {
            return s.to_string();
        }
        parts.push(s[i..i + n].to_string());
        i += n;
    }
    if let Some(l) = parts.last() {
        if l.len() == 17 && l.starts_with('h') {
            parts.pop();
        }
    }
    let mut r = parts.join("::");
    for (a, c) in [
        ("..", "::"), ("$LT$", "<"), ("$GT$", ">"), ("$RF$", "&"), ("$BP$", "*"), ("$C$", ","), ("$u20$", " "),
        ("$u27$", "'"), ("$u5b$", "["), ("$u5d$", "]"), ("$u7b$", "{"), ("$u7d$", "}"), ("$LP$", "("), ("$RP$", ")"),
    ] {
        r = r.replace(a, c);
    }
    r
}

fn rss_kb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .unwrap_or(0)
        * 4
}

fn flush(e: &mut Engine) {
    let s = e.sh;
    s.paths.fetch_add(std::mem::take(&mut e.npaths), Relaxed);
    s.assumed_out.fetch_add(std::mem::take(&mut e.nassume), Relaxed);
    s.forks.fetch_add(std::mem::take(&mut e.nforks), Relaxed);
    s.insts.fetch_add(std::mem::take(&mut e.ninsts), Relaxed);
    s.queries.fetch_add(std::mem::take(&mut e.z3.queries), Relaxed);
    s.q_sat.fetch_add(std::mem::take(&mut e.z3.sat), Relaxed);
    s.q_unsat.fetch_add(std::mem::take(&mut e.z3.unsat), Relaxed);
    s.q_us.fetch_add(std::mem::take(&mut e.z3.time_us), Relaxed);
    s.q_max_us.fetch_max(e.z3.max_us, Relaxed);
    s.dom_decisions.fetch_add(std::mem::take(&mut e.dom_decisions), Relaxed);
    s.cache_hits.fetch_add(std::mem::take(&mut e.cache_hits), Relaxed);
    s.asserts_concrete.fetch_add(std::mem::take(&mut e.asserts_c), Relaxed);
    s.asserts_solver.fetch_add(std::mem::take(&mut e.asserts_s), Relaxed);
    s.maxrss_kb.fetch_max(rss_kb(), Relaxed);
    if e.o.profile && !e.fork_sites.is_empty() {
        if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(format!("{}/profile.txt", e.o.out)) {
            let mut t = String::new();
            for (k, v) in e.fork_sites.drain() {
                t.push_str(&format!("{v}\t{k}\n"));
            }
            let _ = f.write_all(t.as_bytes());
        }
    }
}

fn dump_state(e: &mut Engine, st: &State, head: &str) -> String {
    let mut t = format!("# {}\n", head.replace('\n', " "));
    for (n, b, l) in st.objs.iter() {
        t.push_str(&format!("obj {} ", if n.is_empty() { "-" } else { n }));
        for i in 0..*l {
            t.push_str(&format!("{:02x}", st.model[(*b + i) as usize]));
        }
        t.push('\n');
    }
    for v in st.log.iter() {
        let x = match v {
            ir::Val::I(x) => *x as u128,
            ir::Val::S(s) => e.ar.eval(*s, &st.model),
            _ => 0,
        };
        t.push_str(&format!("log {}\n", x));
    }
    for i in 0..1024usize {
        if st.covers[i / 64] >> (i % 64) & 1 == 1 {
            t.push_str(&format!("cover {i}\n"));
        }
    }
    t
}

fn worker(mut e: Engine, first: State) {
    let sh = e.sh;
    e.pending.push(first);
    let mut since = 0u64;
    let mut last_share = Instant::now();
    while let Some(st) = e.pending.pop() {
        if sh.stop.load(Relaxed) != 0 {
            break;
        }
        let (stop, st) = e.run(st);
        sh.max_depth.fetch_max(st.depth as u64, Relaxed);
        match stop {
            Stop::End => {
                e.npaths += 1;
                for i in 0..16 {
                    if st.covers[i] != 0 {
                        sh.covers[i].fetch_or(st.covers[i], Relaxed);
                    }
                }
                if e.o.max_witness > 0 {
                    since += 1;
                    if since >= e.o.witness_every {
                        since = 0;
                        let n = sh.witnesses.fetch_add(1, Relaxed);
                        if n < e.o.max_witness {
                            let t = dump_state(&mut e, &st, "witness");
                            let _ = std::fs::write(format!("{}/witness{n}.txt", e.o.out), t);
                        } else {
                            e.o.max_witness = 0;
                        }
                        e.o.witness_every = (e.o.witness_every * 3 / 2).max(2);
                    }
                }
            }
            Stop::Assume => e.nassume += 1,
            Stop::Viol(s) => {
                if sh.stop.load(Relaxed) == 0 {
                    let n = sh.viols.fetch_add(1, Relaxed);
                    if n < e.o.max_viol {
                        let t = dump_state(&mut e, &st, &s);
                        let _ = std::fs::write(format!("{}/viol{n}.txt", e.o.out), t);
                    }
                    if n + 1 >= e.o.max_viol {
                        sh.stop.store(1, SeqCst);
                    }
                }
            }
            Stop::Err(s) => {
                if s != "time limit" || sh.errs.load(Relaxed) == 0 {
                    let n = sh.errs.fetch_add(1, Relaxed);
                    if n < 20 {
                        let t = dump_state(&mut e, &st, &s);
                        let bt = e.bt(&st);
                        let _ = std::fs::write(format!("{}/err{n}.txt", e.o.out), format!("{t}# at {bt}\n"));
                    }
                }
                sh.stop.store(2, SeqCst);
            }
        }
        drop(st);
        // work sharing
        if e.pending.len() >= 2 && last_share.elapsed() > Duration::from_millis(3) {
            let fw = sh.free_workers.load(Relaxed);
            if fw > 0 && sh.free_workers.compare_exchange(fw, fw - 1, SeqCst, SeqCst).is_ok() {
                let n = sh.nproc.fetch_add(1, SeqCst) as usize;
                if n >= MAXPROC {
                    sh.free_workers.fetch_add(1, SeqCst);
                    continue;
                }
                flush(&mut e);
                sh.active.fetch_add(1, SeqCst);
                sh.pids[n].store(u32::MAX, SeqCst);
                let half = e.pending.len() / 2;
                let pid = unsafe { fork() };
                if pid < 0 {
                    sh.pids[n].store(0, SeqCst);
                    sh.active.fetch_sub(1, SeqCst);
                } else if pid == 0 {
                    sh.pids[n].store(unsafe { getpid() } as u32, SeqCst);
                    e.proc_slot = n;
                    e.pending.truncate(half);
                    e.npaths = 0;
                } else {
                    e.pending.drain(..half);
                    last_share = Instant::now();
                }
            }
        }
    }
    for (i, f) in e.funcs.iter().enumerate() {
        if f.is_some() {
            sh.fns[i].store(1, Relaxed);
        }
    }
    flush(&mut e);
    sh.pids[e.proc_slot].store(0, SeqCst);
    sh.free_workers.fetch_add(1, SeqCst);
    sh.active.fetch_sub(1, SeqCst);
    unsafe { _exit(0) }
}

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 32 => r.push(' '),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::from("/tmp/symex-out");
    let mut timeout = 600u64;
    let mut workers = 8u32;
    let mut profile = false;
    let mut trace = false;
    let mut poison = false;
    let mut maxw = 0u32;
    let mut max_viol = 1u32;
    let mut rlimit = 150_000_000u32;
    let mut max_insts = 2_000_000_000u64;
    let mut params: Vec<u64> = vec![];
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ll" => ll = v,
            "--entry" => entry = v,
            "--out" => out = v,
            "--params" => params = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--timeout" => timeout = v.parse().unwrap(),
            "--workers" => workers = v.parse().unwrap(),
            "--witness" => maxw = v.parse().unwrap(),
            "--max-viol" => max_viol = v.parse().unwrap(),
            "--rlimit" => rlimit = v.parse().unwrap(),
            "--max-insts" => max_insts = v.parse().unwrap(),
            "--profile" => {
                profile = true;
                i -= 1;
            }
            "--poison" => {
                poison = true;
                i -= 1;
            }
            "--trace" => {
                trace = true;
                i -= 1;
            }
            x => panic!("unknown option {x}"),
        }
        i += 2;
    }
    let t0 = Instant::now();
    std::fs::create_dir_all(&out).unwrap();
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0);
        &*(p as *const Shared)
    };
    unsafe { signal(17, 1) };
    sh.free_workers.store(workers - 1, SeqCst);
    sh.active.store(1, SeqCst);
    sh.nproc.store(1, SeqCst);
    sh.pids[0].store(u32::MAX, SeqCst);
    let deadline = Instant::now() + Duration::from_secs(timeout);
    let (o_out, o_entry, o_ll) = (out.clone(), entry.clone(), ll.clone());
    let pid = unsafe { fork() };
    if pid == 0 {
        sh.pids[0].store(unsafe { getpid() } as u32, SeqCst);
        let h = std::thread::Builder::new()
            .stack_size(1 << 30)
            .spawn(move || {
                let text: &'static str = Box::leak(std::fs::read_to_string(&o_ll).unwrap().into_boxed_str());
                let m = ir::Module::parse(text).unwrap_or_else(|e| {
                    eprintln!("parse: {e}");
                    unsafe { _exit(3) }
                });
                let o = Opts {
                    out: o_out,
                    max_viol,
                    max_path_insts: max_insts,
                    deadline,
                    profile,
                    poison,
                    trace,
                    witness_every: 1,
                    max_witness: maxw,
                    params,
                };
                let mut e = Engine::new(m, sh, o, rlimit);
                let st = e.initial(&o_entry).unwrap_or_else(|e| {
                    eprintln!("init: {e}");
                    unsafe { _exit(3) }
                });
                worker(e, st);
            })
            .unwrap();
        let _ = h.join();
        unsafe { _exit(3) }
    }
    // coordinator
    let mut dead = false;
    let mut suspect = 0;
    let mut timed_out = false;
    loop {
        std::thread::sleep(Duration::from_millis(4));
        if sh.active.load(SeqCst) == 0 {
            break;
        }
        let n = (sh.nproc.load(SeqCst) as usize).min(MAXPROC);
        let mut any_dead = false;
        for k in 0..n {
            let p = sh.pids[k].load(SeqCst);
            if p != 0 && p != u32::MAX && unsafe { kill(p as i32, 0) } != 0 && sh.pids[k].load(SeqCst) == p {
                any_dead = true;
            }
        }
        suspect = if any_dead { suspect + 1 } else { 0 };
        if suspect > 3 {
            dead = true;
        }
        if Instant::now() > deadline {
            timed_out = true;
        }
        if dead || timed_out || (sh.stop.load(SeqCst) != 0 && sh.active.load(SeqCst) > 0) {
            sh.stop.fetch_max(1, SeqCst);
            std::thread::sleep(Duration::from_millis(300));
            let n = (sh.nproc.load(SeqCst) as usize).min(MAXPROC);
            for _ in 0..3 {
                for k in 0..n {
                    let p = sh.pids[k].load(SeqCst);
                    if p != 0 && p != u32::MAX {
                        unsafe { kill(p as i32, 9) };
                    }
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            break;
        }
    }
    // functions encoded: need names; reparse cheaply
    let text = std::fs::read_to_string(&ll).unwrap();
    let mut names: Vec<String> = vec![];
    if let Ok(m) = ir::Module::parse(&text) {
        for (i, f) in m.fn_src.iter().enumerate() {
            if sh.fns[i].load(Relaxed) != 0 && f.1.is_some() {
                names.push(demangle(&f.0));
            }
        }
    }
    names.sort();
    names.dedup();
    let viols = sh.viols.load(SeqCst);
    let errs = sh.errs.load(SeqCst);
    let status = if viols > 0 {
        "violation"
    } else if dead {
        "worker-died"
    } else if timed_out {
        "timeout"
    } else if errs > 0 || sh.stop.load(SeqCst) != 0 {
        "error"
    } else {
        "complete"
    };
    let mut covers = vec![];
    for i in 0..1024usize {
        if sh.covers[i / 64].load(Relaxed) >> (i % 64) & 1 == 1 {
            covers.push(i.to_string());
        }
    }
    let g = |x: &std::sync::atomic::AtomicU64| x.load(Relaxed);
    let own: Vec<String> = names.iter().filter(|n| n.contains("dd_sds")).map(|n| js(n)).collect();
    let j = format!(
        "{{\"entry\":{},\"status\":\"{status}\",\"paths\":{},\"assumed_out\":{},\"forks\":{},\"instructions\":{},\"solver_queries\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"domain_decisions\":{},\"query_cache_hits\":{},\"asserts_decided_on_concrete_value\":{},\"asserts_sent_to_solver\":{},\"max_fork_depth\":{},\"processes\":{},\"maxrss_mb\":{},\"violations\":{viols},\"errors\":{errs},\"covers\":[{}],\"functions_total\":{},\"functions_dd_sds\":[{}],\"wall_s\":{:.2}}}",
        js(&entry), g(&sh.paths), g(&sh.assumed_out), g(&sh.forks), g(&sh.insts), g(&sh.queries), g(&sh.q_sat), g(&sh.q_unsat),
        g(&sh.q_us) as f64 / 1e6, g(&sh.q_max_us) as f64 / 1e6, g(&sh.dom_decisions), g(&sh.cache_hits), g(&sh.asserts_concrete),
        g(&sh.asserts_solver), g(&sh.max_depth), sh.nproc.load(Relaxed), g(&sh.maxrss_kb) / 1024, covers.join(","), names.len(), own.join(","), t0.elapsed().as_secs_f64()
    );
    std::fs::write(format!("{out}/summary.json"), &j).unwrap();
    println!("{j}");
    std::process::exit(match status {
        "complete" => 0,
        "violation" => 1,
        _ => 3,
    });
}
