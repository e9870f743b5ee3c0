mod exec;
mod expr;
mod ir;
mod selftest;
mod solver;

use exec::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::time::{Duration, Instant};

unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

#[derive(Default)]
struct Total {
    num: BTreeMap<String, u64>,
    viol: Vec<(String, String, String, String)>, // kind id model trace
    errs: BTreeMap<String, u64>,
    covers: BTreeMap<String, u64>,
    funcs: std::collections::BTreeSet<String>,
    samples: Vec<(String, String)>,
    dumps: Vec<(String, bool)>,
    prof: BTreeMap<String, u64>,
}

fn serialize(x: &Exec) -> String {
    let mut s = String::new();
    let r = &x.rep;
    let q = &x.sol.stats;
    for (k, v) in [
        ("done", r.done),
        ("pruned", r.pruned),
        ("bad", r.bad),
        ("asserts", r.asserts),
        ("forks", r.forks),
        ("steps", r.steps),
        ("left", r.left),
        ("max:max_steps", r.max_steps),
        ("max:max_heap", r.max_peak),
        ("queries", q.queries),
        ("sat", q.sat),
        ("unsat", q.unsat),
        ("unknown", q.unknown),
        ("cache_hits", q.cache_hits),
        ("table_decisions", q.table),
        ("solver_us", q.time_us),
        ("max:solver_max_us", q.max_us),
    ] {
        s.push_str(&format!("N\t{k}\t{v}\n"));
    }
    for v in &r.viol {
        s.push_str(&format!("V\t{}\t{}\t{}\t{}\n", v.kind, v.id, hex(&v.model), v.trace.join(" < ")));
    }
    for (k, v) in &r.errs {
        s.push_str(&format!("E\t{}\t{v}\n", k.replace(['\t', '\n'], " ")));
    }
    for (k, v) in &r.covers {
        s.push_str(&format!("C\t{k}\t{v}\n"));
    }
    for f in &r.funcs {
        s.push_str(&format!("F\t{f}\n"));
    }
    for (m, d) in &r.samples {
        s.push_str(&format!("S\t{}\t{d}\n", hex(m)));
    }
    for (t, a) in &x.sol.dump {
        s.push_str(&format!("D\t{}\t{}\n", hex(t.as_bytes()), *a as u8));
    }
    if x.profile {
        for (n, k) in x.fork_profile() {
            s.push_str(&format!("P\t{k}\t{n}\n"));
        }
    }
    s
}

fn merge(t: &mut Total, s: &str) {
    for l in s.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "N" => {
                let v: u64 = f[2].parse().unwrap();
                if let Some(k) = f[1].strip_prefix("max:") {
                    let e = t.num.entry(k.to_string()).or_insert(0);
                    *e = (*e).max(v);
                } else {
                    *t.num.entry(f[1].to_string()).or_insert(0) += v;
                }
            }
            "V" => t.viol.push((f[1].into(), f[2].into(), f[3].into(), f[4].into())),
            "E" => *t.errs.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
            "C" => *t.covers.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
            "P" => *t.prof.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
            "F" => {
                t.funcs.insert(f[1].into());
            }
            "S" => t.samples.push((f[1].into(), f[2].into())),
            "D" => t.dumps.push((String::from_utf8(unhex(f[1])).unwrap(), f[2] == "1")),
            _ => {}
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("selftest") {
        let seed = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
        let n = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(400);
        selftest::run(seed, n);
        return;
    }
    let mut opt: BTreeMap<String, String> = BTreeMap::new();
    let mut i = 1;
    while i < args.len() {
        let k = args[i].trim_start_matches("--").to_string();
        opt.insert(k, args.get(i + 1).cloned().unwrap_or_default());
        i += 2;
    }
    let get = |k: &str, d: u64| opt.get(k).and_then(|s| s.parse::<u64>().ok()).unwrap_or(d);
    let text = std::fs::read_to_string(&opt["ir"]).expect("IR file");
    let t0 = Instant::now();
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(text)));
    let mut total = Total::default();
    let entry = opt["entry"].clone();
    let time = get("time", 60);
    let jobs = get("jobs", 8) as usize;

    let mut x = Exec::new(m, get("solver-ms", 20_000) as u32);
    x.max_steps = get("steps", 20_000_000);
    x.max_viol = get("max-viol", 12) as usize;
    x.seed = get("seed", 1);
    x.sample_mod = get("sample-mod", 1);
    x.max_samples = get("max-samples", 30) as usize;
    x.deadline = t0 + Duration::from_secs(time);
    x.profile = opt.contains_key("profile");
    x.trace_fn = opt.contains_key("trace");
    x.sol.dump_every = get("dump-every", 0);
    let preset = opt.get("concrete").map(|h| unhex(h));
    let conc = preset.is_some();
    let mut st = match x.initial(&entry, preset) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(2);
        }
    };
    if conc {
        st.flags |= 0x8000_0000;
    }
    x.work.push_back(st);
    if jobs <= 1 {
        x.explore(None);
        merge(&mut total, &serialize(&x));
    } else {
        let want = get("split", 40 * jobs as u64) as usize;
        x.explore(Some(want));
        merge(&mut total, &serialize(&x));
        if !x.work.is_empty() {
            let states: Vec<State> = x.work.drain(..).collect();
            let n = states.len();
            let ctr = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *mut u64;
            let actr = unsafe { &*(ctr as *const std::sync::atomic::AtomicU64) };
            let nviol = unsafe { &*((ctr as *const std::sync::atomic::AtomicU64).add(8)) };
            let dir = std::env::temp_dir().join(format!("symex-{}", std::process::id()));
            std::fs::create_dir_all(&dir).unwrap();
            let mut kids = vec![];
            for j in 0..jobs.min(n) {
                let pid = unsafe { fork() };
                if pid == 0 {
                    x.rep = Report::default();
                    x.sol.stats = Default::default();
                    x.sol.dump.clear();
                    x.seed = x.seed.wrapping_mul(31).wrapping_add(j as u64);
                    loop {
                        let k = actr.fetch_add(1, std::sync::atomic::Ordering::SeqCst) as usize;
                        if k >= n {
                            break;
                        }
                        if nviol.load(std::sync::atomic::Ordering::SeqCst) >= x.max_viol as u64 || Instant::now() > x.deadline {
                            x.rep.left += 1;
                            continue;
                        }
                        let before = x.rep.viol.len();
                        x.work.push_back(states[k].clone());
                        x.explore(None);
                        nviol.fetch_add((x.rep.viol.len() - before) as u64, std::sync::atomic::Ordering::SeqCst);
                    }
                    let s = serialize(&x);
                    let mut f = std::fs::File::create(dir.join(format!("{j}"))).unwrap();
                    f.write_all(s.as_bytes()).unwrap();
                    f.write_all(b"N\tkids_ok\t1\n").unwrap();
                    drop(f);
                    unsafe { _exit(0) };
                }
                kids.push((j, pid));
            }
            for (j, pid) in &kids {
                let mut stt = 0;
                unsafe { waitpid(*pid, &mut stt, 0) };
                let s = std::fs::read_to_string(dir.join(format!("{j}"))).unwrap_or_default();
                if stt != 0 || !s.ends_with("N\tkids_ok\t1\n") {
                    *total.errs.entry(format!("worker died with status {stt:#x}")).or_insert(0) += 1;
                }
                merge(&mut total, &s);
            }
            let _ = std::fs::remove_dir_all(&dir);
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut o = String::from("{\n");
    o.push_str(&format!(" \"entry\": {},\n \"wall_s\": {wall:.2},\n \"z3\": {},\n", js(&entry), js(&solver::version())));
    for (k, v) in &total.num {
        o.push_str(&format!(" {}: {v},\n", js(k)));
    }
    let list = |v: Vec<String>| v.join(", ");
    o.push_str(&format!(
        " \"violations\": [{}],\n",
        list(total
            .viol
            .iter()
            .map(|v| format!("{{\"kind\": {}, \"id\": {}, \"model\": {}, \"trace\": {}}}", js(&v.0), js(&v.1), js(&v.2), js(&v.3)))
            .collect())
    ));
    o.push_str(&format!(" \"errors\": {{{}}},\n", list(total.errs.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect())));
    o.push_str(&format!(" \"covers\": {{{}}},\n", list(total.covers.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect())));
    o.push_str(&format!(" \"functions\": [{}],\n", list(total.funcs.iter().map(|k| js(k)).collect())));
    o.push_str(&format!(" \"samples\": [{}],\n", list(total.samples.iter().map(|(m, d)| format!("[{}, {}]", js(m), js(d))).collect())));
    o.push_str(&format!(" \"dumps\": [{}]\n}}\n", list(total.dumps.iter().map(|(m, d)| format!("[{}, {}]", js(m), d)).collect())));
    match opt.get("out") {
        Some(f) => std::fs::write(f, &o).unwrap(),
        None => print!("{o}"),
    }
    if opt.contains_key("profile") {
        let mut p: Vec<_> = total.prof.into_iter().collect();
        p.sort_by(|a, b| b.1.cmp(&a.1));
        for (k, n) in p.iter().take(40) {
            eprintln!("{n:8} {k}");
        }
    }
}
