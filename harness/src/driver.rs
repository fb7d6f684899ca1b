//! Command line: `check ID` (spawns workers, writes evidence), `worker`, `one`, `replay FILE`, `sample ID N`.
use crate::engine::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const HANG: Duration = Duration::from_secs(300);
/// no progress and no processor time for this long: its threads wait for each other
const STUCK: &str = "its threads wait for each other for ever";
const IDLE: Duration = Duration::from_secs(75);

/// processor time used by a process started here, in clock ticks
fn ticks(pid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let f: Vec<&str> = s[s.rfind(')')? + 1..].split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

/// Tells whether a process has done nothing at all for IDLE.
struct Idle {
    since: Instant,
    ticks: u64,
}
impl Idle {
    fn new() -> Self {
        Idle { since: Instant::now(), ticks: 0 }
    }
    fn check(&mut self, pid: u32, progressed: bool) -> bool {
        match ticks(pid) {
            // a tenth of a second of work per IDLE would be far less than any running case uses
            Some(t) if progressed || t > self.ticks + 10 => {
                self.since = Instant::now();
                self.ticks = t;
                false
            }
            Some(_) => self.since.elapsed() > IDLE,
            None => false,
        }
    }
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}
fn tier() -> String {
    match std::env::var("VERIF_TIER") {
        Ok(t) if t == "thorough" => t,
        _ => "quick".into(),
    }
}

fn find<'a>(props: &'a [Prop], id: &str) -> &'a Prop {
    props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}

/// Run on a one-thread rayon pool with a large stack: trees may be as deep as the data set is long.
fn with_stack<T: Send>(id: &str, f: impl FnOnce() -> T + Send) -> T {
    let global = if id == "C10" { 3 } else { 1 };
    rayon::ThreadPoolBuilder::new().num_threads(global).stack_size(256 << 20).build_global().unwrap();
    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(1 << 30).build().unwrap();
    pool.install(f)
}

fn write_replay(path: &Path, id: &str, seed: u64, case: u64, tier: &str, msg: &str, o: Option<&Outcome>) {
    let mut s = String::new();
    s.push_str(&format!("property={}\nseed={}\ncase={}\ntier={}\n", id, seed, case, tier));
    s.push_str(&format!("message={}\n", msg.replace('\n', " ")));
    if let Some(o) = o {
        s.push_str(&format!("description={}\n", o.ctx.desc.replace('\n', " ")));
        s.push_str(&format!("tape={}\n", o.tape.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")));
    }
    std::fs::write(path, s).ok();
}

/// worker ID SEED TIER FIRST STEP COUNT OUT
fn worker(props: &[Prop], a: &[String]) -> i32 {
    let p = find(props, &a[0]);
    let (seed, tier): (u64, &str) = (a[1].parse().unwrap(), &a[2]);
    let (first, step, count): (u64, u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
    let out = PathBuf::from(&a[6]);
    let progress = std::fs::File::create(out.with_extension("progress")).unwrap();
    let thorough = tier == "thorough";
    let mut evals = 0u64;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut nontrivial = 0u64;
    let show_slow = std::env::var("VH_SLOW").is_ok();
    let mut failed = false;
    with_stack(p.id, || {
        let mut case = first;
        while case < count {
            use std::os::unix::fs::FileExt;
            progress.write_all_at(&(case + 1).to_le_bytes(), 0).ok();
            let want_desc = samples.len() < 3 && (case / step) % 7 == 0;
            let t = Instant::now();
            let o = run_case(p, Src::random(case_seed(seed, p.id, case)), case, thorough, want_desc);
            if show_slow && t.elapsed().as_secs_f64() > 1.0 {
                eprintln!("slow {} case {}: {:.1} s {:?}", p.id, case, t.elapsed().as_secs_f64(), o.ctx.labels);
            }
            evals += 1;
            if let Err(e) = &o.res {
                let msg = e.clone();
                let small = shrink(p, o, case, thorough, 3000, Duration::from_secs(30));
                let d = run_case(p, Src::replay(small.tape.clone(), false), case, thorough, true);
                let (m, d) = match &d.res {
                    Err(m) => (m.clone(), d),
                    Ok(()) => (format!("{} (not reproduced when run again)", msg), d),
                };
                write_replay(&out.with_extension("fail"), p.id, seed, case, tier, &m, Some(&d));
                failed = true;
                return;
            }
            if o.ctx.nontrivial {
                nontrivial += 1;
                hashes.insert(mix(&o.tape));
            }
            let mut seen = HashSet::new();
            for l in &o.ctx.labels {
                if seen.insert(l) {
                    *labels.entry(l.clone()).or_default() += 1;
                }
            }
            if want_desc && o.ctx.nontrivial {
                samples.push(clip(&o.ctx.desc, 600));
            }
            case += step;
        }
    });
    let mut f = std::io::BufWriter::new(std::fs::File::create(out.with_extension("stat")).unwrap());
    writeln!(f, "E {} {}", evals, nontrivial).unwrap();
    for h in &hashes {
        writeln!(f, "H {:x}", h).unwrap();
    }
    for (l, n) in &labels {
        writeln!(f, "L {} {}", n, l).unwrap();
    }
    for s in &samples {
        writeln!(f, "S {}", s.replace('\n', " ")).unwrap();
    }
    f.flush().unwrap();
    if failed { 1 } else { 0 }
}

struct W {
    child: Child,
    out: PathBuf,
    last: (u64, Instant),
    idle: Idle,
    done: bool,
    crash: Option<(u64, String)>,
}

fn progress_of(out: &Path) -> u64 {
    std::fs::read(out.with_extension("progress")).ok().and_then(|b| b.get(0..8).map(|x| u64::from_le_bytes(x.try_into().unwrap()))).unwrap_or(0)
}

fn spawn(args: &[String], scratch: &Path) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .args(args)
        .env("VH_SCRATCH", scratch)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::inherit())
        .spawn()
        .unwrap()
}

fn check(props: &[Prop], id: &str) -> i32 {
    let p = find(props, id);
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let tier = tier();
    let count = env_u64("VH_CASES", if tier == "thorough" { p.thorough } else { p.quick });
    let root = PathBuf::from(std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into()));
    let scratch = std::env::temp_dir().join(format!("vh-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let nw = p.workers as u64;
    let mut ws: Vec<W> = (0..nw)
        .map(|i| {
            let out = scratch.join(format!("worker{}", i));
            let args: Vec<String> = vec!["worker".into(), id.into(), seed.to_string(), tier.clone(), i.to_string(), nw.to_string(), count.to_string(), out.to_str().unwrap().into()];
            W { child: spawn(&args, &scratch), out, last: (0, Instant::now()), idle: Idle::new(), done: false, crash: None }
        })
        .collect();
    let mut failed = false;
    let mut error: Option<String> = None;
    loop {
        let mut running = 0;
        for w in ws.iter_mut() {
            if w.done {
                continue;
            }
            match w.child.try_wait().unwrap() {
                Some(st) => {
                    w.done = true;
                    match (st.code(), st.signal()) {
                        (Some(0), _) => {}
                        (Some(1), _) if w.out.with_extension("fail").exists() => failed = true,
                        (_, Some(9)) => error = Some("a worker was killed (out of memory?)".into()),
                        (c, s) => w.crash = Some((progress_of(&w.out), format!("exit code {:?} signal {:?}", c, s))),
                    }
                }
                None => {
                    running += 1;
                    let pr = progress_of(&w.out);
                    // (C21 waits for a program it started)
                    let stuck = w.idle.check(w.child.id(), pr != w.last.0) && id != "C21";
                    if pr != w.last.0 {
                        w.last = (pr, Instant::now());
                    } else if stuck && !w.out.with_extension("fail").exists() {
                        w.child.kill().ok();
                        w.child.wait().ok();
                        w.done = true;
                        w.crash = Some((pr, STUCK.into()));
                    } else if w.last.1.elapsed() > HANG && !w.out.with_extension("fail").exists() {
                        w.child.kill().ok();
                        w.child.wait().ok();
                        w.done = true;
                        error = Some(format!("inconclusive: case {} did not end within {} s", pr as i64 - 1, HANG.as_secs()));
                    }
                }
            }
        }
        if running == 0 || failed || error.is_some() || ws.iter().any(|w| w.crash.is_some()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(15));
    }
    if failed {
        // let other workers that are shrinking finish within reason; smallest reproduction wins
        std::thread::sleep(Duration::from_millis(300));
    }
    for w in ws.iter_mut() {
        if !w.done {
            w.child.kill().ok();
            w.child.wait().ok();
        }
    }
    // collect
    let (mut evals, mut nontrivial) = (0u64, 0u64);
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    for w in &ws {
        let Ok(text) = std::fs::read_to_string(w.out.with_extension("stat")) else { continue };
        for l in text.lines() {
            let (k, v) = l.split_at(2);
            match k {
                "E " => {
                    let mut it = v.split(' ').map(|x| x.parse::<u64>().unwrap());
                    evals += it.next().unwrap();
                    nontrivial += it.next().unwrap();
                }
                "H " => {
                    hashes.insert(u64::from_str_radix(v, 16).unwrap());
                }
                "L " => {
                    let (n, l) = v.split_once(' ').unwrap();
                    *labels.entry(l.to_string()).or_default() += n.parse::<u64>().unwrap();
                }
                _ => {
                    if samples.len() < 8 {
                        samples.push(v.to_string());
                    }
                }
            }
        }
    }
    // failures
    let replays = root.join("replays");
    let mut best: Option<(usize, PathBuf)> = None;
    for w in &ws {
        let f = w.out.with_extension("fail");
        if let Ok(s) = std::fs::read_to_string(&f) {
            let len = s.lines().find(|l| l.starts_with("tape=")).map_or(0, |l| l.len());
            if best.as_ref().map_or(true, |b| len < b.0) {
                best = Some((len, f));
            }
        }
    }
    let mut violation: Option<(PathBuf, String)> = None;
    if let Some((_, f)) = best {
        std::fs::create_dir_all(&replays).ok();
        let dst = replays.join(format!("{}-{}-{}.replay", id, tier, seed));
        std::fs::copy(&f, &dst).unwrap();
        let text = std::fs::read_to_string(&dst).unwrap_or_default();
        let msg: Vec<&str> = text.lines().filter(|l| l.starts_with("message=") || l.starts_with("description=")).collect();
        violation = Some((dst, msg.join("\n")));
    } else if let Some(w) = ws.iter().find(|w| w.crash.is_some()) {
        let (pr, how) = w.crash.clone().unwrap();
        if pr == 0 {
            error = Some(format!("a worker ended before its first case: {}", how));
        } else {
            // run that one case alone: only a failure that repeats counts
            let case = pr - 1;
            let args: Vec<String> = vec!["one".into(), id.into(), seed.to_string(), tier.clone(), case.to_string()];
            let mut c = spawn(&args, &scratch);
            let t = Instant::now();
            let mut idle = Idle::new();
            let mut stuck = false;
            let st = loop {
                if let Some(st) = c.try_wait().unwrap() {
                    break Some(st);
                }
                if id != "C21" && idle.check(c.id(), false) {
                    c.kill().ok();
                    c.wait().ok();
                    stuck = true;
                    break None;
                }
                if t.elapsed() > HANG {
                    c.kill().ok();
                    c.wait().ok();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(20));
            };
            let again = match st {
                None if stuck => Some(format!("the case never ends: {}", STUCK)),
                None => None, // a time limit alone decides nothing
                Some(s) if s.code() == Some(0) => None,
                Some(s) if s.signal() == Some(9) => None,
                Some(s) => Some(format!("the process dies with {}", s)),
            };
            match again {
                Some(m) => {
                    std::fs::create_dir_all(&replays).ok();
                    let dst = replays.join(format!("{}-{}-{}.replay", id, tier, seed));
                    let msg = format!("{} ({})", m, how);
                    write_replay(&dst, id, seed, case, &tier, &msg, None);
                    violation = Some((dst, format!("message={}", msg)));
                }
                None => error = Some(format!("a worker stopped at case {} ({}), but the case passes alone", case, how)),
            }
        }
    }
    std::fs::remove_dir_all(&scratch).ok();
    // evidence
    let mut e = String::new();
    let share: Vec<String> = labels.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
    let sm: Vec<String> = samples.iter().map(|s| jstr(s)).collect();
    e.push_str(&format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {}, \"nontrivial\": {}, \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"labels\": {{{}}},\n  \"samples\": [{}]\n }},\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        jstr(id), jstr(&tier), seed, evals, nontrivial, hashes.len(),
        jstr(&format!("each case is generated from one pseudo-random tape (seed, property, case number); non-trivial: {}; distinct: different tapes of random choices", p.rule)),
        share.join(", "), sm.join(",\n   "), t0.elapsed().as_secs_f64(), violation.is_some() as u32
    ));
    std::fs::create_dir_all(root.join("evidence")).ok();
    std::fs::write(root.join("evidence").join(format!("{}.json", id)), e).ok();
    if let Some((path, msg)) = violation {
        println!("{}", msg);
        println!("VIOLATION property={} replay={}", id, path.display());
        return 1;
    }
    if let Some(e) = error {
        println!("ERROR property={} {}", id, e);
        return 3;
    }
    println!("OK property={} cases={} nontrivial={} distinct={} seed={} tier={} wall={:.1}s", id, evals, nontrivial, hashes.len(), seed, tier, t0.elapsed().as_secs_f64());
    0
}

fn report(o: &Outcome) -> i32 {
    println!("case: {}", o.ctx.desc);
    match &o.res {
        Ok(()) => {
            println!("holds");
            0
        }
        Err(e) => {
            println!("FAILS: {}", e);
            1
        }
    }
}

fn clean_own_scratch() {
    if std::env::var("VH_SCRATCH").is_err() {
        let d = std::env::temp_dir().join(format!("w{}", std::process::id()));
        std::fs::remove_dir_all(d).ok();
    }
}

pub fn main(props: Vec<Prop>) {
    install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let rc = match a.first().map(|s| s.as_str()) {
        Some("check") => check(&props, &a[1]),
        Some("worker") => worker(&props, &a[1..]),
        Some("one") => {
            let p = find(&props, &a[1]);
            let (seed, case): (u64, u64) = (a[2].parse().unwrap(), a[4].parse().unwrap());
            with_stack(p.id, || report(&run_case(p, Src::random(case_seed(seed, p.id, case)), case, a[3] == "thorough", true)))
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&a[1]).expect("replay file");
            let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{}=", k)).map(|s| s.to_string()));
            let p = find(&props, &get("property").unwrap());
            let case: u64 = get("case").unwrap().parse().unwrap();
            let seed: u64 = get("seed").unwrap().parse().unwrap();
            let thorough = get("tier").as_deref() == Some("thorough");
            let src = match get("tape") {
                Some(t) => Src::replay(t.split_whitespace().map(|x| x.parse().unwrap()).collect(), false),
                None => Src::random(case_seed(seed, p.id, case)),
            };
            with_stack(p.id, || {
                let rc = report(&run_case(p, src, case, thorough, true));
                rc
            })
        }
        Some("ids") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: vh check ID | replay FILE | one ID SEED TIER CASE | ids");
            2
        }
    };
    clean_own_scratch();
    std::process::exit(rc);
}
