//! Property-based testing engine: choice tapes, sharded workers, crash and hang detection,
//! confirmation in fresh processes, shrinking, replay files and evidence.
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Instant;

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Cx) -> Res,
    /// How cases are made and what makes one non-trivial
    pub rule: &'static str,
    /// Assumptions and bounds
    pub assumptions: &'static [&'static str],
}

/// Err is a violation of the property
pub type Res = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    InProcess,
    Spawn,
}

pub struct Cx {
    // the tape
    replay: Option<Vec<u64>>,
    rng: [u64; 4],
    pub tape: Vec<u64>,
    // results
    pub nontrivial: bool,
    pub labels: Vec<String>,
    pub digest: u64,
    pub log: String,
    pub mode: Mode,
    pub exec: crate::exec::Exec,
    /// White space within expressions: 0 spaces, 1 also tabs, 2 also line breaks
    pub ws: u8,
    /// What the renderer added: effective dates by transaction, comments between the entries,
    /// lines below tags
    pub effective: std::collections::BTreeMap<usize, chrono::NaiveDate>,
    pub between: Vec<String>,
    pub below_tags: Vec<String>,
    pub defaults: Vec<String>,
    /// the regular expressions of this case
    pub recent: Vec<String>,
}

const MAX_TAPE: usize = 60_000;

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn fnv(h: u64, bytes: &[u8]) -> u64 {
    let mut h = h;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
pub const FNV0: u64 = 0xcbf29ce484222325;

impl Cx {
    pub fn new(mode: Mode, dir: &Path) -> Cx {
        Cx {
            replay: None,
            rng: [1, 2, 3, 4],
            tape: vec![],
            nontrivial: false,
            labels: vec![],
            digest: FNV0,
            log: String::new(),
            mode,
            exec: crate::exec::Exec::new(mode, dir),
            ws: 0,
            effective: Default::default(),
            between: vec![],
            below_tags: vec![],
            defaults: vec![],
            recent: vec![],
        }
    }
    fn reset(&mut self) {
        self.tape.clear();
        self.nontrivial = false;
        self.ws = 0;
        self.effective.clear();
        self.between.clear();
        self.below_tags.clear();
        self.defaults.clear();
        self.recent.clear();
        self.labels.clear();
        self.digest = FNV0;
        self.log.clear();
        self.exec.reset();
    }
    pub fn start_random(&mut self, id: &str, seed: u64, index: u64) {
        self.reset();
        self.replay = None;
        let mut s = fnv(fnv(fnv(FNV0, id.as_bytes()), &seed.to_le_bytes()), &index.to_le_bytes());
        for i in 0..4 {
            self.rng[i] = splitmix(&mut s);
        }
    }
    pub fn start_replay(&mut self, tape: &[u64]) {
        self.reset();
        self.replay = Some(tape.to_vec());
    }
    fn next(&mut self) -> u64 {
        let s = &mut self.rng;
        let result = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        result
    }
    /// A number in 0..n; 0 is the simplest
    pub fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(t) => t.get(self.tape.len()).cloned().unwrap_or(0).min(n - 1),
            None => {
                if self.tape.len() > MAX_TAPE {
                    0
                } else {
                    self.next() % n
                }
            }
        };
        self.tape.push(v);
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.draw((hi - lo + 1) as u64) as i64
    }
    /// true with probability pct/100; 0 on the tape is false
    pub fn chance(&mut self, pct: u64) -> bool {
        if pct == 0 {
            return false;
        }
        if pct >= 100 {
            return true;
        }
        self.draw(100) >= 100 - pct
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len());
        &items[i]
    }
    /// A length: lo plus a number of "more" decisions
    pub fn len(&mut self, lo: usize, hi: usize, more_pct: u64) -> usize {
        let mut n = lo;
        while n < hi && self.chance(more_pct) {
            n += 1;
        }
        n
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() {
            // 0 on the tape keeps the element in its place
            let j = i - self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn label(&mut self, l: &str) {
        if !self.labels.iter().any(|x| x == l) {
            self.labels.push(l.to_string());
        }
    }
    pub fn mix(&mut self, bytes: &[u8]) {
        self.digest = fnv(self.digest, bytes);
        self.digest = fnv(self.digest, &[255]);
    }
}

// ---------------------------------------------------------------- json helpers

pub fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 32 || (c as u32) == 127 => {
                r.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn tape_to_string(t: &[u64]) -> String {
    t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}
fn tape_from_string(s: &str) -> Vec<u64> {
    s.split_whitespace().filter_map(|x| x.parse().ok()).collect()
}

fn scratch_base() -> PathBuf {
    let shm = Path::new("/dev/shm");
    let probe = shm.join(format!("vh-probe-{}", std::process::id()));
    if fs::create_dir(&probe).is_ok() {
        let _ = fs::remove_dir(&probe);
        return shm.to_path_buf();
    }
    std::env::temp_dir()
}

struct Scratch(PathBuf);
impl Scratch {
    fn new(tag: &str) -> Scratch {
        let p = scratch_base().join(format!("vh-{}-{}", std::process::id(), tag));
        let _ = fs::remove_dir_all(&p);
        fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

// ---------------------------------------------------------------- worker

fn set_limit(resource: libc::__rlimit_resource_t, v: u64) {
    let r = libc::rlimit { rlim_cur: v, rlim_max: v };
    unsafe {
        libc::setrlimit(resource, &r);
    }
}

const CASE_CPU_SECONDS: i64 = 20;

fn arm_timer() {
    let t = libc::itimerval {
        it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
        it_value: libc::timeval { tv_sec: CASE_CPU_SECONDS, tv_usec: 0 },
    };
    unsafe {
        libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut());
    }
}

/// A panic of the check itself is not a verdict: the case is not used, and counted as such
fn guarded(p: &Prop, cx: &mut Cx) -> Res {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(cx)));
    match r {
        Ok(r) => r,
        Err(e) => {
            let m = match e.downcast_ref::<String>() {
                Some(s) => s.clone(),
                None => e.downcast_ref::<&str>().unwrap_or(&"?").to_string(),
            };
            cx.nontrivial = false;
            cx.label(&format!("not used, the check panicked: {}", m.chars().take(100).collect::<String>()));
            Ok(())
        }
    }
}

fn worker(p: &Prop, seed: u64, n: u64, shard: u64, shards: u64, start: u64, out: &Path, mode: Mode) {
    set_limit(libc::RLIMIT_CORE, 0);
    set_limit(libc::RLIMIT_AS, 6 << 30);
    let dir = out.join(format!("w{}", shard));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let status = fs::OpenOptions::new()
        .create(true)
        .write(true)
        .open(out.join(format!("status{}", shard)))
        .unwrap();
    let mut result = fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(out.join(format!("result{}", shard)))
        .unwrap();
    let mut cx = Cx::new(mode, &dir);
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut cases = 0u64;
    let mut digests: Vec<u64> = vec![];
    let mut samples = 0;
    let mut i = start;
    while i % shards != shard {
        i += 1;
    }
    while i < n {
        use std::os::unix::fs::FileExt;
        let _ = status.write_all_at(&i.to_le_bytes(), 0);
        cx.start_random(p.id, seed, i);
        arm_timer();
        if mode == Mode::InProcess {
            // some cases with the real binary
            cx.exec.mode = if i % 64 == 63 { Mode::Spawn } else { Mode::InProcess };
        }
        let r = guarded(p, &mut cx);
        cases += 1;
        for l in cx.labels.iter() {
            *labels.entry(l.clone()).or_insert(0) += 1;
        }
        if cx.nontrivial {
            digests.push(cx.digest);
            // samples spread over the run
            if shard < 4 && samples < 1 && cases > 20 && !cx.log.is_empty() {
                samples += 1;
                let text = cx.log.chars().take(3000).collect::<String>();
                writeln!(result, "S {}", js(&text)).unwrap();
            }
        }
        if let Err(msg) = r {
            writeln!(result, "F {} {} {}", i, js(&msg), tape_to_string(&cx.tape)).unwrap();
            break;
        }
        i += shards;
    }
    let mut block = String::new();
    block.push_str(&format!("N {}\n", cases));
    for (l, c) in labels {
        block.push_str(&format!("L {} {}\n", c, l));
    }
    for d in digests {
        block.push_str(&format!("D {:x}\n", d));
    }
    block.push_str("E\n");
    result.write_all(block.as_bytes()).unwrap();
    cx.exec.finish();
    let _ = fs::remove_dir_all(&dir);
}

/// Evaluates one tape, in a process of its own, with the real binary
fn eval_main(p: &Prop, tape_file: &Path, result: &Path, dir: &Path) {
    set_limit(libc::RLIMIT_CORE, 0);
    set_limit(libc::RLIMIT_AS, 8 << 30);
    set_limit(libc::RLIMIT_CPU, 60);
    fs::create_dir_all(dir).unwrap();
    let tape = tape_from_string(&fs::read_to_string(tape_file).unwrap());
    let mut cx = Cx::new(Mode::Spawn, dir);
    cx.start_replay(&tape);
    let r = guarded(p, &mut cx);
    let text = match r {
        Ok(()) => "PASS\n".to_string(),
        Err(m) => format!("FAIL\n{}\n{}\n{}\n", tape_to_string(&cx.tape), js(&m), js(&cx.log)),
    };
    fs::write(result, text).unwrap();
}

enum Eval {
    Pass,
    Fail { tape: Vec<u64>, msg: String, log: String },
}

/// Evaluates candidate tapes in parallel; returns the first that fails
fn eval_batch(p: &Prop, base: &Path, tapes: &[Vec<u64>]) -> Vec<Eval> {
    let exe = std::env::current_exe().unwrap();
    let mut children = vec![];
    for (k, t) in tapes.iter().enumerate() {
        let tf = base.join(format!("tape{}", k));
        let rf = base.join(format!("eval{}", k));
        let dir = base.join(format!("dir{}", k));
        let _ = fs::remove_file(&rf);
        let _ = fs::remove_dir_all(&dir);
        fs::write(&tf, tape_to_string(t)).unwrap();
        let child = Command::new(&exe)
            .args(&["eval", p.id])
            .arg(&tf)
            .arg(&rf)
            .arg(&dir)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        children.push((child, rf, dir));
    }
    let mut res = vec![];
    for (k, (mut child, rf, dir)) in children.into_iter().enumerate() {
        let st = child.wait().unwrap();
        let text = fs::read_to_string(&rf).unwrap_or_default();
        let mut lines = text.lines();
        res.push(match lines.next() {
            Some("PASS") => Eval::Pass,
            Some("FAIL") => Eval::Fail {
                tape: tape_from_string(lines.next().unwrap_or("")),
                msg: lines.next().unwrap_or("").to_string(),
                log: lines.next().unwrap_or("").to_string(),
            },
            _ => {
                if let Some(s) = st.signal() {
                    Eval::Fail {
                        tape: tapes[k].clone(),
                        msg: js(&format!("the process was ended by signal {}", s)),
                        log: js(""),
                    }
                } else {
                    Eval::Pass // the harness itself failed: not a verdict
                }
            }
        });
        let _ = fs::remove_dir_all(&dir);
    }
    res
}

const SHRINK_SECONDS: u64 = 75;

fn shrink(p: &Prop, base: &Path, first: Eval, budget: usize) -> (Vec<u64>, String, String) {
    let (mut tape, mut msg, mut log) = match first {
        Eval::Fail { tape, msg, log } => (tape, msg, log),
        _ => unreachable!(),
    };
    let mut used = 0;
    let t0 = Instant::now();
    let mut improved = true;
    while improved && used < budget && t0.elapsed().as_secs() < SHRINK_SECONDS {
        improved = false;
        // candidate generators, from coarse to fine
        let mut size = (tape.len() / 2).max(1);
        loop {
            // delete or zero chunks of this size
            for kind in 0..2 {
                let mut pos = 0;
                while pos < tape.len() && used < budget && t0.elapsed().as_secs() < SHRINK_SECONDS {
                    let mut cands = vec![];
                    let mut q = pos;
                    while q < tape.len() && cands.len() < 8 {
                        let e = (q + size).min(tape.len());
                        let mut t = tape.clone();
                        if kind == 0 {
                            t.drain(q..e);
                            cands.push((q, t));
                        } else if t[q..e].iter().any(|x| *x != 0) {
                            for x in &mut t[q..e] {
                                *x = 0;
                            }
                            cands.push((q, t));
                        }
                        q += size;
                    }
                    if cands.is_empty() {
                        break;
                    }
                    used += cands.len();
                    let ts: Vec<Vec<u64>> = cands.iter().map(|c| c.1.clone()).collect();
                    let mut next = q;
                    for (c, r) in cands.iter().zip(eval_batch(p, base, &ts)) {
                        if let Eval::Fail { tape: t, msg: m, log: l } = r {
                            if (t.len(), &t) < (tape.len(), &tape) {
                                tape = t;
                                msg = m;
                                log = l;
                                improved = true;
                                next = c.0;
                                break;
                            }
                        }
                    }
                    pos = next.max(if next == pos && !improved { pos + size } else { next });
                    if next == pos && kind == 1 {
                        pos += size;
                    }
                }
            }
            if size == 1 || used >= budget {
                break;
            }
            size = (size / 2).max(1);
        }
        // lower single values
        let mut i = 0;
        while i < tape.len() && used < budget && t0.elapsed().as_secs() < SHRINK_SECONDS {
            if tape[i] > 0 {
                let v = tape[i];
                let mut ts = vec![];
                for nv in [v / 2, v - v / 4, v - 1].iter() {
                    if *nv < v {
                        let mut t = tape.clone();
                        t[i] = *nv;
                        ts.push(t);
                    }
                }
                ts.dedup();
                used += ts.len();
                for r in eval_batch(p, base, &ts) {
                    if let Eval::Fail { tape: t, msg: m, log: l } = r {
                        if (t.len(), &t) < (tape.len(), &tape) {
                            tape = t;
                            msg = m;
                            log = l;
                            improved = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    (tape, msg, log)
}

struct Outcome {
    cases: u64,
    labels: BTreeMap<String, u64>,
    digests: HashSet<u64>,
    samples: Vec<String>,
    /// case, message, tape (None: the worker was killed by the case)
    failures: Vec<(u64, String, Option<Vec<u64>>)>,
    harness_errors: Vec<String>,
}

fn run_workers(p: &Prop, seed: u64, n: u64, shards: u64, base: &Path, mode: Mode) -> Outcome {
    let exe = std::env::current_exe().unwrap();
    let mut o = Outcome {
        cases: 0,
        labels: BTreeMap::new(),
        digests: HashSet::new(),
        samples: vec![],
        failures: vec![],
        harness_errors: vec![],
    };
    let mut children = vec![];
    for shard in 0..shards {
        let _ = fs::remove_file(base.join(format!("result{}", shard)));
        let _ = fs::remove_file(base.join(format!("status{}", shard)));
        let mut c = Command::new(&exe);
        c.args(&[
            "worker".to_string(),
            p.id.to_string(),
            seed.to_string(),
            n.to_string(),
            shard.to_string(),
            shards.to_string(),
            "0".to_string(),
            format!("{:?}", mode),
        ])
        .arg(base)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(fs::File::create(base.join(format!("stderr{}", shard))).unwrap());
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        children.push((shard, c.spawn().unwrap()));
    }
    for (shard, mut child) in children {
        let st = child.wait().unwrap();
        let text = fs::read_to_string(base.join(format!("result{}", shard))).unwrap_or_default();
        let mut ended = false;
        for line in text.lines() {
            let (k, rest) = if line.len() > 2 { (&line[..1], &line[2..]) } else { (line, "") };
            match k {
                "N" => o.cases += rest.parse::<u64>().unwrap_or(0),
                "L" => {
                    let mut it = rest.splitn(2, ' ');
                    let c: u64 = it.next().unwrap().parse().unwrap();
                    *o.labels.entry(it.next().unwrap_or("").to_string()).or_insert(0) += c;
                }
                "D" => {
                    o.digests.insert(u64::from_str_radix(rest, 16).unwrap());
                }
                "S" => o.samples.push(rest.to_string()),
                "F" => {
                    let mut it = rest.splitn(2, ' ');
                    let i: u64 = it.next().unwrap().parse().unwrap();
                    let rest = it.next().unwrap();
                    let cut = rest.rfind("\" ").map(|x| x + 1).unwrap_or(rest.len());
                    let tape = tape_from_string(&rest[cut..]);
                    o.failures.push((i, rest[..cut].to_string(), Some(tape)));
                }
                "E" => ended = true,
                _ => {}
            }
        }
        if !ended {
            let i = fs::read(base.join(format!("status{}", shard)))
                .ok()
                .filter(|b| b.len() >= 8)
                .map(|b| {
                    let mut a = [0u8; 8];
                    a.copy_from_slice(&b[..8]);
                    u64::from_le_bytes(a)
                });
            let err = fs::read_to_string(base.join(format!("stderr{}", shard))).unwrap_or_default();
            match i {
                Some(i) => {
                    o.cases += i / shards;
                    o.failures.push((i, format!("the worker ended with {:?}: {}", st, err), None))
                }
                None => o.harness_errors.push(format!("worker {} ended with {:?}: {}", shard, st, err)),
            }
        }
    }
    o.failures.sort_by_key(|x| x.0);
    o
}

fn verif_dir() -> PathBuf {
    match std::env::var("VH_DIR") {
        Ok(d) => PathBuf::from(d),
        Err(_) => std::env::current_dir().unwrap(),
    }
}

fn check(p: &Prop) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let mut n = if tier == "quick" { p.quick } else { p.thorough };
    if let Some(x) = std::env::var("VH_CASES").ok().and_then(|s| s.parse().ok()) {
        n = x;
    }
    let scratch = Scratch::new(p.id);
    let base = scratch.0.clone();
    let shards = 8;
    let mut o = run_workers(p, seed, n, shards, &base, Mode::InProcess);
    let mut violation: Option<(Vec<u64>, String, String, u64)> = None;
    let mut unconfirmed = vec![];
    for (i, msg, tape) in o.failures.iter() {
        // Confirm with the real binary, in fresh processes
        let tape = match tape {
            Some(t) => t.clone(),
            None => full_tape(p, seed, *i, &base),
        };
        let mut found = None;
        for _ in 0..3 {
            let ts: Vec<Vec<u64>> = (0..8).map(|_| tape.clone()).collect();
            for r in eval_batch(p, &base, &ts) {
                if let Eval::Fail { .. } = r {
                    found = Some(r);
                    break;
                }
            }
            if found.is_some() {
                break;
            }
        }
        match found {
            Some(f) => {
                let budget = std::env::var("VH_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(1500);
                let (tape, msg, log) = shrink(p, &base, f, budget);
                violation = Some((tape, msg, log, *i));
                break;
            }
            None => unconfirmed.push((*i, msg.clone())),
        }
    }
    if violation.is_none() && !unconfirmed.is_empty() {
        // Something differs between runs in one process and runs in fresh processes (a cache, say).
        // What counts is what the program does, so look again with the real binary only.
        eprintln!("not confirmed with the real binary: {:?}", unconfirmed[0]);
        let o2 = run_workers(p, seed, (n / 20).max(200), shards, &base, Mode::Spawn);
        for (i, _, tape) in o2.failures.iter() {
            if let Some(t) = tape {
                let ts: Vec<Vec<u64>> = (0..8).map(|_| t.clone()).collect();
                if let Some(f) = eval_batch(p, &base, &ts).into_iter().find(|r| match r {
                    Eval::Fail { .. } => true,
                    _ => false,
                }) {
                    let (tape, msg, log) = shrink(p, &base, f, 1500);
                    violation = Some((tape, msg, log, *i));
                    break;
                }
            }
        }
        o.cases += o2.cases;
        o.digests.extend(o2.digests);
    }
    let dir = verif_dir();
    let mut code = 0;
    if let Some((tape, msg, log, i)) = &violation {
        let rdir = dir.join("replays");
        fs::create_dir_all(&rdir).unwrap();
        let path = rdir.join(format!("{}-seed{}-case{}.json", p.id, seed, i));
        let text = format!(
            "{{\n \"property\": {},\n \"seed\": {},\n \"case\": {},\n \"tape\": {},\n \"message\": {},\n \"run\": {}\n}}\n",
            js(p.id), seed, i, js(&tape_to_string(tape)), msg, log
        );
        fs::write(&path, text).unwrap();
        eprintln!("{}", unjs(msg));
        eprintln!("{}", unjs(log));
        println!("VIOLATION property={} replay={}", p.id, path.display());
        code = 1;
    } else if !o.harness_errors.is_empty() {
        eprintln!("harness errors: {:?}", o.harness_errors);
        code = 2;
    }
    let labels: Vec<String> = o.labels.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let assumptions: Vec<String> = p.assumptions.iter().map(|x| js(x)).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"labels\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        js(p.id), js(tier), seed, o.cases, o.digests.len(), js(p.rule), labels.join(", "),
        o.samples.join(", "), assumptions.join(", "), t0.elapsed().as_secs_f64(),
        if violation.is_some() { 1 } else { 0 }
    );
    let edir = dir.join("evidence");
    fs::create_dir_all(&edir).unwrap();
    fs::write(edir.join(format!("{}.json", p.id)), ev).unwrap();
    eprintln!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s",
        p.id, o.cases, o.digests.len(), t0.elapsed().as_secs_f64()
    );
    code
}

fn unjs(s: &str) -> String {
    let s = s.trim();
    if s.len() < 2 {
        return s.to_string();
    }
    let mut r = String::new();
    let mut it = s[1..s.len() - 1].chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => r.push('\n'),
                Some('t') => r.push('\t'),
                Some('r') => r.push('\r'),
                Some('u') => {
                    let h: String = (&mut it).take(4).collect();
                    r.push(std::char::from_u32(u32::from_str_radix(&h, 16).unwrap_or(63)).unwrap_or('?'));
                }
                Some(c) => r.push(c),
                None => {}
            }
        } else {
            r.push(c)
        }
    }
    r
}

/// The tape of a case whose run does not come back: the choices of the generator are recorded by a
/// process which writes them down as it goes.
fn full_tape(p: &Prop, seed: u64, i: u64, base: &Path) -> Vec<u64> {
    // A long random tape replays the same choices: choices are drawn one by one from the same stream,
    // so run the case in a child in spawn mode, where a hang of the program cannot hang the generator.
    let exe = std::env::current_exe().unwrap();
    let rf = base.join("fulltape");
    let _ = fs::remove_file(&rf);
    let _ = Command::new(exe)
        .args(&["tape", p.id, &seed.to_string(), &i.to_string()])
        .arg(&rf)
        .arg(base.join("dirtape"))
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status();
    tape_from_string(&fs::read_to_string(&rf).unwrap_or_default())
}

pub fn main(props: &[Prop]) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| -> &Prop {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        })
    };
    match args.get(1).map(|x| x.as_str()) {
        Some("check") => check(find(&args[2])),
        Some("worker") => {
            let mode = if args[8] == "Spawn" { Mode::Spawn } else { Mode::InProcess };
            worker(
                find(&args[2]),
                args[3].parse().unwrap(),
                args[4].parse().unwrap(),
                args[5].parse().unwrap(),
                args[6].parse().unwrap(),
                args[7].parse().unwrap(),
                Path::new(&args[9]),
                mode,
            );
            0
        }
        Some("eval") => {
            eval_main(find(&args[2]), Path::new(&args[3]), Path::new(&args[4]), Path::new(&args[5]));
            0
        }
        Some("tape") => {
            let p = find(&args[2]);
            let dir = PathBuf::from(&args[6]);
            fs::create_dir_all(&dir).unwrap();
            set_limit(libc::RLIMIT_CPU, 120);
            let mut cx = Cx::new(Mode::Spawn, &dir);
            cx.start_random(p.id, args[3].parse().unwrap(), args[4].parse().unwrap());
            let _ = (p.run)(&mut cx);
            fs::write(&args[5], tape_to_string(&cx.tape)).unwrap();
            let _ = fs::remove_dir_all(&dir);
            0
        }
        // show the case of a replay file, or case i of a seed
        Some("replay") => {
            let text = fs::read_to_string(&args[2]).unwrap();
            let get = |k: &str| -> String {
                let key = format!("\"{}\": ", k);
                let line = text.lines().find(|l| l.trim_start().starts_with(&key)).unwrap();
                line.trim_start()[key.len()..].trim_end_matches(',').to_string()
            };
            let id = unjs(&get("property"));
            let p = find(&id);
            let tape = tape_from_string(&unjs(&get("tape")));
            let s = Scratch::new("replay");
            match eval_batch(p, &s.0, &[tape]).remove(0) {
                Eval::Pass => {
                    println!("the case passes");
                    0
                }
                Eval::Fail { msg, log, .. } => {
                    println!("{}\n{}", unjs(&log), unjs(&msg));
                    println!("VIOLATION property={} replay={}", p.id, args[2]);
                    1
                }
            }
        }
        Some("show") => {
            let p = find(&args[2]);
            let s = Scratch::new("show");
            let mut cx = Cx::new(Mode::Spawn, &s.0);
            cx.start_random(p.id, args[3].parse().unwrap(), args[4].parse().unwrap());
            let r = guarded(p, &mut cx);
            println!("{}", cx.log);
            println!("nontrivial {} labels {:?}\n{:?}", cx.nontrivial, cx.labels, r);
            if let Err(m) = r {
                println!("{}", m);
            }
            0
        }
        Some("list") => {
            for p in props {
                println!("{} {} {}", p.id, p.quick, p.thorough);
            }
            0
        }
        _ => {
            eprintln!("usage: vh check ID | replay FILE | show ID SEED CASE | list");
            2
        }
    }
}
