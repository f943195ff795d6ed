//! Property engine: supervisor, workers, coverage guided case generation, shrinking, replay.
use crate::cov::Coverage;
use crate::shm;
use crate::tape::{splitmix, Rng, Src};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a case reports about itself
pub struct Cx {
    pub tier: Tier,
    pub nontrivial: bool,
    fp: u64,
    pub labels: Vec<&'static str>,
    want: bool,
    pub desc: String,
}
impl Cx {
    fn new(tier: Tier, want: bool) -> Self {
        Cx { tier, nontrivial: false, fp: 0xcbf2_9ce4_8422_2325, labels: Vec::new(), want, desc: String::new() }
    }
    /// fingerprint of the generated input
    pub fn input(&mut self, b: &[u8]) {
        let mut h = self.fp ^ (b.len() as u64).wrapping_mul(0x100_0000_01b3);
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            h ^= h >> 29;
        }
        self.fp = h;
    }
    pub fn input_u64(&mut self, v: u64) {
        self.input(&v.to_le_bytes())
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        self.nontrivial |= b
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l)
    }
    pub fn label_if(&mut self, b: bool, l: &'static str) {
        if b {
            self.labels.push(l)
        }
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want {
            let s = f();
            if !self.desc.is_empty() {
                self.desc.push_str(" ; ");
            }
            self.desc.push_str(&s);
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// exhaustively enumerated cases
    pub enum_n: fn(Tier) -> u64,
    pub enum_case: fn(u64, &mut Cx) -> R,
    /// generated case
    pub case: fn(&mut Src, &mut Cx) -> R,
    pub quick: u64,
    pub thorough: u64,
}
pub fn no_enum_n(_: Tier) -> u64 {
    0
}
pub fn no_enum(_: u64, _: &mut Cx) -> R {
    Ok(())
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)+) => {
        if !($c) { return Err(format!($($arg)+)); }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) { return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)+), a, b)); }
    }};
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("panic at {}: {}", loc, m));
    }));
}
fn guarded(f: impl FnOnce() -> R) -> R {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(PANIC_MSG.with(|p| p.borrow().clone())),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum CaseId {
    Tape(Vec<u8>),
    Enum(u64),
}
fn run_case(p: &Prop, c: &CaseId, tier: Tier, want: bool) -> (R, Cx, Vec<u8>) {
    let mut cx = Cx::new(tier, want);
    match c {
        CaseId::Tape(t) => {
            shm::set_case(shm::KIND_TAPE, 0);
            let mut src = Src::replay(t.clone());
            let r = guarded(|| (p.case)(&mut src, &mut cx));
            (r, cx, src.into_tape())
        }
        CaseId::Enum(i) => {
            shm::set_case(shm::KIND_ENUM, *i);
            let r = guarded(|| (p.enum_case)(*i, &mut cx));
            (r, cx, Vec::new())
        }
    }
}

/// shrink a failing tape: shorter first, then smaller bytes
fn shrink(tape: Vec<u8>, budget: usize, mut fails: impl FnMut(&[u8]) -> Option<Vec<u8>>) -> Vec<u8> {
    let mut best = tape;
    let mut left = budget;
    let mut try_one = |cand: Vec<u8>, best: &mut Vec<u8>, left: &mut usize| -> bool {
        if *left == 0 {
            return false;
        }
        *left -= 1;
        let better = cand.len() < best.len() || (cand.len() == best.len() && cand < *best);
        if !better {
            return false;
        }
        if let Some(used) = fails(&cand) {
            let used = if used.len() <= cand.len() { used } else { cand };
            *best = used;
            true
        } else {
            false
        }
    };
    loop {
        let start = best.clone();
        // truncation
        let mut n = best.len() / 2;
        while n > 0 {
            if best.len() >= n {
                let c = best[..best.len() - n].to_vec();
                if try_one(c, &mut best, &mut left) {
                    continue;
                }
            }
            n /= 2;
        }
        // chunk deletion
        let mut sz = (best.len() / 2).clamp(1, 256);
        loop {
            let mut i = 0;
            while i + sz <= best.len() {
                let mut c = best[..i].to_vec();
                c.extend_from_slice(&best[i + sz..]);
                if !try_one(c, &mut best, &mut left) {
                    i += (sz / 2).max(1);
                }
            }
            if sz == 1 {
                break;
            }
            sz /= 2;
        }
        // zeroing and lowering
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !try_one(c, &mut best, &mut left) {
                    let mut d = best.get(i).copied().unwrap_or(0) / 2;
                    while d > 0 && i < best.len() {
                        let mut c = best.clone();
                        if c[i] >= d {
                            c[i] -= d;
                            if try_one(c, &mut best, &mut left) {
                                continue;
                            }
                        }
                        d /= 2;
                    }
                }
            }
            i += 1;
        }
        if best == start || left == 0 {
            return best;
        }
    }
}

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
pub fn hex_short(b: &[u8]) -> String {
    if b.len() <= 96 {
        hex(b)
    } else {
        format!("{}..{}({} bytes)", hex(&b[..64]), hex(&b[b.len() - 16..]), b.len())
    }
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
fn case_str(c: &CaseId) -> String {
    match c {
        CaseId::Tape(t) => format!("tape {}", hex(t)),
        CaseId::Enum(i) => format!("enum {}", i),
    }
}
fn parse_case(s: &str) -> Option<CaseId> {
    let mut it = s.split_whitespace();
    match it.next()? {
        "tape" => Some(CaseId::Tape(unhex(it.next().unwrap_or(""))?)),
        "enum" => Some(CaseId::Enum(it.next()?.parse().ok()?)),
        _ => None,
    }
}
fn one_line(s: &str) -> String {
    s.replace('\n', " / ")
}

fn mutate(t: &[u8], other: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut v = t.to_vec();
    let n = 1 + r.below(4);
    for _ in 0..n {
        match r.below(9) {
            0 | 1 => {
                if !v.is_empty() {
                    let i = r.below(v.len() as u64) as usize;
                    v[i] = r.byte();
                }
            }
            2 => {
                if !v.is_empty() {
                    let i = r.below(v.len() as u64) as usize;
                    let d = 1 + r.below(4) as u8;
                    v[i] = if r.below(2) == 0 { v[i].wrapping_add(d) } else { v[i].wrapping_sub(d) };
                }
            }
            3 => {
                let i = r.below(v.len() as u64 + 1) as usize;
                let k = 1 + r.below(4);
                for _ in 0..k {
                    v.insert(i, r.byte());
                }
            }
            4 => {
                if !v.is_empty() {
                    let i = r.below(v.len() as u64) as usize;
                    let k = (1 + r.below(8) as usize).min(v.len() - i);
                    v.drain(i..i + k);
                }
            }
            5 => {
                // duplicate a block
                if !v.is_empty() && v.len() < 1 << 14 {
                    let i = r.below(v.len() as u64) as usize;
                    let k = (1 + r.below(16) as usize).min(v.len() - i);
                    let blk = v[i..i + k].to_vec();
                    let at = r.below(v.len() as u64 + 1) as usize;
                    for (j, b) in blk.into_iter().enumerate() {
                        v.insert(at + j, b);
                    }
                }
            }
            6 => {
                // splice with another tape
                if !other.is_empty() {
                    let i = r.below(v.len() as u64 + 1) as usize;
                    let j = r.below(other.len() as u64) as usize;
                    v.truncate(i);
                    v.extend_from_slice(&other[j..]);
                }
            }
            7 => {
                // new ending
                let i = r.below(v.len() as u64 + 1) as usize;
                v.truncate(i);
            }
            _ => {
                if v.len() >= 8 {
                    let i = r.below(v.len() as u64 - 7) as usize;
                    let x = crate::cov::dict_pick_le(r, u64::MAX);
                    v[i..i + 8].copy_from_slice(&x.to_le_bytes());
                }
            }
        }
    }
    v.truncate(1 << 15);
    v
}

struct WorkerArgs {
    shard: u64,
    shards: u64,
    tier: Tier,
    seed: u64,
    cases: u64,
    out: String,
    shm: String,
}

fn worker(p: &'static Prop, a: WorkerArgs) {
    shm::open(&a.shm);
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut cov = Coverage::new();
    let (mut n_enum, mut n_rand, mut nontriv_total) = (0u64, 0u64, 0u64);
    let mut corpus: Vec<(u64, Vec<u8>)> = Vec::new();
    let mut fail: Option<(CaseId, String)> = None;

    let mut account = |cx: Cx, labels: &mut BTreeMap<&'static str, u64>, hashes: &mut HashSet<u64>| {
        for l in &cx.labels {
            *labels.entry(l).or_insert(0) += 1;
        }
        if cx.nontrivial {
            nontriv_total += 1;
            hashes.insert(cx.fp);
        }
    };

    // enumerated part
    let n = (p.enum_n)(a.tier);
    // (the build with AddressSanitizer only runs a part)
    let step: u64 = std::env::var("VH_ENUM_STEP").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let mut i = a.shard;
    while i < n {
        let c = CaseId::Enum(i);
        let (r, cx, _) = run_case(p, &c, a.tier, false);
        n_enum += 1;
        account(cx, &mut labels, &mut hashes);
        if let Err(m) = r {
            fail = Some((c, m));
            break;
        }
        i += a.shards * step;
    }

    // generated part
    let mut s = a.seed ^ (a.shard.wrapping_mul(0xA076_1D64_78BD_642F)) ^ 0x5851_F42D_4C95_7F2D;
    for b in p.id.bytes() {
        s = s.wrapping_mul(31).wrapping_add(b as u64);
    }
    splitmix(&mut s);
    let mut ctl = Rng::new(s);
    let sample_every = (a.cases / 6).max(1);
    let mut i = 0;
    while fail.is_none() && i < a.cases {
        let prefix = if !corpus.is_empty() && ctl.below(100) < 40 {
            // the cheapest of three, and another one
            let n = corpus.len() as u64;
            let x = (0..3).map(|_| &corpus[ctl.below(n) as usize]).min_by_key(|c| c.0).unwrap();
            let y = (0..3).map(|_| &corpus[ctl.below(n) as usize]).min_by_key(|c| c.0).unwrap();
            mutate(&x.1, &y.1, &mut ctl)
        } else {
            Vec::new()
        };
        let rng = Rng::new(splitmix(&mut s));
        let want = i % sample_every == sample_every / 2;
        let mut cx = Cx::new(a.tier, want);
        cov.reset();
        shm::set_case(shm::KIND_TAPE, i);
        let mut src = Src::fresh(prefix, rng);
        let (r, usage) = crate::alloc::measure(|| guarded(|| (p.case)(&mut src, &mut cx)));
        let tape = src.into_tape();
        let new = cov.collect();
        let cost = usage.total / 16 + tape.len() as u64;
        if new > 0 && cost <= 1 << 14 {
            corpus.push((cost, tape.clone()));
        }
        n_rand += 1;
        i += 1;
        if want && !cx.desc.is_empty() {
            let t: String = cx.desc.chars().take(600).collect();
            samples.push(t);
        }
        account(cx, &mut labels, &mut hashes);
        if let Err(m) = r {
            fail = Some((CaseId::Tape(tape), m));
        }
    }

    let mut out = String::new();
    if let Some((c, m)) = fail {
        let (c, m) = match c {
            CaseId::Tape(t) => {
                // only keep failures that reproduce from their own tape
                let (r, _, used) = run_case(p, &CaseId::Tape(t.clone()), a.tier, false);
                match r {
                    Ok(()) => {
                        out.push_str(&format!("FLAKY {}\n", one_line(&m)));
                        (CaseId::Tape(t), m)
                    }
                    Err(_) => {
                        // in case that shrinking does not come to an end
                        let _ = std::fs::write(format!("{}.fail", a.out), case_str(&CaseId::Tape(used.clone())));
                        let end = Instant::now() + Duration::from_secs(SHRINK);
                        let t = shrink(used, 20_000, |c| {
                            if Instant::now() > end {
                                return None;
                            }
                            let (r, _, used) = run_case(p, &CaseId::Tape(c.to_vec()), a.tier, false);
                            r.err().map(|_| used)
                        });
                        let c = CaseId::Tape(t);
                        let (r, cx, _) = run_case(p, &c, a.tier, true);
                        (c, format!("{} [{}]", r.err().unwrap_or_default(), cx.desc))
                    }
                }
            }
            CaseId::Enum(i) => {
                let c = CaseId::Enum(i);
                let (r, cx, _) = run_case(p, &c, a.tier, true);
                (c, format!("{} [{}]", r.err().unwrap_or(m), cx.desc))
            }
        };
        out.push_str(&format!("FAIL {}|{}\n", case_str(&c), one_line(&m)));
    }
    out.push_str(&format!("ENUM {}\nRAND {}\nNONTRIV {}\n", n_enum, n_rand, nontriv_total));
    out.push_str(&format!(
        "CORPUS {}\nFEATURES {}\nCOUNTERS {}\nDICT {}\n",
        corpus.len(),
        cov.features,
        crate::cov::regions_len(),
        crate::cov::dict_len()
    ));
    for (l, n) in &labels {
        out.push_str(&format!("LABEL {} {}\n", n, l));
    }
    for s in &samples {
        out.push_str(&format!("SAMPLE {}\n", one_line(s)));
    }
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{}.hash", a.out), hb).expect("hash file");
    std::fs::write(&a.out, out).expect("result file");
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn in_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    // the stack a thread gets by default
    std::thread::Builder::new().stack_size(2 << 20).spawn(f).unwrap().join().unwrap()
}

const HANG: u64 = 40;
/// time for shrinking, less than what counts as a hang
const SHRINK: u64 = 20;

enum Single {
    Pass,
    Fail(String),
    Crash(String, Snap),
    /// used up its processor time
    Hang,
    /// did not get its processor time
    Slow,
}
/// processor time used by a process of ours
fn cpu_seconds(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (t(11) + t(12)) / 100
}
struct Snap {
    used: Vec<u8>,
}

/// run one case in a process of its own
fn single(p: &Prop, c: &CaseId, tier: Tier, dir: &str) -> Single {
    let exe = std::env::current_exe().unwrap();
    let shm_path = format!("{}/single.shm", dir);
    let _ = std::fs::remove_file(&shm_path);
    let mut ch = Command::new(exe)
        .args(["single", p.id, tier_str(tier), &shm_path])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(std::fs::File::create(format!("{}/single.err", dir)).map(Stdio::from).unwrap_or_else(|_| Stdio::null()))
        .spawn()
        .expect("spawn");
    ch.stdin.take().unwrap().write_all(case_str(c).as_bytes()).unwrap();
    let t0 = Instant::now();
    let st = loop {
        match ch.try_wait().unwrap() {
            Some(s) => break s,
            None => {
                // a hang is judged by processor time, not by the clock
                if cpu_seconds(ch.id()) > HANG {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Single::Hang;
                }
                if t0.elapsed() > Duration::from_secs(8 * HANG) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Single::Slow;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
        }
    };
    let mut o = String::new();
    let _ = ch.stdout.take().unwrap().read_to_string(&mut o);
    match st.code() {
        Some(0) => Single::Pass,
        Some(1) => Single::Fail(o.trim().to_string()),
        _ => {
            let sn = shm::read(&shm_path);
            let oom = sn.as_ref().map(|s| s.oom).unwrap_or(false);
            // what a sanitizer says
            let err = std::fs::read(format!("{}/single.err", dir)).unwrap_or_default();
            let err = String::from_utf8_lossy(&err);
            let said: Vec<&str> = err.lines().filter(|l| l.contains("ERROR: AddressSanitizer") || l.starts_with("READ of") || l.starts_with("WRITE of")).collect();
            Single::Crash(
                format!("process died: {}{} {}", st, if oom { " (allocation limit exceeded)" } else { "" }, said.join(" ")),
                Snap { used: sn.map(|s| s.tape).unwrap_or_default() },
            )
        }
    }
}

fn tier_str(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

/// this is the build with AddressSanitizer
fn asan() -> bool {
    std::env::var("VERIF_ASAN").is_ok()
}
fn write_replay(root: &str, id: &str, c: &CaseId, msg: &str, tier: Tier) -> String {
    let dir = format!("{}/replays", root);
    let _ = std::fs::create_dir_all(&dir);
    let defs = std::env::var("VERIF_DEFS").map(|d| format!("definitions {}\n", d)).unwrap_or_default();
    let defs = if asan() { format!("{}sanitizer address\n", defs) } else { defs };
    let body = format!("property {}\ntier {}\n{}case {}\nmessage {}\n", id, tier_str(tier), defs, case_str(c), one_line(msg));
    let mut h = 0xcbf29ce484222325u64;
    for b in case_str(c).bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let path = format!("{}/{}-{:016x}.txt", dir, id, h);
    let _ = std::fs::write(&path, body);
    path
}

fn supervise(p: &'static Prop, tier: Tier, seed: u64, root: &str) -> i32 {
    let t0 = Instant::now();
    let shards: u64 = std::env::var("VH_SHARDS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let total = match tier {
        Tier::Quick => p.quick,
        Tier::Thorough => p.thorough,
    };
    let total = (total as f64 * scale) as u64;
    let dir = format!("{}/.build/run-{}-{}", root, p.id, std::process::id());
    std::fs::create_dir_all(&dir).expect("run dir");
    let exe = std::env::current_exe().unwrap();
    let mut kids = Vec::new();
    for k in 0..shards {
        let out = format!("{}/w{}.out", dir, k);
        let sp = format!("{}/w{}.shm", dir, k);
        let n = total / shards + if k < total % shards { 1 } else { 0 };
        let ch = Command::new(&exe)
            .args(["worker", p.id, tier_str(tier), &seed.to_string(), &k.to_string(), &shards.to_string(), &n.to_string(), &out, &sp])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn worker");
        kids.push((ch, out, sp, None::<std::process::ExitStatus>, 0u64, 0u64, Instant::now()));
    }
    let mut hung = vec![false; kids.len()];
    loop {
        let mut running = 0;
        for (k, (ch, _, sp, st, seq, used, since)) in kids.iter_mut().enumerate() {
            if st.is_some() {
                continue;
            }
            match ch.try_wait().unwrap() {
                Some(s) => *st = Some(s),
                None => {
                    running += 1;
                    if since.elapsed() > Duration::from_secs(2) {
                        let cur = shm::read(sp).map(|s| s.seq).unwrap_or(0);
                        let cpu = cpu_seconds(ch.id());
                        if cur != *seq {
                            *seq = cur;
                            *used = cpu;
                            *since = Instant::now();
                        } else if since.elapsed() > Duration::from_secs(HANG) && (cpu > *used + HANG || since.elapsed() > Duration::from_secs(6 * HANG)) {
                            hung[k] = true;
                            let _ = ch.kill();
                        }
                    }
                }
            }
        }
        if running == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }

    let (mut n_enum, mut n_rand, mut nontriv) = (0u64, 0u64, 0u64);
    let (mut corpus, mut features, mut counters, mut dict) = (0u64, 0u64, 0u64, 0u64);
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut fails: Vec<(CaseId, String)> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    for (k, (_, out, sp, st, ..)) in kids.iter().enumerate() {
        let ok = st.map(|s| s.code() == Some(0)).unwrap_or(false);
        if !ok {
            // died: which case was it running, or had it found?
            let sn = shm::read(sp);
            let found = std::fs::read_to_string(format!("{}.fail", out)).ok().and_then(|t| parse_case(t.trim()));
            let c = match sn {
                _ if found.is_some() => found,
                Some(s) if s.kind == shm::KIND_TAPE => Some(CaseId::Tape(s.tape)),
                Some(s) if s.kind == shm::KIND_ENUM => Some(CaseId::Enum(s.index)),
                _ => None,
            };
            if !fails.is_empty() {
                continue;
            }
            match c {
                Some(c) => match single(p, &c, tier, &dir) {
                    Single::Crash(m, _) => {
                        let c = match c {
                            CaseId::Tape(t) => {
                                let t = shrink(t, 300, |cand| match single(p, &CaseId::Tape(cand.to_vec()), tier, &dir) {
                                    Single::Crash(_, s) => Some(if s.used.is_empty() { cand.to_vec() } else { s.used }),
                                    _ => None,
                                });
                                CaseId::Tape(t)
                            }
                            c => c,
                        };
                        fails.push((c, m))
                    }
                    Single::Fail(m) => fails.push((c, m)),
                    // a case takes milliseconds
                    Single::Hang => fails.push((c, format!("does not finish within {} s of processor time", HANG))),
                    Single::Slow => errors.push(format!("worker {} stalled", k)),
                    Single::Pass => errors.push(format!("worker {} died ({:?}{}) on a case that passes alone", k, st, if hung[k] { ", hung" } else { "" })),
                },
                _ => errors.push(format!("worker {} did not finish ({:?})", k, st)),
            }
            continue;
        }
        let txt = match std::fs::read_to_string(out) {
            Ok(t) => t,
            Err(e) => {
                errors.push(format!("worker {}: no result: {}", k, e));
                continue;
            }
        };
        for l in txt.lines() {
            let (key, v) = l.split_once(' ').unwrap_or((l, ""));
            let num = || v.parse::<u64>().unwrap_or(0);
            match key {
                "ENUM" => n_enum += num(),
                "RAND" => n_rand += num(),
                "NONTRIV" => nontriv += num(),
                "CORPUS" => corpus += num(),
                "FEATURES" => features = features.max(num()),
                "COUNTERS" => counters = num(),
                "DICT" => dict = dict.max(num()),
                "LABEL" => {
                    if let Some((n, l)) = v.split_once(' ') {
                        *labels.entry(l.to_string()).or_insert(0) += n.parse::<u64>().unwrap_or(0);
                    }
                }
                "SAMPLE" => samples.push(v.to_string()),
                "FLAKY" => errors.push(format!("failure that does not reproduce from its tape: {}", v)),
                "FAIL" => {
                    if let Some((c, m)) = v.split_once('|') {
                        if let Some(c) = parse_case(c) {
                            fails.push((c, m.to_string()));
                        }
                    }
                }
                _ => {}
            }
        }
        if let Ok(h) = std::fs::read(format!("{}.hash", out)) {
            for c in h.chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);

    // keep the smallest failure
    fails.sort_by_key(|(c, _)| match c {
        CaseId::Enum(i) => (0usize, *i),
        CaseId::Tape(t) => (1, t.len() as u64),
    });

    let samples: Vec<String> = {
        let step = (samples.len() / 10).max(1);
        samples.iter().step_by(step).take(12).cloned().collect()
    };
    let wall = t0.elapsed().as_secs_f64();
    let mut ev = String::from("{\n");
    ev.push_str(&format!("  \"property\": {},\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"exploration\",\n", json_str(p.id), tier_str(tier), seed));
    ev.push_str("  \"coverage\": {\n");
    ev.push_str(&format!("    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n", n_enum + n_rand, hashes.len()));
    ev.push_str(&format!("    \"enumerated_cases\": {},\n    \"generated_cases\": {},\n    \"nontrivial_evaluations\": {},\n", n_enum, n_rand, nontriv));
    ev.push_str(&format!(
        "    \"corpus_entries\": {},\n    \"coverage_features\": {},\n    \"coverage_counters\": {},\n    \"constants_learned\": {},\n",
        corpus, features, counters, dict
    ));
    if let Ok(n) = std::env::var("VERIF_ASAN_CASES") {
        ev.push_str(&format!("    \"cases_also_run_with_address_sanitizer\": {},\n", n.trim().parse::<u64>().unwrap_or(0)));
    }
    ev.push_str(&format!("    \"rule\": {},\n", json_str(p.rule)));
    ev.push_str("    \"distribution\": {");
    let l: Vec<String> = labels.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    ev.push_str(&l.join(", "));
    ev.push_str("},\n    \"samples\": [\n      ");
    let s: Vec<String> = samples.iter().map(|s| json_str(s)).collect();
    ev.push_str(&s.join(",\n      "));
    ev.push_str("\n    ]\n  },\n");
    let a: Vec<String> = p.assumptions.iter().map(|s| json_str(s)).collect();
    ev.push_str(&format!("  \"assumptions\": [{}],\n", a.join(", ")));
    ev.push_str(&format!("  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n", wall, if fails.is_empty() { 0 } else { 1 }));
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    let at = if asan() { format!("{}/.build/{}-asan.json", root, p.id) } else { format!("{}/evidence/{}.json", root, p.id) };
    std::fs::write(at, ev).expect("evidence");
    if asan() {
        let _ = std::fs::write(format!("{}/.build/{}-asan.n", root, p.id), format!("{}", n_enum + n_rand));
    }

    println!(
        "{}: {} enumerated + {} generated cases, {} distinct non-trivial, {} corpus, {}/{} features/counters, {:.1}s",
        p.id, n_enum, n_rand, hashes.len(), corpus, features, counters, wall
    );
    if let Some((c, m)) = fails.first() {
        let path = write_replay(root, p.id, c, m, tier);
        println!("  {}", m);
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    if !errors.is_empty() {
        for e in &errors {
            println!("ERROR {}", e);
        }
        return 3;
    }
    0
}

fn tier_of(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

pub fn main_with(props: &'static [Prop]) {
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| props.iter().find(|p| p.id == id);
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let usage = || -> ! {
        eprintln!("usage: run ID [quick|thorough] | replay FILE | list");
        std::process::exit(2)
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props {
                println!("{}", p.id)
            }
        }
        Some("run") => {
            let id = args.get(2).cloned().unwrap_or_default();
            let tier = args
                .get(3)
                .cloned()
                .or_else(|| std::env::var("VERIF_TIER").ok())
                .unwrap_or_else(|| "quick".into());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
            let p = find(&id).unwrap_or_else(|| {
                eprintln!("unknown property {}", id);
                std::process::exit(2)
            });
            std::process::exit(supervise(p, tier_of(&tier), seed, &root));
        }
        Some("worker") => {
            install_panic_hook();
            let a = WorkerArgs {
                tier: tier_of(&args[3]),
                seed: args[4].parse().unwrap(),
                shard: args[5].parse().unwrap(),
                shards: args[6].parse().unwrap(),
                cases: args[7].parse().unwrap(),
                out: args[8].clone(),
                shm: args[9].clone(),
            };
            let p = find(&args[2]).unwrap();
            in_thread(move || worker(p, a));
        }
        Some("single") => {
            install_panic_hook();
            let p = find(&args[2]).unwrap();
            let tier = tier_of(&args[3]);
            shm::open(&args[4]);
            let mut s = String::new();
            std::io::stdin().read_to_string(&mut s).unwrap();
            let c = parse_case(&s).unwrap();
            let (r, cx) = in_thread(move || {
                let (r, cx, _) = run_case(p, &c, tier, true);
                (r, cx)
            });
            if let Err(m) = r {
                println!("{} [{}]", one_line(&m), one_line(&cx.desc));
                std::process::exit(1);
            }
        }
        Some("replay") => {
            install_panic_hook();
            let f = args.get(2).cloned().unwrap_or_else(|| usage());
            let txt = std::fs::read_to_string(&f).expect("replay file");
            let get = |k: &str| {
                txt.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix(' '))).unwrap_or("").to_string()
            };
            let id = get("property");
            let p = find(&id).unwrap_or_else(|| {
                eprintln!("unknown property {}", id);
                std::process::exit(2)
            });
            let tier = tier_of(&get("tier"));
            let c = parse_case(&get("case")).expect("case line");
            let (r, cx) = in_thread(move || {
                let (r, cx, _) = run_case(p, &c, tier, true);
                (r, cx)
            });
            println!("case: {}", cx.desc);
            match r {
                Ok(()) => println!("{}: holds on this case", id),
                Err(m) => {
                    println!("{}: FAILS: {}", id, m);
                    println!("VIOLATION property={} replay={}", id, f);
                    std::process::exit(1);
                }
            }
        }
        _ => usage(),
    }
}
