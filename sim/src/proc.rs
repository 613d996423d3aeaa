//! Runs one real process under the I/O seam (simio.so): input, output, plan in; everything observable out.
use std::fs;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Env { pub shim: PathBuf, pub dev: PathBuf, pub release: PathBuf, pub hooked: PathBuf, pub harness: Option<PathBuf>, pub scratch: PathBuf }

const STATS_SIZE: usize = 8 * 64 + 1024 * 24 + 4096;

#[derive(Clone, Debug, PartialEq)]
pub enum Plan {
    ChunkR(u64, u64), ChunkW(u64, u64), Disk(u64, i32), Endless(u64), MaxOps(u64), Cpu(u64), MemCap(u64),
    /// clocks, random numbers, process id, environment variables and whether the input can be written, all from one number
    World(u64),
    /// channel, index, kind, argument
    Fault(&'static str, u64, &'static str, i64),
}
pub const CH: [&str; 6] = ["r", "w", "oi", "oo", "m", "g"];
pub const KINDS: [&str; 10] = ["short", "eintr", "err", "zero", "crash", "crashafter", "torn", "fail", "failfrom", "errfrom"];

impl Plan {
    pub fn text(&self) -> String {
        match self {
            Plan::ChunkR(c, s) => format!("chunk_r {}\nseed_r {}\n", c, s),
            Plan::ChunkW(c, s) => format!("chunk_w {}\nseed_w {}\n", c, s),
            Plan::Disk(c, e) => format!("disk {} {}\n", c, e),
            Plan::Endless(s) => format!("endless {}\n", s),
            Plan::MaxOps(n) => format!("maxops {}\n", n),
            Plan::Cpu(n) => format!("cpu {}\n", n),
            Plan::MemCap(n) => format!("memcap {}\nnofile 40\n", n),
            Plan::World(n) => format!("clock {}\nrand {}\npid {}\n{}{}", n + 1, n + 1, 2 + n % 4_000_000, if n & 8 == 8 { "roin 1\n" } else { "" }, if n & 16 == 16 { format!("env {}\n", n >> 5 | 1) } else { String::new() }),
            Plan::Fault(c, i, k, a) => format!("fault {} {} {} {}\n", c, i, k, a),
        }
    }
    /// single-line form for replay files
    pub fn line(&self) -> String {
        match self {
            Plan::ChunkR(c, s) => format!("chunkr {} {}", c, s), Plan::ChunkW(c, s) => format!("chunkw {} {}", c, s),
            Plan::Disk(c, e) => format!("disk {} {}", c, e), Plan::Endless(s) => format!("endless {}", s),
            Plan::MaxOps(n) => format!("maxops {}", n), Plan::Cpu(n) => format!("cpu {}", n),
            Plan::MemCap(n) => format!("memcap {}", n), Plan::World(n) => format!("world {}", n),
            Plan::Fault(c, i, k, a) => format!("fault {} {} {} {}", c, i, k, a),
        }
    }
    pub fn parse(w: &[&str]) -> Plan {
        let n = |i: usize| w[i].parse::<u64>().unwrap();
        match w[0] {
            "chunkr" => Plan::ChunkR(n(1), n(2)), "chunkw" => Plan::ChunkW(n(1), n(2)), "disk" => Plan::Disk(n(1), n(2) as i32),
            "endless" => Plan::Endless(n(1)), "maxops" => Plan::MaxOps(n(1)), "cpu" => Plan::Cpu(n(1)), "memcap" => Plan::MemCap(n(1)), "world" => Plan::World(n(1)),
            _ => Plan::Fault(CH.iter().find(|x| **x == w[1]).unwrap(), n(2), KINDS.iter().find(|x| **x == w[3]).unwrap(), w[4].parse().unwrap()),
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub live: bool, pub ops: u64, pub reads: u64, pub writes: u64, pub opens: u64, pub allocs: u64, pub in_bytes: u64, pub out_bytes: u64, pub eof_reads: u64,
    pub injected: [u64; 10], pub chunked_reads: u64, pub chunked_writes: u64, pub cap_hits: u64, pub hash: u64, pub hang: bool, pub crashed: bool,
    pub out_opened: u64, pub peak_heap: u64, pub mem_refused: u64, pub clock_reads: u64, pub random_reads: u64, pub files_refused: u64, pub env_reads: u64, pub trace: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub code: Option<i32>, pub sig: Option<i32>, pub timeout: bool,
    pub stderr: Vec<u8>, pub stdout: Vec<u8>, pub out: Option<Vec<u8>>, pub in_intact: bool, pub st: Stats, pub frames: Vec<String>,
}

impl Outcome {
    pub fn ok(&self) -> bool { self.code == Some(0) }
    pub fn verdict(&self) -> String {
        if self.timeout { "timeout".into() } else if self.st.hang { "hang (step budget)".into() }
        else if let Some(c) = self.code { format!("exit {}", c) } else { format!("signal {}", self.sig.unwrap_or(0)) }
    }
    pub fn hung(&self) -> bool { self.timeout || self.st.hang || self.sig == Some(24) }
}

pub struct Job<'a> {
    pub bin: &'a Path, pub args: Vec<String>, pub input: Option<&'a [u8]>, pub stdin: bool, pub stdout: bool,
    pub existing: Option<&'a [u8]>, pub names: u8, pub keep_out: bool, pub plan: &'a [Plan], pub frames: bool, pub trace: bool,
}

/// names of input and output: (input, output, given as absolute path)
pub const NAMES: [(&str, &str, bool); 7] = [("in.yuv", "out.obu", true), ("in.yuv", "out.obu", false), ("stdin.yuv", "stdout.obu", false), ("my input", "my output", true), ("-x", "--y", false), ("入力.yuv", "é,x:1", true), ("stdin", "stdout", true)];

fn u(b: &[u8], i: usize) -> u64 { u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap()) }

fn plan_text(plan: &[Plan], stdin: bool, stdout: bool) -> String {
    let mut p = String::new();
    if stdin { p.push_str("stdin 1\n"); }
    if stdout { p.push_str("stdout 1\n"); }
    for x in plan { p.push_str(&x.text()); }
    if !plan.iter().any(|x| matches!(x, Plan::MaxOps(_))) { p.push_str("maxops 5000000\n"); }
    if !plan.iter().any(|x| matches!(x, Plan::Cpu(_))) { p.push_str("cpu 20\n"); }
    if !plan.iter().any(|x| matches!(x, Plan::World(_))) { p.push_str(&Plan::World(0).text()); }
    p
}
fn world_env(c: &mut Command, plan: &[Plan]) {
    let n = plan.iter().filter_map(|p| if let Plan::World(n) = p { Some(*n) } else { None }).next().unwrap_or(0);
    if n & 1 == 1 { c.env("LANG", "tr_TR.UTF-8").env("LC_ALL", "ja_JP.SJIS").env("TZ", "Pacific/Chatham"); }
    if n & 2 == 2 { c.env("HOME", "/nonexistent").env("USER", "nobody").env("TMPDIR", "/nonexistent").env("COLUMNS", "7"); }
    if n & 4 == 4 { c.env("SOURCE_DATE_EPOCH", (n >> 8).to_string()).env("RUST_LOG", "trace").env("DEBUG", "1"); }
}
fn read_stats(statp: &Path, trace: bool) -> Stats {
    let mut sb = vec![];
    fs::File::open(statp).and_then(|mut f| f.read_to_end(&mut sb)).unwrap();
    let mut st = Stats { live: u(&sb, 0) == 0x53494d494f313031, ops: u(&sb, 1), reads: u(&sb, 2), writes: u(&sb, 3), opens: u(&sb, 4), allocs: u(&sb, 5), in_bytes: u(&sb, 6), out_bytes: u(&sb, 7), eof_reads: u(&sb, 8), ..Default::default() };
    for i in 0..10 { st.injected[i] = u(&sb, 9 + i); }
    st.chunked_reads = u(&sb, 19); st.chunked_writes = u(&sb, 20); st.cap_hits = u(&sb, 21); st.hash = u(&sb, 22);
    st.hang = u(&sb, 23) != 0; st.crashed = u(&sb, 24) != 0; st.out_opened = u(&sb, 25);
    st.peak_heap = u(&sb, 29); st.mem_refused = u(&sb, 30); st.clock_reads = u(&sb, 31); st.random_reads = u(&sb, 32);
    st.files_refused = u(&sb, 34 + 3 * 1024); st.env_reads = u(&sb, 35 + 3 * 1024);
    if trace {
        let n = u(&sb, 33).min(1024) as usize;
        for i in 0..n.min(200) {
            let e = &sb[34 * 8 + i * 24..34 * 8 + (i + 1) * 24];
            let idx = u32::from_le_bytes(e[4..8].try_into().unwrap());
            let (req, ret) = (i64::from_le_bytes(e[8..16].try_into().unwrap()), i64::from_le_bytes(e[16..24].try_into().unwrap()));
            let err = u16::from_le_bytes(e[2..4].try_into().unwrap());
            st.trace.push(format!("{}#{} req={} ret={} errno={}{}", CH[e[0] as usize % 6], idx, req, ret, err, if e[1] > 0 { format!(" <- {}", KINDS[(e[1] as usize - 1) % 10]) } else { String::new() }));
        }
    }
    st
}
pub fn wait(ch: &mut Child, secs: u64) -> (std::process::ExitStatus, bool) {
    let start = Instant::now();
    loop {
        // cheap common case: most runs last about a millisecond
        if let Some(s) = ch.try_wait().unwrap() { return (s, false); }
        let el = start.elapsed();
        if el > Duration::from_secs(secs) { let _ = ch.kill(); return (ch.wait().unwrap(), true); }
        std::thread::sleep(if el < Duration::from_millis(20) { Duration::from_micros(150) } else { Duration::from_millis(5) });
    }
}

/// One of several processes simulated together: control files by slot, everything else in one working directory.
pub struct Member { pub ch: Child, slot: usize }
pub fn start(env: &Env, work: &Path, slot: usize, bin: &Path, args: &[String], inp: &str, outp: &str, stdin: bool, plan: &[Plan], gate: Option<&Path>) -> Member {
    let d = &env.scratch;
    let (planp, statp, so, se) = (d.join(format!("plan{}", slot)), d.join(format!("stats{}", slot)), d.join(format!("so{}", slot)), d.join(format!("se{}", slot)));
    fs::write(&planp, plan_text(plan, stdin, false)).unwrap();
    fs::write(&statp, vec![0u8; STATS_SIZE]).unwrap();
    let args: Vec<String> = args.iter().map(|a| a.replace("@IN", inp).replace("@OUT", outp)).collect();
    let mut c = Command::new(bin);
    c.args(&args).env_clear();
    world_env(&mut c, plan);
    c.env("LD_PRELOAD", &env.shim).env("SIM_PLAN", &planp).env("SIM_STATS", &statp).env("SIM_IN", inp).env("SIM_OUT", outp).env("NO_COLOR", "1").env("SIM_ID", slot.to_string());
    if let Some(g) = gate { c.env("SIM_GATE", g); }
    c.current_dir(work);
    c.stdin(if stdin { Stdio::from(fs::File::open(work.join(inp)).unwrap()) } else { Stdio::null() });
    c.stdout(Stdio::from(fs::File::create(&so).unwrap()));
    c.stderr(Stdio::from(fs::File::create(&se).unwrap()));
    Member { ch: c.spawn().expect("spawn"), slot }
}
pub fn finish(env: &Env, mut m: Member, out: &Path, trace: bool) -> Outcome {
    let (status, timeout) = wait(&mut m.ch, 60);
    let d = &env.scratch;
    Outcome {
        code: status.code(), sig: status.signal(), timeout, stderr: fs::read(d.join(format!("se{}", m.slot))).unwrap_or_default(), stdout: fs::read(d.join(format!("so{}", m.slot))).unwrap_or_default(),
        out: fs::read(out).ok(), in_intact: true, st: read_stats(&d.join(format!("stats{}", m.slot)), trace), frames: vec![],
    }
}

/// "@IN" and "@OUT" in the arguments stand for the simulated files.
pub fn run(env: &Env, job: &Job) -> Outcome {
    let d = &env.scratch;
    let (inp, outp, planp, statp, so, se, frp) = (d.join(NAMES[job.names as usize].0), d.join(NAMES[job.names as usize].1), d.join("plan"), d.join("stats"), d.join("so"), d.join("se"), d.join("frames"));
    if let Some(b) = job.input { fs::write(&inp, b).unwrap(); } else { let _ = fs::remove_file(&inp); }
    if !job.keep_out {
        let _ = fs::remove_file(&outp);
        if let Some(e) = job.existing { fs::write(&outp, e).unwrap(); }
    }
    let _ = fs::remove_file(&frp);
    fs::write(&planp, plan_text(job.plan, job.stdin, job.stdout)).unwrap();
    fs::write(&statp, vec![0u8; STATS_SIZE]).unwrap();
    let (ia, oa) = match NAMES[job.names as usize] { (i, o, false) => (i.to_string(), o.to_string()), _ => (inp.to_str().unwrap().to_string(), outp.to_str().unwrap().to_string()) };
    let args: Vec<String> = job.args.iter().map(|a| a.replace("@IN", &ia).replace("@OUT", &oa)).collect();
    let mut c = Command::new(job.bin);
    c.args(&args).env_clear();
    world_env(&mut c, job.plan);
    c.env("LD_PRELOAD", &env.shim).env("SIM_PLAN", &planp).env("SIM_STATS", &statp).env("SIM_IN", &ia).env("SIM_OUT", &oa).env("NO_COLOR", "1");
    if job.frames { c.env("AV1ENC_SIM_FRAMES", &frp); }
    c.current_dir(d);
    c.stdin(if job.stdin { Stdio::from(fs::File::open(&inp).unwrap()) } else { Stdio::null() });
    c.stdout(Stdio::from(fs::File::create(&so).unwrap()));
    c.stderr(Stdio::from(fs::File::create(&se).unwrap()));
    let mut ch = c.spawn().expect("spawn");
    let (status, timeout) = wait(&mut ch, 150);
    let st = read_stats(&statp, job.trace);
    let rd = |p: &Path| fs::read(p).ok();
    let in_intact = match job.input { Some(b) => rd(&inp).map(|x| x == b).unwrap_or(false), None => true };
    Outcome {
        code: status.code(), sig: status.signal(), timeout, stderr: rd(&se).unwrap_or_default(), stdout: rd(&so).unwrap_or_default(), out: rd(&outp), in_intact, st,
        frames: rd(&frp).map(|b| String::from_utf8_lossy(&b).lines().map(|x| x.to_string()).collect()).unwrap_or_default(),
    }
}

#[allow(dead_code)]
pub fn append(p: &Path, s: &str) { let mut f = fs::OpenOptions::new().create(true).append(true).open(p).unwrap(); f.write_all(s.as_bytes()).unwrap(); }
