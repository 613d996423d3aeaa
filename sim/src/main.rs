//! Deterministic simulation of av1enc: one seed is one execution.
//!
//!   sim run PROP TIER SEED DIR     search over seeded cases with worker processes; evidence and replay
//!   sim worker ...                 (internal) one worker
//!   sim eval FILE                  run one written-out case; prints OK or "BAD <message>"
//!   sim replay FILE                same, for people: exit 1 if the violation shows again
mod cli;
mod coef;
mod elem;
mod fh;
mod inter;
mod multi;
mod obu;
mod proc;
mod refmodel;
mod rng;
mod rw;
mod stream;

use rng::*;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Viol { pub prop: String, pub msg: String }

/// What the executed cases covered.
#[derive(Default)]
pub struct Cov { pub steps: u64, pub faults: BTreeMap<String, u64>, pub notes: BTreeMap<String, u64>, pub distinct: HashSet<u64>, pub last: u64 }
impl Cov {
    pub fn fault(&mut self, k: &str) { self.faults(k, 1); }
    pub fn faults(&mut self, k: &str, n: u64) { if n > 0 { *self.faults.entry(k.into()).or_insert(0) += n; } }
    /// names ending in _max keep the maximum, all others add up
    pub fn note(&mut self, k: &str, n: u64) {
        let e = self.notes.entry(k.into()).or_insert(0);
        if k.ends_with("_max") { *e = (*e).max(n); } else { *e += n; }
    }
    pub fn seen(&mut self, h: u64) { self.distinct.insert(h); self.last = h; }
    pub fn done(&mut self, h: u64) { self.seen(h); }
}

pub enum Case { Stream(stream::StreamCase), Inter(inter::InterCase), Cli(cli::CliCase), Obu(obu::UnitCase), Multi(multi::MultiCase), Rw(rw::RwCase), Elem(elem::ElemCase) }

fn env_from(dir: &Path, slot: &str, prop: &str) -> proc::Env {
    let b = PathBuf::from(std::env::var("SIM_BUILD").expect("SIM_BUILD"));
    let scratch = dir.join(slot);
    fs::create_dir_all(&scratch).unwrap();
    let driver = b.join("bin").join(match prop { "C21" => "frames", "C22" => "state", "C23" => "elements", "C24" => "coeffs", _ => "units" });
    proc::Env {
        shim: b.join("bin/simio.so"), dev: b.join("bin/av1enc-dev"), release: b.join("bin/av1enc-release"), hooked: b.join("bin/av1enc-hooked"),
        harness: if driver.exists() { Some(driver) } else { None }, scratch,
    }
}

impl Case {
    fn gen(env: &proc::Env, prop: &str, seed: u64, index: u64, thorough: bool) -> Case {
        let p: u64 = prop[1..].parse().unwrap();
        let mut r = Rng::new(mix(seed).wrapping_add(mix(p << 32 | 0x5eed)) ^ mix(index.wrapping_mul(0x9e37)));
        match prop {
            "C08" | "C09" | "C11" | "C12" => Case::Stream(stream::gen(prop, &mut r, thorough)),
            "C10" => Case::Inter(inter::gen(&mut r, thorough)),
            "C18" => Case::Multi(multi::gen(&mut r)),
            "C20" => if env.harness.is_some() { Case::Rw(rw::gen(env, &mut r)) } else { Case::Cli(cli::gen(env, "C01", index, &mut r, thorough)) },
            "C21" | "C22" => if env.harness.is_some() { Case::Obu(obu::gen_frames(env, &mut r)) } else { Case::Cli(cli::gen(env, "C07", index, &mut r, thorough)) },
            "C24" => if env.harness.is_some() { Case::Elem(coef::gen(&mut r)) } else { Case::Stream(stream::gen("C08", &mut r, thorough)) },
            "C23" => if env.harness.is_some() { Case::Elem(elem::gen(&mut r)) } else { Case::Stream(stream::gen("C08", &mut r, thorough)) },
            "C13" => if env.harness.is_some() && index % 8 != 7 { Case::Obu(obu::gen(env, &mut r, thorough)) } else { Case::Cli(cli::gen(env, prop, index, &mut r, thorough)) },
            _ => Case::Cli(cli::gen(env, prop, index, &mut r, thorough)),
        }
    }
    fn exec(&self, env: &proc::Env, prop: &str, cov: &mut Cov, trace: bool) -> Result<(), Viol> {
        match self {
            Case::Stream(c) if prop == "C23" || prop == "C24" => stream::exec(c, "C08", cov),
            Case::Stream(c) => stream::exec(c, prop, cov),
            Case::Inter(c) => inter::exec(c, prop, cov),
            Case::Cli(c) if prop == "C21" || prop == "C22" => cli::exec(env, c, "C07", cov, trace),
            Case::Cli(c) if prop == "C20" => cli::exec(env, c, "C01", cov, trace),
            Case::Cli(c) => cli::exec(env, c, prop, cov, trace),
            Case::Rw(c) => rw::exec(env, c, prop, cov, trace),
            Case::Elem(c) => elem::exec(env, c, prop, cov, trace),
            Case::Obu(c) => obu::exec(env, c, prop, cov, trace),
            Case::Multi(c) => multi::exec(env, c, prop, cov, trace),
        }
    }
    fn kind(&self) -> &'static str { match self { Case::Stream(_) => "stream", Case::Inter(_) => "inter", Case::Cli(_) => "cli", Case::Obu(_) => "obu", Case::Multi(_) => "multi", Case::Rw(_) => "rw", Case::Elem(_) => "elem" } }
    fn text(&self) -> String { match self { Case::Stream(c) => stream::text(c), Case::Inter(c) => inter::text(c), Case::Cli(c) => cli::text(c), Case::Obu(c) => obu::text(c), Case::Multi(c) => multi::text(c), Case::Rw(c) => rw::text(c), Case::Elem(c) => elem::text(c) } }
    fn parse(kind: &str, t: &str) -> Case {
        match kind { "stream" => Case::Stream(stream::parse(t)), "inter" => Case::Inter(inter::parse(t)), "cli" => Case::Cli(cli::parse(t)), "multi" => Case::Multi(multi::parse(t)), "rw" => Case::Rw(rw::parse(t)), "elem" => Case::Elem(elem::parse(t)), _ => Case::Obu(obu::parse(t)) }
    }
    fn shrinks(&self) -> Vec<Case> {
        match self {
            Case::Stream(c) => stream::shrinks(c).into_iter().map(Case::Stream).collect(),
            Case::Inter(c) => inter::shrinks(c).into_iter().map(Case::Inter).collect(),
            Case::Cli(c) => cli::shrinks(c).into_iter().map(Case::Cli).collect(),
            Case::Obu(c) => obu::shrinks(c).into_iter().map(Case::Obu).collect(),
            Case::Multi(c) => multi::shrinks(c).into_iter().map(Case::Multi).collect(),
            Case::Rw(c) => rw::shrinks(c).into_iter().map(Case::Rw).collect(),
            Case::Elem(c) => elem::shrinks(c).into_iter().map(Case::Elem).collect(),
        }
    }
}

/// (cases, wall seconds allowed for the search)
fn budget(prop: &str, thorough: bool) -> (u64, u64) {
    let quick = match prop {
        "C01" => 40000, "C02" => 40000, "C03" => 40000, "C04" => 24000, "C05" => 36000, "C06" => 120000, "C07" => 40000,
        "C08" => 1_000_000, "C09" => 1_200_000, "C10" => 400_000, "C11" => 1_200_000, "C12" => 4_000_000, "C13" => 32000, "C17" => 480, "C18" => 12000, "C19" => 40000, "C20" => 40000, "C21" => 40000, "C22" => 40000, "C23" => 30000, "C24" => 15000, _ => 30000,
    };
    if thorough { (quick * 60, 5400) } else { (quick, 150) }
}
const WORKERS: u64 = 8;
/// an in-process case is stuck when it takes this long (they take milliseconds)
fn stuck_after(prop: &str) -> u64 { match prop { "C08" | "C09" | "C10" | "C11" | "C12" => 60, _ => 400 } }

/// code that allocates without end is stopped before it takes the memory of everything else; the limit
/// is several times what any run needs, and the processes a worker starts inherit it
fn die_with_parent() {
    extern "C" { fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32; }
    unsafe { prctl(1, 9, 0, 0, 0); } // PR_SET_PDEATHSIG, SIGKILL
}
fn limit_memory(prop: &str) {
    extern "C" { fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32; }
    let n: u64 = match prop { "C08" | "C09" | "C10" | "C11" | "C12" => 2 << 30, _ => 7 << 29 };
    unsafe { setrlimit(2, &[n, n]); } // RLIMIT_DATA
    die_with_parent();
}

fn silence() { std::panic::set_hook(Box::new(|_| {})); }

struct ReplayFile { prop: String, kind: String, profile: String, body: String }
fn read_replay(p: &Path) -> ReplayFile {
    let t = fs::read_to_string(p).expect("replay file");
    let mut r = ReplayFile { prop: String::new(), kind: String::new(), profile: "checked".into(), body: String::new() };
    for l in t.lines() {
        if let Some(x) = l.strip_prefix("# property ") { r.prop = x.into(); }
        else if let Some(x) = l.strip_prefix("# kind ") { r.kind = x.into(); }
        else if let Some(x) = l.strip_prefix("# profile ") { r.profile = x.into(); }
        else if !l.starts_with('#') { r.body.push_str(l); r.body.push('\n'); }
    }
    r
}
fn write_replay(p: &Path, prop: &str, kind: &str, profile: &str, seed: u64, index: u64, msg: &str, body: &str) {
    let mut o = format!("# av1enc simulation replay; run: bash /verif/replay.sh {}\n# property {}\n# kind {}\n# profile {}\n# found with seed {} at case {}\n", p.display(), prop, kind, profile, seed, index);
    for l in msg.lines() { o.push_str(&format!("# violation: {}\n", l)); }
    o.push_str(body);
    fs::write(p, o).unwrap();
}

// ---------------------------------------------------------------- worker
fn worker(a: &[String]) {
    silence();
    let (prop, i, n, seed, thorough, count) = (a[0].clone(), a[1].parse::<u64>().unwrap(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap(), a[4] == "thorough", a[5].parse::<u64>().unwrap());
    limit_memory(&prop);
    let dir = PathBuf::from(&a[6]);
    let wall = a[7].parse::<u64>().unwrap();
    let from = a[8].parse::<u64>().unwrap();
    let env = env_from(&dir, &format!("w{}", i), &prop);
    let mut prog = fs::File::create(dir.join(format!("prog.{}", i))).unwrap();
    let mut cov = Cov::default();
    let mut runs = 0u64;
    let start = Instant::now();
    let mut samples: Vec<String> = vec![];
    let mut idx = i;
    while idx < from { idx += n; }
    let mut stop = u64::MAX;
    let stopf = dir.join("stop");
    let mut timed_out = 0;
    while idx < count {
        if runs % 16 == 0 || prop.as_str() < "C08" { if let Ok(t) = fs::read_to_string(&stopf) { stop = t.trim().parse().unwrap_or(0); } }
        if idx > stop { break; }
        if start.elapsed().as_secs() >= wall { timed_out = 1; break; }
        prog.seek(SeekFrom::Start(0)).unwrap();
        prog.write_all(&idx.to_le_bytes()).unwrap();
        let case = Case::gen(&env, &prop, seed, idx, thorough);
        runs += 1;
        if samples.len() < 1 && runs > 3 { samples.push(format!("case {} ({}): {}", idx, case.kind(), case.text().replace('\n', "; ").chars().take(500).collect::<String>())); }
        let res = case.exec(&env, &prop, &mut cov, false);
        if res.is_ok() && runs % 97 == 5 {
            // the same case again must be the same execution
            let mut c2 = Cov::default();
            cov.last = 0;
            let mut c1 = Cov::default();
            let _ = case.exec(&env, &prop, &mut c1, false);
            let _ = case.exec(&env, &prop, &mut c2, false);
            cov.note("same_seed_reruns", 1);
            if c1.last != c2.last || c1.steps != c2.steps { cov.note("same_seed_reruns_that_differed", 1); }
        }
        if let Err(v) = res {
            // only what shows again counts
            let again = Case::gen(&env, &prop, seed, idx, thorough).exec(&env, &prop, &mut Cov::default(), true);
            match again {
                Err(v2) => { fs::write(dir.join(format!("fail.{}", i)), format!("{}\n{}", idx, v2.msg)).unwrap(); break; }
                Ok(()) => { cov.note("violations_not_reproduced", 1); eprintln!("case {}: {} (not reproduced)", idx, v.msg); }
            }
        }
        idx += n;
    }
    let mut o = format!("runs {}\nsteps {}\ntimed {}\n", runs, cov.steps, timed_out);
    for (k, v) in &cov.faults { o.push_str(&format!("fault {} {}\n", k, v)); }
    for (k, v) in &cov.notes { o.push_str(&format!("note {} {}\n", k, v)); }
    for s in &samples { o.push_str(&format!("sample {}\n", s)); }
    let mut hb = Vec::with_capacity(cov.distinct.len() * 8);
    for h in &cov.distinct { hb.extend_from_slice(&h.to_le_bytes()); }
    fs::write(dir.join(format!("dist.{}", i)), hb).unwrap();
    fs::write(dir.join(format!("cov.{}", i)), o).unwrap();
}

// ---------------------------------------------------------------- supervisor
fn self_for(profile: &str) -> PathBuf {
    let b = PathBuf::from(std::env::var("SIM_BUILD").unwrap());
    let p = b.join(format!("bin/sim-{}", profile));
    if p.exists() { p } else { std::env::current_exe().unwrap() }
}
fn profile_of(prop: &str, worker: u64) -> &'static str {
    match prop { "C08" | "C09" | "C10" | "C11" | "C12" => if worker % 4 == 3 { "release" } else { "checked" }, _ => "checked" }
}

fn eval(dir: &Path, slot: usize, prop: &str, kind: &str, profile: &str, body: &str, secs: u64) -> Option<String> {
    let f = dir.join(format!("eval.{}", slot));
    write_replay(&f, prop, kind, profile, 0, 0, "", body);
    let out = dir.join(format!("eval.{}.out", slot));
    let mut ch = Command::new(self_for(profile)).arg("eval").arg(&f).arg(dir.join(format!("e{}", slot)))
        .stdout(Stdio::from(fs::File::create(&out).unwrap())).stderr(Stdio::null()).spawn().unwrap();
    let st = Instant::now();
    loop {
        if let Some(s) = ch.try_wait().unwrap() {
            let t = fs::read_to_string(&out).unwrap_or_default();
            if let Some(m) = t.strip_prefix("BAD ") { return Some(m.trim_end().to_string()); }
            if t.starts_with("OK") { return None; }
            return Some(format!("the process died: {:?}", s));
        }
        if st.elapsed().as_secs() > secs { let _ = ch.kill(); let _ = ch.wait(); return Some(format!("does not end within {} s", secs)); }
        std::thread::sleep(Duration::from_micros(300));
    }
}

/// case `idx`, built in a process of its own, or nothing if that process dies or does not end
fn generate(dir: &Path, prop: &str, profile: &str, seed: u64, idx: u64, tier: &str) -> Option<Case> {
    let out = dir.join("generated");
    let mut ch = Command::new(self_for(profile)).arg("gen").arg(prop).arg(seed.to_string()).arg(idx.to_string()).arg(tier).arg(dir).arg(&out).stderr(Stdio::null()).spawn().unwrap();
    let (st, late) = proc::wait(&mut ch, 60);
    if late || !st.success() { return None; }
    let t = fs::read_to_string(&out).ok()?;
    let (kind, body) = t.split_once('\n')?;
    Some(Case::parse(kind, body))
}

fn minimise(dir: &Path, prop: &str, profile: &str, case: Case, msg: String, secs: u64, hang: bool) -> (Case, String, u64) {
    let start = Instant::now();
    let (mut best, mut bmsg) = (case, msg);
    let mut tried = 0u64;
    let lim = if hang { 10 } else { 60 };
    'outer: loop {
        let cands = best.shrinks();
        let mut at = 0;
        while at < cands.len() {
            if start.elapsed().as_secs() > secs { break 'outer; }
            let hi = (at + WORKERS as usize).min(cands.len());
            let res: Vec<Option<String>> = std::thread::scope(|sc| {
                let hs: Vec<_> = cands[at..hi].iter().enumerate().map(|(k, c)| {
                    let (t, kd) = (c.text(), c.kind());
                    sc.spawn(move || eval(dir, k, prop, kd, profile, &t, lim))
                }).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            tried += (hi - at) as u64;
            if let Some(k) = res.iter().position(|r| r.is_some()) {
                bmsg = res[k].clone().unwrap();
                best = cands.into_iter().nth(at + k).unwrap();
                continue 'outer;
            }
            at = hi;
        }
        break;
    }
    (best, bmsg, tried)
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<String, u64>) -> String { format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")) }
fn jarr(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")) }

fn about(prop: &str, units: bool) -> (&'static str, &'static str, Vec<&'static str>, Vec<&'static str>) {
    let cli_real = vec!["the av1enc command-line binary, built from /repo's working tree (development and release profile): option parser, reader, frame loop, unit encoder, writer, Rust standard library buffering"];
    let cli_stub = vec!["open/read/write on the input and output and memory allocation: preloaded seam driven by the plan; files live in a scratch directory on tmpfs"];
    match prop {
        "C08" | "C09" | "C11" | "C12" => (
            "Each case draws from its seed a history of coder operations (complete sessions, abandoned sessions, header fields, decoding of junk), alphabets, starting tables, symbols (uniform, likely, unlikely, and crafted to follow a bit pattern with long undecided carries) and channel damage (bit flips, truncation, wrong announced size). A case counts when it ran to its end; distinct by the hash of segment lengths, damage positions and order.",
            "distinct (layout of the coded stream, damage) pairs", vec!["BoolCoder of /repo (encoder and decoder), overflow-checked and release builds"], vec!["the channel between encoder and decoder (bit queue); an independent decoder written for the simulator is the oracle"]),
        "C10" => (
            "Each case draws 1 to 5 encoder and decoder sessions and a schedule that says for every step which session advances and on which of up to 4 threads (one token, so the schedule alone decides), where snapshots are taken, what junk is coded before the rollback, and where header fields are coded in between. Distinct by the hash of the schedule.",
            "distinct schedules (order of actors, threads and actions)", vec!["BoolCoder of /repo, real threads passing one token"], vec!["the scheduler"]),
        "C17" => (
            "Each case draws a frame size, channel, profile and read partition, measures the peak heap of a two-frame run, and then codes as many frames of a never-ending input as it takes to exceed the bound (twice that peak and 4 MiB) four times over, or 120000 frames (thorough 1000000), with every allocation beyond the bound refused. Distinct by the hash of calls, arguments and exit status; a case is counted as non-trivial only if its reads were chunked.",
            "distinct I/O executions", cli_real, cli_stub),
        "C18" => (
            "Each case draws up to 4 earlier runs (complete, refused, failed, killed at a drawn call) and 1 to 3 runs that then proceed together in one directory; a schedule says for every open, read and write which process goes next. Each run is also executed alone in a clean directory and compared. Distinct by the hash of the schedule as executed and of the calls of every process.",
            "distinct (history, interleaving of system calls) pairs", cli_real, vec!["open/read/write, process scheduling: preloaded seam that stops at a gate before every call; files live in a scratch directory on tmpfs"]),
        "C19" => (
            "Each case draws a command line that asks for help at some place among other options, or asks for nothing, a state of the files it names, chunking of writes, and a fault plan (short, interrupted, failing writes, full device, broken pipe, crash, failed allocation) over the calls of an undisturbed run; the printed text is compared with that of a plain run. Distinct by the hash of calls, arguments and exit status.",
            "distinct I/O executions", cli_real, cli_stub),
        "C20" => (
            "Each case draws an input and a history of calls on one reader (whole vectors of several sample types, plain and exact reads, looks at the buffer that consume part of it, reads up to a byte value, reads to the end) and one writer (bits, bit strings, alignment, whole bytes, flushes), chunking of both channels and a fault plan; every result is compared with a model whose only state is a cursor in the input and the bits written. Distinct by the hash of calls, outcomes and history.",
            "distinct (call history, I/O execution) pairs", vec!["BinaryReader and BinaryWriter of /repo with the standard library's buffering, in a driver process"], cli_stub),
        "C21" => (if units {
            "Each case draws a history of sequence headers (all fields), repeats, temporal delimiters, and frame headers: key, intra-only, inter and switch frames with every field drawn (sizes, superres, references, order hints, tiles, quantizer, segmentation, filters, global motion predicted from drawn earlier parameters, film grain), and headers that show an existing frame; it is encoded once undisturbed, read back field by field by an independent reader, and once under a fault plan of short, interrupted and failing writes, full devices and crashes. Distinct by the hash of calls, outcomes and units." } else {
            "The frame header driver could not be built against this tree; cases run the command-line encoder only, as for C07." },
            "distinct (unit history, I/O call and outcome sequence) pairs", vec!["OBUEncoder, Frame, EncoderContext, BinaryWriter, BoolCoder of /repo in a driver process that does what main does"], cli_stub),
        "C22" => (if units {
            "Each case draws a history of sequence headers and frame headers as for C21, with what is known of the reference slots (ids, validity, kinds, stored grain parameters); after every header everything the frame and the encoder's context hold that the header determines is compared with what a decoder derives from the same header, and again under a fault plan with the undisturbed run. Distinct by the hash of calls, outcomes and units." } else {
            "The state driver could not be built against this tree; cases run the command-line encoder only, as for C07." },
            "distinct (unit history, I/O call and outcome sequence) pairs", vec!["OBUEncoder, Frame, EncoderContext, BinaryWriter, BoolCoder of /repo in a driver process that does what main does"], cli_stub),
        "C24" => (if units {
            "Each case draws 1 to 4 sessions of up to 40 transform blocks (all block and transform sizes, planes and subsamplings, transform types, places in frames of 8 to 200 samples a side, contexts above and to the left, up to 1024 coefficients of up to 17 bits), repeated ones, trials up to three deep that are kept or taken back (coder, output and tables restored), sessions given up half way, and default, carried over or drawn tables to start from; the bits are read block by block by an independent decoder that keeps its own coefficients and selects every table from them, and all tables are compared afterwards. Distinct by the hash of the history." } else {
            "The coefficient driver could not be built against this tree; cases run the symbol coder only, as for C08." },
            "distinct histories of blocks and trials", vec!["BoolCoder with its coefficient and transform type coders, their context derivation, CDF tables, Frame and ModeInfo of /repo in a driver process"], vec!["the walk over the coefficients of a block (the driver follows the format's order); an independent decoder written for the simulator is the oracle"]),
        "C23" => (if units {
            "Each case draws 1 to 4 sessions of up to 3000 syntax elements of every block-level kind, with values, block sizes and contexts over their ranges, mode info of neighbouring blocks that appears, changes and disappears in between, trials up to three deep that are kept or taken back (coder, output and tables restored), sessions given up half way, and default, carried over or drawn tables to start from; the bits are decoded by an independent decoder that selects every table by the format's rules, and all tables are compared afterwards. Distinct by the hash of the history." } else {
            "The element driver could not be built against this tree; cases run the symbol coder only, as for C08." },
            "distinct histories of elements, neighbours and trials", vec!["BoolCoder with its element coders, CDF tables, Frame and ModeInfo of /repo in a driver process"], vec!["the block walk (the scenario calls the element coders); an independent decoder written for the simulator is the oracle"]),
        "C13" => (if units {
            "Each case draws a history of units (sequence headers with varied fields and context, repeats, delimiters, metadata of every kind, padding from 0 to thousands of bytes), encodes it once undisturbed and once under a fault plan of short, interrupted and failing writes, full devices and crashes; every eighth case does the same with the command-line encoder. Distinct by the hash of calls, outcomes and units." } else {
            "The unit driver could not be built against this tree; cases run the command-line encoder only, undisturbed and under a fault plan." },
            "distinct (unit history, I/O call and outcome sequence) pairs", vec!["OBUEncoder, EncoderContext, BinaryWriter, BoolCoder of /repo in a driver process that does what main does", "the command-line binary"], cli_stub),
        _ => (
            "Each case draws options, frame size, frame count, input length and content, build profile, input and output channel, chunking of reads and writes, and a fault plan whose positions come from a first undisturbed run of the same case; the real binary runs undisturbed and under the plan and the two are compared. A case is non-trivial when the plan changed at least one call (chunked, interrupted, failed, killed) or the request was one that must be refused; distinct by the hash of the sequence of calls with sizes and outcomes, arguments, input length and exit status.",
            "distinct I/O executions (sequence of calls with sizes, outcomes and injected faults, with arguments and exit status)", cli_real, cli_stub),
    }
}

fn run(a: &[String]) -> i32 {
    let t0 = Instant::now();
    let (prop, tier, seed, dir) = (a[0].clone(), a[1].clone(), a[2].parse::<u64>().unwrap(), PathBuf::from(&a[3]));
    let thorough = tier == "thorough";
    let verif = PathBuf::from(std::env::var("SIM_VERIF").unwrap_or("/verif".into()));
    let (mut count, mut wall) = budget(&prop, thorough);
    if let Ok(x) = std::env::var("SIM_CASES") { count = x.parse().unwrap(); }
    if let Ok(x) = std::env::var("SIM_WALL") { wall = x.parse().unwrap(); }
    let env = env_from(&dir, "sup", &prop);
    let units = env.harness.is_some();
    let mut fails: Vec<(u64, String, bool, u64)> = vec![]; // index, message, hang, worker
    let mut kids: Vec<Option<Child>> = vec![];
    for i in 0..WORKERS {
        kids.push(Some(Command::new(self_for(profile_of(&prop, i))).arg("worker").arg(&prop).arg(i.to_string()).arg(WORKERS.to_string()).arg(seed.to_string()).arg(&tier)
            .arg(count.to_string()).arg(&dir).arg(wall.to_string()).arg("0").spawn().unwrap()));
    }
    let mut seen: Vec<(u64, Instant)> = (0..WORKERS).map(|_| (u64::MAX, Instant::now())).collect();
    let progress = |i: u64| -> u64 { fs::read(dir.join(format!("prog.{}", i))).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(u64::MAX) };
    loop {
        let mut alive = 0;
        let mut newfail = false;
        for i in 0..WORKERS {
            let k = match kids[i as usize].as_mut() { Some(k) => k, None => continue };
            match k.try_wait().unwrap() {
                Some(st) => {
                    kids[i as usize] = None;
                    if let Ok(t) = fs::read_to_string(dir.join(format!("fail.{}", i))) {
                        let mut p = t.splitn(2, '\n');
                        fails.push((p.next().unwrap().parse().unwrap(), p.next().unwrap_or("").to_string(), false, i));
                        newfail = true;
                    } else if !st.success() {
                        let at = progress(i);
                        if at == u64::MAX { eprintln!("worker {} ended with {} before its first case", i, st); return 2; }
                        fails.push((at, format!("the process running the case died: {}", st), false, i));
                        newfail = true;
                    }
                }
                None => {
                    alive += 1;
                    let at = progress(i);
                    if at != seen[i as usize].0 { seen[i as usize] = (at, Instant::now()); }
                    else if at != u64::MAX && seen[i as usize].1.elapsed().as_secs() > stuck_after(&prop) {
                        let _ = k.kill(); let _ = k.wait();
                        kids[i as usize] = None;
                        fails.push((at, format!("the case did not end within {} s", stuck_after(&prop)), true, i));
                        newfail = true;
                    }
                }
            }
        }
        if newfail { fs::write(dir.join("stop"), fails.iter().map(|f| f.0).min().unwrap().to_string()).unwrap(); }
        if alive == 0 { break; }
        std::thread::sleep(Duration::from_millis(20));
    }
    let search = t0.elapsed().as_secs_f64();
    let (mut runs, mut steps, mut timed) = (0u64, 0u64, 0u64);
    let mut tot = Cov::default();
    let mut samples = vec![];
    for i in 0..WORKERS {
        if let Ok(t) = fs::read_to_string(dir.join(format!("cov.{}", i))) {
            for l in t.lines() {
                let w: Vec<&str> = l.splitn(3, ' ').collect();
                match w[0] {
                    "runs" => runs += w[1].parse::<u64>().unwrap(), "steps" => steps += w[1].parse::<u64>().unwrap(), "timed" => timed += w[1].parse::<u64>().unwrap(),
                    "fault" => tot.faults(w[1], w[2].parse().unwrap()), "note" => tot.note(w[1], w[2].parse().unwrap()),
                    "sample" => if samples.len() < 3 { samples.push(l[7..].to_string()) }, _ => {}
                }
            }
        }
        if let Ok(b) = fs::read(dir.join(format!("dist.{}", i))) { for c in b.chunks_exact(8) { tot.distinct.insert(u64::from_le_bytes(c.try_into().unwrap())); } }
    }
    // ---- violation: minimise, write the replay, check that it replays
    let known = fs::read_to_string(verif.join("known-findings.txt")).unwrap_or_default();
    let mut code = 0;
    let mut violations = 0;
    fails.sort_by_key(|f| f.0);
    if let Some((idx, msg, hang, w)) = fails.first().cloned() {
        violations = 1;
        code = 1;
        let profile = profile_of(&prop, w);
        let case = generate(&dir, &prop, profile, seed, idx, &tier);
        let rdir = verif.join("replays");
        fs::create_dir_all(&rdir).unwrap();
        let path = rdir.join(format!("{}-seed{}-case{}.txt", prop, seed, idx));
        let full = rdir.join(format!("{}-seed{}-case{}-full.txt", prop, seed, idx));
        let (smsg, tried, again) = if let Some(case) = case {
            write_replay(&full, &prop, case.kind(), profile, seed, idx, &msg, &case.text());
            write_replay(&path, &prop, case.kind(), profile, seed, idx, &msg, &case.text());
            let (small, smsg, tried) = minimise(&dir, &prop, profile, case, msg.clone(), if thorough { 120 } else { 45 }, hang);
            write_replay(&path, &prop, small.kind(), profile, seed, idx, &smsg, &small.text());
            let again = eval(&dir, 0, &prop, small.kind(), profile, &small.text(), 120);
            (smsg, tried, again)
        } else {
            // the code under test does not survive the generation of the case either
            let body = format!("{} {} {}\n", seed, idx, tier);
            write_replay(&path, &prop, "generate", profile, seed, idx, &msg, &body);
            (msg.clone(), 0, eval(&dir, 0, &prop, "generate", profile, &body, 120))
        };
        // a finding that is listed is reported as known; nothing else is suppressed
        for l in known.lines() {
            if let Some(rest) = l.strip_prefix("known: ") {
                if rest.contains(&format!("property={} ", prop)) && rest.split("match=").nth(1).map(|m| smsg.contains(m.trim())).unwrap_or(false) {
                    println!("KNOWN-FINDING: {}", rest);
                    code = 0; violations = 0;
                }
            }
        }
        println!("{} case {} (seed {}): {}", prop, idx, seed, smsg);
        println!("minimised with {} runs; replay {}", tried, if again.is_some() { "reproduces it" } else { "did not reproduce it" });
        if code == 1 { println!("VIOLATION property={} replay={}", prop, path.display()); }
    }
    let wall_s = t0.elapsed().as_secs_f64();
    let (rule, measure, real, stub) = about(&prop, units);
    let level = if matches!(prop.as_str(), "C01" | "C02" | "C05" | "C06" | "C11" | "C13" | "C17" | "C19" | "C20" | "C21" | "C22") { "fault_enumeration" } else { "exploration" };
    let cov = format!(
        "{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": {}, \"runs_planned\": {}, \"stopped_by_wall_clock\": {}, \"simulated_runs_per_hour\": {}, \"simulated_time\": {}, \"faults_injected\": {}, \"observations\": {}, \"distinct_measure\": {}, \"real_components\": {}, \"stubbed_components\": {}}}",
        runs, tot.distinct.len(), js(rule), jarr(&samples), count, timed > 0, (runs as f64 / search.max(0.001) * 3600.0) as u64,
        js(&format!("{} simulated steps (I/O calls or coding operations); the program reads no clock (runs_reading_a_clock in observations would show it), so simulated time is counted in steps", steps)),
        jmap(&tot.faults), jmap(&tot.notes), js(measure),
        jarr(&real.iter().map(|s| s.to_string()).collect::<Vec<_>>()), jarr(&stub.iter().map(|s| s.to_string()).collect::<Vec<_>>()));
    let assumptions = ["the simulator's reference models and parsers are right", "x86-64 Linux, glibc, the installed Rust toolchain", "search is by seeded sampling: what no seed reached is not covered"];
    let ev = format!("{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {}, \"assumptions\": {}, \"wall_s\": {:.1}, \"violations\": {}}}\n",
        js(&prop), js(&tier), seed, js(level), cov, jarr(&assumptions.iter().map(|s| s.to_string()).collect::<Vec<_>>()), wall_s, violations);
    fs::create_dir_all(verif.join("evidence")).unwrap();
    fs::write(verif.join(format!("evidence/{}.json", prop)), ev).unwrap();
    println!("{} {}: {} runs, {} distinct non-trivial, {} steps, {:.0} s{}", prop, tier, runs, tot.distinct.len(), steps, wall_s, if timed > 0 { " (stopped by the wall clock)" } else { "" });
    for (k, v) in &tot.faults { print!(" {}={}", k, v); }
    for (k, v) in &tot.notes { print!(" {}={}", k, v); }
    println!();
    code
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("run") => std::process::exit(run(&a[1..])),
        Some("worker") => worker(&a[1..]),
        Some("gen") => { // sim gen PROP SEED INDEX DIR: print a case
            silence();
            let env = env_from(Path::new(&a[4]), "g", &a[1]);
            let c = Case::gen(&env, &a[1], a[2].parse().unwrap(), a[3].parse().unwrap(), false);
            print!("# property {}\n# kind {}\n{}", a[1], c.kind(), c.text());
        }
        Some("gen") => {
            silence();
            limit_memory(&a[1]);
            let env = env_from(Path::new(&a[5]), "sup", &a[1]);
            let c = Case::gen(&env, &a[1], a[2].parse().unwrap(), a[3].parse().unwrap(), a[4] == "thorough");
            fs::write(&a[6], format!("{}\n{}", c.kind(), c.text())).unwrap();
        }
        Some("eval") | Some("replay") => {
            silence();
            let r = read_replay(Path::new(&a[1]));
            if a[0] == "replay" && std::env::var("SIM_PROFILE_SET").is_err() {
                let st = Command::new(self_for(&r.profile)).args(&a).env("SIM_PROFILE_SET", "1").status().unwrap();
                std::process::exit(st.code().unwrap_or(1)); // death by signal is the violation showing again
            }
            let dir = PathBuf::from(a.get(2).cloned().unwrap_or("/dev/shm/av1enc-sim-replay".into()));
            fs::create_dir_all(&dir).unwrap();
            let env = env_from(&dir, "r", &r.prop);
            limit_memory(&r.prop);
            let c = if r.kind == "generate" {
                let w: Vec<&str> = r.body.split_whitespace().collect();
                Case::gen(&env, &r.prop, w[0].parse().unwrap(), w[1].parse().unwrap(), w[2] == "thorough")
            } else { Case::parse(&r.kind, &r.body) };
            let res = c.exec(&env, &r.prop, &mut Cov::default(), true);
            match (a[0].as_str(), res) {
                ("eval", Ok(())) => println!("OK"),
                ("eval", Err(v)) => println!("BAD {}", v.msg.replace('\n', " ")),
                (_, Ok(())) => println!("not reproduced: the property held on this execution"),
                (_, Err(v)) => { println!("reproduced: property {} violated: {}", v.prop, v.msg); std::process::exit(1); }
            }
        }
        _ => { eprintln!("usage: sim run PROP TIER SEED DIR | replay FILE"); std::process::exit(2); }
    }
}
