//! Several real processes in one working directory. A history of earlier runs (complete, refused, failed,
//! killed) comes first; then up to three runs proceed together, one system call at a time: before every
//! call each process waits at the gate of the scheduler, which lets exactly one of them go on.
use crate::cli::{content, frame_size};
use crate::proc::*;
use crate::rng::*;
use crate::{Cov, Viol};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::net::{UnixListener, UnixStream};
use std::path::Path;

#[derive(Clone, Debug, PartialEq)]
pub struct Run { pub bin: u8, pub inp: u8, pub out: u8, pub w: u64, pub h: u64, pub frames: Option<u64>, pub stdin: bool, pub bad: bool, pub plan: Vec<Plan> }

#[derive(Clone, Debug, PartialEq)]
pub struct MultiCase { pub inputs: Vec<(u64, u64)>, pub before: Vec<Run>, pub together: Vec<Run>, pub sched: Vec<u8> }

fn in_name(i: u8) -> String { format!("in{}.yuv", i) }
fn out_name(i: u8) -> String { format!("out{}.obu", i) }
fn args(r: &Run) -> Vec<String> {
    let mut a: Vec<String> = vec!["-i".into(), if r.stdin { "stdin".into() } else { "@IN".into() }, "-o".into(), "@OUT".into(), "-s".into(), if r.bad { "0x0".into() } else { format!("{}x{}", r.w, r.h) }];
    if let Some(n) = r.frames { a.push("-fr".into()); a.push(n.to_string()); }
    a
}
fn launch(env: &Env, work: &Path, slot: usize, r: &Run, gate: Option<&Path>, plan: &[Plan]) -> Member {
    let bin = if r.bin == 0 { &env.dev } else { &env.release };
    start(env, work, slot, bin, &args(r), &in_name(r.inp), &out_name(r.out), r.stdin, plan, gate)
}
fn fresh(dir: &Path, inputs: &[Vec<u8>]) {
    let _ = fs::remove_dir_all(dir);
    fs::create_dir_all(dir).unwrap();
    for (i, b) in inputs.iter().enumerate() { fs::write(dir.join(in_name(i as u8)), b).unwrap(); }
}
fn others(dir: &Path, c: &MultiCase) -> Vec<String> {
    let mut v: Vec<String> = fs::read_dir(dir).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect();
    let known = |n: &String| (0..c.inputs.len()).any(|i| *n == in_name(i as u8)) || c.before.iter().chain(&c.together).any(|r| *n == out_name(r.out));
    v.retain(|n| !known(n));
    v.sort();
    v
}
fn hard(o: &Outcome) -> bool { o.st.crashed || o.st.injected[2..].iter().sum::<u64>() + o.st.cap_hits > 0 }

pub fn exec(env: &Env, c: &MultiCase, prop: &str, cov: &mut Cov, trace: bool) -> Result<(), Viol> {
    let v = |m: String| -> Result<(), Viol> { Err(Viol { prop: prop.to_string(), msg: m }) };
    let inputs: Vec<Vec<u8>> = c.inputs.iter().map(|(l, s)| content(*l, *s)).collect();
    let work = env.scratch.join("dir");
    // alone, in a directory of its own
    let mut alone: Vec<(bool, Option<Vec<u8>>)> = vec![];
    for r in &c.together {
        fresh(&work, &inputs);
        let o = finish(env, launch(env, &work, 0, r, None, &[]), &work.join(out_name(r.out)), false);
        alone.push((o.ok(), o.out));
    }
    fresh(&work, &inputs);
    let mut h = 0u64;
    let mut all_ended = true; // no run was killed so far
    for r in &c.before {
        let o = finish(env, launch(env, &work, 0, r, None, &r.plan), &work.join(out_name(r.out)), false);
        cov.steps += o.st.ops;
        cov.fault(if o.st.crashed { "earlier_run_killed" } else if o.ok() { "earlier_run_complete" } else { "earlier_run_failed" });
        if hard(&o) { all_ended = false; }
        h = fnv(h, o.st.hash);
    }
    // together
    let gate = env.scratch.join("gate");
    let _ = fs::remove_file(&gate);
    let lis = UnixListener::bind(&gate).unwrap();
    lis.set_nonblocking(true).unwrap();
    let k = c.together.len();
    let mut mem: Vec<Option<Member>> = (0..k).map(|i| Some(launch(env, &work, i, &c.together[i], Some(&gate), &c.together[i].plan))).collect();
    let mut conn: Vec<Option<UnixStream>> = (0..k).map(|_| None).collect();
    let t0 = std::time::Instant::now();
    let mut connected = 0;
    // a process that ends without ever reaching the seam simply has no connection
    while connected < k && t0.elapsed().as_secs() < 30 {
        match lis.accept() {
            Ok((mut s, _)) => {
                s.set_nonblocking(false).unwrap();
                s.set_read_timeout(Some(std::time::Duration::from_secs(60))).unwrap();
                let mut b = [0u8];
                if s.read(&mut b).unwrap_or(0) == 1 { let i = (b[0] - b'0') as usize; if i < k { conn[i] = Some(s); } }
                connected += 1;
            }
            Err(_) => {
                if (0..k).all(|i| conn[i].is_some() || matches!(mem[i].as_mut().unwrap().ch.try_wait(), Ok(Some(_)))) { break; }
                std::thread::sleep(std::time::Duration::from_micros(100));
            }
        }
    }
    // everyone runs up to its first call (or its end)
    fn report(conn: &mut Option<UnixStream>) -> bool { let mut b = [0u8]; match conn { Some(s) => if s.read(&mut b).unwrap_or(0) == 1 { true } else { *conn = None; false }, None => false } }
    for i in 0..k { report(&mut conn[i]); }
    let mut n = 0usize;
    let mut last = 99;
    while conn.iter().any(|x| x.is_some()) {
        let live: Vec<usize> = (0..k).filter(|i| conn[*i].is_some()).collect();
        let pick = c.sched.get(n).map_or(if n % 64 == 63 { n / 64 } else { 0 }, |x| *x as usize); // at its end mostly one after the other
        let i = live[pick % live.len()];
        n += 1;
        cov.steps += 1;
        if n <= c.sched.len() && i != last && last != 99 { cov.fault("process_switch"); }
        last = i;
        h = fnv(h, i as u64);
        if conn[i].as_mut().unwrap().write_all(&[1]).is_err() { conn[i] = None; continue; }
        report(&mut conn[i]);
    }
    let outs: Vec<Outcome> = (0..k).map(|i| finish(env, mem[i].take().unwrap(), &work.join(out_name(c.together[i].out)), trace)).collect();
    let _ = fs::remove_file(&gate);
    for o in &outs { h = fnv(h, o.st.hash); if hard(o) { all_ended = false; } if o.st.crashed { cov.fault("killed_among_others"); } }
    for i in 0..inputs.len() { if fs::read(work.join(in_name(i as u8))).ok().as_deref() != Some(&inputs[i][..]) { return v(format!("input {} was modified", i)); } }
    for (i, o) in outs.iter().enumerate() {
        let r = &c.together[i];
        if o.hung() { return v(format!("run {} does not end next to the others ({})", i, o.verdict())); }
        if hard(o) { continue; }
        let said = String::from_utf8_lossy(&o.stderr).lines().last().unwrap_or("").to_string();
        if o.ok() != alone[i].0 { return v(format!("run {} ({:?}): alone it {}, after and next to other runs: {} {:?}", i, args(r), if alone[i].0 { "succeeds" } else { "fails" }, o.verdict(), said)); }
        if o.ok() && o.out != alone[i].1 { return v(format!("run {} ({:?}): alone it writes {} bytes, after and next to other runs {} bytes or other ones", i, args(r), alone[i].1.as_ref().map(|x| x.len()).unwrap_or(0), o.out.as_ref().map(|x| x.len()).unwrap_or(0))); }
    }
    if all_ended { let x = others(&work, c); if !x.is_empty() { return v(format!("the runs left other files than their outputs: {:?}", x)); } }
    Ok(cov.done(h))
}

fn gen_run(r: &mut Rng, ins: &[(u64, u64)], dims: &[(u64, u64)], out: u8) -> Run {
    let inp = r.us(0, ins.len() - 1);
    let (w, h) = if r.chance(3, 4) { dims[inp] } else { (r.log(20), r.log(20)) };
    Run { bin: r.below(2) as u8, inp: inp as u8, out, w, h, frames: match r.below(4) { 0 => None, 1 => Some(1), _ => Some(r.range(1, 9)) }, stdin: r.chance(1, 4), bad: r.chance(1, 12), plan: vec![] }
}
fn faults(r: &mut Rng, kill: bool) -> Vec<Plan> {
    let mut p = vec![];
    if r.chance(1, 2) { p.push(Plan::ChunkR(*r.pick(&[16, 64, 1000, 5000]), 0)); }
    if r.chance(1, 2) { p.push(Plan::ChunkW(r.range(1, 9), 0)); }
    if r.chance(1, 3) { p.push(Plan::Fault("r", r.below(4), "eintr", 0)); }
    if kill {
        p.push(match r.below(6) {
            0 | 1 => Plan::Fault("g", r.below(12), "crash", 0),
            2 => Plan::Fault("w", r.below(4), "torn", r.below(8) as i64),
            3 => Plan::Fault("oo", 0, *r.pick(&["crash", "crashafter"]), 0),
            4 => Plan::Disk(r.below(20), 28),
            _ => Plan::Fault("r", r.below(5), "err", 5),
        });
    }
    p
}
pub fn gen(r: &mut Rng) -> MultiCase {
    let ni = r.us(1, 2);
    let mut inputs = vec![]; let mut dims = vec![];
    for _ in 0..ni {
        let (w, h) = (r.log(48), r.log(48));
        let fs = frame_size(w, h);
        let n = r.range(1, 8);
        inputs.push((n * fs + if r.chance(1, 5) { r.below(fs) } else { 0 }, r.next() >> 1));
        dims.push((w, h));
    }
    let k = if r.chance(1, 3) { 1 } else { r.us(2, 3) };
    let mut together: Vec<Run> = (0..k).map(|i| gen_run(r, &inputs, &dims, i as u8)).collect();
    for x in together.iter_mut() { let kill = k > 1 && r.chance(1, 5); x.plan = faults(r, kill); }
    let nb = if k == 1 { r.range(1, 4) } else { r.below(3) };
    let before: Vec<Run> = (0..nb).map(|_| { let o = r.below(4) as u8; let mut x = gen_run(r, &inputs, &dims, o); let kill = r.chance(1, 2); x.plan = faults(r, kill); x }).collect();
    let burst = r.log(8);
    let mut sched = vec![];
    while sched.len() < 200 { let i = r.below(6) as u8; for _ in 0..r.range(1, burst) { sched.push(i); } }
    MultiCase { inputs, before, together, sched }
}
pub fn shrinks(c: &MultiCase) -> Vec<MultiCase> {
    let mut v = vec![];
    for i in 0..c.before.len() { let mut d = c.clone(); d.before.remove(i); v.push(d); }
    for i in 0..c.together.len() { if c.together.len() > 1 { let mut d = c.clone(); d.together.remove(i); v.push(d); } }
    let n = c.sched.len();
    if n > 0 { let mut d = c.clone(); d.sched.truncate(n / 2); v.push(d); let mut d = c.clone(); d.sched.truncate(n - 1); v.push(d); }
    for i in 0..n.min(40) { if c.sched[i] != 0 { let mut d = c.clone(); d.sched[i] = 0; v.push(d); } }
    for i in 0..c.before.len() { for j in 0..c.before[i].plan.len() { let mut d = c.clone(); d.before[i].plan.remove(j); v.push(d); } }
    for i in 0..c.together.len() {
        for j in 0..c.together[i].plan.len() { let mut d = c.clone(); d.together[i].plan.remove(j); v.push(d); }
        if c.together[i].stdin { let mut d = c.clone(); d.together[i].stdin = false; v.push(d); }
        if c.together[i].frames != Some(1) { let mut d = c.clone(); d.together[i].frames = Some(1); v.push(d); }
    }
    v
}
fn run_text(k: &str, r: &Run) -> String {
    let mut o = format!("{} {} {} {} {} {} {} {} {}\n", k, r.bin, r.inp, r.out, r.w, r.h, r.frames.map(|x| x.to_string()).unwrap_or("-".into()), r.stdin as u8, r.bad as u8);
    for p in &r.plan { o.push_str(&format!("plan {}\n", p.line())); }
    o
}
pub fn text(c: &MultiCase) -> String {
    let mut o = String::new();
    for (l, s) in &c.inputs { o.push_str(&format!("input {} {}\n", l, s)); }
    for r in &c.before { o.push_str(&run_text("before", r)); }
    for r in &c.together { o.push_str(&run_text("together", r)); }
    o.push_str(&format!("sched {}\n", c.sched.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
    o
}
pub fn parse(t: &str) -> MultiCase {
    let mut c = MultiCase { inputs: vec![], before: vec![], together: vec![], sched: vec![] };
    let mut last_before = true;
    for l in t.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        let n = |i: usize| w[i].parse::<u64>().unwrap();
        match w[0] {
            "input" => c.inputs.push((n(1), n(2))),
            "before" | "together" => {
                let r = Run { bin: n(1) as u8, inp: n(2) as u8, out: n(3) as u8, w: n(4), h: n(5), frames: w[6].parse().ok(), stdin: n(7) == 1, bad: n(8) == 1, plan: vec![] };
                last_before = w[0] == "before";
                if last_before { c.before.push(r) } else { c.together.push(r) }
            }
            "plan" => { let p = Plan::parse(&w[1..]); if last_before { c.before.last_mut().unwrap().plan.push(p) } else { c.together.last_mut().unwrap().plan.push(p) } }
            "sched" => c.sched = w[1..].iter().filter_map(|x| x.parse().ok()).collect(),
            _ => {}
        }
    }
    c
}
