//! The reader and the writer under a history of calls: real objects in a driver process, simulated input and output.
use crate::cli::content;
use crate::proc::*;
use crate::rng::*;
use crate::{Cov, Viol};
use std::fs;

#[derive(Clone, Debug, PartialEq)]
pub struct RwCase { pub stdin: bool, pub stdout: bool, pub in_len: u64, pub in_seed: u64, pub ops: Vec<String>, pub plan: Vec<Plan> }

fn go(env: &Env, c: &RwCase, input: &[u8], plan: &[Plan], trace: bool) -> (Outcome, Vec<String>) {
    let (script, log) = (env.scratch.join("script"), env.scratch.join("rwlog"));
    fs::write(&script, c.ops.iter().map(|o| format!("{}\n", o)).collect::<String>()).unwrap();
    let _ = fs::remove_file(&log);
    let args = vec!["rw".to_string(), script.to_str().unwrap().into(), if c.stdin { "stdin".into() } else { "@IN".into() }, if c.stdout { "stdout".into() } else { "@OUT".into() }, log.to_str().unwrap().into()];
    let o = run(env, &Job { bin: env.harness.as_ref().unwrap(), args, input: Some(input), stdin: c.stdin, stdout: c.stdout, existing: None, names: 0, keep_out: false, plan, frames: false, trace });
    let l = fs::read_to_string(&log).unwrap_or_default().lines().map(|x| x.to_string()).collect();
    (o, l)
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 { return None; }
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

/// What every call returned against the input; the cursor is all the state a reader may have.
fn check_reads(c: &RwCase, input: &[u8], log: &[String]) -> Result<(), String> {
    let mut pos = 0usize;
    for (i, (op, res)) in c.ops.iter().zip(log).enumerate() {
        let w: Vec<&str> = op.split(' ').collect();
        let r: Vec<&str> = res.split(' ').collect();
        let n = |k: usize| w[k].parse::<usize>().unwrap();
        let rest = &input[pos..];
        let bad = |m: String| Err(format!("call {} ({}) at byte {} of {}: {}", i, op, pos, input.len(), m));
        let bytes = |s: &str| unhex(s);
        match w[0] {
            "v8" | "v16" | "v32" | "v64" => {
                let want = n(1).min(rest.len());
                if r[0] != want.to_string() { return bad(format!("reports {} bytes instead of {}", r[0], want)); }
                let got = match bytes(r.get(1).unwrap_or(&"")) { Some(b) => b, None => return bad("yields a sample that is no byte".into()) };
                if got.len() != n(1) || got[..want] != rest[..want] { return bad("yields other samples than the input's".into()); }
                pos += want;
            }
            "read" => {
                let got = match bytes(r[0]) { Some(b) => b, None => return bad("unreadable".into()) };
                if got.len() > n(1) || !rest.starts_with(&got) { return bad("yields other bytes than the input's next ones".into()); }
                if got.is_empty() && n(1) > 0 && !rest.is_empty() { return bad("reports the end of the input too early".into()); }
                pos += got.len();
            }
            "exact" => {
                if rest.len() < n(1) { if r[0] != "eof" { return bad("does not report the end of the input".into()); } return Ok(()); } // what is lost then is unspecified
                if bytes(r[0]).as_deref() != Some(&rest[..n(1)]) { return bad("yields other bytes than the input's next ones".into()); }
                pos += n(1);
            }
            "peek" => {
                let got = match bytes(r.get(1).unwrap_or(&"")) { Some(b) => b, None => return bad("unreadable".into()) };
                if !rest.starts_with(&got) { return bad("shows other bytes than the input's next ones".into()); }
                if got.is_empty() && !rest.is_empty() { return bad("reports the end of the input too early".into()); }
                pos += r[0].parse::<usize>().unwrap();
            }
            "until" => {
                let want = rest.iter().position(|b| *b as usize == n(1)).map(|k| k + 1).unwrap_or(rest.len());
                if r[0] != want.to_string() || bytes(r.get(1).unwrap_or(&"")).as_deref() != Some(&rest[..want]) { return bad("yields other bytes than the input's next ones".into()); }
                pos += want;
            }
            "rest" => {
                if r[0] != rest.len().to_string() || bytes(r.get(1).unwrap_or(&"")).as_deref() != Some(rest) { return bad("yields something else than the rest of the input".into()); }
                pos = input.len();
            }
            _ => {}
        }
    }
    Ok(())
}
/// the bytes all writing calls make
fn packed(c: &RwCase) -> Vec<u8> {
    let (mut out, mut cur, mut k) = (vec![], 0u8, 0);
    let mut push = |out: &mut Vec<u8>, b: u8| { cur = cur << 1 | b; k += 1; if k == 8 { out.push(cur); cur = 0; k = 0; } k };
    let mut k = 0;
    for op in &c.ops {
        let w: Vec<&str> = op.split(' ').collect();
        match w[0] {
            "bit" => k = push(&mut out, (w[1] == "1") as u8),
            "bits" => for b in w.get(1).unwrap_or(&"").bytes() { k = push(&mut out, b - b'0') },
            "align" => while k != 0 { k = push(&mut out, 0) },
            "bytes" => out.extend(unhex(w.get(1).unwrap_or(&"")).unwrap()),
            _ => {}
        }
    }
    out
}

pub fn exec(env: &Env, c: &RwCase, prop: &str, cov: &mut Cov, trace: bool) -> Result<(), Viol> {
    let v = |m: String| -> Result<(), Viol> { Err(Viol { prop: prop.to_string(), msg: m }) };
    if env.harness.is_none() { return Ok(()); }
    let input = content(c.in_len, c.in_seed);
    let (o, log) = go(env, c, &input, &c.plan, trace);
    let say = || format!("{}; {}; calls: {}", o.verdict(), String::from_utf8_lossy(&o.stderr).lines().take(2).collect::<Vec<_>>().join(" / "), o.st.trace.iter().take(30).cloned().collect::<Vec<_>>().join(" | "));
    cov.steps += o.st.ops + c.ops.len() as u64;
    for i in 0..10 { cov.faults(["short_io", "interrupted_call", "io_error", "zero_write", "crash_before_call", "crash_after_call", "torn_write", "allocation_failure", "allocation_failure_persistent", "io_error_persistent"][i], o.st.injected[i]); }
    cov.faults("chunked_read", o.st.chunked_reads);
    cov.faults("chunked_write", o.st.chunked_writes);
    cov.faults("device_full", o.st.cap_hits);
    if o.hung() { return v(format!("does not end: {}", say())); }
    if let Err(e) = check_reads(c, &input, &log) { return v(format!("{}; {}", e, say())); }
    let want = packed(c);
    let got = if c.stdout { o.stdout.clone() } else { o.out.clone().unwrap_or_default() };
    let hard = o.st.injected[2] + o.st.injected[3] + o.st.injected[9] + o.st.cap_hits;
    if o.ok() {
        if log.len() != c.ops.len() { return v(format!("stops after {} of {} calls and reports success: {}", log.len(), c.ops.len(), say())); }
        if got != want { return v(format!("reports success, but {} bytes were written instead of {}, or other ones: {}", got.len(), want.len(), say())); }
        // a call of the input or output that failed for good has to show in some result
        if o.st.injected[2] + o.st.injected[9] > 0 { return v(format!("a call failed and no result says so: {}", say())); }
    } else {
        if hard + o.st.injected[7] + o.st.injected[8] == 0 && !o.st.crashed { return v(format!("fails though no call failed: {}", say())); }
        if !want.starts_with(&got) { return v(format!("after a failure the output ({} bytes) is not a prefix of what was written ({} bytes): {}", got.len(), want.len(), say())); }
        if !o.st.crashed && o.stderr.is_empty() { return v(format!("fails silently: {}", say())); }
    }
    let mut h = o.st.hash;
    for x in &c.ops { for b in x.bytes() { h = fnv(h, b as u64); } }
    Ok(cov.done(fnv(h, c.in_len)))
}

pub fn gen(env: &Env, r: &mut Rng) -> RwCase {
    let mut c = RwCase { stdin: r.chance(1, 3), stdout: r.chance(1, 3), in_len: if r.chance(1, 10) { r.log(60_000) } else { r.log(20_000) }, in_seed: r.next(), ops: vec![], plan: vec![] };
    if r.chance(1, 15) { c.in_len = 0; }
    let n = r.log(40);
    let side = r.below(3); // reads, writes, both
    let mut aligned = true;
    let mut phase = 0u64;
    for _ in 0..n {
        let read = match side { 0 => true, 1 => false, _ => r.chance(1, 2) };
        if read {
            let len = match r.below(6) { 0 => r.below(3), 1 => 8190 + r.below(5), 2 => r.log(c.in_len.max(1)), 3 => c.in_len, _ => r.log(3000) };
            c.ops.push(match r.below(9) {
                0 | 1 => format!("v16 {} {}", len, r.below(256)),
                2 => format!("{} {} {}", r.pick(&["v8", "v32", "v64"]), len, r.below(256)),
                3 => format!("read {}", len),
                4 => format!("exact {}", len.min(r.log(5000))),
                5 | 6 => format!("peek {}", if r.chance(1, 3) { 0 } else { len }),
                7 => format!("until {}", r.below(256)),
                _ => if r.chance(1, 6) { "rest".to_string() } else { format!("read {}", r.below(4)) },
            });
        } else {
            match r.below(8) {
                0 => { let b = r.below(2); c.ops.push(format!("bit {}", b)); phase += 1; }
                1..=3 => { let k = if r.chance(1, 12) { r.log(80_000) } else { r.log(200) }; let mut s = String::from("bits "); for _ in 0..k { s.push(if r.chance(1, 2) { '1' } else { '0' }); } c.ops.push(s); phase += k; }
                4 | 5 => { c.ops.push("align".into()); phase = 0; }
                6 if aligned => { let k = if r.chance(1, 8) { 8150 + r.below(90) } else { r.below(60) }; let s: String = (0..k).map(|_| format!("{:02x}", r.below(256))).collect(); c.ops.push(format!("bytes {}", s)); }
                _ => c.ops.push("flush".into()),
            }
            aligned = phase % 8 == 0;
        }
    }
    let input = content(c.in_len, c.in_seed);
    let p = go(env, &c, &input, &[], false).0.st;
    let (rd, w) = (p.reads.max(1), p.writes.max(1));
    if r.chance(2, 3) { let k = match r.below(4) { 0 => 1 + c.in_len / 3000, 1 => 8191, _ => r.log(9000) }; let k = k.max(c.in_len / 4000 + 1); c.plan.push(Plan::ChunkR(k, if r.chance(1, 2) { r.next() | 1 } else { 0 })); }
    if r.chance(1, 2) { let k = if p.out_bytes > 20000 { r.range(200, 6000) } else { r.log(64) }; c.plan.push(Plan::ChunkW(k, if r.chance(1, 2) { r.next() | 1 } else { 0 })); }
    let p2 = if r.chance(1, 2) { go(env, &c, &input, &c.plan, false).0.st } else { p.clone() };
    for _ in 0..r.below(5) {
        c.plan.push(if r.chance(1, 2) { Plan::Fault("r", r.below(p2.reads.max(1) + 1), *r.pick(&["eintr", "short"]), r.log(60) as i64) } else { Plan::Fault("w", r.below(p2.writes.max(1) + 1), *r.pick(&["eintr", "short"]), r.log(40) as i64) });
    }
    match r.below(12) {
        0 | 1 => c.plan.push(Plan::Fault("r", r.below(p2.reads.max(rd)), *r.pick(&["err", "errfrom"]), *r.pick(&[5, 6, 11, 21, 22, 104, 110]))),
        2 => c.plan.push(Plan::Fault("w", r.below(p2.writes.max(w)), *r.pick(&["err", "errfrom"]), *r.pick(&[5, 28, 32, 11]))),
        3 => c.plan.push(Plan::Fault("w", r.below(w), "zero", 0)),
        4 => c.plan.push(Plan::Disk(r.below(p.out_bytes + 1), *r.pick(&[28, 122, 32]))),
        5 => c.plan.push(Plan::Fault("g", r.below(p.ops.max(1)), "crash", 0)),
        6 => c.plan.push(Plan::Fault("w", r.below(w), *r.pick(&["crashafter", "torn"]), r.below(64) as i64)),
        _ => {}
    }
    c
}

pub fn shrinks(c: &RwCase) -> Vec<RwCase> {
    let mut o = vec![];
    let n = c.ops.len();
    let mut cut = n / 2;
    while cut > 0 {
        let mut at = 0;
        while at < n { let mut d = c.clone(); d.ops.drain(at..(at + cut).min(n)); if ok(&d) { o.push(d); } at += cut; }
        cut /= 2;
    }
    for i in 0..c.plan.len() { let mut d = c.clone(); d.plan.remove(i); o.push(d); }
    for l in [0, 1, c.in_len / 2, c.in_len.saturating_sub(1)] { if l < c.in_len { let mut d = c.clone(); d.in_len = l; o.push(d); } }
    if c.stdin { let mut d = c.clone(); d.stdin = false; o.push(d); }
    if c.stdout { let mut d = c.clone(); d.stdout = false; o.push(d); }
    if c.in_seed != 7 { let mut d = c.clone(); d.in_seed = 7; o.push(d); }
    for i in 0..n {
        let w: Vec<&str> = c.ops[i].split(' ').collect();
        if w.len() > 1 && (w[0] == "bits" || w[0] == "bytes") && w[1].len() > 8 { let mut d = c.clone(); d.ops[i] = format!("{} {}", w[0], &w[1][..w[1].len() / 16 * 8]); if ok(&d) { o.push(d); } }
        if w.len() > 1 && w[0] != "bits" && w[0] != "bytes" && w[0] != "until" && w[0] != "bit" { let k: u64 = w[1].parse().unwrap(); if k > 1 { let mut d = c.clone(); let mut x: Vec<String> = w.iter().map(|s| s.to_string()).collect(); x[1] = (k / 2).to_string(); d.ops[i] = x.join(" "); o.push(d); } }
    }
    o
}
/// whole bytes are written only where a byte starts: anything else has no meaning
fn ok(c: &RwCase) -> bool {
    let mut k = 0usize;
    for op in &c.ops {
        let w: Vec<&str> = op.split(' ').collect();
        match w[0] { "bit" => k += 1, "bits" => k += w.get(1).unwrap_or(&"").len(), "align" => k = 0, "bytes" => if k % 8 != 0 { return false; }, _ => {} }
    }
    true
}

pub fn text(c: &RwCase) -> String {
    let mut o = format!("stdin {}\nstdout {}\ninput {} {}\n", c.stdin as u8, c.stdout as u8, c.in_len, c.in_seed);
    for p in &c.plan { o.push_str(&format!("plan {}\n", p.line())); }
    for x in &c.ops { o.push_str(&format!("op {}\n", x)); }
    o
}
pub fn parse(t: &str) -> RwCase {
    let mut c = RwCase { stdin: false, stdout: false, in_len: 0, in_seed: 0, ops: vec![], plan: vec![] };
    for l in t.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "stdin" => c.stdin = w[1] == "1", "stdout" => c.stdout = w[1] == "1", "input" => { c.in_len = w[1].parse().unwrap(); c.in_seed = w[2].parse().unwrap(); }
            "plan" => c.plan.push(Plan::parse(&w[1..])), "op" => c.ops.push(l[3..].to_string()), _ => {}
        }
    }
    c
}
