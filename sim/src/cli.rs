//! The command-line encoder as a simulated process: real binary, simulated input, output, memory and death.
use crate::proc::*;
use crate::refmodel::*;
use crate::rng::*;
use crate::{Cov, Viol};

#[derive(Clone, Debug, PartialEq)]
pub struct CliCase {
    pub bin: u8, // 0 development build, 1 release build, 2 with the frame observation hook
    pub args: Vec<String>,
    pub valid: bool,
    pub w: u64, pub h: u64, pub frames: Option<u64>, pub rate: Option<String>,
    pub in_len: u64, pub in_seed: u64, pub in_missing: bool,
    pub stdin: bool, pub stdout: bool,
    pub existing: Option<(u64, u64)>,
    pub names: u8, // which of proc::NAMES the input and output have
    pub plan: Vec<Plan>,
}

pub fn content(len: u64, seed: u64) -> Vec<u8> {
    let mut v = Vec::with_capacity(len as usize + 64);
    let mut r = Rng::new(seed);
    match seed % 16 { // the last digit of the content seed is the kind of content
        0 => v.resize(len as usize, 0u8),
        1 => v.resize(len as usize, 255),
        2 => { let a = [0u8, 10, 13, 26, 255, 127, 128, 4]; while (v.len() as u64) < len { let x = r.next(); for i in 0..16 { v.push(a[(x >> (4 * i)) as usize & 7]); } } }
        3 => { v.extend_from_slice(b"YUV4MPEG2 W16 H16 F30:1 Ip A1:1 C420\nFRAME\n"); v.resize((len as usize).max(v.len()), 128); }
        4 => { let p = r.range(1, 9) as usize; let b = r.next().to_le_bytes(); while (v.len() as u64) < len { v.push(b[v.len() % p % 8]); } }
        5 => { v.resize(len as usize / 2, 0); while (v.len() as u64) < len { v.extend_from_slice(&r.next().to_le_bytes()); } }
        _ => while (v.len() as u64) < len { v.extend_from_slice(&r.next().to_le_bytes()); }
    }
    v.truncate(len as usize);
    v
}
pub fn frame_size(w: u64, h: u64) -> u64 { w * h + 2 * ((w + 1) / 2) * ((h + 1) / 2) }

impl CliCase {
    fn limit(&self) -> u64 { self.frames.unwrap_or(4294967295) }
    fn endless(&self) -> bool { self.plan.iter().any(|p| matches!(p, Plan::Endless(_))) }
    fn fs(&self) -> u64 { frame_size(self.w, self.h) }
    fn want(&self) -> u64 { if self.endless() { self.limit() } else { self.want_finite() } }
    fn want_finite(&self) -> u64 { self.limit().min(self.in_len / self.fs()) }
    fn expect_ok(&self) -> bool { self.endless() || self.limit() <= self.in_len / self.fs() || self.in_len % self.fs() == 0 }
    fn canonical(&self) -> Vec<String> {
        let mut a: Vec<String> = ["-i", "@IN", "-o", "@OUT", "-s"].iter().map(|s| s.to_string()).collect();
        a.push(format!("{}x{}", self.w, self.h));
        if let Some(n) = self.frames { a.push("-fr".into()); a.push(n.to_string()); }
        if let Some(r) = &self.rate { a.push("-r".into()); a.push(r.clone()); }
        a
    }
}

fn bin(env: &Env, b: u8) -> &std::path::Path { match b { 0 => &env.dev, 1 => &env.release, _ => &env.hooked } }

fn golden(env: &Env, c: &CliCase, input: &[u8]) -> Outcome {
    run(env, &Job { bin: bin(env, if c.bin == 2 { 2 } else { 0 }), args: c.canonical(), input: Some(input), stdin: false, stdout: false, existing: None, names: 0, keep_out: false, plan: &[], frames: c.bin == 2, trace: false })
}
fn perturbed(env: &Env, c: &CliCase, input: &[u8], trace: bool) -> Outcome {
    let ex = c.existing.map(|(l, s)| content(l, s));
    run(env, &Job { bin: bin(env, c.bin), args: c.args.clone(), input: if c.in_missing { None } else { Some(input) }, stdin: c.stdin, stdout: c.stdout, existing: ex.as_deref(), names: c.names, keep_out: false, plan: &c.plan, frames: c.bin == 2, trace })
}
/// what a run prints on standard error when nothing is wrong
fn banner(env: &Env, b: u8) -> Vec<u8> {
    let c = CliCase { bin: b, args: vec![], valid: true, w: 2, h: 2, frames: Some(1), rate: None, in_len: 6, in_seed: 1, in_missing: false, stdin: false, stdout: false, existing: None, names: 0, plan: vec![] };
    let i = content(6, 1);
    let o = run(env, &Job { bin: bin(env, b), args: c.canonical(), input: Some(&i), stdin: false, stdout: false, existing: None, names: 0, keep_out: false, plan: &[], frames: false, trace: false });
    o.stderr
}
fn stream<'a>(c: &CliCase, o: &'a Outcome) -> Option<&'a [u8]> { if c.stdout { Some(&o.stdout) } else { o.out.as_deref() } }

fn describe(o: &Outcome) -> String {
    let mut s = format!("{}; stderr: {:?}; bytes read {}, written {}", o.verdict(), String::from_utf8_lossy(&o.stderr).lines().last().unwrap_or("").to_string(), o.st.in_bytes, o.st.out_bytes);
    if !o.st.trace.is_empty() { s.push_str(&format!("; calls: {}", o.st.trace.iter().take(40).cloned().collect::<Vec<_>>().join(" | "))); }
    s
}
fn hex(b: &[u8]) -> String { let mut s: String = b.iter().take(48).map(|x| format!("{:02x}", x)).collect(); if b.len() > 48 { s.push_str("..."); } s }

fn note(c: &CliCase, o: &Outcome, cov: &mut Cov) -> u64 {
    cov.steps += o.st.ops;
    for i in 0..10 { cov.faults(match i { 0 => "short_io", 1 => "interrupted_call", 2 => "io_error", 3 => "zero_write", 4 => "crash_before_call", 5 => "crash_after_call", 6 => "torn_write", 7 => "allocation_failure", 8 => "allocation_failure_persistent", _ => "io_error_persistent" }, o.st.injected[i]); }
    cov.faults("chunked_read", o.st.chunked_reads);
    cov.faults("chunked_write", o.st.chunked_writes);
    cov.faults("device_full", o.st.cap_hits);
    cov.faults("allocation_refused_by_memory_limit", o.st.mem_refused);
    if c.plan.iter().any(|p| matches!(p, Plan::World(_))) { cov.fault("other_clock_random_numbers_and_environment"); }
    if o.st.clock_reads > 0 { cov.note("runs_reading_a_clock", 1); }
    if o.st.env_reads > 0 { cov.note("unset_environment_variables_with_a_value", o.st.env_reads); }
    if o.st.random_reads > 0 { cov.note("runs_reading_random_numbers", 1); }
    if c.in_missing { cov.fault("missing_input"); }
    if !c.valid { cov.fault("malformed_arguments"); }
    if c.endless() { cov.fault("endless_input"); }
    let mut h = o.st.hash;
    h = fnv(h, o.code.unwrap_or(-1) as u64);
    for a in &c.args { for b in a.bytes() { h = fnv(h, b as u64); } h = fnv(h, 0x20); }
    h = fnv(h, c.in_len); fnv(h, c.stdin as u64 * 2 + c.stdout as u64)
}
fn trivial(c: &CliCase, o: &Outcome) -> bool {
    c.valid && !c.in_missing && o.st.injected.iter().sum::<u64>() + o.st.chunked_reads + o.st.chunked_writes + o.st.cap_hits == 0
}

pub fn exec(env: &Env, c: &CliCase, prop: &str, cov: &mut Cov, trace: bool) -> Result<(), Viol> {
    let input = content(c.in_len, c.in_seed);
    let v = |m: String| -> Result<(), Viol> { Err(Viol { prop: prop.to_string(), msg: m }) };
    let needs_golden = c.valid && prop != "C07" && prop != "C17" && prop != "C19";
    let g = if needs_golden { Some(golden(env, c, &input)) } else { None };
    let o = perturbed(env, c, &input, trace);
    if !o.st.live { cov.note("runs_without_seam", 1); }
    let h = note(c, &o, cov);
    if !trivial(c, &o) { cov.seen(h); }
    let alloc_fail = o.st.injected[7] + o.st.injected[8] > 0;
    let s = stream(c, &o).map(|x| x.to_vec());
    match prop {
        "C01" => {
            let g = g.unwrap();
            if !g.ok() || !o.ok() { return Ok(()); }
            let want = g.out.clone().unwrap_or_default();
            let got = s.unwrap_or_default();
            if got != want { return v(format!("exit 0 but the output is {} ({} bytes), the whole stream is {} ({} bytes); {}", hex(&got), got.len(), hex(&want), want.len(), describe(&o))); }
        }
        "C02" => {
            if c.valid && !c.in_missing && !c.args.iter().any(|a| a.starts_with("@OUT/")) {
                let hard = o.st.injected[2] + o.st.injected[9] + o.st.injected[3] + o.st.cap_hits;
                if hard == 0 && (c.expect_ok() || alloc_fail) { if o.hung() { return v(format!("does not end; {}", describe(&o))); } return Ok(()); }
                let g = g.unwrap();
                if hard == 0 && o.ok() { return v(format!("input of {} bytes ends inside a frame of {} bytes that was asked for (limit {:?}), yet the run reports success; {}", c.in_len, c.fs(), c.frames, describe(&o))); }
                if o.ok() {
                    let complete = g.ok() && s.as_deref() == g.out.as_deref() && o.st.in_bytes >= (c.want() * c.fs()).min(c.in_len);
                    if !complete { return v(format!("a call failed, yet the run reports success; {}", describe(&o))); }
                    return Ok(());
                }
            } else if o.ok() {
                return v(format!("arguments {:?} should be refused, yet the run reports success; {}", c.args, describe(&o)));
            }
            if o.hung() { return v(format!("does not end after a failure; {}", describe(&o))); }
            if o.st.crashed { return Ok(()); }
            if o.code.is_none() && !alloc_fail { return v(format!("killed by a signal instead of reporting the failure; {}", describe(&o))); }
            let b = banner(env, c.bin);
            if o.stderr.is_empty() || o.stderr == b { return v(format!("fails without a diagnostic on standard error; {}", describe(&o))); }
        }
        "C03" => {
            let g = g.unwrap();
            if g.hung() { return Ok(()); }
            if o.hung() { return v(format!("does not end; {}", describe(&o))); }
            if g.ok() != o.ok() { return v(format!("plain run: {}, same input and options perturbed: {}", describe(&g), describe(&o))); }
            if g.ok() {
                let (a, b) = (g.out.clone().unwrap_or_default(), s.unwrap_or_default());
                if a != b { return v(format!("plain run wrote {}, perturbed run wrote {} with {:?}; {}", hex(&a), hex(&b), c.args, describe(&o))); }
            }
        }
        "C04" => {
            let (fs, want) = (c.fs(), c.want());
            if o.hung() { return v(format!("does not end within {} I/O steps: {} bytes of input, {} byte frames, limit {:?}; {}", o.st.ops, c.in_len, fs, c.frames, describe(&o))); }
            if c.expect_ok() != o.ok() {
                return v(format!("input of {} bytes, {} byte frames, limit {:?}: should {}, but {}", c.in_len, fs, c.frames, if c.expect_ok() { "succeed" } else { "fail" }, describe(&o)));
            }
            if o.ok() && o.st.live {
                if o.st.in_bytes < want * fs { return v(format!("{} frames of {} bytes wanted, only {} bytes read; {}", want, fs, o.st.in_bytes, describe(&o))); }
                if o.st.in_bytes > want * fs + fs + (1 << 20) { return v(format!("{} frames of {} bytes wanted, {} bytes read; {}", want, fs, o.st.in_bytes, describe(&o))); }
            }
        }
        "C05" => {
            let g = g.unwrap();
            if !o.in_intact { return v(format!("the input file was modified; {}", describe(&o))); }
            if !g.in_intact { return v("the input file was modified by a plain run".into()); }
            if !g.ok() { return Ok(()); }
            let want = g.out.clone().unwrap_or_default();
            if let Some(got) = &s {
                let old = c.existing.map(|(l, x)| content(l, x));
                if !want.starts_with(got) && !(old.as_deref() == Some(&got[..]) && !c.stdout) {
                    return v(format!("the output holds {} ({} bytes), not a prefix of {} ({} bytes); {}", hex(got), got.len(), hex(&want), want.len(), describe(&o)));
                }
            }
            if o.st.crashed && !c.stdout && !c.endless() {
                // restart after the crash: the same command, undisturbed, completes over whatever was left
                cov.fault("restart_after_crash");
                let re = run(env, &Job { bin: bin(env, c.bin), args: c.args.clone(), input: Some(&input), stdin: c.stdin, stdout: false, existing: None, names: c.names, keep_out: true, plan: &[], frames: false, trace: false });
                if !re.ok() || re.out.as_deref() != Some(&want[..]) {
                    return v(format!("after a crash the same command gives {} instead of {}; {}", re.out.as_deref().map(hex).unwrap_or_default(), hex(&want), describe(&re)));
                }
            }
        }
        "C06" => {
            if o.ok() || c.stdout { return Ok(()); }
            if c.valid && !c.in_missing && o.st.injected[2] + o.st.injected[9] == 0 { return Ok(()); }
            let old = c.existing.map(|(l, x)| content(l, x));
            if o.out != old {
                return v(format!("run refused ({}), but the output file went from {} to {}; arguments {:?}", describe(&o), old.as_deref().map(|b| format!("{} bytes", b.len())).unwrap_or("absent".into()), o.out.as_deref().map(|b| format!("{} bytes", b.len())).unwrap_or("absent".into()), c.args));
            }
        }
        "C07" => {
            if !o.ok() {
                if c.expect_ok() && o.st.injected.iter().sum::<u64>() == 0 && c.want() > 0 { return v(format!("{}x{}: no stream; {}", c.w, c.h, describe(&o))); }
                return Ok(());
            }
            if c.want() == 0 { return Ok(()); }
            let s = s.unwrap_or_default();
            let bad = |m: String| Err(Viol { prop: prop.to_string(), msg: format!("{}x{}: {}; stream {}", c.w, c.h, m, hex(&s)) });
            let tus = match split_units(&s) { Ok(t) => t, Err(e) => return bad(e) };
            let first = match tus.first().and_then(|t| t.iter().flatten().find(|o| obu_header(o).map(|x| x.0 != 2).unwrap_or(true))) { Some(o) => o, None => return bad("the first temporal unit holds no unit".into()) };
            for o in tus.iter().flatten().flatten() { if let Err(e) = obu_header(o) { return bad(e); } }
            let (t, off) = match obu_header(first) { Ok(x) => x, Err(e) => return bad(e) };
            if t != 1 { return bad(format!("starts with unit type {} instead of a sequence header", t)); }
            match seq_size(&first[off..]) { Ok((w, h)) => if (w, h) != (c.w, c.h) { return bad(format!("header announces {}x{}", w, h)); }, Err(e) => return bad(format!("sequence header: {}", e)) }
        }
        "C13" => {
            let g = g.unwrap();
            if !g.ok() { return Ok(()); }
            let want = g.out.clone().unwrap_or_default();
            if let Err(e) = split_units(&want).and_then(|t| { for o in t.iter().flatten().flatten() { obu_header(o)?; } Ok(()) }) { return v(format!("{}; stream {}", e, hex(&want))); }
            let got = s.unwrap_or_default();
            if o.ok() && got != want { return v(format!("reports success but wrote {} instead of {}; {}", hex(&got), hex(&want), describe(&o))); }
            if !o.ok() && !want.starts_with(&got) { return v(format!("fails after writing {}, not a prefix of {}; {}", hex(&got), hex(&want), describe(&o))); }
            if o.hung() { return v(format!("does not end; {}", describe(&o))); }
        }
        "C19" => {
            let wanted = c.args.iter().any(|a| a == "-h" || a == "--help");
            let plain = if wanted { run(env, &Job { bin: bin(env, 0), args: vec!["--help".into()], input: Some(&input), stdin: false, stdout: true, existing: None, names: 0, keep_out: false, plan: &[], frames: false, trace: false }) } else { o.clone() };
            let help = if wanted { plain.stdout.clone() } else { vec![] };
            if wanted {
                if !plain.ok() { return v(format!("a plain request for help fails; {}", describe(&plain))); }
                let t = String::from_utf8_lossy(&help).to_string();
                for n in ["--help", "--input", "--output", "--frames", "--size", "--framerate"] { if !t.contains(n) { return v(format!("the help text does not mention {}: {:?}", n, t)); } }
            }
            if o.hung() { return v(format!("does not end; {}", describe(&o))); }
            let ex = c.existing.map(|(l, s)| content(l, s));
            if o.out != ex { return v(format!("the output file was {} and is {} afterwards; {}", ex.map(|e| format!("{} bytes", e.len())).unwrap_or("absent".into()), o.out.as_ref().map(|e| hex(e)).unwrap_or("absent".into()), describe(&o))); }
            if !o.in_intact { return v(format!("the input file was changed; {}", describe(&o))); }
            if o.st.crashed { if !help.starts_with(&o.stdout) { return v(format!("killed after printing {:?}, no part of the help text", String::from_utf8_lossy(&o.stdout))); } return Ok(()); }
            if o.ok() {
                if o.stdout != help { return v(format!("reports success after printing {} of {} bytes of help, or other ones; {}", o.stdout.len(), help.len(), describe(&o))); }
            } else {
                let hard = o.st.injected[2] + o.st.injected[3] + o.st.injected[9] + o.st.cap_hits + o.st.injected[7] + o.st.injected[8];
                if hard == 0 { return v(format!("fails though no call failed; {}", describe(&o))); }
                if !help.starts_with(&o.stdout) { return v(format!("fails after printing {:?}, no part of the help text", String::from_utf8_lossy(&o.stdout))); }
                if o.code.is_none() && !alloc_fail { return v(format!("killed by a signal; {}", describe(&o))); }
            }
        }
        "C17" => {
            cov.note("peak_heap_max", o.st.peak_heap);
            if !o.ok() && o.st.mem_refused > 0 {
                let cap = c.plan.iter().filter_map(|p| if let Plan::MemCap(n) = p { Some(*n) } else { None }).next().unwrap_or(0);
                return v(format!("{}x{}, {} frames of {} bytes: {} bytes of memory (twice what two frames need, and 4 MiB) are not enough; {}", c.w, c.h, c.limit(), c.fs(), cap, describe(&o)));
            }
            if o.st.files_refused > 0 { return v(format!("{}x{}, {} frames: the run keeps opening files until it may open no more ({} times refused); {}", c.w, c.h, c.limit(), o.st.files_refused, describe(&o))); }
            if !o.ok() && o.st.ops > 0 && !o.hung() { return v(format!("{}x{}, {} frames from an input that never ends: the run fails; {}", c.w, c.h, c.limit(), describe(&o))); }
        }
        _ => { // C14
            let g = g.unwrap();
            let want = c.want();
            if want > 0 && g.ok() && g.frames.is_empty() { cov.note("hook_missing", 1); return Ok(()); }
            let mut exp = vec![];
            let (y, u) = ((c.w * c.h) as usize, (((c.w + 1) / 2) * ((c.h + 1) / 2)) as usize);
            let fh = |b: &[u8]| { let mut h = 0xcbf29ce484222325u64; for x in b { h = (h ^ *x as u64).wrapping_mul(0x100000001b3); } h };
            for i in 0..want as usize {
                let f = &input[i * (y + 2 * u)..];
                exp.push(format!("{} {}:{:016x} {}:{:016x} {}:{:016x}", i, y, fh(&f[..y]), u, fh(&f[y..y + u]), u, fh(&f[y + u..y + 2 * u])));
            }
            let hard = o.st.injected[2..].iter().sum::<u64>() + o.st.cap_hits > 0;
            for (r, what) in [(&g, "plain"), (&o, "perturbed")] {
                for (i, l) in r.frames.iter().enumerate() {
                    if exp.get(i) != Some(l) { return v(format!("{} run, frame {}: the encoder has {:?}, the input says {:?} (planes as length:hash); {}", what, i, l, exp.get(i), describe(&o))); }
                }
                if (r.ok() || (c.expect_ok() && (what == "plain" || !hard))) && r.frames.len() as u64 != want { return v(format!("{} run: {} of {} frames reached the encoder; {}", what, r.frames.len(), want, describe(r))); }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- generation
fn dims(r: &mut Rng) -> (u64, u64) {
    match r.below(12) {
        10 => (r.log(600), r.log(600)),
        0 => (r.log(8191), r.log(6)),
        1 => (r.log(6), r.log(8191)),
        2 => { let w = r.range(64, 200); let k = r.range(1, 3) * 8192; (w, ((k / w) + r.below(3)).saturating_sub(1).max(1)) } // planes around the buffer size
        3 => (*r.pick(&[16, 176, 352, 128]), *r.pick(&[16, 144, 96])),
        _ => (r.log(40), r.log(40)),
    }
}
fn mk_args(r: &mut Rng, c: &CliCase, shuffle: bool) -> Vec<String> {
    let mut o: Vec<(&str, &str, String)> = vec![
        ("-i", "--input", if c.stdin { "stdin".into() } else { "@IN".into() }),
        ("-o", "--output", if c.stdout { "stdout".into() } else { "@OUT".into() }),
        ("-s", "--size", format!("{}x{}", c.w, c.h)),
    ];
    if let Some(n) = c.frames { o.push(("-fr", "--frames", n.to_string())); }
    if let Some(x) = &c.rate { o.push(("-r", "--framerate", x.clone())); }
    if shuffle { for i in (1..o.len()).rev() { let j = r.us(0, i); o.swap(i, j); } }
    let mut a = vec![];
    for (s, l, v) in o { a.push(if shuffle && r.chance(1, 2) { l.to_string() } else { s.to_string() }); a.push(v); }
    a
}
fn base(r: &mut Rng) -> CliCase {
    let (w, h) = dims(r);
    let mut c = CliCase { bin: r.below(2) as u8, args: vec![], valid: true, w, h, frames: None, rate: None, in_len: 0, in_seed: r.next(), in_missing: false, stdin: r.chance(1, 3), stdout: r.chance(1, 3), existing: None, names: 0, plan: vec![] };
    let fs = c.fs();
    let max = (200_000 / fs).clamp(1, 30);
    let have = match r.below(8) { 0 => 1, 1 => 2, _ => r.range(1, max) };
    c.in_len = have * fs;
    c.frames = match r.below(5) { 0 => None, 1 => Some(1), 2 => Some(have), 3 => Some(have + r.range(1, 5)), _ => Some(r.range(1, have)) };
    c.rate = match r.below(6) { 2 => Some(format!("{}/{}", r.log(60), r.log(12))), 0 => Some(format!("{}/{}", r.range(1, 60000), r.range(1, 1001))), 1 => Some(r.range(1, 240).to_string()), _ => None };
    if r.chance(1, 2) { c.existing = Some((r.log(3000), r.next())); }
    if r.chance(1, 4) { c.names = r.range(1, NAMES.len() as u64 - 1) as u8; }
    c
}
fn chunks(r: &mut Rng, c: &mut CliCase) {
    if r.chance(2, 3) {
        let fs = c.fs();
        let mut k = match r.below(8) { 0 => 1, 1 => 2, 2 => fs.saturating_sub(1).max(1), 3 => fs + 1, 4 => c.w * c.h, 5 => 4096, 6 => 8191, _ => r.log(9000) };
        if c.in_len / k > 20000 { k = c.in_len / 5000 + 1; }
        let s = if r.chance(1, 2) { r.next() | 1 } else { 0 };
        let s = if c.in_len > 60000 { 0 } else { s };
        c.plan.push(Plan::ChunkR(k, s));
    }
    if r.chance(1, 2) { let k = r.log(20); let s = if r.chance(1, 2) { r.next() | 1 } else { 0 }; c.plan.push(Plan::ChunkW(k, s)); }
}
const EIO: i64 = 5; const ENOENT: i64 = 2; const EACCES: i64 = 13; const EMFILE: i64 = 24; const ENOSPC: i64 = 28; const EPIPE: i64 = 32; const EROFS: i64 = 30; const EISDIR: i64 = 21; const EFBIG: i64 = 27; const EDQUOT: i64 = 122; const ENXIO: i64 = 6; const ENOTDIR: i64 = 20; const ENFILE: i64 = 23;
const EAGAIN: i64 = 11; const ENOMEM: i64 = 12; const EINVAL: i64 = 22; const EPERM: i64 = 1; const ELOOP: i64 = 40; const ENAMETOOLONG: i64 = 36; const ETIMEDOUT: i64 = 110; const ECONNRESET: i64 = 104; const ESTALE: i64 = 116; const ETXTBSY: i64 = 26;

fn idx(r: &mut Rng, n: u64) -> u64 { if n == 0 { 0 } else { match r.below(5) { 0 => 0, 1 => n - 1, _ => r.below(n) } } }

fn benign(r: &mut Rng, c: &mut CliCase, p: &Stats) {
    for _ in 0..r.below(6) {
        let f = match r.below(8) {
            0 | 1 => Plan::Fault("r", idx(r, p.reads), "eintr", 0),
            2 => Plan::Fault("r", idx(r, p.reads), "short", r.log(64) as i64),
            3 | 4 => Plan::Fault("w", idx(r, p.writes + 1), "eintr", 0),
            5 => Plan::Fault("w", idx(r, p.writes + 1), "short", r.log(12) as i64),
            6 => Plan::Fault("oi", 0, "eintr", 0),
            _ => Plan::Fault("oo", 0, "eintr", 0),
        };
        c.plan.push(f);
    }
    if r.chance(1, 6) { let s = idx(r, p.reads); for k in 0..r.log(12) { c.plan.push(Plan::Fault("r", s + k, "eintr", 0)); } }
}
const OPEN_OUT: [i64; 12] = [ENOSPC, EACCES, EMFILE, ENFILE, EIO, ENOTDIR, EPERM, EROFS, EISDIR, ENOMEM, EDQUOT, ENXIO];
const OPEN_IN: [i64; 12] = [ENOENT, EACCES, EMFILE, ENFILE, EIO, ENOTDIR, EPERM, ELOOP, ENAMETOOLONG, ENOMEM, EINVAL, ENXIO];
const READ: [i64; 9] = [EIO, EISDIR, ENXIO, EAGAIN, ETIMEDOUT, ENOMEM, EINVAL, ECONNRESET, ESTALE];
fn hard(r: &mut Rng, c: &mut CliCase, p: &Stats) {
    match r.below(7) {
        0 => c.plan.push(Plan::Fault("oi", 0, "err", *r.pick(&OPEN_IN))),
        1 => c.plan.push(Plan::Fault("oo", 0, "err", *r.pick(&[EACCES, ENOSPC, EROFS, EISDIR, EMFILE, EDQUOT, ENOENT, EPERM, ELOOP, ENAMETOOLONG, ENOMEM, ETXTBSY, EINVAL, ENXIO, EIO]))),
        2 => c.plan.push(Plan::Fault("r", idx(r, p.reads), "err", *r.pick(&READ))),
        3 => c.plan.push(Plan::Fault("r", idx(r, p.reads), "errfrom", *r.pick(&READ))),
        4 => c.plan.push(Plan::Fault("w", idx(r, p.writes), *r.pick(&["err", "errfrom"]), *r.pick(&[EIO, ENOSPC, EPIPE, EDQUOT, EFBIG, EAGAIN, ETIMEDOUT, ENOMEM, EINVAL, EPERM, ESTALE, ECONNRESET]))),
        5 => c.plan.push(Plan::Fault("w", idx(r, p.writes), "zero", 0)),
        _ => c.plan.push(Plan::Disk(r.below(p.out_bytes.max(1)), *r.pick(&[ENOSPC, EDQUOT, EFBIG, EPIPE]) as i32)),
    }
}
fn probe(env: &Env, c: &CliCase) -> Stats {
    let input = content(c.in_len, c.in_seed);
    perturbed(env, c, &input, false).st
}
fn invalid(r: &mut Rng, c: &mut CliCase) {
    c.valid = false;
    let mut a = mk_args(r, c, r.clone().chance(1, 2));
    fn set(a: &mut Vec<String>, names: [&str; 2], v: &str) {
        if let Some(i) = a.iter().position(|x| x == names[0] || x == names[1]) { a[i + 1] = v.to_string(); } else { a.push(names[0].into()); a.push(v.into()); }
    }
    fn del(a: &mut Vec<String>, names: [&str; 2]) { if let Some(i) = a.iter().position(|x| x == names[0] || x == names[1]) { a.drain(i..i + 2); } }
    match r.below(11) {
        10 => { // a malformed value, then a good one for the same option
            let (n, v) = *r.pick(&[("-s", "5x"), ("-s", "axb"), ("--size", ""), ("-fr", "x"), ("--frames", "-1"), ("-r", "1/0"), ("--framerate", "a/b"), ("-r", "")]);
            if r.chance(1, 2) { a.push("-r".into()); a.push("25".into()); }
            a.insert(0, v.into()); a.insert(0, n.into());
        }
        9 if r.chance(1, 60) => { // very many options before the one that is wrong
            let n = r.range(300, 900);
            let (o, v) = *r.pick(&[("-fr", "3"), ("--size", "16x16"), ("-r", "30/1"), ("--framerate", "25")]);
            let mut b = vec![];
            for _ in 0..n { b.push(o.to_string()); b.push(v.to_string()); }
            b.extend(a);
            a = b;
            match r.below(3) { 0 => a.push("-z".into()), 1 => a.push("-s".into()), _ => { a.push("-fr".into()); a.push("many".into()); } }
            c.plan.push(Plan::MemCap(8 << 20));
        }
        8 | 9 => { // an option name that is almost right
            let i = 2 * r.us(0, a.len() / 2 - 1);
            let long = a[i].starts_with("--");
            let n = a[i].clone();
            let val = a[i + 1].clone();
            match r.below(7) {
                0 => a[i] = n.to_uppercase(),
                1 => a[i] = format!("{}x", n),
                2 if long => { a[i].pop(); }
                3 => { a[i] = format!("{}={}", n, val); a.remove(i + 1); }
                4 if !long => { a[i] = format!("{}{}", n, val); a.remove(i + 1); }
                5 => a[i] = n.trim_start_matches('-').to_string(),
                6 if long => a[i] = n[1..].to_string(),
                _ => a[i] = if long { format!("-{}", n) } else { format!("-{}", n) },
            }
        }
        0 => { let n = *r.pick(&[["-i", "--input"], ["-o", "--output"], ["-s", "--size"]]); del(&mut a, n); }
        1 | 2 => {
            let x = r.log(8191); let y = 8191 + r.log(1 << 40);
            let v = match r.below(26) {
                0 => "0x5".into(), 1 => "5x0".into(), 2 => "0x0".into(), 3 => format!("{}x{}", y, x), 4 => format!("{}x{}", x, y), 5 => "8192x16".into(), 6 => "16x8192".into(), 7 => "axb".into(), 8 => format!("{}", x),
                9 => "5x5x5".into(), 10 => "".into(), 11 => "5x".into(), 12 => "x5".into(), 13 => "-1x5".into(), 14 => "5,5".into(), 15 => "99999999999999999999999x1".into(), 16 => "65537x1".into(),
                17 => "5X5".into(), 18 => " 5x5".into(), 19 => "5x5 ".into(), 20 => "5 x 5".into(), 21 => "1e1x5".into(), 22 => "5x5.0".into(), 23 => "٥x٥".into(), 24 => "5*5".into(), _ => "1x4294967297".into(),
            };
            set(&mut a, ["-s", "--size"], &v);
        }
        3 => { let v = *r.pick(&["abc", "-1", "1.5", "", "99999999999999999999999", "0x10", "ten", " 5", "5 ", "5k", "1e3", "1_000", "5,", "--", "18446744073709551616"]); set(&mut a, ["-fr", "--frames"], v); }
        4 => { let v = *r.pick(&["0", "0/1", "1/0", "0/0", "a/b", "1/2/3", "/", "30/", "/30", "", "-30", "30.5", "30:1", "30 /1", "30/1 ", "30//1", "30000,1001", "nan", "inf", "1/18446744073709551616", "ntsc"]); set(&mut a, ["-r", "--framerate"], v); }
        5 => {
            let v = *r.pick(&["-z", "--foo", "-", "--", "", "input", "é", "-é", "--é", "---i", "-ii", "--i", "-input", "日本", "i"]);
            let k = a.len() / 2; let at = 2 * r.us(0, k);
            a.insert(at, v.into());
            if r.chance(1, 2) { a.insert(at + 1, "x".into()); }
        }
        6 => { // the last option lacks its argument
            let v = *r.pick(&["-i", "-o", "-s", "-fr", "-r", "--input", "--output", "--size", "--frames", "--framerate"]);
            a.push(v.into());
        }
        _ => { let k = a.len() - 2 * r.us(1, a.len() / 2); a.truncate(k + 1); }
    }
    // truncation may by chance leave nothing at all; that is a request for nothing, not a refused run
    if a.is_empty() { a.push("-s".into()); }
    c.args = a;
}

pub fn gen(env: &Env, prop: &str, index: u64, r: &mut Rng, thorough: bool) -> CliCase {
    let mut c = base(r);
    let sh = r.chance(1, 4);
    match prop {
        "C01" | "C13" => {
            if prop == "C13" { c.existing = None; }
            c.args = mk_args(r, &c, sh);
            chunks(r, &mut c);
            let p = probe(env, &c);
            if r.chance(1, 2) { benign(r, &mut c, &p); }
            match r.below(10) {
                0..=3 => c.plan.push(Plan::Disk(r.below(p.out_bytes + 2), *r.pick(&[ENOSPC, EDQUOT, EPIPE]) as i32)),
                4 | 5 => c.plan.push(Plan::Fault("w", idx(r, p.writes), *r.pick(&["err", "errfrom", "zero", "short"]), *r.pick(&[EIO, ENOSPC, EPIPE]))),
                6 => c.plan.push(Plan::Fault("m", idx(r, p.allocs), *r.pick(&["fail", "failfrom"]), 0)),
                7 => hard(r, &mut c, &p),
                _ => {}
            }
        }
        "C02" => {
            match r.below(5) {
                0 | 1 => { c.stdin = false; invalid(r, &mut c); }
                2 if r.chance(1, 3) => {
                    c.stdin = false; c.stdout = false;
                    if r.chance(1, 2) { c.in_missing = true; c.args = mk_args(r, &c, sh); }
                    else { c.args = mk_args(r, &c, sh); for a in c.args.iter_mut() { if a == "@OUT" { *a = "@OUT/x".into(); } } }
                }
                _ => {
                    if r.chance(1, 3) { c.stdin = false; c.stdout = false; }
                    let torn = r.chance(1, 6) && c.fs() > 1; // the input ends inside a frame that is wanted
                    if torn {
                        c.in_len += match r.below(5) { 0 => 1, 1 => c.fs() - 1, 2 => (c.w * c.h).min(c.fs() - 1), 3 => c.w * c.h + (c.fs() - c.w * c.h) / 2, _ => r.range(1, c.fs() - 1) };
                        if c.frames.is_some() { c.frames = Some(c.in_len / c.fs() + r.range(1, 3)); }
                    }
                    c.args = mk_args(r, &c, sh);
                    chunks(r, &mut c);
                    let p = probe(env, &c);
                    if r.chance(1, 4) { benign(r, &mut c, &p); }
                    if !torn || r.chance(1, 3) { hard(r, &mut c, &p); }
                }
            }
        }
        "C03" => {
            if r.chance(1, 5) && c.fs() > 1 { c.in_len += r.range(1, c.fs() - 1); } // ends inside a frame
            if r.chance(1, 12) { c.in_len = 0; }
            c.args = mk_args(r, &c, true);
            chunks(r, &mut c);
            let p = probe(env, &c);
            benign(r, &mut c, &p);
            if r.chance(3, 4) { c.plan.push(Plan::World(r.next() >> 24)); }
        }
        "C04" => {
            let fs = c.fs();
            match r.below(10) {
                0 => { c.in_len = 0; }
                1 => { c.in_len = r.below(fs); }
                2 | 3 => { c.in_len += r.below(fs); }
                4 => { c.in_len = (c.in_len / fs) * fs - 1; }
                5 => { c.frames = Some(c.in_len / fs); if r.chance(1, 2) { c.in_len += r.below(fs); } }
                6 => { c.frames = Some(0); if r.chance(1, 2) { c.in_len += r.below(fs); } }
                7 => { // many frames
                    c.w = r.range(1, 4); c.h = r.range(1, 4);
                    let mut n = if thorough { r.log(400_000) } else { r.log(70_000) };
                    if r.chance(1, 8) { c.w = 1; c.h = 1; n = *r.pick(&[255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537]); }
                    c.in_len = n * c.fs() + if r.chance(1, 3) { r.below(c.fs()) } else { 0 };
                    c.frames = match r.below(4) { 0 => None, 1 => Some(n), 2 => Some(r.range(1, n)), _ => Some(n + r.range(1, 1 << 33)) };
                }
                8 if r.chance(1, 2) => { // limits whose low bits are small or zero
                    let n = c.in_len / fs;
                    c.frames = Some((r.range(1, 5) << *r.pick(&[8, 16, 31, 32, 33, 48])) + r.below(n + 1));
                }
                _ => { // an input that never ends
                    let n = c.in_len / fs;
                    c.frames = Some(r.range(1, n));
                    c.plan.push(Plan::Endless(r.next() >> 1 | 1));
                }
            }
            c.args = mk_args(r, &c, sh);
            chunks(r, &mut c);
            if r.chance(1, 3) { let p = Stats { reads: (c.in_len / 4000).max(4), writes: 1, ..Default::default() }; benign(r, &mut c, &p); }
            let bytes = if c.endless() { c.limit() * c.fs() } else { c.in_len };
            c.plan.push(Plan::MaxOps(4 * bytes + 20_000));
        }
        "C05" => {
            c.args = mk_args(r, &c, sh);
            chunks(r, &mut c);
            let p = probe(env, &c);
            if r.chance(1, 4) { benign(r, &mut c, &p); }
            match r.below(10) {
                0 | 1 => c.plan.push(Plan::Fault("g", idx(r, p.ops), "crash", 0)),
                2 => c.plan.push(Plan::Fault("oo", 0, *r.pick(&["crash", "crashafter"]), 0)),
                3 | 4 => c.plan.push(Plan::Fault("w", idx(r, p.writes), "torn", r.below(16) as i64)),
                5 => c.plan.push(Plan::Fault("w", idx(r, p.writes), *r.pick(&["crash", "crashafter"]), 0)),
                6 => c.plan.push(Plan::Fault("r", idx(r, p.reads), "crashafter", 0)),
                7 => c.plan.push(Plan::Fault("m", idx(r, p.allocs), *r.pick(&["fail", "failfrom"]), 0)),
                _ => hard(r, &mut c, &p),
            }
        }
        "C06" => {
            c.stdin = false; c.stdout = false;
            c.existing = if r.chance(3, 4) { Some((r.log(3000), r.next())) } else { None };
            match r.below(6) {
                5 => { c.args = mk_args(r, &c, sh); c.plan.push(Plan::Fault("oo", 0, *r.pick(&["err", "errfrom"]), *r.pick(&OPEN_OUT))); }
                0 => { c.in_missing = true; c.args = mk_args(r, &c, sh); }
                1 => { c.args = mk_args(r, &c, sh); c.plan.push(Plan::Fault("oi", 0, *r.pick(&["err", "errfrom"]), *r.pick(&OPEN_IN))); }
                _ => invalid(r, &mut c),
            }
        }
        "C07" => {
            // systematic part: every width and every height once; then random pairs
            c.stdin = r.chance(1, 6);
            if index < 8191 { c.w = index + 1; c.h = r.log(12); }
            else if index < 2 * 8191 { c.h = index - 8191 + 1; c.w = r.log(12); }
            else if r.chance(1, 3) {
                let near = |r: &mut Rng| { let b = 1u64 << r.range(0, 13); (b + r.below(5)).saturating_sub(2).clamp(1, 8191) };
                c.w = near(r); c.h = near(r);
            } else { c.w = r.log(8191); c.h = r.log(8191); }
            const BIG: [(u64, u64); 14] = [(8191, 8191), (4096, 4096), (8191, 4096), (4097, 4095), (8190, 8190), (5000, 5000), (3840, 2160), (2160, 3840), (7680, 4320), (4320, 7680), (2048, 8191), (8191, 2049), (6000, 3001), (1920, 1080)];
            let big = index >= 2 * 8191 && index < 2 * 8191 + BIG.len() as u64;
            // all pairs of sides around powers of two, then (thorough) pairs of any large sides
            const SIDES: [u64; 8] = [2047, 2048, 2049, 4095, 4096, 4097, 8190, 8191];
            let k = index.wrapping_sub(2 * 8191 + BIG.len() as u64);
            let big = big || k < if thorough { 1000 } else { 64 };
            if big {
                let (w, h) = BIG.get((index - 2 * 8191) as usize).cloned().unwrap_or_else(|| if k < 64 { (SIDES[k as usize % 8], SIDES[k as usize / 8]) } else { (r.range(1200, 8191), r.range(1200, 8191)) }); c.w = w; c.h = h; c.bin = 1; c.plan.push(Plan::Cpu(100)); }
            let cap = if big { 1 << 40 } else if thorough { 8_000_000 } else { 1_500_000 };
            while c.w * c.h > cap { if c.w > c.h { c.w = c.w / 2 + 1 } else { c.h = c.h / 2 + 1 } }
            let n = if c.fs() < 4000 { r.range(1, 5) } else { 1 };
            c.in_len = n * c.fs();
            c.frames = if r.chance(1, 2) { None } else { Some(r.range(1, n + 2)) };
            if big { c.in_len = 0; c.frames = Some(1); c.plan.push(Plan::Endless(r.next() >> 1 | 1)); }
            c.args = mk_args(r, &c, sh);
            if c.fs() < 20000 { chunks(r, &mut c); } else if r.chance(1, 2) { c.plan.push(Plan::ChunkR(r.range(3000, 9000), 0)); }
        }
        "C19" => {
            c.stdin = false; c.stdout = false;
            let mut a = mk_args(r, &c, true);
            let k = 2 * r.us(0, a.len() / 2);
            match r.below(8) {
                0 => a.clear(),
                1 | 2 => a = vec![if r.chance(1, 2) { "-h".into() } else { "--help".into() }],
                3 => { a.truncate(k); a.push(if r.chance(1, 2) { "-h".into() } else { "--help".into() }); }
                _ => a.insert(k, if r.chance(1, 2) { "-h".into() } else { "--help".into() }),
            }
            c.args = a;
            c.in_len = r.below(100);
            c.in_missing = r.chance(1, 4);
            c.stdout = true; // so that the seam sees what is printed
            let p = probe(env, &c);
            if r.chance(1, 2) { c.plan.push(Plan::ChunkW(r.log(80), if r.chance(1, 2) { r.next() | 1 } else { 0 })); }
            let w = if c.plan.is_empty() { p.writes } else { probe(env, &c).writes };
            for _ in 0..r.below(4) { c.plan.push(Plan::Fault("w", idx(r, w + 1), *r.pick(&["eintr", "short"]), r.log(30) as i64)); }
            match r.below(8) {
                0 | 1 => c.plan.push(Plan::Disk(r.below(p.out_bytes.max(1)), *r.pick(&[ENOSPC, EPIPE, EDQUOT]) as i32)),
                2 | 3 => c.plan.push(Plan::Fault("w", idx(r, w), *r.pick(&["err", "errfrom"]), *r.pick(&[EIO, ENOSPC, EPIPE, EAGAIN]))),
                4 => c.plan.push(Plan::Fault("w", idx(r, w), "zero", 0)),
                5 => c.plan.push(Plan::Fault("g", idx(r, p.ops), "crash", 0)),
                6 if r.chance(1, 2) => c.plan.push(Plan::Fault("m", idx(r, p.allocs), "fail", 0)),
                _ => {}
            }
        }
        "C17" => {
            if r.chance(1, 8) { c.w = r.range(300, 1000); c.h = r.range(300, 1000); }
            let fs = c.fs();
            c.in_len = 2 * fs; c.frames = Some(2); c.existing = None; c.names = 0;
            let mut d = c.clone();
            d.args = mk_args(r, &d, false);
            let p = probe(env, &d);
            let cap = 2 * p.peak_heap + (4 << 20);
            let most = if thorough { 1_000_000 } else { 120_000 };
            let n = (4 * cap / fs + 1).clamp(24, most);
            c.frames = Some(n + r.below(n / 4 + 1));
            c.args = mk_args(r, &c, sh);
            c.plan.push(Plan::Endless(r.next() >> 1 | 1));
            if r.chance(1, 2) { c.plan.push(Plan::ChunkR(if fs < 3000 { r.range(500, 9000) } else { r.range(3000, 100_000) }, 0)); }
            c.plan.push(Plan::MemCap(cap));
            c.plan.push(Plan::MaxOps(u64::MAX >> 1));
            c.plan.push(Plan::Cpu(100));
        }
        _ => { // C14
            c.bin = 2;
            if r.chance(1, 10) { c.w = r.range(1, 3); c.h = r.range(1, 3); c.in_len = r.log(if thorough { 20000 } else { 3000 }) * c.fs(); c.frames = None; }
            if r.chance(1, 150) { c.w = r.range(1, 2); c.h = 1; c.in_len = r.range(3000, 9000) * c.fs(); c.frames = None; } // many frames
            if r.chance(1, 300) { c.w = r.range(600, 2200); c.h = r.range(600, 1500); c.in_len = r.range(1, 3) * c.fs(); } // large planes
            if r.chance(1, 6) { c.in_len += r.below(c.fs()); }
            c.args = mk_args(r, &c, sh);
            chunks(r, &mut c);
            let p = probe(env, &c);
            benign(r, &mut c, &p);
            if r.chance(1, 8) { hard(r, &mut c, &p); }
        }
    }
    c
}

// ---------------------------------------------------------------- shrinking and text form
pub fn shrinks(c: &CliCase) -> Vec<CliCase> {
    let mut v = vec![];
    let mut push = |d: CliCase| v.push(d);
    let n = c.plan.len();
    if n > 1 { let mut d = c.clone(); d.plan.truncate(n / 2); push(d); let mut d = c.clone(); d.plan.drain(..n / 2); push(d); }
    for i in 0..n { let mut d = c.clone(); d.plan.remove(i); push(d); }
    if c.existing.is_some() { let mut d = c.clone(); d.existing = None; push(d); }
    if c.names > 0 { let mut d = c.clone(); d.names = 0; push(d); }
    if c.bin == 1 { let mut d = c.clone(); d.bin = 0; push(d); }
    if c.valid {
        let canon = |d: &CliCase| {
            let mut e = d.clone();
            e.args = d.canonical();
            if d.stdin { e.args[1] = "stdin".into(); }
            if d.stdout { e.args[3] = "stdout".into(); }
            if c.args.iter().any(|a| a == "@OUT/x") { e.args[3] = "@OUT/x".into(); }
            e
        };
        if canon(c).args != c.args { push(canon(c)); }
        if c.stdin { let mut d = c.clone(); d.stdin = false; push(canon(&d)); }
        if c.stdout { let mut d = c.clone(); d.stdout = false; push(canon(&d)); }
        if c.rate.is_some() { let mut d = c.clone(); d.rate = None; push(canon(&d)); }
        let fs = c.fs();
        for (w, h) in [(1, 1), (c.w / 2, c.h), (c.w, c.h / 2), (c.w.saturating_sub(1), c.h), (c.w, c.h.saturating_sub(1))] {
            if w > 0 && h > 0 && (w, h) != (c.w, c.h) {
                let mut d = c.clone();
                let (nf, rem) = (c.in_len / fs, c.in_len % fs);
                d.w = w; d.h = h;
                d.in_len = nf * d.fs() + if rem > 0 { rem.min(d.fs() - 1) } else { 0 };
                push(canon(&d));
            }
        }
        if c.in_len >= 2 * fs {
            for k in [c.in_len / fs / 2, c.in_len / fs - 1] { if !c.endless() { let mut d = c.clone(); d.in_len = k * fs + c.in_len % fs; push(d); } }
        }
        if let Some(f) = c.frames { if f > 1 { for k in [f / 2, f - 1] { let mut d = c.clone(); d.frames = Some(k); push(canon(&d)); } } }
    }
    v
}
pub fn text(c: &CliCase) -> String {
    let mut o = format!("bin {}\nvalid {}\nsize {} {}\nframes {}\nrate {}\ninput {} {} {}\nstdin {}\nstdout {}\n", c.bin, c.valid as u8, c.w, c.h, c.frames.map(|x| x.to_string()).unwrap_or("-".into()), c.rate.clone().unwrap_or("-".into()), c.in_len, c.in_seed, c.in_missing as u8, c.stdin as u8, c.stdout as u8);
    if let Some((l, s)) = c.existing { o.push_str(&format!("existing {} {}\n", l, s)); }
    if c.names > 0 { o.push_str(&format!("names {}\n", c.names)); }
    for a in &c.args { o.push_str(&format!("arg {}\n", a)); }
    for p in &c.plan { o.push_str(&format!("plan {}\n", p.line())); }
    o
}
pub fn parse(t: &str) -> CliCase {
    let mut c = CliCase { bin: 0, args: vec![], valid: true, w: 1, h: 1, frames: None, rate: None, in_len: 0, in_seed: 0, in_missing: false, stdin: false, stdout: false, existing: None, names: 0, plan: vec![] };
    for l in t.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        let n = |i: usize| w[i].parse::<u64>().unwrap();
        match w[0] {
            "bin" => c.bin = n(1) as u8, "valid" => c.valid = n(1) == 1, "size" => { c.w = n(1); c.h = n(2); }
            "frames" => c.frames = w[1].parse().ok(), "rate" => c.rate = if w[1] == "-" { None } else { Some(w[1].into()) },
            "input" => { c.in_len = n(1); c.in_seed = n(2); c.in_missing = n(3) == 1; }
            "names" => c.names = n(1) as u8, "stdin" => c.stdin = n(1) == 1, "stdout" => c.stdout = n(1) == 1, "existing" => c.existing = Some((n(1), n(2))),
            "arg" => c.args.push(l[4..].to_string()), "plan" => c.plan.push(Plan::parse(&w[1..])), _ => {}
        }
    }
    c
}
