//! Histories of units through the real unit encoder and writer (driver process `units`), under write
//! faults. Oracle: an independent parser of the written bytes, and the undisturbed run.
use crate::fh;
use crate::proc::*;
use crate::refmodel::*;
use crate::rng::*;
use crate::{Cov, Viol};
use std::collections::BTreeMap;

/// One line of a scenario: a unit kind and its numbers by name. The same text is the driver's input.
#[derive(Clone, Debug, PartialEq)]
pub struct Unit { pub kind: String, pub f: BTreeMap<String, i64>, pub lists: BTreeMap<String, Vec<Vec<i64>>> }

#[derive(Clone, Debug, PartialEq)]
pub struct UnitCase { pub stdout: bool, pub plan: Vec<Plan>, pub units: Vec<Unit> }

impl Unit {
    pub fn new(k: &str) -> Unit { Unit { kind: k.into(), f: BTreeMap::new(), lists: BTreeMap::new() } }
    pub fn set(mut self, k: &str, v: i64) -> Unit { self.f.insert(k.into(), v); self }
    pub fn list(mut self, k: &str, v: Vec<Vec<i64>>) -> Unit { self.lists.insert(k.into(), v); self }
    pub fn g(&self, k: &str) -> i64 { *self.f.get(k).unwrap_or(&0) }
    pub fn l(&self, k: &str) -> &[Vec<i64>] { self.lists.get(k).map(|v| &v[..]).unwrap_or(&[]) }
    pub fn line(&self) -> String {
        let mut o = self.kind.clone();
        for (k, v) in &self.f { o.push_str(&format!(" {}={}", k, v)); }
        for (k, v) in &self.lists { o.push_str(&format!(" {}=[{}]", k, v.iter().map(|x| x.iter().map(|y| y.to_string()).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(";"))); }
        o
    }
    fn parse(w: &[&str]) -> Unit {
        let mut u = Unit::new(w[0]);
        for x in &w[1..] {
            if let Some((k, v)) = x.split_once('=') {
                if let Some(l) = v.strip_prefix('[') {
                    let l = l.trim_end_matches(']');
                    u.lists.insert(k.into(), if l.is_empty() { vec![] } else { l.split(';').map(|e| e.split(',').map(|n| n.parse().unwrap()).collect()).collect() });
                } else { u.f.insert(k.into(), v.parse().unwrap()); }
            }
        }
        u
    }
}

// ---------------------------------------------------------------- independent reading of the units
/// returns the announced bit counts of width and height
fn seq(b: &mut Bits, u: &Unit) -> Result<(usize, usize), String> {
    macro_rules! eq { ($name:expr, $n:expr, $want:expr) => {{ let got = b.f($n).map_err(|e| format!("{}: {}", $name, e))? as i64; if got != ($want) { return Err(format!("{} is {} instead of {}", $name, got, $want)); } }} }
    eq!("profile", 3, u.g("profile"));
    eq!("still_picture", 1, u.g("still"));
    eq!("reduced_still_picture_header", 1, 0);
    let ops = u.l("ops");
    eq!("operating_points_cnt_minus_1", 5, ops.len() as i64 - 1);
    for o in ops {
        eq!("operating_point_idc", 12, o[0]);
        eq!("seq_level_idx", 5, o[1]);
        if o[1] > 7 { eq!("seq_tier", 1, o[2]); }
    }
    let (wb, hb) = (b.f(4)? as usize + 1, b.f(4)? as usize + 1);
    eq!("max_frame_width_minus_1", wb, u.g("w") - 1);
    eq!("max_frame_height_minus_1", hb, u.g("h") - 1);
    eq!("frame_id_numbers_present_flag", 1, u.g("fid"));
    if u.g("fid") == 1 { eq!("delta_frame_id_length_minus_2", 4, u.g("fid_delta") - 2); eq!("additional_frame_id_length_minus_1", 3, u.g("fid_add") - 1); }
    for k in ["sb128", "filter_intra", "intra_edge", "interintra", "masked", "warped", "dual"] { eq!(k, 1, u.g(k)); }
    eq!("enable_order_hint", 1, u.g("oh"));
    if u.g("oh") == 1 { eq!("enable_jnt_comp", 1, u.g("jnt")); eq!("enable_ref_frame_mvs", 1, u.g("rfmv")); }
    eq!("seq_choose_screen_content_tools", 1, u.g("choose_sct"));
    let sct = if u.g("choose_sct") == 1 { 2 } else { eq!("seq_force_screen_content_tools", 1, u.g("force_sct")); u.g("force_sct") };
    if sct > 0 {
        eq!("seq_choose_integer_mv", 1, u.g("choose_imv"));
        if u.g("choose_imv") == 0 { eq!("seq_force_integer_mv", 1, u.g("force_imv")); }
    }
    if u.g("oh") == 1 { eq!("order_hint_bits_minus_1", 3, u.g("ohb") - 1); }
    for k in ["superres", "cdef", "restoration"] { eq!(k, 1, u.g(k)); }
    // color config
    eq!("high_bitdepth", 1, u.g("hbd"));
    let twelve = if u.g("profile") == 2 && u.g("hbd") == 1 { eq!("twelve_bit", 1, u.g("twelve")); u.g("twelve") == 1 } else { false };
    let mono = u.g("profile") != 1 && u.g("mono") == 1;
    if u.g("profile") != 1 { eq!("mono_chrome", 1, mono as i64); }
    eq!("color_description_present_flag", 1, u.g("cd"));
    let mut srgb = false;
    if u.g("cd") == 1 {
        eq!("color_primaries", 8, u.g("cp")); eq!("transfer_characteristics", 8, u.g("tc")); eq!("matrix_coefficients", 8, u.g("mc"));
        srgb = (u.g("cp"), u.g("tc"), u.g("mc")) == (1, 13, 0);
    }
    if mono { eq!("color_range", 1, u.g("range")); }
    else if !srgb {
        eq!("color_range", 1, u.g("range"));
        let (sx, sy) = match u.g("profile") {
            0 => (1, 1), 1 => (0, 0),
            _ => if twelve { eq!("subsampling_x", 1, u.g("ssx")); let mut y = 0; if u.g("ssx") == 1 { eq!("subsampling_y", 1, u.g("ssy")); y = u.g("ssy"); } (u.g("ssx"), y) } else { (1, 0) },
        };
        if sx == 1 && sy == 1 { eq!("chroma_sample_position", 2, u.g("csp")); }
    }
    if !mono { eq!("separate_uv_delta_q", 1, u.g("sep_uv")); }
    eq!("timing_info_present_flag", 1, u.g("ti"));
    let mut dm = false;
    if u.g("ti") == 1 {
        eq!("num_units_in_display_tick", 32, u.g("tick")); eq!("time_scale", 32, u.g("scale"));
        eq!("equal_picture_interval", 1, u.g("equal"));
        if u.g("equal") == 1 { let v = b.uvlc()?; if v as i64 != u.g("ticks") - 1 { return Err(format!("num_ticks_per_picture_minus_1 is {} instead of {}", v, u.g("ticks") - 1)); } }
        eq!("decoder_model_info_present_flag", 1, u.g("dm"));
        if u.g("dm") == 1 {
            dm = true;
            eq!("bitrate_scale", 4, u.g("dm_brs")); eq!("buffer_size_scale", 4, u.g("dm_bss")); eq!("encoder_decoder_buffer_delay_length_minus_1", 5, u.g("dm_n") - 1);
            eq!("num_units_in_decoding_tick", 32, u.g("dm_tick")); eq!("buffer_removal_delay_length_minus_1", 5, u.g("dm_rem") - 1); eq!("frame_presentation_delay_length_minus_1", 5, u.g("dm_pres") - 1);
        }
    }
    let pts = u.l("points");
    eq!("operating_points_decoder_model_present", 1, (!pts.is_empty()) as i64);
    if !pts.is_empty() {
        eq!("operating_points_decoder_model_cnt_minus_1", 5, pts.len() as i64 - 1);
        for p in pts { // idc, delay or -1, has opi, bitrate, buffer, cbr, dbd, ebd, low
            eq!("decoder_model_idc", 12, p[0]);
            eq!("initial_display_delay_present", 1, (p[1] >= 0) as i64);
            if p[1] >= 0 { eq!("initial_display_delay_minus_1", 4, p[1] - 1); }
            if dm {
                eq!("operating_parameters_info_present", 1, p[2]);
                if p[2] == 1 {
                    for (k, x) in [("bitrate_minus_1", p[3] - 1), ("buffer_size_minus_1", p[4] - 1)] { let v = b.uvlc()? as i64; if v != x { return Err(format!("{} is {} instead of {}", k, v, x)); } }
                    let n = u.g("dm_n") as usize;
                    eq!("cbr_flag", 1, p[5]); eq!("decoder_buffer_delay", n, p[6]); eq!("encoder_buffer_delay", n, p[7]); eq!("low_delay_mode_flag", 1, p[8]);
                }
            }
        }
    }
    eq!("film_grain_params_present", 1, u.g("grain"));
    Ok((wb, hb))
}
fn meta(b: &mut Bits, u: &Unit) -> Result<(), String> {
    macro_rules! eq { ($name:expr, $n:expr, $want:expr) => {{ let got = b.f($n).map_err(|e| format!("{}: {}", $name, e))? as i64; if got != ($want) { return Err(format!("{} is {} instead of {}", $name, got, $want)); } }} }
    let t = match u.kind.as_str() { "cll" => 1, "mdcv" => 2, "scal" => 3, "t35" => 4, _ => 5 };
    eq!("metadata_type", 8, t);
    match t {
        1 => { eq!("max_cll", 16, u.g("cll")); eq!("max_fall", 16, u.g("fall")); }
        2 => {
            for i in 0..3 { eq!("primary_chromaticity_x", 16, u.l("px")[0][i]); eq!("primary_chromaticity_y", 16, u.l("py")[0][i]); }
            eq!("white_point_chromaticity_x", 16, u.g("wx")); eq!("white_point_chromaticity_y", 16, u.g("wy")); eq!("luminance_max", 32, u.g("lmax")); eq!("luminance_min", 32, u.g("lmin"));
        }
        3 => {
            eq!("scalability_mode_idc", 8, u.g("mode"));
            if u.g("mode") == 14 {
                let (d, s, g) = (u.l("dims"), u.l("descs"), u.l("groups"));
                eq!("spatial_layers_cnt_minus_1", 2, d.len().max(s.len()) as i64 - 1);
                eq!("spatial_layer_dimensions_present_flag", 1, (!d.is_empty()) as i64); eq!("spatial_layer_description_present_flag", 1, (!s.is_empty()) as i64); eq!("temporal_group_description_present_flag", 1, (!g.is_empty()) as i64);
                eq!("reserved", 3, 0);
                for x in d { eq!("spatial_layer_max_width", 16, x[0]); eq!("spatial_layer_max_height", 16, x[1]); }
                for x in s { eq!("spatial_layer_ref_id", 8, x[0]); }
                if !g.is_empty() {
                    eq!("temporal_group_size", 8, g.len() as i64);
                    for x in g { // id, flag, flag, diffs...
                        eq!("temporal_group_temporal_id", 3, x[0]); eq!("temporal_switching_up_point_flag", 1, x[1]); eq!("spatial_switching_up_point_flag", 1, x[2]);
                        eq!("temporal_group_ref_cnt", 3, x.len() as i64 - 3);
                        for y in &x[3..] { eq!("ref_pic_diff", 8, *y); }
                    }
                }
            }
        }
        4 => { eq!("country_code", 8, u.g("cc")); if u.g("cc") == 255 { b.f(8)?; } b.pos = b.b.len(); }
        _ => {
            eq!("counting_type", 5, u.g("ct"));
            let (s, m, h) = (u.g("s"), u.g("m"), u.g("hr")); // -1: absent
            if s >= 0 && m >= 0 && h >= 0 { eq!("full_timestamp_flag", 1, 1); eq!("seconds", 6, s); eq!("minutes", 6, m); eq!("hours", 5, h); }
            else {
                eq!("full_timestamp_flag", 1, 0);
                eq!("seconds_flag", 1, (s >= 0) as i64);
                if s >= 0 {
                    eq!("seconds", 6, s);
                    eq!("minutes_flag", 1, (m >= 0) as i64);
                    if m >= 0 { eq!("minutes", 6, m); eq!("hours_flag", 1, (h >= 0) as i64); if h >= 0 { eq!("hours", 5, h); } }
                }
            }
            eq!("time_offset_length", 5, u.g("tol"));
            eq!("time_offset_value", u.g("tol") as usize, u.g("tov"));
        }
    }
    Ok(())
}
/// the rest of a payload after its fields: alignment zeros, or trailing bits (a one, then zeros)
fn tail(b: &Bits) -> Result<(), String> {
    let rest = &b.b[b.pos..];
    let zeros = |r: &[u8]| r.iter().all(|x| *x == 0);
    if rest.len() < 8 && zeros(rest) { return Ok(()); }
    if rest.len() <= 8 && !rest.is_empty() && rest[0] == 1 && zeros(&rest[1..]) { return Ok(()); }
    Err(format!("{} more bits than its fields explain", rest.len()))
}

pub fn check_stream(s: &[u8], units: &[Unit]) -> Result<(), String> {
    let tus = split_units(s)?;
    let obus: Vec<&Vec<u8>> = tus.iter().flatten().flatten().collect();
    if tus.iter().any(|t| t.is_empty() || t.iter().any(|f| f.is_empty())) { return Err("an empty temporal or frame unit".into()); }
    if obus.len() != units.len() { return Err(format!("{} units written, {} found in the stream", units.len(), obus.len())); }
    let mut last: Option<(&Unit, &Vec<u8>)> = None;
    let mut state: Option<fh::Seq> = None;
    let mut slots: fh::Slots = [None; 8];
    for (i, (o, u)) in obus.iter().zip(units).enumerate() {
        let bad = |m: String| format!("unit {} ({}): {}", i, u.line(), m);
        let (t, off) = obu_header(o).map_err(bad)?;
        let want = match u.kind.as_str() { "seq" | "again" => 1, "td" => 2, "pad" => 15, "fh" | "show" => 3, _ => 5 };
        if t != want { return Err(bad(format!("type {} instead of {}", t, want))); }
        let bits = Bits::from_bytes(&o[off..]);
        let mut b = Bits::new(&bits);
        match u.kind.as_str() {
            "seq" => {
                let (wb, hb) = seq(&mut b, u).and_then(|x| tail(&b).map(|_| x)).map_err(bad)?;
                last = Some((u, *o));
                let mut q = fh::Seq::of(u);
                q.wb = wb;
                q.hb = hb;
                state = Some(q);
            }
            "fh" | "show" => if let Some(ref q) = state {
                (if u.kind == "fh" { fh::header(&mut b, u, q, &mut slots) } else { fh::show(&mut b, u, q) }).and_then(|_| tail(&b)).map_err(bad)?;
                // showing a key frame again refreshes every slot; which kind of frame it is belongs to the caller
                if u.kind == "show" { slots = [Some(fh::UNKNOWN); 8]; }
            },
            "again" => if let Some((lu, lo)) = last {
                if *lo != **o { return Err(bad(format!("a repeated sequence header is coded as {:02x?}, the first time as {:02x?}", o, lo))); }
                seq(&mut b, lu).and_then(|_| tail(&b)).map_err(bad)?;
            },
            "td" => if o.len() != off { return Err(bad(format!("{} bytes of payload in a temporal delimiter", o.len() - off))); },
            "pad" => { let n = (o.len() - off) as i64; if n != u.g("n") && n != u.g("n") + 1 { return Err(bad(format!("{} bytes of padding instead of {}", n, u.g("n")))); } }
            _ => meta(&mut b, u).and_then(|_| tail(&b)).map_err(bad)?,
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- execution
fn scenario(c: &UnitCase) -> Vec<u8> { let mut o = String::new(); for u in &c.units { o.push_str(&u.line()); o.push('\n'); } o.into_bytes() }
fn go(env: &Env, c: &UnitCase, plan: &[Plan], stdout: bool, state: bool, trace: bool) -> Outcome {
    let sc = env.scratch.join("scenario");
    std::fs::write(&sc, scenario(c)).unwrap();
    run(env, &Job { bin: env.harness.as_ref().unwrap(), args: vec![sc.to_str().unwrap().into(), if stdout { "stdout".into() } else { "@OUT".into() }], input: None, stdin: false, stdout, existing: None, names: 0, keep_out: false, plan, frames: state, trace })
}
/// compares the states recorded after the frame headers with what a reader of those headers holds
fn check_states(lines: &[String], units: &[Unit], cov: &mut Cov) -> Result<(), String> {
    let mut q: Option<fh::Seq> = None;
    let mut at = lines.iter();
    for (i, u) in units.iter().enumerate() {
        match u.kind.as_str() {
            "seq" => q = Some(fh::Seq::of(u)),
            "fh" | "show" => {
                let l = at.next().ok_or(format!("unit {}: no state was recorded", i))?;
                if let Some(ref q) = q { let n = fh::state(l, u, q).map_err(|m| format!("unit {} ({}): {}", i, u.line(), m))?; cov.note("state_values_compared", n); }
            }
            _ => {}
        }
    }
    Ok(())
}
pub fn exec(env: &Env, c: &UnitCase, prop: &str, cov: &mut Cov, trace: bool) -> Result<(), Viol> {
    let v = |m: String| -> Result<(), Viol> { Err(Viol { prop: prop.to_string(), msg: m }) };
    if env.harness.is_none() { return Ok(()); }
    let g = go(env, c, &[], false, prop == "C22", trace);
    let say = |o: &Outcome| format!("{}; {}; calls: {}", o.verdict(), String::from_utf8_lossy(&o.stderr).lines().take(2).collect::<Vec<_>>().join(" / "), o.st.trace.iter().take(30).cloned().collect::<Vec<_>>().join(" | "));
    if !g.ok() { return v(format!("encoding the units failed without any fault: {}", say(&g))); }
    let want = g.out.clone().unwrap_or_default();
    if prop == "C22" { if let Err(e) = check_states(&g.frames, &c.units, cov) { return v(e); } } // C21 is about the stream
    else if let Err(e) = check_stream(&want, &c.units) { return v(e); }
    let o = go(env, c, &c.plan, c.stdout, prop == "C22", trace);
    cov.steps += g.st.ops + o.st.ops + c.units.len() as u64;
    for i in 0..10 { cov.faults(["short_io", "interrupted_call", "io_error", "zero_write", "crash_before_call", "crash_after_call", "torn_write", "allocation_failure", "allocation_failure_persistent", "io_error_persistent"][i], o.st.injected[i]); }
    cov.faults("chunked_write", o.st.chunked_writes);
    cov.faults("device_full", o.st.cap_hits);
    cov.note("units", c.units.len() as u64);
    cov.note("stream_bytes_max", want.len() as u64);
    let mut h = o.st.hash;
    for u in &c.units { for b in u.line().bytes() { h = fnv(h, b as u64); } }
    let got = if c.stdout { o.stdout.clone() } else { o.out.clone().unwrap_or_default() };
    if o.hung() { return v(format!("does not end: {}", say(&o))); }
    if o.ok() {
        if prop == "C22" { if o.frames != g.frames { return v(format!("under write faults the encoder's state differs from the undisturbed run: {}", say(&o))); } return Ok(cov.done(h)); }
        if got != want { return v(format!("reports success with {} of {} bytes written, or other bytes: {}", got.len(), want.len(), say(&o))); }
    } else if prop != "C22" {
        let hard = o.st.injected[2] + o.st.injected[3] + o.st.injected[9] + o.st.cap_hits + o.st.injected[7] + o.st.injected[8];
        if hard == 0 && !o.st.crashed { return v(format!("short or interrupted writes make it fail: {}", say(&o))); }
        if !want.starts_with(&got) { return v(format!("after a failure the output ({} bytes) is not a prefix of the stream ({} bytes): {}", got.len(), want.len(), say(&o))); }
        if !o.st.crashed && o.stderr.is_empty() { return v(format!("fails silently: {}", say(&o))); }
    }
    Ok(cov.done(h))
}

// ---------------------------------------------------------------- generation
pub fn bit(r: &mut Rng) -> i64 { r.below(2) as i64 }
pub fn val(r: &mut Rng, bits: u32) -> i64 {
    let m = (1u64 << bits) - 1;
    (match r.below(6) { 0 => 0, 1 => m, 2 => 1u64 << r.below(bits.max(1) as u64), 3 => r.below(4), _ => r.next() } & m) as i64
}
pub fn gen_seq(r: &mut Rng) -> Unit {
    let mut u = Unit::new("seq");
    let dim = |r: &mut Rng| match r.below(5) { 0 => r.log(65536) as i64, 1 => ((1u64 << r.range(0, 16)) + r.below(3)).saturating_sub(1).clamp(1, 65536) as i64, _ => r.range(1, 8191) as i64 };
    u = u.set("profile", r.below(3) as i64).set("still", bit(r)).set("w", dim(r)).set("h", dim(r));
    let n = if r.chance(1, 8) { 32 } else { r.log(32) };
    u = u.list("ops", (0..n).map(|_| { let l = match r.below(4) { 0 => 7, 1 => 8, _ => r.below(32) } as i64; vec![val(r, 12), l, if l > 7 { bit(r) } else { -1 }] }).collect());
    if r.chance(1, 3) { u = u.set("fid", 1).set("fid_delta", r.range(2, 17) as i64).set("fid_add", r.range(1, 8) as i64); }
    let all = r.below(4);
    for k in ["sb128", "filter_intra", "intra_edge", "interintra", "masked", "warped", "dual", "choose_sct", "force_sct", "choose_imv", "force_imv", "superres", "cdef", "restoration", "hbd", "twelve", "range", "ssx", "ssy", "sep_uv", "grain", "equal", "jnt", "rfmv"] {
        let b = match all { 0 => 0, 1 => 1, _ => bit(r) };
        u = u.set(k, b);
    }
    u = u.set("csp", r.below(4) as i64);
    if r.chance(1, 3) { u = u.set("mono", 1); }
    if r.chance(1, 3) { u = u.set("oh", 1).set("ohb", r.range(1, 8) as i64); }
    if r.chance(1, 2) {
        let (cp, tc, mc) = if r.chance(1, 4) { (1, 13, 0) } else { (*r.pick(&[1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 22]), r.below(19) as i64, r.below(15) as i64) };
        u = u.set("cd", 1).set("cp", cp).set("tc", tc).set("mc", mc);
    }
    let nn = r.range(1, 32) as i64;
    let timing = r.chance(1, 2);
    if timing {
        let t = match r.below(4) { 0 => u32::MAX as i64, 1 => r.log(u32::MAX as u64) as i64, _ => r.range(1, 9) as i64 };
        u = u.set("ti", 1).set("tick", val(r, 32)).set("scale", val(r, 32)).set("ticks", t);
    }
    {
        // without timing information the format has no place for the decoder model
        if r.chance(2, if timing { 3 } else { 12 }) {
            u = u.set("dm", 1).set("dm_brs", val(r, 4)).set("dm_bss", val(r, 4)).set("dm_n", nn).set("dm_tick", val(r, 32)).set("dm_rem", r.range(1, 32) as i64).set("dm_pres", r.range(1, 32) as i64);
        }
    }
    if r.chance(1, 2) {
        let k = if r.chance(1, 8) { 32 } else { r.log(32) };
        u = u.list("points", (0..k).map(|_| {
            let d = if r.chance(1, 2) { -1 } else { r.range(1, 16) as i64 };
            vec![val(r, 12), d, bit(r), r.log(u32::MAX as u64) as i64, r.log(u32::MAX as u64) as i64, bit(r), val(r, nn as u32), val(r, nn as u32), bit(r)]
        }).collect());
    }
    u
}
fn gen_unit(r: &mut Rng, thorough: bool) -> Unit {
    match r.below(12) {
        0..=3 => gen_seq(r),
        4 => Unit::new("td"),
        5 => Unit::new("cll").set("cll", val(r, 16)).set("fall", val(r, 16)),
        6 => Unit::new("mdcv").list("px", vec![(0..3).map(|_| val(r, 16)).collect()]).list("py", vec![(0..3).map(|_| val(r, 16)).collect()]).set("wx", val(r, 16)).set("wy", val(r, 16)).set("lmax", val(r, 32)).set("lmin", val(r, 32)),
        7 => Unit::new("t35").set("cc", val(r, 8)),
        8 => {
            let mode = if r.chance(1, 2) { 14 } else { r.below(14) as i64 };
            let mut u = Unit::new("scal").set("mode", mode);
            if mode == 14 {
                let n = r.range(1, 4);
                let which = r.range(1, 3);
                if which & 1 == 1 { u = u.list("dims", (0..n).map(|_| vec![val(r, 16), val(r, 16)]).collect()); }
                if which & 2 == 2 { u = u.list("descs", (0..n).map(|_| vec![val(r, 8)]).collect()); }
                if r.chance(1, 2) {
                    let k = if r.chance(1, 6) { 255 } else { r.log(40) };
                    u = u.list("groups", (0..k).map(|_| { let mut g = vec![val(r, 3), bit(r), bit(r)]; for _ in 0..r.below(8) { g.push(val(r, 8)); } g }).collect());
                }
            }
            u
        }
        9 => {
            let (mut s, mut m, mut h) = (r.below(60) as i64, r.below(60) as i64, r.below(24) as i64);
            if r.chance(1, 4) { h = -1; } if r.chance(1, 4) { m = -1; h = -1; } if r.chance(1, 4) { s = -1; m = -1; h = -1; }
            let tol = r.below(32) as u32;
            Unit::new("time").set("ct", val(r, 5)).set("s", s).set("m", m).set("hr", h).set("tol", tol as i64).set("tov", if tol == 0 { 0 } else { val(r, tol) })
        }
        _ => {
            let n = match r.below(8) { 0 => 0, 1 => r.range(120, 135), 2 => if thorough { r.log(70000) } else { r.log(20000) }, 3 => r.range(16370, 16390), _ => r.log(300) };
            Unit::new("pad").set("n", n as i64)
        }
    }
}
pub fn gen(env: &Env, r: &mut Rng, thorough: bool) -> UnitCase {
    let mut units: Vec<Unit> = vec![];
    let n = if r.chance(1, 12) { r.log(400) } else { r.log(24) };
    let mut have_seq = false;
    for _ in 0..n {
        if have_seq && r.chance(1, 6) { units.push(Unit::new("again")); continue; }
        let u = gen_unit(r, thorough);
        have_seq |= u.kind == "seq";
        units.push(u);
    }
    if r.chance(1, 300) { // unit sizes around 2^16, and now and then around 2^21, where size fields grow
        let n = match r.below(20) { 0 => (1 << 21) + r.below(40) - 20, x if x < 12 => (1 << 16) + r.below(40) - 20, _ => r.range(60_000, 140_000) };
        let at = r.us(0, units.len());
        units.truncate(at);
        units.push(Unit::new("pad").set("n", n as i64));
        if r.chance(1, 2) { units.push(Unit::new("td")); }
    }
    faults(env, r, units)
}
/// histories of sequence and frame headers
pub fn gen_frames(env: &Env, r: &mut Rng) -> UnitCase { let u = fh::gen_units(r); faults(env, r, u) }
fn faults(env: &Env, r: &mut Rng, units: Vec<Unit>) -> UnitCase {
    let mut c = UnitCase { stdout: r.chance(1, 3), plan: vec![], units };
    let p = go(env, &c, &[], c.stdout, false, false).st;
    let (w, ob) = (p.writes.max(1), p.out_bytes);
    if r.chance(1, 2) { let k = if ob > 20000 { r.range(200, 6000) } else { r.log(64) }; c.plan.push(Plan::ChunkW(k, if r.chance(1, 2) { r.next() | 1 } else { 0 })); }
    for _ in 0..r.below(4) { let k = if r.chance(1, 2) { "eintr" } else { "short" }; c.plan.push(Plan::Fault("w", r.below(w + 2), k, r.log(40) as i64)); }
    match r.below(8) {
        0 | 1 => c.plan.push(Plan::Disk(r.below(ob + 1), *r.pick(&[28, 122, 32]))),
        2 => c.plan.push(Plan::Fault("w", r.below(w), *r.pick(&["err", "errfrom"]), *r.pick(&[5, 28, 32]))),
        3 => c.plan.push(Plan::Fault("w", r.below(w), "zero", 0)),
        4 => c.plan.push(Plan::Fault("w", r.below(w), *r.pick(&["crash", "crashafter", "torn"]), r.below(64) as i64)),
        5 => c.plan.push(Plan::Fault("m", r.below(p.allocs.max(1)), "fail", 0)),
        _ => {}
    }
    c
}

/// a repeat and a frame header need a sequence header before them; two frame headers a delimiter in between
fn valid(units: &[Unit]) -> bool {
    let (mut seq, mut open) = (false, false);
    for u in units {
        match u.kind.as_str() {
            "seq" => seq = true,
            "again" => if !seq { return false; },
            "td" => open = false,
            "fh" | "show" => { if !seq || open { return false; } open = u.kind == "fh"; }
            _ => {}
        }
    }
    true
}
pub fn shrinks(c: &UnitCase) -> Vec<UnitCase> {
    let mut v = vec![];
    for i in 0..c.plan.len() { let mut d = c.clone(); d.plan.remove(i); v.push(d); }
    let k = c.units.len();
    let mut sz = k;
    while sz >= 1 {
        let mut i = 0;
        while i < k {
            let mut d = c.clone();
            d.units.drain(i..(i + sz).min(k));
            if valid(&d.units) { v.push(d); }
            i += sz;
        }
        if sz == 1 { break; }
        sz /= 2;
    }
    if c.stdout { let mut d = c.clone(); d.stdout = false; v.push(d); }
    for i in 0..k {
        let u = &c.units[i];
        if u.kind == "pad" && u.g("n") > 0 { for n in [0, u.g("n") / 2, u.g("n") - 1] { let mut d = c.clone(); d.units[i].f.insert("n".into(), n); v.push(d); } }
        if u.kind == "fh" {
            for key in fh::FLAGS { if u.g(key) == 1 { let mut d = c.clone(); d.units[i].f.insert(key.to_string(), 0); v.push(d); } }
        }
        if u.kind == "seq" && !c.units.iter().any(|u| u.kind == "fh") {
            for key in ["points", "ops"] {
                let l = u.l(key).len();
                if l > 1 || (l == 1 && key == "points") { let mut d = c.clone(); let x = d.units[i].lists.get_mut(key).unwrap(); x.truncate(l / 2); v.push(d); }
            }
            for (key, val) in &u.f {
                if *val != 0 && !["w", "h", "fid_delta", "fid_add", "ticks", "dm_n", "dm_rem", "dm_pres", "cp"].contains(&key.as_str()) { let mut d = c.clone(); d.units[i].f.insert(key.clone(), 0); v.push(d); }
            }
        }
    }
    v
}
pub fn text(c: &UnitCase) -> String {
    let mut o = format!("stdout {}\n", c.stdout as u8);
    for p in &c.plan { o.push_str(&format!("plan {}\n", p.line())); }
    for u in &c.units { o.push_str(&format!("unit {}\n", u.line())); }
    o
}
pub fn parse(t: &str) -> UnitCase {
    let mut c = UnitCase { stdout: false, plan: vec![], units: vec![] };
    for l in t.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] { "stdout" => c.stdout = w[1] == "1", "plan" => c.plan.push(Plan::parse(&w[1..])), "unit" => c.units.push(Unit::parse(&w[1..])), _ => {} }
    }
    c
}
