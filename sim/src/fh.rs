//! Frame headers through the real unit encoder: an independent reader of the written bits, written from
//! the format's description, and the generator of histories of sequence and frame headers.
use crate::obu::{bit, gen_seq, val, Unit};
use crate::refmodel::*;
use crate::rng::*;

/// what a reader of frame headers remembers of the sequence header
#[derive(Clone)]
pub struct Seq {
    pub wb: usize, pub hb: usize, w: i64, h: i64, fid: bool, id_len: usize, delta_len: usize, sb128: bool, oh: bool, ohb: usize, sct: i64, imv: i64,
    superres: bool, cdef: bool, restoration: bool, warped: bool, rfmv: bool, mono: bool, ssx: bool, ssy: bool, sep_uv: bool, equal: bool, dm: bool,
    dm_rem: usize, dm_pres: usize, points: Vec<Vec<i64>>, grain: bool, range: bool,
}
impl Seq {
    pub fn of(u: &Unit) -> Seq {
        let on = |k: &str| u.g(k) == 1;
        let (fid, oh, profile) = (on("fid"), on("oh"), u.g("profile"));
        let sct = if on("choose_sct") { 2 } else { u.g("force_sct") };
        let mono = profile != 1 && on("mono");
        let srgb = on("cd") && (u.g("cp"), u.g("tc"), u.g("mc")) == (1, 13, 0);
        let twelve = profile == 2 && on("hbd") && on("twelve");
        let (ssx, ssy) = if mono { (true, true) } else if srgb { (false, false) } else { match profile { 0 => (true, true), 1 => (false, false), _ => if twelve { (on("ssx"), on("ssx") && on("ssy")) } else { (true, false) } } };
        let bits = |n: i64| { let mut k = 1; while (n - 1) >> k > 0 { k += 1; } k };
        Seq {
            wb: bits(u.g("w")), hb: bits(u.g("h")), w: u.g("w"), h: u.g("h"), fid, id_len: if fid { (u.g("fid_delta") + u.g("fid_add")) as usize } else { 0 }, delta_len: u.g("fid_delta") as usize, sb128: on("sb128"),
            oh, ohb: if oh { u.g("ohb") as usize } else { 0 }, sct, imv: if sct > 0 && !on("choose_imv") { u.g("force_imv") } else { 2 }, superres: on("superres"), cdef: on("cdef"), restoration: on("restoration"),
            warped: on("warped"), rfmv: oh && on("rfmv"), mono, ssx, ssy, sep_uv: !mono && on("sep_uv"), equal: on("ti") && on("equal"), dm: on("ti") && on("dm"), dm_rem: u.g("dm_rem") as usize, dm_pres: u.g("dm_pres") as usize,
            points: u.l("points").to_vec(), grain: on("grain"), range: on("range") || (srgb && !mono),
        }
    }
    fn planes(&self) -> usize { if self.mono { 1 } else { 3 } }
}

fn tile_log2(blk: i64, target: i64) -> usize { let mut k = 0; while (blk << k) < target { k += 1; } k }
/// (superblock columns or rows, maximum tile size in superblocks along the width, maximum area)
fn sbs(q: &Seq, samples: i64) -> i64 { let mi = 2 * ((samples + 7) >> 3); if q.sb128 { (mi + 31) >> 5 } else { (mi + 15) >> 4 } }
fn tile_limits(q: &Seq) -> (i64, i64) { let s = if q.sb128 { 7 } else { 6 }; (4096 >> s, (4096 * 2304) >> (2 * s)) }
fn tiles(sb: i64, k: usize) -> i64 { let w = (sb + (1 << k) - 1) >> k; (sb + w - 1) / w }
const FEATURE_BITS: [usize; 8] = [8, 6, 6, 6, 6, 3, 0, 0];
const FLAGS_ALL: [&str; 36] = ["show_frame", "showable_frame", "error_resilient_mode", "disable_cdf_update", "allow_sct", "force_imv", "size_override", "removal_present", "use_superres", "intrabc", "high_precision", "filter_switchable", "motion_switchable", "use_ref_mvs",
              "no_end_update", "diff_uv", "qmatrix", "seg", "seg_map", "seg_temporal", "seg_data", "delta_q", "delta_lf", "delta_lf_multi", "lf_delta", "lf_update", "tx_select", "ref_select", "skip_mode", "allow_warped", "reduced_tx", "apply_grain", "update_grain", "from_luma", "overlap", "clip"];
/// those that can be cleared without making other drawn values inconsistent
pub const FLAGS: [&str; 28] = ["showable_frame", "disable_cdf_update", "removal_present", "intrabc", "filter_switchable", "motion_switchable", "use_ref_mvs", "no_end_update", "diff_uv", "qmatrix", "seg", "seg_map", "seg_temporal", "delta_q", "delta_lf", "delta_lf_multi", "lf_delta", "lf_update", "tx_select", "ref_select", "skip_mode", "allow_warped", "reduced_tx", "apply_grain", "update_grain", "from_luma", "overlap", "clip"];
/// absent feature
pub const NONE: i64 = 9999;

fn rel(q: &Seq, a: i64, b: i64) -> i64 { if !q.oh { return 0; } let m = 1i64 << (q.ohb - 1); let d = a - b; (d & (m - 1)) - (d & m) }
/// the two references (0 to 6) a skipped block is predicted from, if there are two
fn skip_mode_pair(q: &Seq, u: &Unit) -> Option<(i64, i64)> {
    let oh = u.g("order_hint");
    let hint = |i: usize| u.l("roh")[0][u.l("ridx")[0][i] as usize];
    // the first of the nearest
    let nearest = |ok: &dyn Fn(i64) -> bool, past: bool| -> Option<usize> {
        let mut best: Option<usize> = None;
        for i in 0..7 { if ok(hint(i)) && best.map_or(true, |b| { let d = rel(q, hint(i), hint(b)); if past { d > 0 } else { d < 0 } }) { best = Some(i); } }
        best
    };
    let f = nearest(&|h| rel(q, h, oh) < 0, true)?;
    let s = nearest(&|h| rel(q, h, oh) > 0, false).or_else(|| nearest(&|h| rel(q, h, hint(f)) < 0, true))?;
    Some((f as i64, s as i64))
}
fn skip_mode_allowed(q: &Seq, u: &Unit) -> bool { skip_mode_pair(q, u).is_some() }

// values coded with reference to a prediction
fn inverse_recenter(r: i64, v: i64) -> i64 { if v > 2 * r { v } else if v & 1 == 1 { r - ((v + 1) >> 1) } else { r + (v >> 1) } }
fn ns(b: &mut Bits, n: i64) -> Result<i64, String> {
    let mut w = 0; while n >> w > 0 { w += 1; }
    let m = (1i64 << w) - n;
    let v = b.f(w - 1)? as i64;
    if v < m { return Ok(v); }
    Ok((v << 1) - m + b.f(1)? as i64)
}
fn subexp(b: &mut Bits, n: i64) -> Result<i64, String> {
    let (mut i, mut mk) = (0, 0);
    loop {
        let b2 = if i > 0 { 3 + i - 1 } else { 3 };
        let a = 1i64 << b2;
        if n <= mk + 3 * a { return Ok(ns(b, n - mk)? + mk); }
        if b.f(1)? == 0 { return Ok(b.f(b2)? as i64 + mk); }
        i += 1;
        mk += a;
    }
}
fn signed_subexp(b: &mut Bits, low: i64, high: i64, r: i64) -> Result<i64, String> {
    let (mx, r) = (high - low, r - low);
    let v = subexp(b, mx)?;
    let x = if r << 1 <= mx { inverse_recenter(r, v) } else { mx - 1 - inverse_recenter(mx - 1 - r, v) };
    Ok(x + low)
}
/// (bits of the magnitude, bits of precision) of global motion parameter `idx`
fn gm_bits(typ: i64, idx: usize, hp: bool) -> (u32, u32) { if idx >= 2 { (12, 15) } else if typ == 1 { (9 - !hp as u32, 3 - !hp as u32) } else { (12, 6) } }

macro_rules! eqm { ($b:expr, $name:expr, $n:expr, $want:expr) => {{ let (name, want) = ($name, $want); let got = $b.f($n).map_err(|e| format!("{}: {}", name, e))? as i64; if got != want { return Err(format!("{} is {} instead of {}", name, got, want)); } got }} }
fn su(b: &mut Bits, name: &str, n: usize, want: i64) -> Result<(), String> {
    let v = b.f(n).map_err(|e| format!("{}: {}", name, e))? as i64;
    let v = if v >> (n - 1) & 1 == 1 { v - (1 << n) } else { v };
    if v != want { return Err(format!("{} is {} instead of {}", name, v, want)); }
    Ok(())
}

pub fn show(b: &mut Bits, u: &Unit, q: &Seq) -> Result<(), String> {
    eqm!(b, "show_existing_frame", 1, 1);
    eqm!(b, "frame_to_show_map_idx", 3, u.g("idx"));
    if q.dm && !q.equal { eqm!(b, "frame_presentation_time", q.dm_pres, u.g("pres")); }
    if q.fid { eqm!(b, "display_frame_id", q.id_len, u.g("cfid")); }
    Ok(())
}
/// width, height, render width and height of the frames in the reference slots, as a reader knows them
pub type Slots = [Option<[i64; 4]>; 8];
pub const UNKNOWN: [i64; 4] = [-1; 4];
pub fn header(b: &mut Bits, u: &Unit, q: &Seq, slots: &mut Slots) -> Result<(), String> {
    macro_rules! eq { ($name:expr, $n:expr, $want:expr) => { eqm!(b, $name, $n, $want) } }
    macro_rules! flag { ($k:expr) => {{ let f = eqm!(b, $k, 1, u.g($k)) == 1; f }} }
    eq!("show_existing_frame", 1, 0);
    let t = eq!("frame_type", 2, u.g("type"));
    let intra = t == 0 || t == 2;
    let shown = flag!("show_frame");
    if shown && q.dm && !q.equal { eq!("frame_presentation_time", q.dm_pres, u.g("pres")); }
    let showable = if shown { t != 0 } else { flag!("showable_frame") };
    let er = if t == 3 || (t == 0 && shown) { true } else { flag!("error_resilient_mode") };
    let no_cdf = flag!("disable_cdf_update");
    let sct = if q.sct == 2 { flag!("allow_sct") } else { q.sct == 1 };
    let mut imv = if sct { if q.imv == 2 { flag!("force_imv") } else { q.imv == 1 } } else { false };
    if intra { imv = true; }
    if q.fid { eq!("current_frame_id", q.id_len, u.g("cfid")); }
    let over = if t == 3 { true } else { flag!("size_override") };
    eq!("order_hint", q.ohb, u.g("order_hint"));
    let prim = if intra || er { 7 } else { eq!("primary_ref_frame", 3, u.g("prim")) };
    if q.dm && flag!("removal_present") {
        for p in &q.points {
            if p[2] != 1 { continue; }
            if p[0] == 0 || (p[0] & 1 == 1 && p[0] >> 8 & 1 == 1) { eq!("buffer_removal_time", q.dm_rem, u.g("removal")); }
        }
    }
    let refresh = if t == 3 || (t == 0 && shown) { 255 } else { eq!("refresh_frame_flags", 8, u.g("refresh")) };
    if (!intra || refresh != 255) && er && q.oh { for i in 0..8 { eq!("ref_order_hint", q.ohb, u.l("froh")[0][i]); } }
    let up = u.g("w");
    let size = [up, u.g("h"), u.g("rw"), u.g("rh")];
    let mut fw = up;
    macro_rules! superres { () => {{
        if q.superres && flag!("use_superres") { let d = eq!("coded_denom", 3, u.g("denom") - 9) + 9; fw = (up * 8 + d / 2) / d; }
    }} }
    macro_rules! frame_size { () => {{
        if over { eq!("frame_width_minus_1", q.wb, up - 1); eq!("frame_height_minus_1", q.hb, u.g("h") - 1); }
        superres!();
    }} }
    macro_rules! render_size { () => {{
        let same = u.g("rw") == up && u.g("rh") == u.g("h");
        if b.f(1)? == 1 { eq!("render_width_minus_1", 16, u.g("rw") - 1); eq!("render_height_minus_1", 16, u.g("rh") - 1); }
        else if !same { return Err(format!("the header says the render size is the frame size ({}x{}), not {}x{}", up, u.g("h"), u.g("rw"), u.g("rh"))); }
    }} }
    let (mut intrabc, mut hp) = (false, false);
    if intra {
        frame_size!();
        render_size!();
        if sct && fw == up { intrabc = flag!("intrabc"); }
    } else {
        let short = q.oh && flag!("short_signaling");
        if short { eq!("last_frame_idx", 3, u.g("last_idx")); eq!("gold_frame_idx", 3, u.g("gold_idx")); }
        for i in 0..7 {
            if !short { eq!("ref_frame_idx", 3, u.l("ridx")[0][i]); }
            if q.fid { eq!("delta_frame_id_minus_1", q.delta_len, u.l("dfid")[0][i] - 1); }
        }
        if over && !er {
            let mut found = false;
            for i in 0..7 {
                if b.f(1)? == 0 { continue; }
                found = true;
                // with short signaling the reader works out the references itself, which is not modelled
                let theirs = slots[u.l("ridx")[0][i] as usize];
                if !short && theirs != Some(UNKNOWN) && theirs != Some(size) { return Err(format!("found_ref of reference {} stands for size {:?} instead of {:?}", i + 1, theirs, size)); }
                break;
            }
            if found { superres!(); } else { frame_size!(); render_size!(); }
        } else { frame_size!(); render_size!(); }
        if !imv { hp = flag!("high_precision"); }
        if !flag!("filter_switchable") { eq!("interpolation_filter", 2, u.g("filter")); }
        flag!("motion_switchable");
        if !er && q.rfmv { flag!("use_ref_mvs"); }
    }
    for i in 0..8 { if refresh >> i & 1 == 1 { slots[i] = Some(size); } }
    if !no_cdf { flag!("no_end_update"); }
    // tiles
    let (sbc, sbr) = (sbs(q, fw), sbs(q, u.g("h")));
    let (max_w, max_area) = tile_limits(q);
    let (min_c, max_c, max_r) = (tile_log2(max_w, sbc), tile_log2(1, sbc.min(64)), tile_log2(1, sbr.min(64)));
    let min_t = min_c.max(tile_log2(max_area, sbr * sbc));
    eq!("uniform_tile_spacing_flag", 1, 1);
    let mut kc = min_c;
    while kc < max_c && b.f(1)? == 1 { kc += 1; }
    if tiles(sbc, kc) != u.g("tile_cols") { return Err(format!("{} tile columns instead of {}", tiles(sbc, kc), u.g("tile_cols"))); }
    let mut kr = min_t.saturating_sub(kc);
    while kr < max_r && b.f(1)? == 1 { kr += 1; }
    if tiles(sbr, kr) != u.g("tile_rows") { return Err(format!("{} tile rows instead of {}", tiles(sbr, kr), u.g("tile_rows"))); }
    if kc + kr > 0 { eq!("context_update_tile_id", kc + kr, u.g("tile_id")); eq!("tile_size_bytes_minus_1", 2, u.g("tile_bytes") - 1); }
    // quantizer
    let base = eq!("base_q_idx", 8, u.g("base_q"));
    let d = |k: &str| u.g(k);
    macro_rules! delta { ($k:expr) => {{ if b.f(1)? == 1 { su(b, $k, 7, u.g($k))?; } else if u.g($k) != 0 { return Err(format!("{} is not coded instead of {}", $k, u.g($k))); } }} }
    delta!("q_y_dc");
    let mut lossless_deltas = d("q_y_dc") == 0;
    if q.planes() > 1 {
        let diff = q.sep_uv && flag!("diff_uv");
        delta!("q_u_dc");
        delta!("q_u_ac");
        lossless_deltas &= d("q_u_dc") == 0 && d("q_u_ac") == 0;
        if diff { delta!("q_v_dc"); delta!("q_v_ac"); lossless_deltas &= d("q_v_dc") == 0 && d("q_v_ac") == 0; }
    }
    if flag!("qmatrix") { eq!("qm_y", 4, d("qm_y")); eq!("qm_u", 4, d("qm_u")); if q.sep_uv { eq!("qm_v", 4, d("qm_v")); } }
    // segmentation
    let seg = flag!("seg");
    let mut data = false;
    if seg {
        data = true;
        if prim != 7 { if flag!("seg_map") { flag!("seg_temporal"); } data = flag!("seg_data"); }
        if data {
            for s in u.l("features") { for j in 0..8 {
                eq!("feature_enabled", 1, (s[j] != NONE) as i64);
                if s[j] != NONE { if j < 5 { su(b, "feature_value", 1 + FEATURE_BITS[j], s[j])?; } else { eq!("feature_value", FEATURE_BITS[j], if j > 5 { 0 } else { s[j] }); } }
            } }
        }
    }
    let dq = base > 0 && flag!("delta_q");
    if dq {
        eq!("delta_q_res", 2, d("delta_q_res"));
        if !intrabc && flag!("delta_lf") { eq!("delta_lf_res", 2, d("delta_lf_res")); flag!("delta_lf_multi"); }
    }
    let lossless = lossless_deltas && (0..8).all(|s| { let f = if seg && data { u.l("features")[s][0] } else { NONE }; (if f == NONE { base } else { (base + f).clamp(0, 255) }) == 0 });
    let all_lossless = lossless && fw == up;
    // filters
    if !lossless && !intrabc {
        let lf = &u.l("lf")[0];
        eq!("loop_filter_level 0", 6, lf[0]); eq!("loop_filter_level 1", 6, lf[1]);
        if q.planes() > 1 && (lf[0] > 0 || lf[1] > 0) { eq!("loop_filter_level 2", 6, lf[2]); eq!("loop_filter_level 3", 6, lf[3]); }
        eq!("loop_filter_sharpness", 3, d("sharpness"));
        if flag!("lf_delta") && flag!("lf_update") {
            for x in u.l("ref_deltas") { eq!("update_ref_delta", 1, x[0]); if x[0] == 1 { su(b, "loop_filter_ref_deltas", 7, x[1])?; } }
            for x in u.l("mode_deltas") { eq!("update_mode_delta", 1, x[0]); if x[0] == 1 { su(b, "loop_filter_mode_deltas", 7, x[1])?; } }
        }
    }
    if !lossless && !intrabc && q.cdef {
        eq!("cdef_damping_minus_3", 2, d("damping") - 3); eq!("cdef_bits", 2, d("cdef_bits"));
        for x in &u.l("cdef_strengths")[..1 << d("cdef_bits")] {
            eq!("cdef_y_pri_strength", 4, x[0]); eq!("cdef_y_sec_strength", 2, x[1]);
            if q.planes() > 1 { eq!("cdef_uv_pri_strength", 4, x[2]); eq!("cdef_uv_sec_strength", 2, x[3]); }
        }
    }
    if !all_lossless && !intrabc && q.restoration {
        for _ in 0..q.planes() { eq!("lr_type", 2, d("lr")); }
        if d("lr") > 0 {
            if q.sb128 { eq!("lr_unit_shift", 1, d("lr_shift") - 1); }
            else { eq!("lr_unit_shift", 1, (d("lr_shift") > 0) as i64); if d("lr_shift") > 0 { eq!("lr_unit_extra_shift", 1, d("lr_shift") - 1); } }
            if q.ssx && q.ssy && q.planes() > 1 { eq!("lr_uv_shift", 1, d("lr_uv")); }
        }
    }
    if !lossless { flag!("tx_select"); }
    let comp = !intra && flag!("ref_select");
    if comp && q.oh && skip_mode_allowed(q, u) { flag!("skip_mode"); }
    if !intra && !er && q.warped { flag!("allow_warped"); }
    flag!("reduced_tx");
    if !intra {
        for rf in 0..7 {
            let g = &u.l("gm")[rf]; // type, six parameters
            let typ = if b.f(1)? == 0 { 0 } else if b.f(1)? == 1 { 2 } else if b.f(1)? == 1 { 1 } else { 3 };
            if typ != g[0] { return Err(format!("global motion type of reference {} is {} instead of {}", rf + 1, typ, g[0])); }
            let idxs: &[usize] = match typ { 0 => &[], 1 => &[0, 1], 2 => &[2, 3, 0, 1], _ => &[2, 3, 4, 5, 0, 1] };
            for &i in idxs {
                let (abs, prec) = gm_bits(typ, i, hp);
                let shift = 16 - prec;
                let (round, sub) = if i % 3 == 2 { (1i64 << 16, 1i64 << prec) } else { (0, 0) };
                let prev = if prim == 7 { if i % 3 == 2 { 1 << 16 } else { 0 } } else { u.l("pgm")[rf][i] };
                let mx = 1i64 << abs;
                let got = (signed_subexp(b, -mx, mx + 1, (prev >> shift) - sub).map_err(|e| format!("global motion: {}", e))? << shift) + round;
                if got != g[1 + i] { return Err(format!("global motion parameter {} of reference {} is {} instead of {}", i, rf + 1, got, g[1 + i])); }
            }
        }
    }
    if q.grain && (shown || showable) && flag!("apply_grain") {
        eq!("grain_seed", 16, d("grain_seed"));
        if t == 1 && !flag!("update_grain") { eq!("film_grain_params_ref_idx", 3, d("grain_ref")); return Ok(()); }
        let pts = |b: &mut Bits, k: &str| -> Result<usize, String> {
            let l = u.l(k);
            eqm!(b, format!("number of {} points", k), 4, l.len() as i64);
            for x in l { eqm!(b, format!("{} point value", k), 8, x[0]); eqm!(b, format!("{} point scaling", k), 8, x[1]); }
            Ok(l.len())
        };
        let ny = pts(b, "gy")?;
        let from_luma = !q.mono && flag!("from_luma");
        let (mut ncb, mut ncr) = (0, 0);
        if !(q.mono || from_luma || (q.ssx && q.ssy && ny == 0)) { ncb = pts(b, "gcb")?; ncr = pts(b, "gcr")?; }
        eq!("grain_scaling_minus_8", 2, d("grain_scaling") - 8);
        let lag = eq!("ar_coeff_lag", 2, d("ar_lag")) as usize;
        let pos = 2 * lag * (lag + 1);
        if ny > 0 { for i in 0..pos { eq!("ar_coeffs_y", 8, u.l("ary")[0][i] + 128); } }
        let posc = if ny > 0 { pos + 1 } else { pos };
        if from_luma || ncb > 0 { for i in 0..posc { eq!("ar_coeffs_cb", 8, u.l("arcb")[0][i] + 128); } }
        if from_luma || ncr > 0 { for i in 0..posc { eq!("ar_coeffs_cr", 8, u.l("arcr")[0][i] + 128); } }
        eq!("ar_coeff_shift_minus_6", 2, d("ar_shift") - 6); eq!("grain_scale_shift", 2, d("scale_shift"));
        if ncb > 0 { eq!("cb_mult", 8, d("cb_mult")); eq!("cb_luma_mult", 8, d("cb_luma_mult")); eq!("cb_offset", 9, d("cb_offset")); }
        if ncr > 0 { eq!("cr_mult", 8, d("cr_mult")); eq!("cr_luma_mult", 8, d("cr_luma_mult")); eq!("cr_offset", 9, d("cr_offset")); }
        flag!("overlap");
        flag!("clip");
    }
    Ok(())
}

// ---------------------------------------------------------------- what both sides hold afterwards
/// parameters the driver stores in reference slot `i`
fn stored(i: i64) -> Vec<(&'static str, Vec<i64>)> {
    let v = |n: i64, k: i64| -> Vec<i64> { (0..n).map(|x| x * 3 + k + i).collect() };
    let c = |k: i64| -> Vec<i64> { (0..25).map(|x| x - 12 + k + i).collect() };
    vec![("g_ny", vec![1 + i]), ("g_y_value", v(1 + i, 1)), ("g_y_scaling", v(1 + i, 2)), ("g_ncb", vec![2 + i]), ("g_cb_value", v(2 + i, 3)), ("g_cb_scaling", v(2 + i, 4)),
        ("g_ncr", vec![1 + i % 3]), ("g_cr_value", v(1 + i % 3, 5)), ("g_cr_scaling", v(1 + i % 3, 6)), ("g_from_luma", vec![i % 2]), ("g_scaling", vec![8 + i % 4]), ("g_lag", vec![i % 4]),
        ("g_ary", c(1)), ("g_arcb", c(2)), ("g_arcr", c(3)), ("g_ar_shift", vec![6 + i % 4]), ("g_scale_shift", vec![(i + 1) % 4]), ("g_cb_mult", vec![10 + i]), ("g_cb_luma_mult", vec![20 + i]), ("g_cb_offset", vec![30 + i]),
        ("g_cr_mult", vec![40 + i]), ("g_cr_luma_mult", vec![50 + i]), ("g_cr_offset", vec![60 + i]), ("g_overlap", vec![(i + 1) % 2]), ("g_clip", vec![(i % 4 < 2) as i64])]
}
/// Compares what the encoder holds after a header with what a reader of that header holds, field by field
/// where the header determines it. Errors name the field.
pub fn state(line: &str, u: &Unit, q: &Seq) -> Result<u64, String> {
    let mut m: std::collections::BTreeMap<&str, Vec<i64>> = Default::default();
    for w in line.split(' ') { if let Some((k, v)) = w.split_once('=') { m.insert(k, if v.is_empty() { vec![] } else { v.split(',').map(|x| x.parse().unwrap_or(i64::MIN)).collect() }); } }
    let count = std::cell::Cell::new(0u64);
    // entries off.. of field k
    let part = |k: &str, off: usize, want: &[i64]| -> Result<(), String> {
        let got = m.get(k).ok_or(format!("{} is missing from the recorded state", k))?;
        count.set(count.get() + want.len() as u64);
        for (i, w) in want.iter().enumerate() { if got.get(off + i) != Some(w) { return Err(format!("after the header {}{} is {} for the encoder, but a decoder has {}", k, if want.len() + off > 1 { format!("[{}]", off + i) } else { String::new() }, got.get(off + i).map_or("missing".to_string(), |g| g.to_string()), w)); } }
        Ok(())
    };
    let all = |k: &str, want: &[i64]| -> Result<(), String> {
        part(k, 0, want)?;
        let n = m[k].len();
        if n != want.len() { return Err(format!("after the header {} has {} entries for the encoder, but {} for a decoder", k, n, want.len())); }
        Ok(())
    };
    let is = |k: &str, want: i64| part(k, 0, &[want]);
    let g = |k: &str| u.g(k);
    let on = |k: &str| u.g(k) == 1;
    // what the sequence header says or implies
    is("ssx", q.ssx as i64)?;
    is("ssy", q.ssy as i64)?;
    is("range", q.range as i64)?;
    is("planes", q.planes() as i64)?;
    is("seq_sct", q.sct)?;
    is("seq_imv", q.imv)?;
    is("seq_ref_mvs", q.rfmv as i64)?;
    if u.kind == "show" {
        let t = u.l("rft")[0][g("idx") as usize];
        is("existing", 1)?;
        is("seen", 0)?;
        is("frame_type", t)?;
        is("refresh", if t == 0 { 255 } else { 0 })?;
        return Ok(count.get());
    }
    let t = g("type");
    let intra = t == 0 || t == 2;
    let shown = on("show_frame");
    is("existing", 0)?;
    is("seen", 1)?;
    is("frame_type", t)?;
    is("intra", intra as i64)?;
    is("show_frame", g("show_frame"))?;
    if !shown { is("showable", g("showable_frame"))?; }
    let er = t == 3 || (t == 0 && shown) || on("error_resilient_mode");
    is("error_resilient", er as i64)?;
    is("disable_cdf_update", g("disable_cdf_update"))?;
    let sct = if q.sct == 2 { on("allow_sct") } else { q.sct == 1 };
    is("sct", sct as i64)?;
    let imv = intra || (sct && if q.imv == 2 { on("force_imv") } else { q.imv == 1 });
    is("imv", imv as i64)?;
    let id = if q.fid { g("cfid") } else { 0 };
    is("frame_id", id)?;
    let over = t == 3 || on("size_override");
    is("size_override", over as i64)?;
    is("order_hint", g("order_hint"))?;
    let prim = if intra || er { 7 } else { g("prim") };
    is("primary_ref", prim)?;
    let refresh = if t == 3 || (t == 0 && shown) { 255 } else { g("refresh") };
    is("refresh", refresh)?;
    // reference slots
    let hints: Vec<i64> = if t == 0 && shown { vec![0; 8] } else { u.l("roh")[0].clone() };
    let coded_hints = (!intra || refresh != 255) && er && q.oh;
    for i in 0..8 {
        let mut v = u.l("rv")[0][i] == 1 && !(t == 0 && shown);
        let r = u.l("rfid")[0][i];
        if q.fid {
            let d = 1i64 << q.delta_len;
            if id > d { if r > id || r < id - d { v = false; } } else if r > id && r < (1i64 << q.id_len) + id - d { v = false; }
        }
        if coded_hints && u.l("froh")[0][i] != hints[i] { v = false; }
        part("ref_valid", i, &[v as i64])?;
    }
    if t == 0 && shown { all("ref_order_hint", &hints)?; part("order_hints", 1, &[0; 7])?; }
    // size
    let (up, h) = (g("w"), g("h"));
    let sr = q.superres && on("use_superres");
    let den = if sr { g("denom") } else { 8 };
    let fw = (up * 8 + den / 2) / den;
    is("use_superres", sr as i64)?;
    is("denom", den)?;
    is("upscaled", up)?;
    is("width", fw)?;
    is("height", h)?;
    is("render_width", g("rw"))?;
    is("render_height", g("rh"))?;
    let intrabc = intra && sct && fw == up && on("intrabc");
    is("intrabc", intrabc as i64)?;
    let mut hp = false;
    let mut short = false;
    if !intra {
        short = q.oh && on("short_signaling");
        is("short", short as i64)?;
        hp = !imv && on("high_precision");
        is("filter", if on("filter_switchable") { 4 } else { g("filter") })?;
        is("motion_switchable", g("motion_switchable"))?;
        if q.fid { for i in 0..7 { part("expected_id", i, &[(id + (1i64 << q.id_len) - u.l("dfid")[0][i]) % (1i64 << q.id_len)])?; } }
        if !short {
            all("ridx", &u.l("ridx")[0])?;
            for i in 0..7 {
                let x = hints[u.l("ridx")[0][i] as usize];
                if q.oh { part("order_hints", i + 1, &[x])?; }
                part("sign_bias", i + 1, &[(q.oh && rel(q, x, g("order_hint")) > 0) as i64])?;
            }
        }
    }
    is("high_precision", hp as i64)?;
    is("ref_mvs", (!intra && !er && q.rfmv && on("use_ref_mvs")) as i64)?;
    is("no_end_update", (on("disable_cdf_update") || on("no_end_update")) as i64)?;
    // tiles
    let starts = |samples: i64, n: i64| -> Vec<i64> {
        let (sb, k, s) = (sbs(q, samples), tile_log2(1, n), if q.sb128 { 5 } else { 4 });
        let w = (sb + (1 << k) - 1) >> k;
        let mut v: Vec<i64> = (0..).map(|i| i * w).take_while(|x| *x < sb).map(|x| x << s).collect();
        v.push(2 * ((samples + 7) >> 3));
        v
    };
    all("mi_cols", &starts(fw, g("tile_cols")))?;
    all("mi_rows", &starts(h, g("tile_rows")))?;
    is("tile_cols", g("tile_cols"))?;
    is("tile_rows", g("tile_rows"))?;
    if g("tile_cols") * g("tile_rows") > 1 { is("tile_id", g("tile_id"))?; is("tile_bytes", g("tile_bytes"))?; } else { is("tile_id", 0)?; }
    // quantizer
    let base = g("base_q");
    is("base_q", base)?;
    let diff = q.sep_uv && on("diff_uv");
    let c = |k: &str| if q.mono { 0 } else { g(k) };
    let (ud, ua) = (c("q_u_dc"), c("q_u_ac"));
    let (vd, va) = if diff { (c("q_v_dc"), c("q_v_ac")) } else { (ud, ua) };
    for (k, x) in [("q_y_dc", g("q_y_dc")), ("q_u_dc", ud), ("q_u_ac", ua), ("q_v_dc", vd), ("q_v_ac", va)] { is(k, x)?; }
    if !q.mono { is("diff_uv", diff as i64)?; }
    is("qmatrix", g("qmatrix"))?;
    let qm = [g("qm_y"), g("qm_u"), if q.sep_uv { g("qm_v") } else { g("qm_u") }];
    if on("qmatrix") { is("qm_y", qm[0])?; is("qm_u", qm[1])?; is("qm_v", qm[2])?; }
    // segmentation
    let seg = on("seg");
    is("seg", seg as i64)?;
    let data = seg && (prim == 7 || on("seg_data"));
    if seg {
        if prim == 7 { is("seg_map", 1)?; is("seg_temporal", 0)?; } else { is("seg_map", g("seg_map"))?; if on("seg_map") { is("seg_temporal", g("seg_temporal"))?; } }
        is("seg_data", data as i64)?;
    }
    const LIMIT: [i64; 8] = [255, 63, 63, 63, 63, 7, 0, 0];
    let feature = |s: usize, j: usize| -> Option<i64> { let x = u.l("features")[s][j]; if !seg || x == NONE { None } else { Some(x.clamp(if j < 5 { -LIMIT[j] } else { 0 }, LIMIT[j])) } };
    if data || !seg {
        let (mut pre, mut last) = (false, 0);
        let mut f = vec![];
        for s in 0..8 { for j in 0..8 { f.push(feature(s, j).unwrap_or(NONE)); if feature(s, j).is_some() { last = s as i64; pre |= j >= 5; } } }
        all("features", &f)?;
        is("pre_skip", pre as i64)?;
        is("last_active", last)?;
    }
    let dq = base > 0 && on("delta_q");
    let dlf = dq && !intrabc && on("delta_lf");
    is("delta_q", dq as i64)?;
    is("delta_q_res", if dq { g("delta_q_res") } else { 0 })?;
    is("delta_lf", dlf as i64)?;
    is("delta_lf_res", if dlf { g("delta_lf_res") } else { 0 })?;
    is("delta_lf_multi", (dlf && on("delta_lf_multi")) as i64)?;
    let deltas = [g("q_y_dc"), ud, ua, vd, va].iter().all(|x| *x == 0);
    let lossless: Vec<bool> = (0..8).map(|s| deltas && feature(s, 0).map_or(base, |f| (base + f).clamp(0, 255)) == 0).collect();
    let coded_lossless = lossless.iter().all(|x| *x);
    let all_lossless = coded_lossless && fw == up;
    if data || !seg || !deltas {
        all("lossless", &lossless.iter().map(|x| *x as i64).collect::<Vec<_>>())?;
        is("coded_lossless", coded_lossless as i64)?;
        is("all_lossless", all_lossless as i64)?;
        if on("qmatrix") { for p in 0..3 { all(["qm0", "qm1", "qm2"][p], &lossless.iter().map(|l| if *l { 15 } else { qm[p] }).collect::<Vec<_>>())?; } }
    }
    // filters
    if coded_lossless || intrabc {
        part("lf", 0, &[0, 0])?;
        all("ref_deltas", &[1, 0, 0, 0, -1, 0, -1, -1])?;
        all("mode_deltas", &[0, 0])?;
    } else {
        let lf = &u.l("lf")[0];
        part("lf", 0, &lf[..2])?;
        if !q.mono && (lf[0] > 0 || lf[1] > 0) { part("lf", 2, &lf[2..])?; }
        is("sharpness", g("sharpness"))?;
        is("lf_delta", g("lf_delta"))?;
        if on("lf_delta") { is("lf_update", g("lf_update"))?; }
        // what is not written is what the caller had from before
        all("ref_deltas", &u.l("ref_deltas").iter().map(|x| x[1]).collect::<Vec<_>>())?;
        all("mode_deltas", &u.l("mode_deltas").iter().map(|x| x[1]).collect::<Vec<_>>())?;
    }
    let sec = |x: i64| if x == 3 { 4 } else { x };
    if coded_lossless || intrabc || !q.cdef {
        is("cdef_bits", 0)?;
        is("damping", 3)?;
        for k in ["cdef_y_pri", "cdef_y_sec", "cdef_uv_pri", "cdef_uv_sec"] { part(k, 0, &[0])?; }
    } else {
        is("cdef_bits", g("cdef_bits"))?;
        is("damping", g("damping"))?;
        for (i, x) in u.l("cdef_strengths")[..1 << g("cdef_bits")].iter().enumerate() {
            part("cdef_y_pri", i, &[x[0]])?;
            part("cdef_y_sec", i, &[sec(x[1])])?;
            if !q.mono { part("cdef_uv_pri", i, &[x[2]])?; part("cdef_uv_sec", i, &[sec(x[3])])?; }
        }
    }
    let lr = if all_lossless || intrabc || !q.restoration { 0 } else { g("lr") };
    is("uses_lr", (lr > 0) as i64)?;
    for p in 0..q.planes() { part("restoration", p, &[[0, 3, 1, 2][lr as usize]])?; }
    if lr > 0 {
        let size = 64 << g("lr_shift");
        is("lr_size", size)?;
        if !q.mono { let s = size >> if q.ssx && q.ssy { g("lr_uv") } else { 0 }; part("lr_size", 1, &[s, s])?; }
    }
    is("tx_mode", if coded_lossless { 0 } else if on("tx_select") { 2 } else { 1 })?;
    // motion
    let comp = !intra && on("ref_select");
    is("ref_select", comp as i64)?;
    if !short {
        let pair = if comp && q.oh { skip_mode_pair(q, u) } else { None };
        is("skip_allowed", pair.is_some() as i64)?;
        if let Some((a, b)) = pair { all("skip_frames", &[a.min(b) + 1, a.max(b) + 1])?; }
        is("skip_present", (pair.is_some() && on("skip_mode")) as i64)?;
    }
    is("warped", (!intra && !er && q.warped && on("allow_warped")) as i64)?;
    is("reduced_tx", g("reduced_tx"))?;
    for rf in 0..7 {
        let w: Vec<i64> = if intra { vec![0, 0, 0, 1 << 16, 0, 0, 1 << 16] } else { u.l("gm")[rf].clone() };
        part("gm_type", rf + 1, &w[..1])?;
        part("gm", 6 * (rf + 1), &w[1..])?;
    }
    // film grain
    is("grain", q.grain as i64)?;
    if q.grain {
        let coded = shown || on("showable_frame");
        if !coded || !on("apply_grain") {
            for k in ["g_apply", "g_seed", "g_update", "g_ny", "g_ncb", "g_ncr", "g_from_luma", "g_lag", "g_scale_shift", "g_cb_mult", "g_cb_luma_mult", "g_cb_offset", "g_cr_mult", "g_cr_luma_mult", "g_cr_offset", "g_overlap", "g_clip"] { is(k, 0)?; }
        } else {
            is("g_apply", 1)?;
            is("g_seed", g("grain_seed"))?;
            if t == 1 && !on("update_grain") { for (k, w) in stored(g("grain_ref")) { all(k, &w)?; } return Ok(count.get()); }
            is("g_update", 1)?;
            let pts = |n: &str, v: &str, s: &str, k: &str| -> Result<usize, String> {
                let l = u.l(k);
                is(n, l.len() as i64)?;
                for (i, x) in l.iter().enumerate() { part(v, i, &x[..1])?; part(s, i, &x[1..])?; }
                Ok(l.len())
            };
            let ny = pts("g_ny", "g_y_value", "g_y_scaling", "gy")?;
            let from_luma = !q.mono && on("from_luma");
            is("g_from_luma", from_luma as i64)?;
            let (mut ncb, mut ncr) = (0, 0);
            if q.mono || from_luma || (q.ssx && q.ssy && ny == 0) { is("g_ncb", 0)?; is("g_ncr", 0)?; }
            else { ncb = pts("g_ncb", "g_cb_value", "g_cb_scaling", "gcb")?; ncr = pts("g_ncr", "g_cr_value", "g_cr_scaling", "gcr")?; }
            is("g_scaling", g("grain_scaling"))?;
            is("g_lag", g("ar_lag"))?;
            let lag = g("ar_lag") as usize;
            let pos = 2 * lag * (lag + 1);
            let posc = if ny > 0 { pos + 1 } else { pos };
            if ny > 0 { part("g_ary", 0, &u.l("ary")[0][..pos])?; }
            if from_luma || ncb > 0 { part("g_arcb", 0, &u.l("arcb")[0][..posc])?; }
            if from_luma || ncr > 0 { part("g_arcr", 0, &u.l("arcr")[0][..posc])?; }
            is("g_ar_shift", g("ar_shift"))?;
            is("g_scale_shift", g("scale_shift"))?;
            if ncb > 0 { is("g_cb_mult", g("cb_mult"))?; is("g_cb_luma_mult", g("cb_luma_mult"))?; is("g_cb_offset", g("cb_offset"))?; }
            if ncr > 0 { is("g_cr_mult", g("cr_mult"))?; is("g_cr_luma_mult", g("cr_luma_mult"))?; is("g_cr_offset", g("cr_offset"))?; }
            is("g_overlap", g("overlap"))?;
            is("g_clip", g("clip"))?;
        }
    }
    Ok(count.get())
}

// ---------------------------------------------------------------- generation
fn gen_show(r: &mut Rng, q: &Seq) -> Unit {
    Unit::new("show").set("idx", val(r, 3)).set("pres", val(r, q.dm_pres.max(1) as u32)).set("cfid", val(r, q.id_len.max(1) as u32)).list("rft", vec![(0..8).map(|_| r.below(4) as i64).collect()])
}
fn signed(r: &mut Rng, bits: u32) -> i64 { let m = (1i64 << bits) - 1; match r.below(4) { 0 => m, 1 => -m - 1, 2 => r.below(7) as i64 - 3, _ => r.below(2 * m as u64 + 2) as i64 - m - 1 } }
fn gen_fh(r: &mut Rng, q: &Seq) -> Unit {
    let mut u = Unit::new("fh");
    let t = *r.pick(&[0i64, 0, 1, 1, 1, 2, 3]);
    let intra = t == 0 || t == 2;
    u = u.set("type", t);
    let all = r.below(5);
    for k in FLAGS_ALL {
        let b = match all { 0 => 0, 1 => 1, _ => bit(r) };
        u = u.set(k, b);
    }
    let one = |r: &mut Rng| r.chance(1, 4);
    if one(r) { u = u.set("intrabc", 0); }
    let oh = |r: &mut Rng, q: &Seq| if q.ohb == 0 { 0 } else { val(r, q.ohb as u32) };
    u = u.set("pres", val(r, q.dm_pres.max(1) as u32)).set("removal", val(r, q.dm_rem.max(1) as u32)).set("cfid", val(r, q.id_len.max(1) as u32)).set("order_hint", oh(r, q)).set("prim", val(r, 3)).set("refresh", val(r, 8));
    let er = t == 3 || (t == 0 && u.g("show_frame") == 1) || u.g("error_resilient_mode") == 1;
    let prim = if intra || er { 7 } else { u.g("prim") };
    u = u.list("roh", vec![(0..8).map(|_| oh(r, q)).collect()]);
    let roh = u.l("roh").to_vec();
    u = u.list("froh", if intra { vec![(0..8).map(|_| oh(r, q)).collect()] } else { roh });
    // sizes
    let over = t == 3 || u.g("size_override") == 1;
    let pick = |r: &mut Rng, m: i64| match r.below(4) { 0 => m, 1 => 1, 2 => r.log(m as u64) as i64, _ => r.range(1, m as u64) as i64 };
    let (w, h) = if over { (pick(r, q.w), pick(r, q.h)) } else { (q.w, q.h) };
    u = u.set("w", w).set("h", h).set("denom", r.range(9, 16) as i64);
    let den = u.g("denom");
    let fw = if q.superres && u.g("use_superres") == 1 { (w * 8 + den / 2) / den } else { w };
    let (rw, rh) = match r.below(5) { 0 => (w, h), 1 => (fw, h), 2 => (r.range(1, 65536) as i64, r.range(1, 65536) as i64), 3 => (w, (h + 1).min(65536)), _ => (w, h) };
    u = u.set("rw", rw).set("rh", rh);
    // references
    if !intra {
        let short = q.oh && one(r);
        if short { u = u.set("short_signaling", 1).set("ref_select", 0); }
        u = u.set("last_idx", val(r, 3)).set("gold_idx", val(r, 3)).list("ridx", vec![(0..7).map(|_| val(r, 3)).collect()]).list("dfid", vec![(0..7).map(|_| 1 + val(r, q.delta_len.max(1) as u32)).collect()]).set("filter", val(r, 2));
    }
    // tiles
    let (sbc, sbr) = (sbs(q, fw), sbs(q, h));
    let (max_w, max_area) = tile_limits(q);
    let (min_c, max_c, max_r) = (tile_log2(max_w, sbc), tile_log2(1, sbc.min(64)), tile_log2(1, sbr.min(64)));
    let kc = if one(r) { max_c } else if one(r) { min_c } else { r.us(min_c, max_c.max(min_c)) };
    let nc = tiles(sbc, kc);
    let kc = tile_log2(1, nc);
    let min_r = min_c.max(tile_log2(max_area, sbr * sbc)).saturating_sub(kc);
    let kr = if one(r) { max_r.max(min_r) } else if one(r) { min_r } else { r.us(min_r, max_r.max(min_r)) };
    let nr = tiles(sbr, kr);
    let kr = tile_log2(1, nr);
    u = u.set("tile_cols", nc).set("tile_rows", nr).set("tile_id", val(r, if kc + kr > 0 { (kc + kr) as u32 } else { 3 })).set("tile_bytes", r.range(1, 4) as i64);
    // quantizer and segmentation
    u = u.set("base_q", if r.chance(1, 3) { 0 } else { val(r, 8) });
    let plain = r.chance(1, 2);
    for k in ["q_y_dc", "q_u_dc", "q_u_ac", "q_v_dc", "q_v_ac"] { let x = if plain || r.chance(1, 3) { 0 } else { signed(r, 6) }; u = u.set(k, x); }
    for k in ["qm_y", "qm_u", "qm_v"] { u = u.set(k, val(r, 4)); }
    // none, half, most, exactly one, or some of few kinds
    let few = r.below(5);
    let (cell, kinds) = (r.below(64), r.next() & r.next());
    u = u.list("features", (0..8u64).map(|s| (0..8u64).map(|j| {
        let out = match few { 0 => true, 1 => r.chance(1, 2), 2 => r.chance(1, 3), 3 => s * 8 + j != cell, _ => kinds >> j & 1 == 0 || r.chance(2, 3) };
        if out { return NONE; }
        match j { 0 => if r.chance(1, 2) { -(r.range(0, 256) as i64) } else { r.range(0, 255) as i64 }, 1..=4 => r.range(0, 127) as i64 - 64, 5 => val(r, 3), _ => bit(r) }
    }).collect()).collect());
    if u.g("seg") == 1 && prim != 7 && u.g("seg_data") == 0 && u.g("q_y_dc") == 0 { u = u.set("q_y_dc", 1 + val(r, 5)); }
    u = u.set("delta_q_res", val(r, 2)).set("delta_lf_res", val(r, 2));
    // filters
    u = u.list("lf", vec![(0..4).map(|_| if r.chance(1, 3) { 0 } else { val(r, 6) }).collect()]).set("sharpness", val(r, 3));
    u = u.list("ref_deltas", (0..8).map(|_| vec![bit(r), signed(r, 6)]).collect()).list("mode_deltas", (0..2).map(|_| vec![bit(r), val(r, 6)]).collect());
    u = u.set("damping", r.range(3, 6) as i64).set("cdef_bits", val(r, 2)).list("cdef_strengths", (0..8).map(|_| vec![val(r, 4), val(r, 2), val(r, 4), val(r, 2)]).collect());
    if !q.cdef && one(r) { u = u.list("cdef_strengths", vec![]); } // nothing to write: the caller need not have any
    u = u.set("lr", val(r, 2)).set("lr_shift", if q.sb128 { r.range(1, 2) } else { r.below(3) } as i64).set("lr_uv", bit(r));
    // global motion
    if !intra {
        let sct = if q.sct == 2 { u.g("allow_sct") == 1 } else { q.sct == 1 };
        let imv = sct && if q.imv == 2 { u.g("force_imv") == 1 } else { q.imv == 1 };
        let hp = !imv && u.g("high_precision") == 1;
        let near = r.chance(1, 2);
        let (mut gm, mut pgm, mut gmw) = (vec![], vec![], vec![]);
        let none = r.chance(1, 4);
        for _ in 0..7 {
            let default = |i: usize| if i % 3 == 2 { 1i64 << 16 } else { 0 };
            let prev: Vec<i64> = (0..6).map(|i| default(i) + if prim == 7 || one(r) { 0 } else if i < 2 { signed(r, 12) << 10 } else { signed(r, 12) << 1 }).collect();
            let typ = if none { 0 } else { r.below(4) as i64 };
            let mut g: Vec<i64> = (0..6).map(|i| {
                let (abs, prec) = gm_bits(typ, i, hp);
                let (shift, mx) = (16 - prec, 1i64 << abs);
                let c = (prev[i] - default(i)) >> shift;
                let v = if near { c + r.below(9) as i64 - 4 } else { match r.below(5) { 0 => mx, 1 => -mx, 2 => 0, _ => r.below(2 * mx as u64 + 1) as i64 - mx } };
                default(i) + (v.clamp(-mx, mx) << shift)
            }).collect();
            if typ == 2 { g[4] = -g[3]; g[5] = g[2]; }
            if typ <= 1 { for i in 2..6 { g[i] = default(i); } }
            if typ == 0 { g[0] = 0; g[1] = 0; }
            // what the caller has where nothing is transmitted
            let sent = |i: usize| match typ { 0 => false, 1 => i < 2, 2 => i < 4, _ => true };
            let mut wish: Vec<i64> = (0..6).map(|i| if sent(i) || one(r) { g[i] } else { default(i) + signed(r, 12) }).collect();
            wish.push((typ == 2 || (typ == 0 && bit(r) == 1)) as i64);
            wish.push((typ == 1 || (typ != 3 && bit(r) == 1)) as i64);
            gmw.push(wish);
            g.insert(0, typ);
            gm.push(g);
            pgm.push(prev);
        }
        u = u.list("gm", gm).list("pgm", pgm).list("gmw", gmw);
    }
    // film grain
    if q.grain {
        let pts = |r: &mut Rng| -> Vec<Vec<i64>> { let n = match r.below(4) { 0 => 0, 1 => 14, _ => r.below(11) }; (0..n).map(|_| vec![val(r, 8), val(r, 8)]).collect() };
        let cut = |mut v: Vec<Vec<i64>>| { v.truncate(10); v };
        let (y, cb, cr) = (pts(r), cut(pts(r)), cut(pts(r)));
        u = u.list("gy", y).list("gcb", cb).list("gcr", cr).set("grain_seed", val(r, 16)).set("grain_ref", val(r, 3)).set("grain_scaling", r.range(8, 11) as i64).set("ar_lag", val(r, 2)).set("ar_shift", r.range(6, 9) as i64).set("scale_shift", val(r, 2));
        for k in ["ary", "arcb", "arcr"] { u = u.list(k, vec![(0..25).map(|_| signed(r, 7)).collect()]); }
        for k in ["cb_mult", "cb_luma_mult", "cr_mult", "cr_luma_mult"] { u = u.set(k, val(r, 8)); }
        u = u.set("cb_offset", val(r, 9)).set("cr_offset", val(r, 9));
    }
    // what is known of earlier frames
    let near = |r: &mut Rng| { let d = 1i64 << q.delta_len; let n = 1i64 << q.id_len; let c = u.g("cfid"); match r.below(6) { 0 => val(r, q.id_len.max(1) as u32), 1 => c + d, 2 => c - d, 3 => c - d - 1, 4 => c - 1, _ => c + n - d - r.below(3) as i64 + 1 }.rem_euclid(n) };
    let ids: Vec<i64> = (0..8).map(|_| near(r)).collect();
    let valid: Vec<i64> = (0..8).map(|_| (r.below(4) > 0) as i64).collect();
    u.list("rfid", vec![ids]).list("rv", vec![valid])
}
/// A history: sequence headers, and frame headers as a decoder could meet them. A frame header is followed
/// by a temporal delimiter unless it only shows an existing frame.
pub fn gen_units(r: &mut Rng) -> Vec<Unit> {
    let mut v = vec![];
    let mut q: Option<Seq> = None;
    let n = 1 + if r.chance(1, 10) { r.log(60) } else { r.log(10) };
    for _ in 0..n {
        if q.is_none() || r.chance(1, 8) {
            let s = gen_seq(r);
            q = Some(Seq::of(&s));
            v.push(s);
        }
        let p = q.as_ref().unwrap();
        match r.below(10) {
            0 => v.push(Unit::new("again")),
            1 => v.push(Unit::new("td")),
            2 | 3 => v.push(gen_show(r, p)),
            _ => { v.push(gen_fh(r, p)); v.push(Unit::new("td")); }
        }
    }
    v
}
