//! As frames, and writes down what the frame and the encoder's context hold after every frame header.  Needs /repo built with --cfg av1enc_sim.
#[path = "../../units/src/common.rs"]
mod common;
#[path = "../../frames/src/frame.rs"]
mod frame;
use av1enc::sim::*;
use av1enc::binary_writer::BinaryWriter;
use av1enc::bool_coder::BoolCoder;
use av1enc::encoder::EncoderContext;
use av1enc::obu::OBU;
use av1enc::obu_encoder::OBUEncoder;
use common::*;
use frame::frame;
use std::fmt::Write as _;
use std::cell::RefCell;
use std::io::Write;
use std::rc::Rc;

/// stored parameters of reference slot `i`, every field its own
fn stored(i: usize) -> FilmGrainParams {
    let mut g = FilmGrainParams::new();
    let v = |n: usize, k: u8| -> Vec<u8> { (0..n).map(|x| (x as u8).wrapping_mul(3).wrapping_add(k + i as u8)).collect() };
    let c = |k: i16| -> Vec<i16> { (0..25).map(|x| x - 12 + k + i as i16).collect() };
    g.apply_grain = true; g.grain_seed = 1000 + i as u16; g.update_grain = true; g.film_grain_params_ref_idx = i;
    g.num_y_points = 1 + i; g.point_y_value = v(1 + i, 1); g.point_y_scaling = v(1 + i, 2);
    g.num_cb_points = 2 + i; g.point_cb_value = v(2 + i, 3); g.point_cb_scaling = v(2 + i, 4);
    g.num_cr_points = 1 + i % 3; g.point_cr_value = v(1 + i % 3, 5); g.point_cr_scaling = v(1 + i % 3, 6);
    g.chroma_scaling_from_luma = i % 2 == 1; g.grain_scaling = 8 + i % 4; g.ar_coeff_lag = i % 4;
    g.ar_coeffs_y = c(1); g.ar_coeffs_cb = c(2); g.ar_coeffs_cr = c(3);
    g.ar_coeff_shift = 6 + i % 4; g.grain_scale_shift = (i + 1) % 4;
    g.cb_mult = 10 + i; g.cb_luma_mult = 20 + i; g.cb_offset = 30 + i; g.cr_mult = 40 + i; g.cr_luma_mult = 50 + i; g.cr_offset = 60 + i;
    g.overlap_flag = i % 2 == 0; g.clip_to_restricted_range = i % 4 < 2;
    g
}
fn frame_type(n: i64) -> FrameType { [FrameType::KEY_FRAME, FrameType::INTER_FRAME, FrameType::INTRA_ONLY_FRAME, FrameType::SWITCH_FRAME][n as usize] }
/// what was known of earlier frames
fn before(u: &Unit, e: &mut EncoderContext) {
    let row = |k: &str| -> Vec<i64> { u.l(k).into_iter().next().unwrap_or_default() };
    for (i, x) in row("rv").iter().enumerate() { e.ref_valid[i] = *x == 1; }
    for (i, x) in row("rfid").iter().enumerate() { e.ref_frame_id[i] = *x as usize; }
    for (i, x) in row("rft").iter().enumerate() { e.ref_frame_type[i] = frame_type(*x); }
    for i in 0..8 { e.ref_film_grain_params[i] = stored(i); }
}
fn put<T: Copy>(o: &mut String, k: &str, v: &[T], f: impl Fn(T) -> i64) { let _ = write!(o, " {}=", k); for (i, x) in v.iter().enumerate() { let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, f(*x)); } }
fn after(f: &Frame, e: &EncoderContext) -> String {
    let mut o = String::new();
    macro_rules! n { ($($k:ident $v:expr),* $(,)?) => { $( put(&mut o, stringify!($k), &[$v], |x| x as i64); )* } }
    macro_rules! a { ($($k:ident $v:expr),* $(,)?) => { $( put(&mut o, stringify!($k), &$v[..], |x| x as i64); )* } }
    n! { ssx e.color_config.subsampling_x, ssy e.color_config.subsampling_y, range e.color_config.color_range, planes e.num_planes, seq_sct e.seq_force_screen_content_tools, seq_imv e.seq_force_integer_mv, seq_ref_mvs e.enable_ref_frame_mvs }
    n! { seen e.seen_frame_header, existing e.show_existing_frame, frame_type f.frame_type, intra e.frame_is_intra, show_frame e.show_frame, showable e.showable_frame, error_resilient f.error_resilient_mode,
        disable_cdf_update e.disable_cdf_update, sct f.allow_screen_content_tools, imv f.force_integer_mv, frame_id e.current_frame_id, size_override e.frame_size_override_flag, order_hint f.order_hint,
        primary_ref f.primary_ref_frame, refresh e.refresh_frame_flags, width f.frame_width, height f.frame_height, upscaled e.upscaled_width, denom e.superres_denom, use_superres f.use_superres,
        render_width f.render_width, render_height f.render_height, intrabc f.allow_intrabc, short f.frame_refs_short_signaling, high_precision f.allow_high_precision_mv, filter f.interp_filter,
        motion_switchable f.is_motion_mode_switchable, ref_mvs f.use_ref_frame_mvs, no_end_update e.disable_frame_end_update_cdf, tile_id e.context_update_tile_id, tile_bytes e.tile_size_bytes,
        tile_cols f.tile_cols(), tile_rows f.tile_rows(), base_q f.quantization_params.base_q_idx, q_y_dc e.delta_q_y_dc, q_u_dc e.delta_q_u_dc, q_u_ac e.delta_q_u_ac, q_v_dc e.delta_q_v_dc, q_v_ac e.delta_q_v_ac,
        diff_uv f.quantization_params.diff_uv_delta, qmatrix f.quantization_params.using_qmatrix, qm_y f.quantization_params.qm_y, qm_u f.quantization_params.qm_u, qm_v f.quantization_params.qm_v,
        seg f.segmentation_params.segmentation_enabled, seg_map f.segmentation_params.segmentation_update_map, seg_temporal f.segmentation_params.segmentation_temporal_update, seg_data f.segmentation_params.segmentation_update_data,
        pre_skip e.seg_id_pre_skip, last_active e.last_active_seg_id, delta_q f.delta_q_params.delta_q_present, delta_q_res f.delta_q_params.delta_q_res, delta_lf f.delta_lf_params.delta_lf_present,
        delta_lf_res f.delta_lf_params.delta_lf_res, delta_lf_multi f.delta_lf_params.delta_lf_multi, coded_lossless e.coded_lossless, all_lossless e.all_lossless,
        sharpness f.loop_filter_params.loop_filter_sharpness, lf_delta f.loop_filter_params.loop_filter_delta_enabled, lf_update f.loop_filter_params.loop_filter_delta_update,
        damping f.cdef_params.cdef_damping, cdef_bits f.cdef_params.cdef_bits, uses_lr e.uses_lr, tx_mode e.tx_mode, ref_select f.reference_select, skip_allowed e.skip_mode_allowed, skip_present f.skip_mode_present,
        warped f.allow_warped_motion, reduced_tx f.reduced_tx_set }
    a! { ref_valid e.ref_valid, ref_order_hint e.ref_order_hint, expected_id e.expected_frame_id, ridx f.ref_frame_idx, order_hints e.order_hints, sign_bias e.ref_frame_sign_bias, mi_cols e.mi_col_starts, mi_rows e.mi_row_starts,
        lossless e.lossless_array, qm0 e.seg_q_m_level[0], qm1 e.seg_q_m_level[1], qm2 e.seg_q_m_level[2], lf f.loop_filter_params.loop_filter_level, ref_deltas f.loop_filter_params.loop_filter_ref_deltas,
        mode_deltas f.loop_filter_params.loop_filter_mode_deltas, cdef_y_pri f.cdef_params.cdef_y_pri_strength, cdef_y_sec f.cdef_params.cdef_y_sec_strength, cdef_uv_pri f.cdef_params.cdef_uv_pri_strength,
        cdef_uv_sec f.cdef_params.cdef_uv_sec_strength, restoration e.frame_restoration_type, lr_size e.loop_restoration_size, skip_frames e.skip_mode_frame, gm_type e.gm_type }
    let feats: Vec<i64> = f.segmentation_params.feature_value.iter().flatten().map(|x| x.map_or(9999, |v| v as i64)).collect();
    let gm: Vec<i64> = e.gm_params.iter().flatten().map(|x| *x as i64).collect();
    a! { features feats, gm gm }
    n! { grain e.film_grain_params.is_some() }
    if let Some(ref g) = e.film_grain_params {
        n! { g_apply g.apply_grain, g_seed g.grain_seed, g_update g.update_grain, g_ny g.num_y_points, g_ncb g.num_cb_points, g_ncr g.num_cr_points, g_from_luma g.chroma_scaling_from_luma, g_scaling g.grain_scaling,
            g_lag g.ar_coeff_lag, g_ar_shift g.ar_coeff_shift, g_scale_shift g.grain_scale_shift, g_cb_mult g.cb_mult, g_cb_luma_mult g.cb_luma_mult, g_cb_offset g.cb_offset,
            g_cr_mult g.cr_mult, g_cr_luma_mult g.cr_luma_mult, g_cr_offset g.cr_offset, g_overlap g.overlap_flag, g_clip g.clip_to_restricted_range }
        a! { g_y_value g.point_y_value, g_y_scaling g.point_y_scaling, g_cb_value g.point_cb_value, g_cb_scaling g.point_cb_scaling, g_cr_value g.point_cr_value, g_cr_scaling g.point_cr_scaling, g_ary g.ar_coeffs_y, g_arcb g.ar_coeffs_cb, g_arcr g.ar_coeffs_cr }
    }
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let stdout = std::io::stdout();
    let mut writer = if a[2] == "stdout" { BinaryWriter::standard(&stdout) } else {
        match BinaryWriter::file(&a[2]) { Ok(w) => w, Err(e) => { eprintln!("error: failed to open output file: {}", e); std::process::exit(1); } }
    };
    let mut coder = BoolCoder::new();
    let mut states = String::new();
    let ectx = Rc::new(RefCell::new(EncoderContext::new()));
    {
        let mut enc = OBUEncoder::new(&ectx, &mut writer, &mut coder);
        let mut last: Option<(OBU, Unit)> = None;
        for l in text.lines() {
            let u = parse(l);
            match u.kind.as_str() {
                "seq" => {
                    let h = header(&u, &mut ectx.borrow_mut());
                    let mut o = OBU::OBU_SEQUENCE_HEADER(h);
                    enc.encode_temporal_unit(&mut o);
                    last = Some((o, u));
                }
                "again" => enc.encode_temporal_unit(&mut last.as_mut().unwrap().0),
                "fh" | "show" => {
                    let f = frame(&u, &last.as_ref().unwrap().1, &mut ectx.borrow_mut());
                    before(&u, &mut ectx.borrow_mut());
                    let mut o = OBU::OBU_FRAME_HEADER(f);
                    enc.encode_temporal_unit(&mut o);
                    if let OBU::OBU_FRAME_HEADER(ref f) = o { states.push_str(after(f, &ectx.borrow()).trim_start()); }
                    states.push('\n');
                }
                _ => enc.encode_temporal_unit(&mut other(&u)),
            }
        }
    }
    if let Err(e) = writer.flush() { eprintln!("error: failed to write output: {}", e); std::process::exit(1); }
    if let Ok(p) = std::env::var("AV1ENC_SIM_FRAMES") { let _ = std::fs::write(p, states); }
}
