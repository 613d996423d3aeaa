//! The frame a scenario line stands for.
use crate::common::*;
use av1enc::encoder::EncoderContext;
use av1enc::sim::*;

/// the frame and the context it is coded in
pub fn frame(u: &Unit, s: &Unit, e: &mut EncoderContext) -> Frame {
    use FrameType::*;
    use InterpFilter::*;
    let n = |k: &str| u.g(k) as usize;
    let b = |k: &str| u.b(k);
    let row = |k: &str| -> Vec<i64> { u.l(k).into_iter().next().unwrap_or_default() };
    let mut f = Frame::new([KEY_FRAME, INTER_FRAME, INTRA_ONLY_FRAME, SWITCH_FRAME][n("type")], 8, 8);
    let dm = s.b("ti") && s.b("dm");
    if dm {
        f.decoder_model_info = Some(DecoderModelInfo { bitrate_scale: s.g("dm_brs") as u8, buffer_size_scale: s.g("dm_bss") as u8, encoder_decoder_buffer_delay_length: s.g("dm_n") as u8, num_units_in_decoding_tick: s.g("dm_tick") as u32,
            buffer_removal_delay: n("removal"), buffer_removal_delay_length: s.g("dm_rem") as u8, buffer_removal_delay_present: b("removal_present"), frame_presentation_delay_length: s.g("dm_pres") as u8 });
        f.temporal_point_info = Some(TemporalPointInfo { tu_presentation_delay: n("pres") as u32 });
    }
    e.show_existing_frame = u.kind == "show";
    e.frame_to_show_map_idx = n("idx") as u8;
    f.display_frame_id = Some(n("cfid") as u32);
    if u.kind == "show" { return f; }
    e.show_frame = b("show_frame");
    e.showable_frame = b("showable_frame");
    f.error_resilient_mode = b("error_resilient_mode");
    e.disable_cdf_update = b("disable_cdf_update");
    f.allow_screen_content_tools = n("allow_sct");
    f.force_integer_mv = n("force_imv");
    e.current_frame_id = n("cfid");
    e.frame_size_override_flag = b("size_override");
    f.order_hint = n("order_hint") as u8;
    f.primary_ref_frame = n("prim") as u8;
    e.refresh_frame_flags = n("refresh") as u8;
    for (i, x) in row("roh").iter().enumerate() { e.ref_order_hint[i] = *x as usize; }
    for (i, x) in row("froh").iter().enumerate() { f.ref_order_hint[i] = *x as usize; }
    f.frame_width = n("w"); f.frame_height = n("h"); f.render_width = n("rw"); f.render_height = n("rh");
    f.use_superres = b("use_superres");
    e.superres_denom = n("denom");
    f.allow_intrabc = b("intrabc");
    f.frame_refs_short_signaling = b("short_signaling");
    f.last_frame_idx = n("last_idx") as u8; f.gold_frame_idx = n("gold_idx") as u8;
    for (i, x) in row("ridx").iter().enumerate() { f.ref_frame_idx[i] = *x as u8; }
    for (i, x) in row("dfid").iter().enumerate() { f.delta_frame_id[i] = *x as usize; }
    f.allow_high_precision_mv = b("high_precision");
    f.is_filter_switchable = b("filter_switchable");
    f.interp_filter = [EIGHTTAP, EIGHTTAP_SMOOTH, EIGHTTAP_SHARP, BILINEAR][n("filter")];
    f.is_motion_mode_switchable = b("motion_switchable");
    f.use_ref_frame_mvs = b("use_ref_mvs");
    e.disable_frame_end_update_cdf = b("no_end_update");
    f.tile_info.uniform_tile_spacing_flag = true;
    f.tile_col_starts = (0..n("tile_cols")).collect();
    f.tile_row_starts = (0..n("tile_rows")).collect();
    e.context_update_tile_id = n("tile_id");
    e.tile_size_bytes = n("tile_bytes");
    f.quantization_params.base_q_idx = n("base_q") as u8;
    e.delta_q_y_dc = u.g("q_y_dc") as isize;
    e.delta_q_u_dc = u.g("q_u_dc") as isize; e.delta_q_u_ac = u.g("q_u_ac") as isize;
    e.delta_q_v_dc = u.g("q_v_dc") as isize; e.delta_q_v_ac = u.g("q_v_ac") as isize;
    f.quantization_params.diff_uv_delta = b("diff_uv");
    f.quantization_params.using_qmatrix = b("qmatrix");
    f.quantization_params.qm_y = n("qm_y") as u8; f.quantization_params.qm_u = n("qm_u") as u8; f.quantization_params.qm_v = n("qm_v") as u8;
    f.segmentation_params.segmentation_enabled = b("seg");
    f.segmentation_params.segmentation_update_map = b("seg_map");
    f.segmentation_params.segmentation_temporal_update = b("seg_temporal");
    f.segmentation_params.segmentation_update_data = b("seg_data");
    for (i, s) in u.l("features").iter().enumerate() { for (j, x) in f.segmentation_params.feature_value[i].iter_mut().enumerate() { *x = if s[j] == 9999 { None } else { Some(s[j] as isize) }; } }
    f.delta_q_params.delta_q_present = b("delta_q");
    f.delta_q_params.delta_q_res = n("delta_q_res") as u8;
    f.delta_lf_params.delta_lf_present = b("delta_lf");
    f.delta_lf_params.delta_lf_res = n("delta_lf_res") as u8;
    f.delta_lf_params.delta_lf_multi = b("delta_lf_multi");
    for (i, x) in row("lf").iter().enumerate() { f.loop_filter_params.loop_filter_level[i] = *x as u8; }
    f.loop_filter_params.loop_filter_sharpness = n("sharpness") as u8;
    f.loop_filter_params.loop_filter_delta_enabled = b("lf_delta");
    f.loop_filter_params.loop_filter_delta_update = b("lf_update");
    for (i, x) in u.l("ref_deltas").iter().enumerate() { f.loop_filter_params.update_ref_delta[i] = x[0] == 1; f.loop_filter_params.loop_filter_ref_deltas[i] = x[1] as isize; }
    for (i, x) in u.l("mode_deltas").iter().enumerate() { f.loop_filter_params.update_mode_delta[i] = x[0] == 1; f.loop_filter_params.loop_filter_mode_deltas[i] = x[1] as u8; }
    f.cdef_params.cdef_damping = n("damping") as u8;
    f.cdef_params.cdef_bits = n("cdef_bits") as u8;
    let c = u.l("cdef_strengths");
    let col = |k: usize| -> Vec<u8> { c.iter().map(|x| x[k] as u8).collect() };
    f.cdef_params.cdef_y_pri_strength = col(0); f.cdef_params.cdef_y_sec_strength = col(1);
    f.cdef_params.cdef_uv_pri_strength = col(2); f.cdef_params.cdef_uv_sec_strength = col(3);
    f.lr_params.lr_type = n("lr") as u8;
    f.lr_params.lr_unit_shift = n("lr_shift");
    f.lr_params.lr_uv_shift = n("lr_uv");
    f.tx_mode_select = b("tx_select");
    f.reference_select = b("ref_select");
    f.skip_mode_present = b("skip_mode");
    f.allow_warped_motion = b("allow_warped");
    f.reduced_tx_set = b("reduced_tx");
    for (i, g) in u.l("gm").iter().enumerate() {
        let m = &mut f.global_motion_params;
        let w = &u.l("gmw")[i];
        m.is_global[i + 1] = g[0] != 0; m.is_rot_zoom[i + 1] = w[6] == 1; m.is_translation[i + 1] = w[7] == 1;
        for k in 0..6 { e.gm_params[i + 1][k] = w[k] as isize; e.prev_gm_params[i + 1][k] = u.l("pgm")[i][k] as isize; }
    }
    if s.b("grain") {
        let mut g = FilmGrainParams::new();
        let pts = |k: &str, c: usize| -> Vec<u8> { u.l(k).iter().map(|x| x[c] as u8).collect() };
        let co = |k: &str| -> Vec<i16> { row(k).iter().map(|x| *x as i16).collect() };
        g.apply_grain = b("apply_grain"); g.grain_seed = n("grain_seed") as u16; g.update_grain = b("update_grain"); g.film_grain_params_ref_idx = n("grain_ref");
        g.num_y_points = u.l("gy").len(); g.point_y_value = pts("gy", 0); g.point_y_scaling = pts("gy", 1);
        g.num_cb_points = u.l("gcb").len(); g.point_cb_value = pts("gcb", 0); g.point_cb_scaling = pts("gcb", 1);
        g.num_cr_points = u.l("gcr").len(); g.point_cr_value = pts("gcr", 0); g.point_cr_scaling = pts("gcr", 1);
        g.chroma_scaling_from_luma = b("from_luma"); g.grain_scaling = n("grain_scaling"); g.ar_coeff_lag = n("ar_lag");
        g.ar_coeffs_y = co("ary"); g.ar_coeffs_cb = co("arcb"); g.ar_coeffs_cr = co("arcr");
        g.ar_coeff_shift = n("ar_shift"); g.grain_scale_shift = n("scale_shift");
        g.cb_mult = n("cb_mult"); g.cb_luma_mult = n("cb_luma_mult"); g.cb_offset = n("cb_offset");
        g.cr_mult = n("cr_mult"); g.cr_luma_mult = n("cr_luma_mult"); g.cr_offset = n("cr_offset");
        g.overlap_flag = b("overlap"); g.clip_to_restricted_range = b("clip");
        e.film_grain_params = Some(g);
    }
    f
}
