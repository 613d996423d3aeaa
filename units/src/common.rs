//! Scenario lines, and the units and contexts they stand for.
use av1enc::encoder::EncoderContext;
use av1enc::obu::{MetaData, ScalabilityModeIdc, ScalabilityStructure, SpatialLayerDescription, SpatialLayerDimension, TemporalGroup, OBU};
use av1enc::sim::*;
use std::collections::BTreeMap;

pub struct Unit { pub kind: String, f: BTreeMap<String, i64>, lists: BTreeMap<String, Vec<Vec<i64>>> }
impl Unit {
    pub fn g(&self, k: &str) -> i64 { *self.f.get(k).unwrap_or(&0) }
    pub fn b(&self, k: &str) -> bool { self.g(k) != 0 }
    pub fn l(&self, k: &str) -> Vec<Vec<i64>> { self.lists.get(k).cloned().unwrap_or_default() }
}
pub fn parse(l: &str) -> Unit {
    let w: Vec<&str> = l.split(' ').collect();
    let mut u = Unit { kind: w[0].into(), f: BTreeMap::new(), lists: BTreeMap::new() };
    for x in &w[1..] {
        if let Some((k, v)) = x.split_once('=') {
            if let Some(l) = v.strip_prefix('[') {
                let l = l.trim_end_matches(']');
                u.lists.insert(k.into(), if l.is_empty() { vec![] } else { l.split(';').map(|e| e.split(',').map(|n| n.parse().unwrap()).collect()).collect() });
            } else { u.f.insert(k.into(), v.parse().unwrap()); }
        }
    }
    u
}
fn primaries(n: i64) -> ColorPrimaries {
    use ColorPrimaries::*;
    match n { 1 => CP_BT_709, 4 => CP_BT_470_M, 5 => CP_BT_470_B_G, 6 => CP_BT_601, 7 => CP_SMPTE_240, 8 => CP_GENERIC_FILM, 9 => CP_BT_2020, 10 => CP_XYZ, 11 => CP_SMPTE_431, 12 => CP_SMPTE_432, 22 => CP_EBU_3213, _ => CP_UNSPECIFIED }
}
fn transfer(n: i64) -> TransferCharacteristics {
    use TransferCharacteristics::*;
    [TC_RESERVED_0, TC_BT_709, TC_UNSPECIFIED, TC_RESERVED_3, TC_BT_470_M, TC_BT_470_B_G, TC_BT_601, TC_SMPTE_240, TC_LINEAR, TC_LOG_100, TC_LOG_100_SQRT10, TC_IEC_61966, TC_BT_1361, TC_SRGB, TC_BT_2020_10_BIT, TC_BT_2020_12_BIT, TC_SMPTE_2084, TC_SMPTE_428, TC_HLG][n as usize]
}
fn matrix(n: i64) -> MatrixCoefficients {
    use MatrixCoefficients::*;
    [MC_IDENTITY, MC_BT_709, MC_UNSPECIFIED, MC_RESERVED_3, MC_FCC, MC_BT_470_B_G, MC_BT_601, MC_SMPTE_240, MC_SMPTE_YCGCO, MC_BT_2020_NCL, MC_BT_2020_CL, MC_SMPTE_2085, MC_CHROMAT_NCL, MC_CHROMAT_CL, MC_ICTCP][n as usize]
}
fn position(n: i64) -> ChromaSamplePosition {
    use ChromaSamplePosition::*;
    [CSP_UNKNOWN, CSP_VERTICAL, CSP_COLOCATED, CSP_RESERVED][n as usize]
}
fn scal(n: i64) -> ScalabilityModeIdc {
    use ScalabilityModeIdc::*;
    [SCALABILITY_L1T2, SCALABILITY_L1T3, SCALABILITY_L2T1, SCALABILITY_L2T2, SCALABILITY_L2T3, SCALABILITY_S2T1, SCALABILITY_S2T2, SCALABILITY_S2T3, SCALABILITY_L2T1h, SCALABILITY_L2T2h, SCALABILITY_L2T3h, SCALABILITY_S2T1h, SCALABILITY_S2T2h, SCALABILITY_S2T3h, SCALABILITY_SS][n as usize]
}

/// sets the context a header depends on, and makes the header
pub fn header(u: &Unit, e: &mut EncoderContext) -> SequenceHeader {
    let mut h = SequenceHeader::new(u.g("w") as usize, u.g("h") as usize);
    h.profile = u.g("profile") as u8;
    h.still_picture = u.b("still");
    h.operating_points = u.l("ops").iter().map(|o| OperatingPoint { idc: o[0] as u16, seq_level_idx: o[1] as u8, seq_tier: if o[2] < 0 { None } else { Some(o[2] == 1) } }).collect();
    h.frame_id = if u.b("fid") { Some(FrameID { delta_frame_id_length: u.g("fid_delta") as u8, additional_frame_id_length: u.g("fid_add") as u8 }) } else { None };
    h.enable_filter_intra = u.b("filter_intra");
    h.enable_intra_edge_filter = u.b("intra_edge");
    h.enable_interintra_compound = u.b("interintra");
    h.enable_masked_compound = u.b("masked");
    h.enable_dual_filter = u.b("dual");
    h.seq_choose_screen_content_tools = u.b("choose_sct");
    h.seq_choose_integer_mv = u.b("choose_imv");
    h.decoder_model_info = if u.b("dm") {
        Some(DecoderModelInfo { bitrate_scale: u.g("dm_brs") as u8, buffer_size_scale: u.g("dm_bss") as u8, encoder_decoder_buffer_delay_length: u.g("dm_n") as u8, num_units_in_decoding_tick: u.g("dm_tick") as u32, buffer_removal_delay: 0, buffer_removal_delay_length: u.g("dm_rem") as u8, buffer_removal_delay_present: false, frame_presentation_delay_length: u.g("dm_pres") as u8 })
    } else { None };
    e.use_128x128_superblock = u.b("sb128");
    e.enable_warped_motion = u.b("warped");
    e.enable_order_hint = u.b("oh");
    e.order_hint_bits = u.g("ohb") as u8;
    e.enable_ref_frame_mvs = u.b("rfmv");
    h.enable_jnt_comp = u.b("jnt");
    e.seq_force_screen_content_tools = u.g("force_sct") as usize;
    e.seq_force_integer_mv = u.g("force_imv") as usize;
    e.enable_superres = u.b("superres");
    e.enable_cdef = u.b("cdef");
    e.enable_restoration = u.b("restoration");
    e.color_config.high_bitdepth = u.b("hbd");
    e.color_config.twelve_bit = u.b("twelve");
    e.color_config.mono_chrome = u.b("mono");
    e.color_config.color_description = if u.b("cd") { Some(ColorDescription { color_primaries: primaries(u.g("cp")), transfer_characteristics: transfer(u.g("tc")), matrix_coefficients: matrix(u.g("mc")) }) } else { None };
    e.color_config.color_range = u.b("range");
    e.color_config.subsampling_x = u.b("ssx");
    e.color_config.subsampling_y = u.b("ssy");
    e.color_config.chroma_sample_position = position(u.g("csp"));
    e.color_config.separate_uv_delta_q = u.b("sep_uv");
    e.timing_info = if u.b("ti") { Some(TimingInfo { num_units_in_display_tick: u.g("tick") as u32, time_scale: u.g("scale") as u32, equal_picture_interval: u.b("equal"), num_ticks_per_picture: u.g("ticks") as u32 }) } else { None };
    e.operating_points_decoder_model = u.l("points").iter().map(|p| OperatingPointsDecoderModel {
        idc: p[0] as u16,
        initial_display_delay: if p[1] < 0 { None } else { Some(p[1] as u8) },
        operating_parameters_info: if p[2] == 1 { Some(OperatingParametersInfo { bitrate: p[3] as u32, buffer_size: p[4] as u32, cbr_flag: p[5] == 1, decoder_buffer_delay: p[6] as u32, encoder_buffer_delay: p[7] as u32, low_delay_mode_flag: p[8] == 1 }) } else { None },
    }).collect();
    e.film_grain_params = if u.b("grain") { Some(FilmGrainParams::new()) } else { None };
    h
}
pub fn other(u: &Unit) -> OBU {
    let g = |k: &str| u.g(k);
    match u.kind.as_str() {
        "td" => OBU::OBU_TEMPORAL_DELIMITER,
        "pad" => OBU::OBU_PADDING(g("n") as u32),
        "cll" => OBU::OBU_METADATA(MetaData::METADATA_TYPE_HDR_CLL { max_cll: g("cll") as u16, max_fall: g("fall") as u16 }),
        "mdcv" => {
            let (x, y) = (u.l("px")[0].clone(), u.l("py")[0].clone());
            OBU::OBU_METADATA(MetaData::METADATA_TYPE_HDR_MDCV {
                primary_chromaticity_x: [x[0] as u16, x[1] as u16, x[2] as u16], primary_chromaticity_y: [y[0] as u16, y[1] as u16, y[2] as u16],
                white_point_chromaticity_x: g("wx") as u16, white_point_chromaticity_y: g("wy") as u16, luminance_max: g("lmax") as u32, luminance_min: g("lmin") as u32,
            })
        }
        "t35" => OBU::OBU_METADATA(MetaData::METADATA_TYPE_ITUT_T35 { country_code: g("cc") as u16, payload_bytes: vec![] }),
        "scal" => OBU::OBU_METADATA(MetaData::METADATA_TYPE_SCALABILITY {
            mode_idc: scal(g("mode")),
            structure: if g("mode") == 14 {
                Some(ScalabilityStructure {
                    spatial_layer_dimensions: u.l("dims").iter().map(|d| SpatialLayerDimension { max_width: d[0] as u16, max_height: d[1] as u16 }).collect(),
                    spatial_layer_descriptions: u.l("descs").iter().map(|d| SpatialLayerDescription { ref_id: d[0] as u8 }).collect(),
                    temporal_groups: u.l("groups").iter().map(|x| TemporalGroup { temporal_id: x[0] as u8, temporal_switching_up_point_flag: x[1] as u8, spatial_switching_up_point_flag: x[2] as u8, ref_pic_diffs: x[3..].iter().map(|v| *v as u8).collect() }).collect(),
                })
            } else { None },
        }),
        _ => {
            let o = |k: &str| if g(k) < 0 { None } else { Some(g(k) as u8) };
            OBU::OBU_METADATA(MetaData::METADATA_TYPE_TIMECODE { counting_type: g("ct") as u8, seconds: o("s"), minutes: o("m"), hours: o("hr"), time_offset_length: g("tol") as u8, time_offset_value: g("tov") as u32 })
        }
    }
}

