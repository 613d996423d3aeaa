//! Driver: codes a scenario of syntax elements with /repo's coder and tables.  Needs /repo built with --cfg av1enc_sim.
//!
//!   elements SCENARIO OUT     OUT gets, for every session, the tables before, the coded bits and the tables after
use av1enc::bool_coder::BoolCoder;
use av1enc::sim::*;
use std::io::Write;

mod tables;
use tables::*;

macro_rules! all { ($c:expr, $m:ident) => { $m!($c, intra_frame_y_mode y_mode uv_mode_cfl_not_allowed uv_mode_cfl_allowed angle_delta partition_w8 partition_w16 partition_w32 partition_w64 partition_w128 tx_8x8 tx_16x16 tx_32x32 tx_64x64
    txfm_split filter_intra_mode filter_intra segment_id segment_id_predicted mv_class0_hp mv_hp mv_sign mv_bit mv_class0_bit new_mv zero_mv ref_mv drl_mode is_inter comp_mode skip_mode skip comp_ref comp_bwd_ref single_ref
    compound_mode interp_filter motion_mode mv_joint mv_class mv_class0_fr mv_fr palette_y_size palette_uv_size palette_size_2_y_color palette_size_3_y_color palette_size_4_y_color palette_size_5_y_color palette_size_6_y_color
    palette_size_7_y_color palette_size_8_y_color palette_size_2_uv_color palette_size_3_uv_color palette_size_4_uv_color palette_size_5_uv_color palette_size_6_uv_color palette_size_7_uv_color palette_size_8_uv_color
    palette_y_mode palette_uv_mode delta_q delta_lf delta_lf_multi compound_idx comp_group_idx compound_type inter_intra inter_intra_mode wedge_index wedge_inter_intra use_obmc comp_ref_type uni_comp_ref cfl_sign cfl_alpha
    use_wiener use_sgrproj restoration_type) } }
fn dump(c: &mut CDF, out: &mut Vec<u8>) {
    macro_rules! d { ($c:expr, $($n:ident)*) => { $( { let dims = dims_of(&$c.$n); let name = stringify!($n).as_bytes(); out.push(name.len() as u8); out.extend_from_slice(name); out.push(dims.len() as u8); for x in dims { out.push(x as u8); }
        $c.$n.each(&mut |t| for x in t.iter() { out.extend_from_slice(&x.to_le_bytes()); }); } )* } }
    all!(c, d);
    out.push(0);
}
/// tables of any shape of distribution, none of two alike
fn shuffle(c: &mut CDF, seed: u64) {
    let mut s = seed;
    let mut next = |n: u64| -> u64 { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) % n };
    macro_rules! d { ($c:expr, $($n:ident)*) => { $( $c.$n.each(&mut |t| {
        let k = t.len() - 1;
        let mut w: Vec<i64> = (0..k).map(|_| 1 + next(1000) as i64).collect();
        if next(3) == 0 { w[next(k as u64) as usize] += 20000; }
        let (sum, room) = (w.iter().sum::<i64>(), 32768 - 64 * k as i64);
        let mut at = 0;
        let mut used = 0;
        for i in 0..k { used += w[i]; at += 64; t[i] = (at + used * room / sum) as i32; }
        t[k - 1] = 32768;
        t[k] = [0, next(33) as i32][next(2) as usize];
    }); )* } }
    all!(c, d);
}
fn ymode(n: usize) -> YMode { use YMode::*; [DC_PRED, V_PRED, H_PRED, D45_PRED, D135_PRED, D113_PRED, D157_PRED, D203_PRED, D67_PRED, SMOOTH_PRED, SMOOTH_V_PRED, SMOOTH_H_PRED, PAETH_PRED, UV_CFL_PRED][n] }
fn bsize(n: usize) -> BlockSize { use BlockSize::*; [BLOCK_4X4, BLOCK_4X8, BLOCK_8X4, BLOCK_8X8, BLOCK_8X16, BLOCK_16X8, BLOCK_16X16, BLOCK_16X32, BLOCK_32X16, BLOCK_32X32, BLOCK_32X64, BLOCK_64X32, BLOCK_64X64, BLOCK_64X128, BLOCK_128X64, BLOCK_128X128, BLOCK_4X16, BLOCK_16X4, BLOCK_8X32, BLOCK_32X8, BLOCK_16X64, BLOCK_64X16][n] }
fn tx(n: usize) -> TxSize { use TxSize::*; [TX_4X4, TX_8X8, TX_16X16, TX_32X32, TX_64X64, TX_4X8, TX_8X4, TX_8X16, TX_16X8, TX_16X32, TX_32X16, TX_32X64, TX_64X32, TX_4X16, TX_16X4, TX_8X32, TX_32X8, TX_16X64, TX_64X16][n] }
fn rf(n: i64) -> RefFrame { use RefFrame::*; [NONE, INTRA_FRAME, LAST_FRAME, LAST2_FRAME, LAST3_FRAME, GOLDEN_FRAME, BWDREF_FRAME, ALTREF2_FRAME, ALTREF_FRAME][(n + 1) as usize] }
fn filter(n: usize) -> InterpFilter { use InterpFilter::*; [EIGHTTAP, EIGHTTAP_SMOOTH, EIGHTTAP_SHARP, BILINEAR][n] }
fn part(n: usize) -> Partition { use Partition::*; [PARTITION_NONE, PARTITION_HORZ, PARTITION_VERT, PARTITION_SPLIT, PARTITION_HORZ_A, PARTITION_HORZ_B, PARTITION_VERT_A, PARTITION_VERT_B, PARTITION_HORZ_4, PARTITION_VERT_4][n] }
fn joint(n: usize) -> MvJoint { use MvJoint::*; match n { 0 => MV_JOINT_ZERO, 1 => MV_JOINT_HNZVZ, 2 => MV_JOINT_HZVNZ, _ => MV_JOINT_HNZVNZ } }
fn info(l: &Line) -> ModeInfo {
    ModeInfo { mi_size: bsize(l.n("size")), tx_size: tx(l.n("tx")), tx_type: TxType::DCT_DCT, is_inter: l.b("inter"), skip: l.b("skip"), intra: l.b("intra"), single: l.b("single"), seg_id_predicted: l.n("segpred"), skip_mode: l.n("skip_mode"),
        ref_frame: [rf(l.g("r0")), rf(l.g("r1"))], interp_filter: [filter(l.n("f0")), filter(l.n("f1"))], level_context: [0; 3], dc_context: [0; 3], palette_size: [l.n("pal"), 0, 0], comp_group_idx: l.n("group"), compound_idx: l.n("cidx"),
        segment_id: 0, y_mode: YMode::DC_PRED, mvs: [MotionVector::new(0, 0); 2] }
}

struct At { coder: BoolCoder, cdf: Box<CDF>, out: Vec<u8> }
impl At {
    fn copy(&self) -> At { At { coder: self.coder, cdf: Box::new((*self.cdf).clone()), out: self.out.clone() } }
    fn element(&mut self, l: &Line, f: &mut Frame) {
        let (c, t, o) = (&mut self.coder, &mut *self.cdf, &mut self.out);
        let (v, row, col, size) = (l.n("v"), l.n("row"), l.n("col"), bsize(l.n("size")));
        macro_rules! near { ($m:ident) => { c.$m(o, t, v, f, row, col) } }
        match l.kind.as_str() {
            "literal" => c.encode_literal(o, l.g("v") as u64, l.n("n") as u8),
            "intra_frame_y_mode" => c.encode_intra_frame_y_mode(o, t, ymode(v), ymode(l.n("above")), ymode(l.n("left"))),
            "y_mode" => c.encode_y_mode(o, t, ymode(v), size),
            "uv_mode" => c.encode_uv_mode(o, t, ymode(v), ymode(l.n("y_mode")), size, l.b("lossless"), l.b("ssx"), l.b("ssy")),
            "angle_delta_y" => c.encode_angle_delta_y(o, t, ymode(l.n("mode")), v),
            "angle_delta_uv" => c.encode_angle_delta_uv(o, t, ymode(l.n("mode")), v),
            "partition" => c.encode_partition(o, t, size, l.b("above"), l.b("left"), part(v)),
            "split_or_horz" => c.encode_split_or_horz(o, t, size, l.b("above"), l.b("left"), v as i32),
            "split_or_vert" => c.encode_split_or_vert(o, t, size, l.b("above"), l.b("left"), v as i32),
            "tx_depth" => c.encode_tx_depth(o, t, row, col, tx(l.n("max_tx")), l.n("depth"), f, v),
            "txfm_split" => c.encode_txfm_split(o, t, l.n("at_row"), l.n("at_col"), row, col, f, tx(l.n("tx")), size, v),
            "segment_id" => c.encode_segment_id(o, t, v, l.g("u") as isize, l.g("l") as isize, l.g("ul") as isize),
            "seg_id_predicted" => c.encode_seg_id_predicted(o, t, v, row, col, f),
            "new_mv" => c.encode_new_mv(o, t, v, l.n("ctx")),
            "zero_mv" => c.encode_zero_mv(o, t, v, l.n("ctx")),
            "ref_mv" => c.encode_ref_mv(o, t, v, l.n("ctx")),
            "drl_mode" => { let s = [l.n("c0"), l.n("c1"), l.n("c2")]; c.encode_drl_mode(o, t, v, l.n("idx"), &s) }
            "is_inter" => c.encode_is_inter(o, t, v == 1, row, col, f),
            "use_filter_intra" => c.encode_use_filter_intra(o, t, v, l.n("size")),
            "filter_intra_mode" => c.encode_filter_intra_mode(o, t, v),
            "comp_mode" => near!(encode_comp_mode), "skip_mode" => near!(encode_skip_mode), "skip" => near!(encode_skip),
            "comp_ref" => near!(encode_comp_ref), "comp_ref_p1" => near!(encode_comp_ref_p1), "comp_ref_p2" => near!(encode_comp_ref_p2),
            "comp_bwdref" => near!(encode_comp_bwdref), "comp_bwdref_p1" => near!(encode_comp_bwdref_p1),
            "single_ref_p1" => near!(encode_single_ref_p1), "single_ref_p2" => near!(encode_single_ref_p2), "single_ref_p3" => near!(encode_single_ref_p3),
            "single_ref_p4" => near!(encode_single_ref_p4), "single_ref_p5" => near!(encode_single_ref_p5), "single_ref_p6" => near!(encode_single_ref_p6),
            "comp_ref_type" => near!(encode_comp_ref_type), "uni_comp_ref" => near!(encode_uni_comp_ref), "uni_comp_ref_p1" => near!(encode_uni_comp_ref_p1), "uni_comp_ref_p2" => near!(encode_uni_comp_ref_p2),
            "comp_group_idx" => near!(encode_comp_group_idx),
            "compound_idx" => { let h: Vec<usize> = (0..8).map(|i| l.n(&format!("h{}", i))).collect(); c.encode_compound_idx(o, t, v, &h, l.n("hint"), &[rf(l.g("r0")), rf(l.g("r1"))], f, row, col, l.b("enable"), l.n("bits")) }
            "compound_mode" => c.encode_compound_mode(o, t, v, l.n("ref_ctx"), l.n("new_ctx")),
            "interp_filter" => c.encode_interp_filter(o, t, filter(v), f, row, col, l.n("dir")),
            "motion_mode" => c.encode_motion_mode(o, t, v, size),
            "mv_joint" => c.encode_mv_joint(o, t, joint(v), l.n("ctx")),
            "mv_sign" => c.encode_mv_sign(o, t, joint(v), l.n("ctx"), l.n("comp")),
            "mv_class" => c.encode_mv_class(o, t, v, l.n("ctx"), l.n("comp")),
            "mv_class0_bit" => c.encode_mv_class0_bit(o, t, v, l.n("ctx"), l.n("comp")),
            "mv_class0_fr" => c.encode_mv_class0_fr(o, t, v, l.n("bit"), l.n("ctx"), l.n("comp")),
            "mv_class0_hp" => c.encode_mv_class0_hp(o, t, v, l.n("ctx"), l.n("comp")),
            "mv_fr" => c.encode_mv_fr(o, t, v, l.n("ctx"), l.n("comp")),
            "mv_hp" => c.encode_mv_hp(o, t, v, l.n("ctx"), l.n("comp")),
            "mv_bit" => c.encode_mv_bit(o, t, v, l.n("i"), l.n("ctx"), l.n("comp")),
            "has_palette_y" => c.encode_has_palette_y(o, t, v, f, row, col, l.n("bctx")),
            "has_palette_uv" => c.encode_has_palette_uv(o, t, v, l.n("y_size")),
            "palette_size_y" => c.encode_palette_size_y_minus_2(o, t, v, l.n("bctx")),
            "palette_size_uv" => c.encode_palette_size_uv_minus_2(o, t, v, l.n("bctx")),
            "palette_color_y" => c.encode_palette_color_idx_y(o, t, v, l.n("hash"), l.n("n")),
            "palette_color_uv" => c.encode_palette_color_idx_uv(o, t, v, l.n("hash"), l.n("n")),
            "delta_q_abs" => c.encode_delta_q_abs(o, t, v),
            "delta_lf_abs" => c.encode_delta_lf_abs(o, t, v, l.n("multi"), l.n("i")),
            "compound_type" => c.encode_compound_type(o, t, v, size),
            "interintra" => c.encode_interintra(o, t, v, size),
            "interintra_mode" => c.encode_interintra_mode(o, t, v, size),
            "wedge_index" => c.encode_wedge_index(o, t, v, size),
            "wedge_interintra" => c.encode_wedge_interintra(o, t, v, size),
            "use_obmc" => c.encode_use_obmc(o, t, v, size),
            "cfl_alpha_signs" => c.encode_cfl_alpha_signs(o, t, v),
            "cfl_alpha_u" => c.encode_cfl_alpha_u(o, t, v, l.n("signs")),
            "cfl_alpha_v" => c.encode_cfl_alpha_v(o, t, v, l.n("signs")),
            "use_wiener" => c.encode_use_wiener(o, t, v),
            "use_sgrproj" => c.encode_use_sgrproj(o, t, v),
            "restoration_type" => c.encode_restoration_type(o, t, v),
            k => { eprintln!("unknown element {}", k); std::process::exit(9); }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let mut res: Vec<u8> = vec![];
    let mut at = At { coder: BoolCoder::new(), cdf: Box::new(default_cdf.clone()), out: vec![] };
    let mut trials: Vec<At> = vec![];
    let mut f = Frame::new(FrameType::KEY_FRAME, 576, 320);
    for line in text.lines() {
        let l = Line::parse(line);
        match l.kind.as_str() {
            // start a session (dropping one that is open) with the given tables: 0 the default ones, -1 those left by the last session
            "session" => {
                match l.g("tables") { 0 => at.cdf = Box::new(default_cdf.clone()), -1 => {} s => shuffle(&mut at.cdf, s as u64) }
                at.out.clear();
                at.coder.init_encoder();
                res.push(b'T');
                dump(&mut at.cdf, &mut res);
            }
            "end" => {
                at.coder.exit_encoder(&mut at.out);
                res.push(b'B');
                res.extend_from_slice(&(at.out.len() as u32).to_le_bytes());
                res.extend_from_slice(&at.out);
                dump(&mut at.cdf, &mut res);
            }
            "try" => trials.push(at.copy()),
            "back" => at = trials.pop().unwrap(),
            "keep" => { trials.pop(); }
            "info" => f.mis[l.n("row")][l.n("col")] = Some(info(&l)),
            "noinfo" => f.mis[l.n("row")][l.n("col")] = None,
            _ => at.element(&l, &mut f),
        }
    }
    std::fs::File::create(&a[2]).unwrap().write_all(&res).unwrap();
}
