//! Driver: codes a scenario of transform blocks with /repo's coder and tables.  Needs /repo built with --cfg av1enc_sim.
//!
//!   coeffs SCENARIO OUT     OUT gets, for every session, the tables before, the transform types, the coded bits and the tables after
use av1enc::bool_coder::BoolCoder;
use av1enc::sim::*;
use std::io::Write;

#[path = "../../elements/src/tables.rs"]
mod tables;
use tables::*;

macro_rules! all { ($c:expr, $m:ident) => { $m!($c, intra_tx_type_set1 intra_tx_type_set2 inter_tx_type_set1 inter_tx_type_set2 inter_tx_type_set3 txb_skip eob_pt_16 eob_pt_32 eob_pt_64 eob_pt_128 eob_pt_256 eob_pt_512 eob_pt_1024 eob_extra dc_sign coeff_base_eob coeff_base coeff_br) } }
fn dump(c: &mut CDF, out: &mut Vec<u8>) {
    macro_rules! d { ($c:expr, $($n:ident)*) => { $( { let dims = dims_of(&$c.$n); let name = stringify!($n).as_bytes(); out.push(name.len() as u8); out.extend_from_slice(name); out.push(dims.len() as u8); for x in dims { out.push(x as u8); }
        $c.$n.each(&mut |t| for x in t.iter() { out.extend_from_slice(&x.to_le_bytes()); }); } )* } }
    all!(c, d);
    out.push(0);
}
/// tables of any shape of distribution, none of two alike
fn shuffle(c: &mut CDF, seed: u64) {
    let mut s = seed;
    let mut next = |n: u64| -> u64 { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) % n };
    macro_rules! d { ($c:expr, $($n:ident)*) => { $( $c.$n.each(&mut |t| {
        let k = t.len() - 1;
        let mut w: Vec<i64> = (0..k).map(|_| 1 + next(1000) as i64).collect();
        if next(3) == 0 { w[next(k as u64) as usize] += 20000; }
        let (sum, room) = (w.iter().sum::<i64>(), 32768 - 64 * k as i64);
        let mut at = 0;
        let mut used = 0;
        for i in 0..k { used += w[i]; at += 64; t[i] = (at + used * room / sum) as i32; }
        t[k - 1] = 32768;
        t[k] = [0, next(33) as i32][next(2) as usize];
    }); )* } }
    all!(c, d);
}
fn ymode(n: usize) -> YMode { use YMode::*; [DC_PRED, V_PRED, H_PRED, D45_PRED, D135_PRED, D113_PRED, D157_PRED, D203_PRED, D67_PRED, SMOOTH_PRED, SMOOTH_V_PRED, SMOOTH_H_PRED, PAETH_PRED, UV_CFL_PRED][n] }
fn bsize(n: usize) -> BlockSize { use BlockSize::*; [BLOCK_4X4, BLOCK_4X8, BLOCK_8X4, BLOCK_8X8, BLOCK_8X16, BLOCK_16X8, BLOCK_16X16, BLOCK_16X32, BLOCK_32X16, BLOCK_32X32, BLOCK_32X64, BLOCK_64X32, BLOCK_64X64, BLOCK_64X128, BLOCK_128X64, BLOCK_128X128, BLOCK_4X16, BLOCK_16X4, BLOCK_8X32, BLOCK_32X8, BLOCK_16X64, BLOCK_64X16][n] }
fn tx(n: usize) -> TxSize { use TxSize::*; [TX_4X4, TX_8X8, TX_16X16, TX_32X32, TX_64X64, TX_4X8, TX_8X4, TX_8X16, TX_16X8, TX_16X32, TX_32X16, TX_32X64, TX_64X32, TX_4X16, TX_16X4, TX_8X32, TX_32X8, TX_16X64, TX_64X16][n] }
fn ttype(n: usize) -> TxType { use TxType::*; [DCT_DCT, ADST_DCT, DCT_ADST, ADST_ADST, FLIPADST_DCT, DCT_FLIPADST, FLIPADST_FLIPADST, ADST_FLIPADST, FLIPADST_ADST, IDTX, V_DCT, H_DCT, V_ADST, H_ADST, V_FLIPADST, H_FLIPADST][n] }
const TXS: [(usize, usize); 19] = [(4, 4), (8, 8), (16, 16), (32, 32), (64, 64), (4, 8), (8, 4), (8, 16), (16, 8), (16, 32), (32, 16), (32, 64), (64, 32), (4, 16), (16, 4), (8, 32), (32, 8), (16, 64), (64, 16)];
fn log(n: usize) -> usize { n.trailing_zeros() as usize }

/// mode info around and in the block: one kind above, one to the left, and the transform types of the block
fn surround(l: &Line, f: &mut Frame) {
    let (row, col, plane) = (l.n("row"), l.n("col"), l.n("plane"));
    let (sx, sy) = if plane > 0 { (f.subsampling_x as usize, f.subsampling_y as usize) } else { (0, 0) };
    let (y, x) = (row.max(l.n("y4") << sy), col.max(l.n("x4") << sx));
    let (w, h) = TXS[l.n("tx")];
    let plain = |level: usize, dc: usize, t: usize| {
        // the other planes have other contexts
        let (mut lc, mut dcs) = ([(level + 7) % 64; 3], [(dc + 1) % 3; 3]);
        lc[plane] = level;
        dcs[plane] = dc;
        ModeInfo { mi_size: bsize(l.n("size")), tx_size: tx(l.n("tx")), tx_type: ttype(t), is_inter: l.b("inter"), skip: false, intra: !l.b("inter"), single: true, seg_id_predicted: 0, skip_mode: 0,
            ref_frame: [RefFrame::INTRA_FRAME, RefFrame::NONE], interp_filter: [InterpFilter::BILINEAR; 2], level_context: lc, dc_context: dcs, palette_size: [0; 3], comp_group_idx: 0, compound_idx: 0, segment_id: 0, y_mode: ymode(l.n("y_mode")), mvs: [MotionVector::new(0, 0); 2] }
    };
    let above = plain(l.n("al"), l.n("ad"), l.n("other"));
    let left = plain(l.n("ll"), l.n("ld"), l.n("other"));
    for r in 0..f.mis.len() { for c in 0..f.mis[r].len() {
        let inside = r >= row && c >= col;
        f.mis[r][c] = if !inside && ((r < row && l.b("no_up")) || (r >= row && l.b("no_left"))) { None } else {
            let mut m = if r < row { above } else if c < col { left } else if r < y { above } else if c < x { left } else { plain(1, 1, l.n("other")) };
            if r >= y && c >= x && r < y + (h / 4 << sy) && c < x + (w / 4 << sx) { m.tx_type = ttype(l.n("type")); }
            Some(m)
        };
    } }
}
fn scan(kind: usize, w: usize, h: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..w * h).collect();
    match kind { 0 => v.sort_by_key(|p| (p / w + p % w, if (p / w + p % w) % 2 == 0 { p / w } else { p % w })), 1 => {} _ => v.sort_by_key(|p| (p % w, p / w)) }
    v
}

struct At { coder: BoolCoder, cdf: Box<CDF>, out: Vec<u8>, types: Vec<u8> }
impl At {
    fn copy(&self) -> At { At { coder: self.coder, cdf: Box::new((*self.cdf).clone()), out: self.out.clone(), types: self.types.clone() } }
    /// the elements of one transform block in the order of the bitstream
    fn block(&mut self, l: &Line, f: &mut Frame) {
        surround(l, f);
        let (c, t, o) = (&mut self.coder, &mut *self.cdf, &mut self.out);
        let (row, col, plane, x4, y4) = (l.n("row"), l.n("col"), l.n("plane"), l.n("x4"), l.n("y4"));
        let (size, txs, ptype, uv) = (bsize(l.n("size")), tx(l.n("tx")), (plane > 0) as usize, ymode(l.n("uv_mode")));
        let (lossless, inter, reduced) = (l.b("lossless"), l.b("inter"), l.b("reduced"));
        let (w, h) = TXS[l.n("tx")];
        let ctx = (log(w.min(h)) - 2 + log(w.max(h)) - 2 + 1) / 2;
        let coeffs: Vec<(usize, i64)> = l.f.iter().filter_map(|(k, v)| k.strip_prefix('c').and_then(|n| n.parse().ok()).map(|n| (n, *v))).collect();
        c.encode_all_zero(o, t, coeffs.is_empty() as usize, plane, txs, ctx, f, size, row, col, w / 4, h / 4, x4, y4);
        if coeffs.is_empty() { return; }
        if l.b("typed") {
            if inter { c.encode_inter_tx_type(o, t, ttype(l.n("type")), txs, get_tx_set(txs, true, reduced)); }
            else { c.encode_intra_tx_type(o, t, ttype(l.n("type")), get_tx_set(txs, false, reduced), txs, l.b("filter"), l.n("filter_mode"), ymode(l.n("y_mode"))); }
        }
        let kind = compute_tx_type(plane, txs, x4, y4, f, lossless, inter, reduced, uv, row, col);
        self.types.push((0..16).find(|&n| ttype(n) == kind).unwrap() as u8);
        let (aw, ah) = (w.min(32), h.min(32));
        let scan = scan(l.n("scan"), aw, ah);
        let mut level = vec![0i64; aw * ah];
        for &(n, v) in &coeffs { level[n] = v; } // in scan order
        let eob = coeffs.iter().map(|x| x.0).max().unwrap() + 1;
        let pt = if eob < 2 { 1 } else { 2 + (usize::BITS - 1 - (eob - 1).leading_zeros()) as usize };
        macro_rules! pt { ($($k:expr, $m:ident;)*) => { match log(aw * ah) { $( $k => c.$m(o, t, pt - 1, f, row, col, uv, lossless, inter, reduced, plane, txs, x4, y4, ptype), )* _ => panic!("transform of {}", aw * ah) } } }
        pt! { 4, encode_eob_pt_16; 5, encode_eob_pt_32; 6, encode_eob_pt_64; 7, encode_eob_pt_128; 8, encode_eob_pt_256; 9, encode_eob_pt_512; 10, encode_eob_pt_1024; }
        if pt >= 3 {
            let rest = eob - ((1 << (pt - 2)) + 1);
            let shift = pt - 3;
            c.encode_eob_extra(o, t, rest >> shift & 1, ctx, ptype, pt);
            for i in (0..shift).rev() { c.encode_literal(o, (rest >> i & 1) as u64, 1); }
        }
        let mut quant = vec![0isize; aw * ah];
        for n in (0..eob).rev() {
            let (pos, v) = (scan[n], level[n].abs() as usize);
            if n == eob - 1 { c.encode_coeff_base_eob(o, t, v.min(3) - 1, txs, ctx, ptype, plane, x4, y4, &scan, n, f, lossless, inter, reduced, uv, row, col, &quant); }
            else { c.encode_coeff_base(o, t, v.min(3), txs, ctx, ptype, plane, x4, y4, &scan, n, f, lossless, inter, reduced, uv, row, col, &quant); }
            if v > 2 {
                let mut more = v - 3;
                for _ in 0..4 {
                    let k = more.min(3);
                    c.encode_coeff_br(o, t, k, f, ctx, lossless, inter, reduced, uv, pos, ptype, txs, x4, y4, plane, &quant, row, col);
                    more -= k;
                    if k < 3 { break; }
                }
            }
            quant[pos] = if l.b("whole") { v } else { v.min(15) } as isize; // what the levels coded so far give, or the coefficient
        }
        for n in 0..eob {
            if level[n] == 0 { continue; }
            let (neg, v) = ((level[n] < 0) as usize, level[n].abs() as u64);
            if n == 0 { c.encode_dc_sign(o, t, neg, ptype, f, plane, row, col, w / 4, h / 4, x4, y4); } else { c.encode_literal(o, neg as u64, 1); }
            if v > 14 {
                let x = v - 14;
                let length = 64 - x.leading_zeros() as usize;
                for _ in 1..length { c.encode_literal(o, 0, 1); }
                for i in (0..length).rev() { c.encode_literal(o, x >> i & 1, 1); }
            }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let mut res: Vec<u8> = vec![];
    let mut at = At { coder: BoolCoder::new(), cdf: Box::new(default_cdf.clone()), out: vec![], types: vec![] };
    let mut trials: Vec<At> = vec![];
    let mut f = Frame::new(FrameType::KEY_FRAME, 64, 64);
    for line in text.lines() {
        let l = Line::parse(line);
        match l.kind.as_str() {
            "frame" => { f = Frame::new(FrameType::KEY_FRAME, l.n("w"), l.n("h")); f.subsampling_x = l.b("ssx"); f.subsampling_y = l.b("ssy"); }
            // start a session (dropping one that is open) with the given tables: 0 the default ones, -1 those left by the last session
            "session" => {
                match l.g("tables") { 0 => at.cdf = Box::new(default_cdf.clone()), -1 => {} s => shuffle(&mut at.cdf, s as u64) }
                at.out.clear();
                at.types.clear();
                at.coder.init_encoder();
                res.push(b'T');
                dump(&mut at.cdf, &mut res);
            }
            "end" => {
                at.coder.exit_encoder(&mut at.out);
                // the transform types as the encoder has them
                res.push(b'K');
                res.extend_from_slice(&(at.types.len() as u32).to_le_bytes());
                res.extend_from_slice(&at.types);
                res.push(b'B');
                res.extend_from_slice(&(at.out.len() as u32).to_le_bytes());
                res.extend_from_slice(&at.out);
                dump(&mut at.cdf, &mut res);
            }
            "try" => trials.push(at.copy()),
            "back" => at = trials.pop().unwrap(),
            "keep" => { trials.pop(); }
            _ => at.block(&l, &mut f),
        }
    }
    std::fs::File::create(&a[2]).unwrap().write_all(&res).unwrap();
}
