//! Histories of transform blocks through the real coefficient coders (driver process `coeffs`). Oracle: a decoder
//! that reads every block in the order of the format, keeps its own coefficients and chooses every table from
//! them, from the transform and from what is around the block.
use crate::elem::{place, ElemCase, Op, Store, BLOCKS, TXS};
use crate::refmodel::*;
use crate::rng::*;
use crate::Cov;
use std::sync::Arc;

fn log(n: i64) -> usize { n.trailing_zeros() as usize }
/// the shorter and the longer side of a transform, as 4 -> 0 ... 64 -> 4
fn sides(tx: usize) -> (usize, usize) { let (w, h) = TXS[tx]; (log(w.min(h)) - 2, log(w.max(h)) - 2) }

#[derive(PartialEq, Clone, Copy)]
enum Class { Both, Across, Down }
const DCT: usize = 0; const IDTX: usize = 9;
fn class(t: usize) -> Class { match t { 10 | 12 | 14 => Class::Down, 11 | 13 | 15 => Class::Across, _ => Class::Both } }
/// transform types a block may have, in the order of their symbols
fn types(tx: usize, inter: bool, reduced: bool) -> (&'static str, Vec<usize>) {
    let (short, long) = sides(tx);
    // DCT_DCT 0 ADST_DCT 1 DCT_ADST 2 ADST_ADST 3 FLIPADST_DCT 4 DCT_FLIPADST 5 FLIPADST_FLIPADST 6 ADST_FLIPADST 7 FLIPADST_ADST 8 IDTX 9 V_DCT 10 H_DCT 11 V_ADST 12 H_ADST 13 V_FLIPADST 14 H_FLIPADST 15
    if long == 4 || (long == 3 && !inter) { return ("", vec![DCT]); }
    match (inter, long == 3 || reduced, short == 2) {
        (true, true, _) => ("inter_tx_type_set3", vec![IDTX, DCT]),
        (true, false, true) => ("inter_tx_type_set2", vec![IDTX, 10, 11, DCT, 1, 2, 4, 5, 3, 6, 7, 8]),
        (true, false, false) => ("inter_tx_type_set1", vec![IDTX, 10, 11, 12, 13, 14, 15, DCT, 1, 2, 4, 5, 3, 6, 7, 8]),
        (false, false, false) => ("intra_tx_type_set1", vec![IDTX, DCT, 10, 11, 3, 1, 2]),
        (false, _, _) => ("intra_tx_type_set2", vec![IDTX, DCT, 3, 1, 2]),
    }
}
/// the transform a chroma block takes from its prediction mode
const OF_MODE: [usize; 14] = [0, 1, 2, 0, 3, 1, 2, 2, 1, 3, 1, 2, 3, 0];

pub fn scan(kind: i64, w: usize, h: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..w * h).collect();
    match kind { 0 => v.sort_by_key(|p| (p / w + p % w, if (p / w + p % w) % 2 == 0 { p / w } else { p % w })), 1 => {} _ => v.sort_by_key(|p| (p % w, p / w)) }
    v
}
/// frame in 4x4 units, and its subsampling
#[derive(Clone, Copy)]
pub struct Size { pub cols: i64, pub rows: i64, pub ssx: i64, pub ssy: i64 }
impl Size { pub fn of(o: &Op) -> Size { Size { cols: (o.g("w") + 7) / 8 * 2, rows: (o.g("h") + 7) / 8 * 2, ssx: o.g("ssx"), ssy: o.g("ssy") } } }

struct Reader<'a, 'b> { d: &'a mut RefDecoder<'b>, t: &'a mut Store, cov: &'a mut Cov }
impl<'a, 'b> Reader<'a, 'b> {
    fn get(&mut self, name: &'static str, at: &[usize]) -> Result<usize, String> {
        let (p, n) = place(self.t, name, at)?;
        self.cov.note(name, 1);
        Ok(self.d.symbol(&mut self.t.get_mut(name).unwrap().1[p..p + n]) as usize)
    }
    fn bit(&mut self) -> i64 { self.d.symbol(&mut bool_table(128)) as i64 }
}
/// reads a block; what it was coded with is in the operation
pub fn read(d: &mut RefDecoder, t: &mut Store, o: &Op, f: Size, types_had: &mut dyn Iterator<Item = &u8>, cov: &mut Cov) -> Result<(), String> {
    let mut r = Reader { d, t, cov };
    let (tx, plane) = (o.n("tx"), o.n("plane"));
    let (inter, reduced, lossless) = (o.g("inter") == 1, o.g("reduced") == 1, o.g("lossless") == 1);
    let chroma = (plane > 0) as usize;
    let (w, h) = TXS[tx];
    let (short, long) = sides(tx);
    let ctx = (short + long + 1) / 2;
    let (ssx, ssy) = if plane > 0 { (f.ssx, f.ssy) } else { (0, 0) };
    let up = if o.g("row") == 0 || o.g("no_up") == 1 { (0, 0) } else { (o.g("al"), o.g("ad")) };
    let left = if o.g("col") == 0 || o.g("no_left") == 1 { (0, 0) } else { (o.g("ll"), o.g("ld")) };
    let (bw, bh) = { let b = BLOCKS[o.n("size")]; ((b.0 >> ssx).max(4), (b.1 >> ssy).max(4)) };
    let skip = if plane == 0 {
        let (lo, hi) = (up.0.min(left.0), up.0.max(left.0));
        if (bw, bh) == (w, h) { 0 } else if hi == 0 { 1 } else if lo == 0 { if hi > 3 { 3 } else { 2 } } else if hi <= 3 { 4 } else if lo <= 3 { 5 } else { 6 }
    } else {
        let busy = |c: (i64, i64)| (c.0 > 0 || c.1 > 0) as usize;
        busy(up) + busy(left) + if bw * bh > w * h { 10 } else { 7 }
    };
    let want: Vec<(usize, i64)> = coeffs(o);
    let zero = r.get("txb_skip", &[0, ctx, skip])?;
    if zero as i64 != want.is_empty() as i64 { return Err(format!("all_zero decodes as {} with txb_skip[{}][{}]", zero, ctx, skip)); }
    if zero == 1 { return Ok(()); }
    let (set, can) = types(tx, inter, reduced);
    let mut kind = o.n("type");
    if o.g("typed") == 1 {
        let at = if inter { vec![short] } else { vec![short, if o.g("filter") == 1 { [0, 1, 2, 6, 0][o.n("filter_mode")] } else { o.n("y_mode") }] };
        let s = r.get(set, &at)?;
        kind = *can.get(s).ok_or(format!("{} gives {}", set, s))?;
        if kind != o.n("type") { return Err(format!("the transform type decodes as {} with {}{:?}", kind, set, at)); }
    }
    if plane > 0 {
        if !inter { kind = OF_MODE[o.n("uv_mode")]; }
        if !can.contains(&kind) { kind = DCT; }
    }
    if lossless || long == 4 { kind = DCT; }
    // the encoder works with the type a decoder finds
    let had = *types_had.next().ok_or("fewer transform types than blocks")? as usize;
    if had != kind { return Err(format!("the encoder takes transform type {} for the block, a decoder {}", had, kind)); }
    let class = class(kind);
    let (aw, ah) = (w.min(32) as usize, h.min(32) as usize);
    let scan = scan(o.g("scan"), aw, ah);
    const EOB: [&str; 7] = ["eob_pt_16", "eob_pt_32", "eob_pt_64", "eob_pt_128", "eob_pt_256", "eob_pt_512", "eob_pt_1024"];
    let pt = 1 + r.get(EOB[log((aw * ah) as i64) - 4], &[0, chroma, (class != Class::Both) as usize])?;
    let mut eob = if pt < 2 { pt } else { (1 << (pt - 2)) + 1 };
    if pt >= 3 {
        eob += r.get("eob_extra", &[0, ctx, chroma, pt])? << (pt - 3);
        for i in (0..pt - 3).rev() { eob += (r.bit() as usize) << i; }
    }
    let last = want.iter().map(|x| x.0).max().unwrap() + 1;
    if eob != last { return Err(format!("{} coefficients announced instead of {}", eob, last)); }
    let mut level = vec![0i64; aw * ah];
    let mut meant = vec![0i64; eob];
    for (c, v) in want { meant[c] = v; }
    let around = |level: &[i64], y: usize, x: usize, at: &[(usize, usize)], most: i64| -> i64 { at.iter().filter(|(dy, dx)| y + dy < ah && x + dx < aw).map(|(dy, dx)| level[(y + dy) * aw + x + dx].min(most)).sum() };
    for c in (0..eob).rev() {
        let pos = scan[c];
        let (y, x) = (pos / aw, pos % aw);
        let mut v;
        if c == eob - 1 {
            let k = if c == 0 { 0 } else if c <= aw * ah / 8 { 1 } else if c <= aw * ah / 4 { 2 } else { 3 };
            v = 1 + r.get("coeff_base_eob", &[0, ctx, chroma, k])? as i64;
        } else {
            let near: &[(usize, usize)] = match class { Class::Both => &[(0, 1), (1, 0), (1, 1), (0, 2), (2, 0)], Class::Across => &[(0, 1), (1, 0), (0, 2), (0, 3), (0, 4)], Class::Down => &[(0, 1), (1, 0), (2, 0), (3, 0), (4, 0)] };
            let m = ((around(&level, y, x, near, 3) + 1) / 2).min(4) as usize;
            let k = match class {
                Class::Both if pos == 0 => 0,
                Class::Both => m + if w < h && y < 2 { 11 } else if w > h && x < 2 { 16 } else if x + y < 2 { 1 } else if x + y < 4 { 6 } else { 21 },
                Class::Across => m + 26 + 5 * x.min(2),
                Class::Down => m + 26 + 5 * y.min(2),
            };
            v = r.get("coeff_base", &[0, ctx, chroma, k])? as i64;
        }
        if v > 2 {
            let near: &[(usize, usize)] = match class { Class::Both => &[(0, 1), (1, 0), (1, 1)], Class::Across => &[(0, 1), (1, 0), (0, 2)], Class::Down => &[(0, 1), (1, 0), (2, 0)] };
            let m = ((around(&level, y, x, near, 15) + 1) / 2).min(6) as usize;
            let close = match class { Class::Both => y < 2 && x < 2, Class::Across => x == 0, Class::Down => y == 0 };
            let k = if pos == 0 { m } else if close { m + 7 } else { m + 14 };
            for _ in 0..4 {
                let more = r.get("coeff_br", &[0, ctx.min(3), chroma, k])? as i64;
                v += more;
                if more < 3 { break; }
            }
        }
        level[pos] = v;
        if v != meant[c].abs().min(15) { return Err(format!("coefficient {} (row {}, column {}) decodes as {}{} instead of {}", c, y, x, v, if v == 15 { " or more" } else { "" }, meant[c].abs())); }
    }
    for c in 0..eob {
        let mut v = level[scan[c]];
        if v == 0 { continue; }
        let neg = if c == 0 {
            // how many 4x4 columns above and rows to the left, within the frame, have which sign
            let cols = (w / 4).min(((f.cols + ssx) >> ssx) - o.g("x4")).max(0);
            let rows = (h / 4).min(((f.rows + ssy) >> ssy) - o.g("y4")).max(0);
            let sign = |d: i64| match d { 1 => -1, 2 => 1, _ => 0 };
            let s = cols * sign(up.1) + rows * sign(left.1);
            r.get("dc_sign", &[0, chroma, if s < 0 { 1 } else if s > 0 { 2 } else { 0 }])? == 1
        } else { r.bit() == 1 };
        if v > 14 {
            let mut n = 1;
            while r.bit() == 0 { n += 1; if n > 32 { return Err(format!("coefficient {}: no end to its length", c)); } }
            let mut x = 1;
            for _ in 1..n { x = 2 * x + r.bit(); }
            v = x + 14;
        }
        if (if neg { -v } else { v }) != meant[c] { return Err(format!("coefficient {} decodes as {}{} instead of {}", c, if neg { "-" } else { "" }, v, meant[c])); }
    }
    r.cov.note("coefficients", eob as u64);
    Ok(())
}
fn coeffs(o: &Op) -> Vec<(usize, i64)> { o.f.iter().filter_map(|(k, v)| k.strip_prefix('c').and_then(|n| n.parse().ok()).map(|n| (n, *v))).collect() }

/// a block belongs to a frame of this size and subsampling
pub fn fits(o: &Op, frame: &Op) -> bool {
    let f = Size::of(frame);
    let (ssx, ssy) = if o.g("plane") > 0 { (f.ssx, f.ssy) } else { (0, 0) };
    let (w, h) = BLOCKS[o.n("size")];
    o.g("row") < f.rows && o.g("col") < f.cols && (o.g("y4") << ssy) < f.rows && (o.g("x4") << ssx) < f.cols && (ssx == ssy || w >= h)
        && o.g("y4") >= o.g("row") >> ssy && o.g("x4") >= o.g("col") >> ssx && o.g("y4") << ssy < o.g("row") + h / 4 && o.g("x4") << ssx < o.g("col") + w / 4
}

// ---------------------------------------------------------------- generation
fn below(r: &mut Rng, n: i64) -> i64 { r.below(n as u64) as i64 }
/// one of the transforms of a block, and of what is in it
fn gen_block(r: &mut Rng, f: Size) -> Op {
    let (plane, size, tx) = loop {
        let plane = below(r, 3);
        let size = below(r, 22);
        let (bw, bh) = BLOCKS[size as usize];
        if plane > 0 && f.ssx == 1 && f.ssy == 0 && bw < bh { continue; }
        let (bw, bh) = if plane > 0 { ((bw >> f.ssx).max(4), (bh >> f.ssy).max(4)) } else { (bw, bh) };
        let all: Vec<usize> = (0..19).filter(|&t| TXS[t].0 <= bw && TXS[t].1 <= bh).collect();
        let tx = if r.chance(1, 2) { TXS.iter().position(|t| *t == (bw.min(64), bh.min(64))).unwrap_or(all[all.len() - 1]) } else { *r.pick(&all) };
        // small ones are quick: most of the time
        if TXS[tx].0 * TXS[tx].1 > 256 && r.chance(1, 2) { continue; }
        break (plane, size, tx);
    };
    let (ssx, ssy) = if plane > 0 { (f.ssx, f.ssy) } else { (0, 0) };
    let (bw, bh) = BLOCKS[size as usize];
    let (w, h) = TXS[tx];
    // blocks lie on multiples of their size, at least near the left and upper edge
    let spot = |r: &mut Rng, n: i64, side: i64| -> i64 { let k = side / 4; let all = (n + k - 1) / k; match r.below(4) { 0 => 0, 1 => (all - 1) * k, _ => below(r, all) * k } }; // the last one may lie over the edge
    let (row, col) = (spot(r, f.rows, bh), spot(r, f.cols, bw));
    // chroma of a block with odd place and size belongs to the pair
    let (mut y4, mut x4) = (row >> ssy, col >> ssx);
    let (ny, nx) = (((bh >> ssy).max(4) / h).max(1), ((bw >> ssx).max(4) / w).max(1));
    if r.chance(1, 2) { y4 += below(r, ny) * h / 4; x4 += below(r, nx) * w / 4; }
    if (y4 << ssy) >= f.rows { y4 = row >> ssy; }
    if (x4 << ssx) >= f.cols { x4 = col >> ssx; }
    let (inter, reduced, lossless) = (below(r, 2), r.chance(1, 4) as i64, (tx == 0 && r.chance(1, 4)) as i64);
    let (set, can) = types(tx, inter == 1, reduced == 1);
    let kind = if plane == 0 { *r.pick(&can) as i64 } else { below(r, 16) };
    let level = |r: &mut Rng| -> i64 { match r.below(4) { 0 => 0, 1 => r.range(1, 3) as i64, 2 => r.range(3, 5) as i64, _ => r.range(1, 63) as i64 } };
    let mut o = Op::new("block").set("plane", plane).set("size", size).set("tx", tx as i64).set("row", row).set("col", col).set("x4", x4).set("y4", y4).set("inter", inter).set("reduced", reduced).set("lossless", lossless).set("type", kind).set("other", below(r, 16)).set("whole", below(r, 2))
        .set("uv_mode", below(r, 14)).set("y_mode", below(r, 13)).set("al", level(r)).set("ad", below(r, 3)).set("ll", level(r)).set("ld", below(r, 3)).set("scan", below(r, 3));
    if r.chance(1, 6) { o = o.set("no_up", 1); }
    if r.chance(1, 6) { o = o.set("no_left", 1); }
    // inside its block a transform has something above or to the left
    if (y4 << ssy) > row { o.f.remove("no_up"); }
    if (x4 << ssx) > col { o.f.remove("no_left"); }
    if row == 0 && (y4 << ssy) > row { o.f.insert("y4".into(), 0); }
    if col == 0 && (x4 << ssx) > col { o.f.insert("x4".into(), 0); }
    if plane == 0 && !set.is_empty() && lossless == 0 { o = o.set("typed", 1); }
    if inter == 0 && r.chance(1, 4) { o = o.set("filter", 1).set("filter_mode", below(r, 5)); }
    let n = (w.min(32) * h.min(32)) as usize;
    if r.chance(1, 6) { return o; }
    let last = match r.below(5) { 0 => 1, 1 => r.range(1, n as u64) as usize, 2 => (1usize << r.below(11)).min(n), 3 => ((1usize << r.below(11)) + 1).min(n), _ => r.log(n as u64).max(1) as usize };
    let dense = r.below(4);
    let big = [2, 4, 16, 1 << 16][r.below(4) as usize];
    for c in 0..last {
        if c != last - 1 && r.below(4) < dense { continue; }
        let v = match r.below(4) { 0 => 1, 1 => r.range(1, 4) as i64, 2 => r.range(1, 18) as i64, _ => r.log(big).max(1) as i64 };
        o.f.insert(format!("c{}", c), if r.chance(1, 2) { v } else { -v });
    }
    o
}
pub fn gen(r: &mut Rng) -> ElemCase {
    let mut ops = vec![];
    for s in 0..r.range(1, 4) {
        let (ssx, ssy) = *r.pick(&[(1, 1), (1, 1), (1, 0), (0, 0)]);
        let frame = Op::new("frame").set("w", r.range(8, 200) as i64).set("h", r.range(8, 200) as i64).set("ssx", ssx).set("ssy", ssy);
        let f = Size::of(&frame);
        ops.push(frame);
        ops.push(Op::new("session").set("tables", match r.below(4) { 0 => 0, 1 if s > 0 => -1, _ => r.range(1, 1 << 40) as i64 }));
        let mut deep = 0;
        let mut repeat: Option<Op> = None;
        for _ in 0..r.log(40) {
            match r.below(12) {
                0 if deep < 3 => { ops.push(Op::new("try")); deep += 1; }
                1 | 2 if deep > 0 => { deep -= 1; ops.push(Op::new(if r.chance(2, 3) { "back" } else { "keep" })); }
                3 | 4 if repeat.is_some() => ops.push(repeat.clone().unwrap()),
                _ => { let o = gen_block(r, f); if repeat.is_none() || r.chance(1, 4) { repeat = Some(o.clone()); } ops.push(o); }
            }
        }
        for _ in 0..deep { ops.push(Op::new(if r.chance(1, 2) { "back" } else { "keep" })); }
        if !r.chance(1, 10) { ops.push(Op::new("end")); }
    }
    ElemCase { ops: ops.into_iter().map(Arc::new).collect() }
}
