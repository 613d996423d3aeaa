//! Histories of syntax elements through the real element coders (driver process `elements`): sessions,
//! changing neighbours, trials that are kept or taken back, sessions that are given up. Oracle: a decoder that
//! chooses the table for every element from the format's rules (written here from its description) and
//! adapts only that one.
use crate::proc::*;
use crate::refmodel::*;
use crate::rng::*;
use crate::{Cov, Viol};
use std::collections::{BTreeMap, HashMap};
use crate::coef::Size;
use std::sync::Arc;

/// one line of a scenario: an element (or session, end, try, back, keep, info, noinfo) with its numbers
#[derive(Clone, Debug, PartialEq)]
pub struct Op { pub kind: String, pub f: BTreeMap<String, i64> }
impl Op {
    pub fn new(k: &str) -> Op { Op { kind: k.into(), f: BTreeMap::new() } }
    pub fn set(mut self, k: &str, v: i64) -> Op { self.f.insert(k.into(), v); self }
    pub fn g(&self, k: &str) -> i64 { *self.f.get(k).unwrap_or(&0) }
    pub fn n(&self, k: &str) -> usize { self.g(k) as usize }
    fn line(&self) -> String { let mut o = self.kind.clone(); for (k, v) in &self.f { o.push_str(&format!(" {}={}", k, v)); } o }
    fn parse(l: &str) -> Op { let mut w = l.split(' '); let mut o = Op::new(w.next().unwrap()); for (k, v) in w.filter_map(|x| x.split_once('=')) { o.f.insert(k.into(), v.parse().unwrap()); } o }
}
#[derive(Clone, Debug, PartialEq)]
pub struct ElemCase { pub ops: Vec<Arc<Op>> }

// ---------------------------------------------------------------- the format's rules
/// block sizes in the format's order
pub const BLOCKS: [(i64, i64); 22] = [(4, 4), (4, 8), (8, 4), (8, 8), (8, 16), (16, 8), (16, 16), (16, 32), (32, 16), (32, 32), (32, 64), (64, 32), (64, 64), (64, 128), (128, 64), (128, 128), (4, 16), (16, 4), (8, 32), (32, 8), (16, 64), (64, 16)];
pub const TXS: [(i64, i64); 19] = [(4, 4), (8, 8), (16, 16), (32, 32), (64, 64), (4, 8), (8, 4), (8, 16), (16, 8), (16, 32), (32, 16), (32, 64), (64, 32), (4, 16), (16, 4), (8, 32), (32, 8), (16, 64), (64, 16)];
/// the group a block belongs to by its shorter side
fn group(size: usize) -> usize { match BLOCKS[size].0.min(BLOCKS[size].1) { 4 => 0, 8 => 1, 16 => 2, _ => 3 } }
const MODE_CTX: [usize; 13] = [0, 1, 2, 3, 4, 4, 4, 4, 3, 0, 1, 2, 0];
const LAST: i64 = 1; const LAST2: i64 = 2; const LAST3: i64 = 3; const GOLD: i64 = 4; const BWD: i64 = 5; const ALT2: i64 = 6; const ALT: i64 = 7;

/// mode info of the blocks coded so far
pub type Grid = HashMap<(i64, i64), Op>;
struct Near<'a> { up: Option<&'a Op>, left: Option<&'a Op> }
impl<'a> Near<'a> {
    fn of(g: &'a Grid, o: &Op) -> Near<'a> { Near::at(g, o.g("row"), o.g("col")) }
    fn at(g: &'a Grid, r: i64, c: i64) -> Near<'a> { Near { up: g.get(&(r - 1, c)), left: g.get(&(r, c - 1)) } }
    fn both(&self) -> impl Iterator<Item = &'a Op> { self.up.into_iter().chain(self.left.into_iter()) }
    fn sum(&self, f: impl Fn(&Op) -> i64) -> usize { self.both().map(|m| f(m)).sum::<i64>() as usize }
    /// which of two groups of references the neighbours use more often
    fn refs(&self, a: &[i64], b: &[i64]) -> usize {
        let n = |s: &[i64]| self.both().map(|m| s.contains(&m.g("r0")) as usize + s.contains(&m.g("r1")) as usize).sum::<usize>();
        match n(a).cmp(&n(b)) { std::cmp::Ordering::Less => 0, std::cmp::Ordering::Equal => 1, _ => 2 }
    }
}
fn single(m: &Op) -> bool { m.g("r1") <= 0 }
fn intra(m: &Op) -> bool { m.g("r0") <= 0 }
fn backward(r: i64) -> bool { r >= BWD }
fn dist(a: i64, b: i64, enable: bool, bits: i64) -> i64 {
    if !enable { return 0; }
    let half = 1 << (bits - 1);
    let d = (a - b).rem_euclid(2 * half);
    (if d >= half { d - 2 * half } else { d }).abs()
}
/// width (or height) of the transform next to the block at row, col; blocks that are skipped count whole
fn tx_side(m: Option<&Op>, inside: bool, width: bool) -> i64 {
    let side = |s: (i64, i64)| if width { s.0 } else { s.1 };
    match m {
        None => 64,
        Some(m) if !inside && m.g("skip") == 1 && m.g("inter") == 1 => side(BLOCKS[m.n("size")]),
        Some(m) => side(TXS[m.n("tx")]),
    }
}

/// what an element is coded with: a table (by name and place in it), or probabilities made up for it
enum With { Table(&'static str, Vec<usize>), Made(Vec<i32>), Literal(usize) }
pub type Store = BTreeMap<String, (Vec<usize>, Vec<i32>)>;

fn rule(o: &Op, grid: &Grid, tables: &Store) -> Result<With, String> {
    use With::*;
    let near = Near::of(grid, o);
    let size = o.n("size");
    let r3 = |n: &'static str, c: usize, k: usize| Table(n, vec![c, k]);
    Ok(match o.kind.as_str() {
        "literal" => Literal(o.n("n")),
        "intra_frame_y_mode" => Table("intra_frame_y_mode", vec![MODE_CTX[o.n("above")], MODE_CTX[o.n("left")]]),
        "y_mode" => Table("y_mode", vec![group(size)]),
        "uv_mode" => {
            let (w, h) = BLOCKS[size];
            let cfl = if o.g("lossless") == 1 { (w >> o.g("ssx")) <= 4 && (h >> o.g("ssy")) <= 4 } else { w.max(h) <= 32 };
            Table(if cfl { "uv_mode_cfl_allowed" } else { "uv_mode_cfl_not_allowed" }, vec![o.n("y_mode")])
        }
        "angle_delta_y" | "angle_delta_uv" => Table("angle_delta", vec![o.n("mode") - 1]),
        "partition" | "split_or_horz" | "split_or_vert" => {
            let name = match BLOCKS[size].0 { 8 => "partition_w8", 16 => "partition_w16", 32 => "partition_w32", 64 => "partition_w64", _ => "partition_w128" };
            let ctx = vec![o.n("left") * 2 + o.n("above")];
            if o.kind == "partition" { return Ok(Table(name, ctx)); }
            // 1 horz 2 vert 3 split 4 horz_a 5 horz_b 6 vert_a 7 vert_b 8 horz_4 9 vert_4
            let t = row(tables, name, &ctx)?;
            let alike: &[usize] = match (o.kind.as_str(), BLOCKS[size].0) { ("split_or_horz", 128) => &[2, 3, 4, 6, 7], ("split_or_horz", _) => &[2, 3, 4, 6, 7, 9], (_, 128) => &[1, 3, 4, 5, 6], _ => &[1, 3, 4, 5, 6, 8] };
            let p: i32 = alike.iter().map(|&i| t[i] - t[i - 1]).sum();
            Made(vec![32768 - p, 32768, 0])
        }
        "tx_depth" => {
            let (w, h) = TXS[o.n("max_tx")];
            let side = |m: &Op, width: bool| { let s = if m.g("inter") == 1 { BLOCKS[m.n("size")] } else { TXS[m.n("tx")] }; if width { s.0 } else { s.1 } };
            let ctx = near.up.map_or(0, |m| (side(m, true) >= w) as usize) + near.left.map_or(0, |m| (side(m, false) >= h) as usize);
            Table(match o.g("depth") { 4 => "tx_64x64", 3 => "tx_32x32", 2 => "tx_16x16", _ => "tx_8x8" }, vec![ctx])
        }
        "txfm_split" => {
            let (r, c) = (o.g("at_row"), o.g("at_col"));
            let at = Near::at(grid, r, c);
            let (w, h) = TXS[o.n("tx")];
            let above = (tx_side(at.up, r != o.g("row"), true) < w) as usize;
            let left = (tx_side(at.left, c != o.g("col"), false) < h) as usize;
            let max = BLOCKS[size].0.max(BLOCKS[size].1).min(64);
            let log = |x: i64| (x / 4).trailing_zeros() as usize; // 4 -> 0 ... 64 -> 4
            let smaller = (w.max(h) != max) as usize;
            Table("txfm_split", vec![smaller * 3 + (4 - log(max)) * 6 + above + left])
        }
        "segment_id" => {
            let (u, l, ul) = (o.g("u"), o.g("l"), o.g("ul"));
            Table("segment_id", vec![if ul < 0 { 0 } else if ul == u && ul == l { 2 } else if ul == u || ul == l || u == l { 1 } else { 0 }])
        }
        "seg_id_predicted" => Table("segment_id_predicted", vec![near.sum(|m| m.g("segpred"))]),
        "new_mv" => Table("new_mv", vec![o.n("ctx")]), "zero_mv" => Table("zero_mv", vec![o.n("ctx")]), "ref_mv" => Table("ref_mv", vec![o.n("ctx")]),
        "drl_mode" => Table("drl_mode", vec![o.n(["c0", "c1", "c2"][o.n("idx")])]),
        "is_inter" => Table("is_inter", vec![match (near.up, near.left) {
            (Some(a), Some(b)) => match (intra(a), intra(b)) { (true, true) => 3, (false, false) => 0, _ => 1 },
            (Some(a), None) | (None, Some(a)) => 2 * intra(a) as usize,
            _ => 0,
        }]),
        "use_filter_intra" => Table("filter_intra", vec![size]),
        "filter_intra_mode" => Table("filter_intra_mode", vec![]),
        "comp_mode" => {
            let b = |m: &Op| backward(m.g("r0"));
            Table("comp_mode", vec![match (near.up, near.left) {
                (Some(a), Some(l)) => match (single(a), single(l)) {
                    (true, true) => (b(a) != b(l)) as usize,
                    (true, false) => 2 + (b(a) || intra(a)) as usize,
                    (false, true) => 2 + (b(l) || intra(l)) as usize,
                    _ => 4,
                },
                (Some(m), None) | (None, Some(m)) => if single(m) { b(m) as usize } else { 3 },
                _ => 1,
            }])
        }
        "skip_mode" => Table("skip_mode", vec![near.sum(|m| m.g("skip_mode"))]),
        "skip" => Table("skip", vec![near.sum(|m| m.g("skip"))]),
        "comp_ref" => r3("comp_ref", near.refs(&[LAST, LAST2], &[LAST3, GOLD]), 0),
        "comp_ref_p1" => r3("comp_ref", near.refs(&[LAST], &[LAST2]), 1),
        "comp_ref_p2" => r3("comp_ref", near.refs(&[LAST3], &[GOLD]), 2),
        "comp_bwdref" => r3("comp_bwd_ref", near.refs(&[BWD, ALT2], &[ALT]), 0),
        "comp_bwdref_p1" => r3("comp_bwd_ref", near.refs(&[BWD], &[ALT2]), 1),
        "single_ref_p1" => r3("single_ref", near.refs(&[LAST, LAST2, LAST3, GOLD], &[BWD, ALT2, ALT]), 0),
        "single_ref_p2" => r3("single_ref", near.refs(&[BWD, ALT2], &[ALT]), 1),
        "single_ref_p3" => r3("single_ref", near.refs(&[LAST, LAST2], &[LAST3, GOLD]), 2),
        "single_ref_p4" => r3("single_ref", near.refs(&[LAST], &[LAST2]), 3),
        "single_ref_p5" => r3("single_ref", near.refs(&[LAST3], &[GOLD]), 4),
        "single_ref_p6" => r3("single_ref", near.refs(&[BWD], &[ALT2]), 5),
        "uni_comp_ref" => r3("uni_comp_ref", near.refs(&[LAST, LAST2, LAST3, GOLD], &[BWD, ALT2, ALT]), 0),
        "uni_comp_ref_p1" => r3("uni_comp_ref", near.refs(&[LAST2], &[LAST3, GOLD]), 1),
        "uni_comp_ref_p2" => r3("uni_comp_ref", near.refs(&[LAST3], &[GOLD]), 2),
        "comp_ref_type" => {
            let same = |a: i64, b: i64| a > 0 && b > 0 && backward(a) == backward(b);
            let comp = |m: Option<&Op>| m.map_or(false, |m| !intra(m) && !single(m));
            let uni = |m: Option<&Op>| comp(m) && same(m.unwrap().g("r0"), m.unwrap().g("r1"));
            let (a, l) = (near.up, near.left);
            let ctx = match (a, l) {
                (Some(x), Some(y)) if !intra(x) && !intra(y) => {
                    let dir = same(x.g("r0"), y.g("r0")) as usize;
                    match (comp(a), comp(l)) {
                        (false, false) => 1 + 2 * dir,
                        (false, true) => if uni(l) { 3 + dir } else { 1 },
                        (true, false) => if uni(a) { 3 + dir } else { 1 },
                        _ => match (uni(a), uni(l)) { (false, false) => 0, (true, true) => 3 + ((x.g("r0") == BWD) == (y.g("r0") == BWD)) as usize, _ => 2 },
                    }
                }
                (Some(_), Some(_)) => if comp(a) { 1 + 2 * uni(a) as usize } else if comp(l) { 1 + 2 * uni(l) as usize } else { 2 },
                _ => if comp(a) { 4 * uni(a) as usize } else if comp(l) { 4 * uni(l) as usize } else { 2 },
            };
            Table("comp_ref_type", vec![ctx])
        }
        "comp_group_idx" => Table("comp_group_idx", vec![near.sum(|m| if !single(m) { m.g("group") } else if m.g("r0") == ALT { 3 } else { 0 }).min(5)]),
        "compound_idx" => {
            let d = |r: &str| dist(o.g(&format!("h{}", o.g(r))), o.g("hint"), o.g("enable") == 1, o.g("bits"));
            Table("compound_idx", vec![3 * (d("r0") == d("r1")) as usize + near.sum(|m| if !single(m) { m.g("cidx") } else { (m.g("r0") == ALT) as i64 })])
        }
        "compound_mode" => Table("compound_mode", vec![[[0, 1, 1, 1, 1], [1, 2, 3, 4, 4], [4, 4, 5, 6, 7]][o.n("ref_ctx") / 2][o.n("new_ctx").min(4)]]),
        "interp_filter" => {
            let own = grid.get(&(o.g("row"), o.g("col"))).ok_or("no mode info")?;
            let key = ["f0", "f1"][o.n("dir")];
            let kind = |m: Option<&Op>| m.filter(|m| m.g("r0") == own.g("r0") || m.g("r1") == own.g("r0")).map_or(3, |m| m.n(key));
            let (l, a) = (kind(near.left), kind(near.up));
            Table("interp_filter", vec![(o.n("dir") * 2 + (own.g("r1") > 0) as usize) * 4 + if l == a { l } else if l == 3 { a } else if a == 3 { l } else { 3 }])
        }
        "motion_mode" => Table("motion_mode", vec![size]),
        "mv_joint" => Table("mv_joint", vec![o.n("ctx")]),
        "mv_sign" => r3("mv_sign", o.n("ctx"), o.n("comp")), "mv_class" => r3("mv_class", o.n("ctx"), o.n("comp")), "mv_class0_bit" => r3("mv_class0_bit", o.n("ctx"), o.n("comp")),
        "mv_class0_fr" => Table("mv_class0_fr", vec![o.n("ctx"), o.n("comp"), o.n("bit")]),
        "mv_class0_hp" => r3("mv_class0_hp", o.n("ctx"), o.n("comp")), "mv_fr" => r3("mv_fr", o.n("ctx"), o.n("comp")), "mv_hp" => r3("mv_hp", o.n("ctx"), o.n("comp")),
        "mv_bit" => Table("mv_bit", vec![o.n("ctx"), o.n("comp"), o.n("i")]),
        "has_palette_y" => r3("palette_y_mode", o.n("bctx"), near.sum(|m| (m.g("pal") > 0) as i64)),
        "has_palette_uv" => Table("palette_uv_mode", vec![(o.g("y_size") > 0) as usize]),
        "palette_size_y" => Table("palette_y_size", vec![o.n("bctx")]), "palette_size_uv" => Table("palette_uv_size", vec![o.n("bctx")]),
        "palette_color_y" | "palette_color_uv" => {
            const Y: [&str; 7] = ["palette_size_2_y_color", "palette_size_3_y_color", "palette_size_4_y_color", "palette_size_5_y_color", "palette_size_6_y_color", "palette_size_7_y_color", "palette_size_8_y_color"];
            const UV: [&str; 7] = ["palette_size_2_uv_color", "palette_size_3_uv_color", "palette_size_4_uv_color", "palette_size_5_uv_color", "palette_size_6_uv_color", "palette_size_7_uv_color", "palette_size_8_uv_color"];
            Table(if o.kind == "palette_color_y" { Y } else { UV }[o.n("n") - 2], vec![match o.g("hash") { 2 => 0, 5 => 4, 6 => 3, 7 => 2, _ => 1 }])
        }
        "delta_q_abs" => Table("delta_q", vec![]),
        "delta_lf_abs" => if o.g("multi") == 1 { Table("delta_lf_multi", vec![o.n("i")]) } else { Table("delta_lf", vec![]) },
        "compound_type" => Table("compound_type", vec![size]),
        "interintra" => Table("inter_intra", vec![group(size)]),
        "interintra_mode" => Table("inter_intra_mode", vec![group(size)]),
        "wedge_index" => Table("wedge_index", vec![size]), "wedge_interintra" => Table("wedge_inter_intra", vec![size]), "use_obmc" => Table("use_obmc", vec![size]),
        "cfl_alpha_signs" => Table("cfl_sign", vec![]),
        "cfl_alpha_u" => { let s = o.n("signs") + 1; Table("cfl_alpha", vec![(s / 3 - 1) * 3 + s % 3]) }
        "cfl_alpha_v" => { let s = o.n("signs") + 1; Table("cfl_alpha", vec![(s % 3 - 1) * 3 + s / 3]) }
        "use_wiener" => Table("use_wiener", vec![]), "use_sgrproj" => Table("use_sgrproj", vec![]), "restoration_type" => Table("restoration_type", vec![]),
        k => return Err(format!("no rule for {}", k)),
    })
}
/// the place of a table within its array
pub fn place(t: &Store, name: &str, at: &[usize]) -> Result<(usize, usize), String> {
    let (dims, _) = t.get(name).ok_or(format!("no table {}", name))?;
    if dims.len() != at.len() + 1 || at.iter().zip(dims).any(|(a, d)| a >= d) { return Err(format!("{} has the shape {:?} and no entry {:?}", name, dims, at)); }
    let n = dims[dims.len() - 1];
    Ok((at.iter().zip(dims).fold(0, |k, (a, d)| k * d + a) * n, n))
}
fn row(t: &Store, name: &str, at: &[usize]) -> Result<Vec<i32>, String> { let (p, n) = place(t, name, at)?; Ok(t[name].1[p..p + n].to_vec()) }

// ---------------------------------------------------------------- execution
struct In<'a> { b: &'a [u8], p: usize }
impl<'a> In<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> { if self.p + n > self.b.len() { return Err("the driver's record is cut short".into()); } self.p += n; Ok(&self.b[self.p - n..self.p]) }
    fn byte(&mut self) -> Result<usize, String> { Ok(self.take(1)?[0] as usize) }
    fn tables(&mut self) -> Result<Store, String> {
        let mut s = Store::new();
        loop {
            let k = self.byte()?;
            if k == 0 { return Ok(s); }
            let name = String::from_utf8_lossy(self.take(k)?).into_owned();
            let nd = self.byte()?;
            let dims: Vec<usize> = self.take(nd)?.iter().map(|x| *x as usize).collect();
            let v = self.take(4 * dims.iter().product::<usize>())?.chunks(4).map(|c| i32::from_le_bytes(c.try_into().unwrap())).collect();
            s.insert(name, (dims, v));
        }
    }
}
/// decodes a session's bits: the elements that counted, with the neighbours each of them had
fn decode(bits: &[u8], said: &[(Arc<Op>, Grid)], frame: Size, tables: &mut Store, types: &[u8], cov: &mut Cov) -> Result<(), String> {
    let mut d = RefDecoder::new(bits);
    let mut types = types.iter();
    for (i, (o, grid)) in said.iter().enumerate() {
        let what = |m: String| format!("element {} ({}): {}", i, o.line(), m);
        if o.kind == "block" { crate::coef::read(&mut d, tables, o, frame, &mut types, cov).map_err(what)?; continue; }
        let (got, with) = match rule(o, grid, tables).map_err(what)? {
            With::Literal(n) => { let mut v = 0i64; for _ in 0..n { v = 2 * v + d.symbol(&mut bool_table(128)) as i64; } (v, String::from("literal bits")) }
            With::Made(mut t) => (d.symbol(&mut t) as i64, format!("{:?}", t)),
            With::Table(name, at) => {
                let (p, n) = place(tables, name, &at).map_err(what)?;
                if o.n("v") >= n - 1 { return Err(what(format!("{} has only {} values", name, n - 1))); }
                cov.note(&format!("coded_{}", o.kind), 1);
                (d.symbol(&mut tables.get_mut(name).unwrap().1[p..p + n]) as i64, format!("{}{:?}", name, at))
            }
        };
        if got != o.g("v") { return Err(what(format!("decodes as {} with {}", got, with))); }
    }
    Ok(())
}
pub fn exec(env: &Env, c: &ElemCase, prop: &str, cov: &mut Cov, trace: bool) -> Result<(), Viol> {
    let v = |m: String| -> Result<(), Viol> { Err(Viol { prop: prop.to_string(), msg: m }) };
    if env.harness.is_none() { return Ok(()); }
    let sc = env.scratch.join("scenario");
    let mut t = String::new();
    for o in &c.ops { t.push_str(&o.line()); t.push('\n'); }
    std::fs::write(&sc, t).unwrap();
    let o = run(env, &Job { bin: env.harness.as_ref().unwrap(), args: vec![sc.to_str().unwrap().into(), "@OUT".into()], input: None, stdin: false, stdout: false, existing: None, names: 0, keep_out: false, plan: &[], frames: false, trace });
    if !o.ok() { return v(format!("coding the elements failed: {}; {}", o.verdict(), String::from_utf8_lossy(&o.stderr).lines().find_map(|l| l.split_once("panicked at ").map(|x| format!("panicked at {}", x.1))).unwrap_or_default())); }
    let rec = o.out.unwrap_or_default();
    match check(&rec, &c.ops, cov) {
        Err(m) => v(m),
        Ok(h) => Ok(cov.done(h)),
    }
}
fn check(rec: &[u8], ops: &[Arc<Op>], cov: &mut Cov) -> Result<u64, String> {
    let mut r = In { b: rec, p: 0 };
    let mut grid = Grid::new();
    let (mut said, mut trials): (Vec<(Arc<Op>, Grid)>, Vec<usize>) = (vec![], vec![]);
    let mut start: Option<Store> = None;
    let mut left: Option<Store> = None; // tables as the last session left them, if it was finished
    let mut h = 0;
    let mut frame = Size { cols: 16, rows: 16, ssx: 1, ssy: 1 };
    for o in ops {
        cov.steps += 1;
        for b in o.line().bytes() { h = fnv(h, b as u64); }
        match o.kind.as_str() {
            "session" => {
                if r.byte()? != b'T' as usize { return Err("the driver's record is out of step".into()); }
                if start.is_some() { cov.fault("session_given_up"); }
                let t = r.tables()?;
                if o.g("tables") == -1 { if let Some(ref l) = left { if *l != t { return Err(format!("tables changed between two sessions: {}", differ(l, &t))); } } }
                sound(&t)?;
                start = Some(t);
                said.clear();
                left = None;
            }
            "end" => {
                let mut mark = r.byte()?;
                let mut types: &[u8] = &[];
                if mark == b'K' as usize { let n = u32::from_le_bytes(r.take(4)?.try_into().unwrap()) as usize; types = r.take(n)?; mark = r.byte()?; }
                if mark != b'B' as usize { return Err("the driver's record is out of step".into()); }
                let n = u32::from_le_bytes(r.take(4)?.try_into().unwrap()) as usize;
                let bits = r.take(n)?;
                let after = r.tables()?;
                let mut t = start.take().ok_or("no session")?;
                cov.note("coded_bits", n as u64);
                decode(bits, &said, frame, &mut t, types, cov)?;
                if t != after { return Err(format!("after {} elements the tables are not as a decoder has them: {}", said.len(), differ(&t, &after))); }
                left = Some(after);
                said.clear();
            }
            "frame" => frame = Size::of(o),
            "try" => trials.push(said.len()),
            "back" => { cov.fault("trial_taken_back"); said.truncate(trials.pop().ok_or("no trial")?); }
            "keep" => { cov.fault("trial_kept"); trials.pop(); }
            "info" => { grid.insert((o.g("row"), o.g("col")), (**o).clone()); }
            "noinfo" => { grid.remove(&(o.g("row"), o.g("col"))); }
            _ => {
                // neighbours as they are now
                let mut g = Grid::new();
                for (r, c) in [(o.g("row"), o.g("col")), (o.g("at_row"), o.g("at_col"))] { for k in [(r, c), (r - 1, c), (r, c - 1)] { if let Some(m) = grid.get(&k) { g.insert(k, m.clone()); } } }
                said.push((o.clone(), g));
            }
        }
    }
    Ok(h)
}
/// every value can be coded with every table, and counting has room
fn sound(t: &Store) -> Result<(), String> {
    for (k, (d, v)) in t {
        for (i, x) in v.chunks(d[d.len() - 1]).enumerate() {
            let n = x.len() - 1;
            let mut p = 0;
            for &c in &x[..n] { if c <= p { return Err(format!("{} (shape {:?}), table {}: {:?} leaves no room for a value", k, d, i, x)); } p = c; }
            if p != 32768 || x[n] < 0 || x[n] > 32 { return Err(format!("{} (shape {:?}), table {}: {:?} is no table of probabilities", k, d, i, x)); }
        }
    }
    Ok(())
}
fn differ(want: &Store, got: &Store) -> String {
    for (k, (d, v)) in want {
        match got.get(k) {
            Some((_, w)) if w == v => {}
            Some((_, w)) => { let n = d[d.len() - 1]; let i = v.iter().zip(w).position(|(a, b)| a != b).unwrap_or(0) / n; return format!("{} (shape {:?}), table {}: {:?} instead of {:?}", k, d, i, &w[i * n..(i + 1) * n], &v[i * n..(i + 1) * n]); }
            None => return format!("{} is gone", k),
        }
    }
    "other tables".into()
}

// ---------------------------------------------------------------- generation
const PLAIN: [(&str, i64); 8] = [("filter_intra_mode", 5), ("delta_q_abs", 4), ("cfl_alpha_signs", 8), ("use_wiener", 2), ("use_sgrproj", 2), ("restoration_type", 3), ("delta_lf_abs", 4), ("literal", 0)];
const SIZED: [(&str, i64); 10] = [("y_mode", 13), ("use_filter_intra", 2), ("motion_mode", 3), ("compound_type", 2), ("interintra", 2), ("interintra_mode", 4), ("wedge_index", 16), ("wedge_interintra", 2), ("use_obmc", 2), ("y_mode", 13)];
const NEAR: [(&str, i64); 22] = [("is_inter", 2), ("comp_mode", 2), ("skip_mode", 2), ("skip", 2), ("comp_ref", 2), ("comp_ref_p1", 2), ("comp_ref_p2", 2), ("comp_bwdref", 2), ("comp_bwdref_p1", 2), ("single_ref_p1", 2), ("single_ref_p2", 2), ("single_ref_p3", 2), ("single_ref_p4", 2), ("single_ref_p5", 2), ("single_ref_p6", 2),
    ("comp_ref_type", 2), ("uni_comp_ref", 2), ("uni_comp_ref_p1", 2), ("uni_comp_ref_p2", 2), ("comp_group_idx", 2), ("seg_id_predicted", 2), ("comp_ref_type", 2)];
const MV: [(&str, i64); 9] = [("mv_joint", 4), ("mv_sign", 2), ("mv_class", 11), ("mv_class0_bit", 2), ("mv_class0_fr", 4), ("mv_class0_hp", 2), ("mv_fr", 4), ("mv_hp", 2), ("mv_bit", 2)];
fn below(r: &mut Rng, n: i64) -> i64 { r.below(n as u64) as i64 }

fn gen_info(r: &mut Rng, row: i64, col: i64) -> Op {
    let size = below(r, 22);
    // a transform no larger than the block
    let (bw, bh) = BLOCKS[size as usize];
    let fits: Vec<usize> = (0..19).filter(|&t| TXS[t].0 <= bw && TXS[t].1 <= bh).collect();
    let (r0, r1, inter) = match r.below(5) { 0 => (0, -1, 0), 1 => (r.range(1, 7) as i64, -1, 1), 2 => (r.range(1, 7) as i64, if r.chance(1, 2) { 0 } else { -1 }, 1),
        3 => (r.range(1, 4) as i64, r.range(5, 7) as i64, 1), _ => *r.pick(&[(1, 2, 1), (1, 3, 1), (1, 4, 1), (5, 7, 1), (0, -1, 1)]) };
    let f = if r0 == 0 { (3, 3) } else { (below(r, 4), below(r, 4)) };
    Op::new("info").set("row", row).set("col", col).set("size", size).set("tx", *r.pick(&fits) as i64).set("inter", inter).set("skip", below(r, 2)).set("intra", (r0 <= 0) as i64).set("single", (r1 <= 0) as i64)
        .set("segpred", below(r, 2)).set("skip_mode", below(r, 2)).set("r0", r0).set("r1", r1).set("f0", f.0).set("f1", f.1).set("pal", if r.chance(1, 2) { 0 } else { r.range(2, 8) as i64 }).set("group", below(r, 2)).set("cidx", below(r, 2))
}
/// an element of the session; a few places only, so that neighbours meet
fn gen_elem(r: &mut Rng, at: (i64, i64), have: &Grid) -> Op {
    let (row, col) = at;
    let here = |o: Op| o.set("row", row).set("col", col);
    match r.below(24) {
        0 | 1 => { let (k, n) = *r.pick(&PLAIN); match k {
            "literal" => { let n = r.range(1, 16) as i64; Op::new(k).set("n", n).set("v", below(r, 1 << n)) }
            "delta_lf_abs" => { let m = below(r, 2); Op::new(k).set("v", below(r, n)).set("multi", m).set("i", if m == 1 { below(r, 4) } else { 0 }) }
            _ => Op::new(k).set("v", below(r, n)) } }
        2 | 3 => { let (k, n) = *r.pick(&SIZED); Op::new(k).set("v", below(r, n)).set("size", below(r, 22)) }
        4..=8 => { let (k, n) = *r.pick(&NEAR); here(Op::new(k).set("v", below(r, n))) }
        9 | 10 => { let (k, n) = *r.pick(&MV); let mut o = Op::new(k).set("v", below(r, n)).set("ctx", below(r, 2)).set("comp", below(r, 2)); if k == "mv_class0_fr" { o = o.set("bit", below(r, 2)); } if k == "mv_bit" { o = o.set("i", below(r, 10)); } o }
        11 => Op::new("intra_frame_y_mode").set("v", below(r, 13)).set("above", below(r, 13)).set("left", below(r, 13)),
        12 => {
            let (size, lossless) = (if r.chance(1, 2) { below(r, 5) } else { below(r, 22) }, below(r, 2));
            let (ssx, ssy) = *r.pick(&[(0, 0), (1, 0), (1, 1)]);
            let o = Op::new("uv_mode").set("y_mode", below(r, 13)).set("size", size).set("lossless", lossless).set("ssx", ssx).set("ssy", ssy);
            let (w, h) = BLOCKS[size as usize];
            let cfl = if lossless == 1 { (w >> ssx) <= 4 && (h >> ssy) <= 4 } else { w.max(h) <= 32 };
            o.set("v", below(r, if cfl { 14 } else { 13 }))
        }
        13 => Op::new(*r.pick(&["angle_delta_y", "angle_delta_uv"])).set("v", below(r, 7)).set("mode", r.range(1, 8) as i64),
        14 => { let s = *r.pick(&[3i64, 6, 9, 12, 15]); Op::new("partition").set("v", below(r, match s { 3 => 4, 15 => 8, _ => 10 })).set("size", s).set("above", below(r, 2)).set("left", below(r, 2)) }
        15 => Op::new(*r.pick(&["split_or_horz", "split_or_vert"])).set("v", below(r, 2)).set("size", *r.pick(&[6i64, 9, 12, 15])).set("above", below(r, 2)).set("left", below(r, 2)),
        16 => {
            let s = r.range(1, 21) as usize;
            let (w, h) = (BLOCKS[s].0.min(64), BLOCKS[s].1.min(64));
            let max = TXS.iter().position(|t| *t == (w, h)).unwrap() as i64;
            let depth = [0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 4, 4, 4, 4, 2, 2, 3, 3, 4, 4][s];
            here(Op::new("tx_depth").set("max_tx", max).set("depth", depth).set("v", below(r, if depth == 1 { 2 } else { 3 })))
        }
        17 => {
            // a transform that is split belongs to the block's tree: the whole (at most 64), or down to a half or a quarter of it
            let s = r.range(3, 21) as usize;
            let (w, h) = (BLOCKS[s].0.min(64), BLOCKS[s].1.min(64));
            let (max, i) = (BLOCKS[s].0.max(BLOCKS[s].1).min(64), r.below(3));
            let k = 1i64 << i.min(1);
            let cand: Vec<usize> = (0..19).filter(|&t| TXS[t].0 <= w && TXS[t].1 <= h && TXS[t] != (4, 4) && (TXS[t].0.max(TXS[t].1) == max || (max > 8 && TXS[t].0.max(TXS[t].1) * k * 2 >= max))).collect();
            if cand.is_empty() { return Op::new("use_wiener").set("v", below(r, 2)); }
            let (mut ar, mut ac) = (row, col);
            // inside the block there must be something above and to the left
            let (rows, cols) = (BLOCKS[s].1.min(16) / 4, BLOCKS[s].0.min(16) / 4);
            let inner: Vec<(i64, i64)> = (0..rows).flat_map(|y| (0..cols).map(move |x| (row + y, col + x))).filter(|&(y, x)| (y, x) != (row, col) && (y == row || have.contains_key(&(y - 1, x))) && (x == col || have.contains_key(&(y, x - 1)))).collect();
            if !inner.is_empty() && r.chance(2, 3) { let p = *r.pick(&inner); ar = p.0; ac = p.1; }
            here(Op::new("txfm_split").set("size", s as i64).set("tx", *r.pick(&cand) as i64).set("at_row", ar).set("at_col", ac).set("v", below(r, 2)))
        }
        18 => { let o = Op::new("segment_id").set("v", below(r, 8)); if r.chance(1, 3) { let w = r.below(3); o.set("ul", -1).set("u", if w == 1 { below(r, 8) } else { -1 }).set("l", if w == 2 { below(r, 8) } else { -1 }) } else { o.set("ul", below(r, 3)).set("u", below(r, 3)).set("l", below(r, 3)) } }
        19 => match r.below(5) {
            0 => Op::new("new_mv").set("v", below(r, 2)).set("ctx", below(r, 6)), 1 => Op::new("zero_mv").set("v", below(r, 2)).set("ctx", below(r, 2)), 2 => Op::new("ref_mv").set("v", below(r, 2)).set("ctx", below(r, 6)),
            3 => Op::new("drl_mode").set("v", below(r, 2)).set("idx", below(r, 3)).set("c0", below(r, 3)).set("c1", below(r, 3)).set("c2", below(r, 3)),
            _ => Op::new("compound_mode").set("v", below(r, 8)).set("ref_ctx", below(r, 6)).set("new_ctx", below(r, 6)),
        },
        20 => {
            let bits = r.range(1, 8) as i64;
            let mut o = here(Op::new("compound_idx").set("v", below(r, 2)).set("bits", bits).set("enable", !r.chance(1, 8) as i64).set("hint", below(r, 1 << bits)).set("r0", r.range(1, 7) as i64).set("r1", r.range(1, 7) as i64));
            let near = o.g("hint");
            for i in 0..8 { let v = if r.chance(1, 2) { (near + r.range(0, 4) as i64 - 2).rem_euclid(1 << bits) } else { below(r, 1 << bits) }; o = o.set(&format!("h{}", i), v); }
            o
        }
        21 => if have.get(&at).map_or(false, |m| m.g("r0") > 0) { here(Op::new("interp_filter").set("v", below(r, 3)).set("dir", below(r, 2))) } else { here(Op::new("skip").set("v", below(r, 2))) },
        22 => match r.below(4) {
            0 => here(Op::new("has_palette_y").set("v", below(r, 2)).set("bctx", below(r, 7))), 1 => Op::new("has_palette_uv").set("v", below(r, 2)).set("y_size", if r.chance(1, 2) { 0 } else { r.range(2, 8) as i64 }),
            2 => Op::new("palette_size_y").set("v", below(r, 7)).set("bctx", below(r, 7)), _ => Op::new("palette_size_uv").set("v", below(r, 7)).set("bctx", below(r, 7)),
        },
        _ => match r.below(3) {
            0 => { let n = r.range(2, 8) as i64; Op::new(*r.pick(&["palette_color_y", "palette_color_uv"])).set("v", below(r, n)).set("n", n).set("hash", *r.pick(&[2, 5, 6, 7, 8])) }
            1 => Op::new("cfl_alpha_u").set("v", below(r, 16)).set("signs", r.range(2, 7) as i64),
            _ => Op::new("cfl_alpha_v").set("v", below(r, 16)).set("signs", *r.pick(&[0, 1, 3, 4, 6, 7])),
        },
    }
}
pub fn gen(r: &mut Rng) -> ElemCase {
    let mut ops = vec![];
    let mut have = Grid::new();
    // the frame has 80 rows and 144 columns of 4x4 blocks: at its corner, near the edge of a (super)block, anywhere
    let side = |r: &mut Rng, n: i64| match r.below(6) { 0..=2 => 0, 3 => (16 * r.range(1, 8) as i64 - below(r, 4)).min(n), 4 => below(r, 12), _ => below(r, n + 1) };
    let base = (side(r, 75), side(r, 139));
    for s in 0..r.range(1, 4) {
        ops.push(Op::new("session").set("tables", match r.below(4) { 0 => 0, 1 if s > 0 => -1, _ => r.range(1, 1 << 40) as i64 }));
        let n = if r.chance(1, 10) { r.log(3000) } else { r.log(400) };
        let mut deep: Vec<Vec<Op>> = vec![];
        let mut repeat: Option<Op> = None;
        for _ in 0..n {
            match r.below(30) {
                0 if deep.len() < 3 => { ops.push(Op::new("try")); deep.push(vec![]); }
                1 | 2 if !deep.is_empty() => { deep.pop(); ops.push(Op::new(if r.chance(2, 3) { "back" } else { "keep" })); }
                3..=6 => { let p = (base.0 + below(r, 4), base.1 + below(r, 4)); if r.chance(1, 5) { have.remove(&p); ops.push(Op::new("noinfo").set("row", p.0).set("col", p.1)); } else { let m = gen_info(r, p.0, p.1); have.insert(p, m.clone()); ops.push(m); } }
                7..=9 => if let Some(ref o) = repeat { let mut o = o.clone(); if o.kind != "literal" && r.chance(1, 2) { o.f.insert("v".into(), 0); } ops.push(o); }, // one table again and again
                _ => { let p = (base.0 + below(r, 4), base.1 + below(r, 4)); let o = gen_elem(r, p, &have); if repeat.is_none() || r.chance(1, 12) { repeat = Some(o.clone()); } ops.push(o); }
            }
            if repeat.as_ref().map_or(false, |o| o.kind == "interp_filter" || o.kind == "txfm_split") { repeat = None; } // they need a block where they are
        }
        for _ in deep.drain(..) { ops.push(Op::new(if r.chance(1, 2) { "back" } else { "keep" })); }
        if !r.chance(1, 10) { ops.push(Op::new("end")); }
    }
    ElemCase { ops: ops.into_iter().map(Arc::new).collect() }
}
/// trials are nested within sessions, and elements that need mode info where they are have it
fn valid(ops: &[Arc<Op>]) -> bool {
    let (mut open, mut deep) = (false, 0);
    let mut frame: Option<Arc<Op>> = None;
    let mut have: HashMap<(i64, i64), i64> = HashMap::new();
    for o in ops {
        match o.kind.as_str() {
            "frame" => { if deep > 0 { return false; } open = false; frame = Some(o.clone()); } // whatever was open is given up
            "block" => match frame { Some(ref f) if open && crate::coef::fits(o, f) => {} _ => return false },
            "session" => { if deep > 0 { return false; } open = true; }
            "end" => { if !open || deep > 0 { return false; } open = false; }
            "try" => { if !open { return false; } deep += 1; }
            "back" | "keep" => { if deep == 0 { return false; } deep -= 1; }
            "info" => { have.insert((o.g("row"), o.g("col")), o.g("r0")); }
            "noinfo" => { have.remove(&(o.g("row"), o.g("col"))); }
            "interp_filter" => if !open || have.get(&(o.g("row"), o.g("col"))).map_or(true, |r| *r <= 0) { return false; },
            "txfm_split" => {
                let (r, c) = (o.g("at_row"), o.g("at_col"));
                if !open || (r != o.g("row") && !have.contains_key(&(r - 1, c))) || (c != o.g("col") && !have.contains_key(&(r, c - 1))) { return false; }
            }
            _ => if !open { return false; },
        }
    }
    deep == 0
}
pub fn shrinks(c: &ElemCase) -> Vec<ElemCase> {
    let mut v = vec![];
    let k = c.ops.len();
    let mut sz = k;
    while sz >= 1 {
        let mut i = 0;
        while i < k {
            let mut d = c.clone();
            d.ops.drain(i..(i + sz).min(k));
            if valid(&d.ops) { v.push(d); }
            i += sz;
        }
        if sz == 1 { break; }
        sz /= 2;
    }
    // a trial as a whole
    for i in 0..k { if c.ops[i].kind == "try" {
        let mut n = 0;
        for j in i..k { match c.ops[j].kind.as_str() { "try" => n += 1, "back" | "keep" => n -= 1, _ => {} } if n == 0 { let mut d = c.clone(); d.ops.remove(j); d.ops.remove(i); if valid(&d.ops) { v.push(d); } break; } }
    } }
    // fewer and smaller coefficients
    for i in 0..k { if c.ops[i].kind == "block" {
        let keys: Vec<String> = c.ops[i].f.keys().filter(|x| x.starts_with('c') && x[1..].parse::<usize>().is_ok()).cloned().collect();
        let mut n = keys.len();
        while n >= 1 { for part in keys.chunks(n) { let mut d = c.clone(); for x in part { Arc::make_mut(&mut d.ops[i]).f.remove(x); } v.push(d); } n /= 2; }
        for x in &keys { if c.ops[i].g(x) != 1 && keys.len() < 20 { let mut d = c.clone(); Arc::make_mut(&mut d.ops[i]).f.insert(x.clone(), 1); v.push(d); } }
    } }
    for i in 0..k { if c.ops[i].kind == "session" && c.ops[i].g("tables") > 0 { for t in [0, 1] { if t != c.ops[i].g("tables") { let mut d = c.clone(); Arc::make_mut(&mut d.ops[i]).f.insert("tables".into(), t); v.push(d); } } } }
    v
}
pub fn text(c: &ElemCase) -> String { let mut o = String::new(); for x in &c.ops { o.push_str(&format!("op {}\n", x.line())); } o }
pub fn parse(t: &str) -> ElemCase { ElemCase { ops: t.lines().filter_map(|l| l.strip_prefix("op ")).map(|l| Arc::new(Op::parse(l))).collect() } }
