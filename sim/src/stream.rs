//! Coding link simulation: one encoder coder with an arbitrary history writes header fields and symbol
//! sessions into one bit stream; a channel damages it; one decoder coder with an arbitrary history
//! takes it apart again. Real code: BoolCoder. Model: values, positions and the reference decoder.
use crate::refmodel::*;
use crate::rng::*;
use crate::{Cov, Viol};
use av1enc::bool_coder::BoolCoder;
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub enum Op { Sym(usize, usize), Bool(i32, u8), Lit(u8, u64), Run(i32, Vec<u8>) }

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Sess { pub tables: Vec<Vec<i32>>, pub ops: Vec<Op> }

#[derive(Clone, Debug, PartialEq)]
pub enum Field { Uvlc(u32), Le(u64, u8), Leb(u64), Su(i64, u8), Ns(u64, u64), Raw(u32, u8) }

#[derive(Clone, Debug, PartialEq)]
pub enum Seg {
    Field(Field),
    /// a complete session; ops decoded before closing (None: all); extra fair bits decoded after them;
    /// announced size in bytes if not the true one
    Sess { s: Sess, decode: Option<usize>, extra: usize, announce: Option<u32> },
    /// the encoder abandons this session half way
    EncAbandon(Sess),
    /// the decoder decodes this many symbols from unrelated bits and is abandoned or closed
    DecJunk { seed: u64, n: usize, exit: bool },
}

#[derive(Clone, Debug, PartialEq)]
pub struct StreamCase { pub shared: bool, pub cut: Option<usize>, pub flips: Vec<usize>, pub segs: Vec<Seg> }

// ---------------------------------------------------------------- real code adapters
pub fn enc_op(c: &mut BoolCoder, out: &mut Vec<u8>, tables: &mut Vec<Vec<i32>>, op: &Op) {
    match op {
        Op::Sym(t, v) => c.encode_symbol(*v as i32, out, &mut tables[*t]),
        Op::Bool(p, b) => c.encode_symbolp(*b, out, *p),
        Op::Lit(n, v) => c.encode_literal(out, *v, *n),
        Op::Run(p, bits) => c.encode_symbols(bits, out, *p),
    }
}
/// decoded values of an op (Run gives several)
pub fn dec_op(c: &mut BoolCoder, q: &mut VecDeque<u8>, tables: &mut Vec<Vec<i32>>, op: &Op) -> Vec<u64> {
    match op {
        Op::Sym(t, _) => vec![c.decode_symbol(q, &mut tables[*t])],
        Op::Bool(p, _) => vec![c.decode_symbolp(q, *p)],
        Op::Lit(n, _) => vec![c.decode_literal(q, *n)],
        Op::Run(p, bits) => {
            let mut o = vec![];
            c.decode_symbols(q, &mut o, bits.len() as i32, *p);
            o.iter().map(|x| *x as u64).collect()
        }
    }
}
pub fn op_values(op: &Op) -> Vec<u64> {
    match op {
        Op::Sym(_, v) => vec![*v as u64],
        Op::Bool(_, b) => vec![*b as u64],
        Op::Lit(_, v) => vec![*v],
        Op::Run(_, b) => b.iter().map(|x| *x as u64).collect(),
    }
}
pub fn ref_op(d: &mut RefDecoder, tables: &mut Vec<Vec<i32>>, op: &Op) -> Vec<u64> {
    match op {
        Op::Sym(t, _) => vec![d.symbol(&mut tables[*t]) as u64],
        Op::Bool(p, _) => vec![d.symbol(&mut bool_table(*p)) as u64],
        Op::Lit(n, _) => {
            let mut v = 0u64;
            for _ in 0..*n { v = (v << 1) | d.symbol(&mut bool_table(128)) as u64; }
            vec![v]
        }
        Op::Run(p, bits) => {
            let mut t = bool_table(*p);
            bits.iter().map(|_| d.symbol(&mut t) as u64).collect()
        }
    }
}
fn op_range_ok(op: &Op, tables: &Vec<Vec<i32>>, v: &[u64]) -> bool {
    match op {
        Op::Sym(t, _) => v[0] < (tables[*t].len() - 1) as u64,
        Op::Bool(..) => v[0] < 2,
        Op::Lit(n, _) => *n >= 64 || v[0] < (1u64 << *n),
        Op::Run(..) => v.iter().all(|x| *x < 2),
    }
}
pub fn enc_field(c: &mut BoolCoder, out: &mut Vec<u8>, f: &Field) {
    match f {
        Field::Uvlc(v) => c.encode_uvlc(out, *v),
        Field::Le(v, n) => c.encode_le(out, *v, *n),
        Field::Leb(v) => c.encode_leb128(out, *v),
        Field::Su(v, n) => c.encode_su(out, *v, *n),
        Field::Ns(v, n) => c.encode_ns(out, *v, *n),
        Field::Raw(v, n) => c.push_bits_with_size(out, *v, *n),
    }
}
/// decoded value, as i128
pub fn dec_field(c: &mut BoolCoder, q: &mut VecDeque<u8>, f: &Field) -> i128 {
    match f {
        Field::Uvlc(_) => c.decode_uvlc(q) as i128,
        Field::Le(_, n) => c.decode_le(q, *n) as i128,
        Field::Leb(_) => c.decode_leb128(q) as i128,
        Field::Su(_, n) => c.decode_su(q, *n) as i128,
        Field::Ns(_, n) => c.decode_ns(q, *n) as i128,
        Field::Raw(_, n) => {
            let mut v = 0i128;
            for _ in 0..*n { v = 2 * v + q.pop_front().expect("bits") as i128; }
            v
        }
    }
}
pub fn field_value(f: &Field) -> i128 {
    match f {
        Field::Uvlc(v) => *v as i128, Field::Le(v, _) => *v as i128, Field::Leb(v) => *v as i128,
        Field::Su(v, _) => *v as i128, Field::Ns(v, _) => *v as i128, Field::Raw(v, _) => *v as i128,
    }
}
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".to_string() }
    })
}
pub fn table_hash(t: &Vec<Vec<i32>>) -> u64 {
    let mut h = 7u64;
    for x in t { for y in x { h = fnv(h, *y as u32 as u64); } h = fnv(h, 0xfeed); }
    h
}

// ---------------------------------------------------------------- execution and invariants
struct Placed { start: usize, end: usize }

pub fn exec(case: &StreamCase, prop: &str, cov: &mut Cov) -> Result<(), Viol> {
    let v = |p: &str, m: String| -> Result<(), Viol> { if p == prop { Err(Viol { prop: p.to_string(), msg: m }) } else { Ok(()) } };
    let mut enc = BoolCoder::new();
    let mut out: Vec<u8> = vec![];
    let mut placed: Vec<Placed> = vec![];
    let mut sess_tables: Vec<Vec<u64>> = vec![]; // per session: table hashes after each op
    let mut h = 0u64;
    // ---- encode
    for (si, seg) in case.segs.iter().enumerate() {
        let start = out.len();
        let mut hashes = vec![];
        match seg {
            Seg::Field(f) => {
                cov.steps += 1;
                if let Err(e) = quiet(|| enc_field(&mut enc, &mut out, f)) {
                    return v("C12", format!("segment {}: encoding {:?} panicked: {}", si, f, e));
                }
            }
            Seg::Sess { s, .. } => {
                let mut tables = s.tables.clone();
                let r = quiet(|| {
                    enc.init_encoder();
                    for op in &s.ops { enc_op(&mut enc, &mut out, &mut tables, op); hashes.push(table_hash(&tables)); }
                    enc.exit_encoder(&mut out);
                });
                cov.steps += s.ops.len() as u64 + 2;
                if let Err(e) = r { return v("C08", format!("segment {}: encoding op {} panicked: {}", si, hashes.len(), e)); }
                let len = out.len() - start;
                if len % 8 != 0 { return v("C09", format!("segment {}: closed session appended {} bits, not whole bytes", si, len)); }
                if out[start..].iter().any(|b| *b > 1) { return v("C08", format!("segment {}: a value other than 0 and 1 among the bits", si)); }
                // independent decoder on the intact bits
                let mut rt = s.tables.clone();
                let mut d = RefDecoder::new(&out[start..]);
                for (i, op) in s.ops.iter().enumerate() {
                    let got = ref_op(&mut d, &mut rt, op);
                    if got != op_values(op) {
                        return v("C08", format!("segment {} op {}: independent decoder reads {:?} where {:?} was encoded", si, i, clip(&got), clip(&op_values(op))));
                    }
                    if table_hash(&rt) != hashes[i] { return v("C08", format!("segment {} op {}: encoder's tables differ from the format's adaptation", si, i)); }
                }
                if d.pos > len { return v("C09", format!("segment {}: decoding needs {} bits but the session has {}", si, d.pos, len)); }
                cov.note("session_bits_max", len as u64);
                for op in s.ops.iter().take(64) { for x in op_values(op) { h = fnv(h, x); } }
            }
            Seg::EncAbandon(s) => {
                let mut scratch = vec![];
                let mut tables = s.tables.clone();
                cov.fault("encoder_session_abandoned");
                let r = quiet(|| { enc.init_encoder(); for op in &s.ops { enc_op(&mut enc, &mut scratch, &mut tables, op); } });
                cov.steps += s.ops.len() as u64 + 1;
                if let Err(e) = r { return v("C08", format!("segment {}: encoding panicked: {}", si, e)); }
            }
            Seg::DecJunk { .. } => {}
        }
        h = fnv(h, (out.len() - start) as u64 ^ ((si as u64) << 40));
        placed.push(Placed { start, end: out.len() });
        sess_tables.push(hashes);
    }
    let intact = out.clone();
    // ---- channel
    let cut = case.cut.map(|c| c.min(out.len())).unwrap_or(out.len());
    for f in &case.flips { if *f < out.len() { out[*f] ^= 1; cov.fault("bit_flip"); h = fnv(h, *f as u64); } }
    if case.cut.is_some() && cut < out.len() { cov.fault("truncation"); h = fnv(h, cut as u64 ^ 0xc07); }
    out.truncate(cut);
    let damaged: Vec<u8> = out;
    // ---- decode
    let mut fresh = BoolCoder::new();
    let dec: &mut BoolCoder = if case.shared { &mut enc } else { &mut fresh };
    let mut q: VecDeque<u8> = damaged.iter().cloned().collect();
    for (si, seg) in case.segs.iter().enumerate() {
        let Placed { start, end } = placed[si];
        match seg {
            Seg::EncAbandon(_) => {}
            Seg::DecJunk { seed, n, exit } => {
                cov.fault(if *exit { "decoder_reused_after_junk" } else { "decoder_session_abandoned" });
                let mut r = Rng::new(*seed);
                let nb = 16 + (*n as usize) * 16;
                let mut jq: VecDeque<u8> = (0..nb).map(|_| (r.next() & 1) as u8).collect();
                let sz = (nb / 8) as u32;
                let mut t = vec![8000, 16000, 24000, 32768, 0];
                let res = quiet(|| {
                    dec.init_decoder(&mut jq, sz);
                    for _ in 0..*n { dec.decode_symbol(&mut jq, &mut t); }
                    if *exit { dec.exit_decoder(&mut jq); }
                });
                cov.steps += *n as u64;
                if let Err(e) = res { return v("C11", format!("segment {}: decoding unrelated bits panicked: {}", si, e)); }
            }
            Seg::Field(f) => {
                cov.steps += 1;
                let before = q.len();
                let flipped = (start..end.min(cut)).any(|i| damaged[i] != intact[i]);
                let res = quiet(|| dec_field(dec, &mut q, f));
                if flipped {
                    // only termination is owed; resynchronise behind the field
                    resync(&mut q, &damaged, end);
                    if end >= cut && cut < intact.len() { return Ok(cov.done(h)); }
                    continue;
                }
                if end > cut {
                    cov.note("cut_fields", 1);
                    return match res {
                        Err(_) => Ok(cov.done(h)),
                        Ok(x) => v("C12", format!("segment {}: {:?} was cut off ({} of {} bits left) but decoding returned {}", si, f, cut.saturating_sub(start), end - start, x)),
                    };
                }
                match res {
                    Err(e) => return v("C12", format!("segment {}: decoding intact {:?} panicked: {}", si, f, e)),
                    Ok(x) => {
                        if x != field_value(f) { return v("C12", format!("segment {}: {:?} came back as {}", si, f, x)); }
                        let used = before - q.len();
                        if used != end - start { return v("C12", format!("segment {}: {:?} took {} bits but decoding consumed {}", si, f, end - start, used)); }
                    }
                }
            }
            Seg::Sess { s, decode, extra, announce } => {
                let true_sz = ((end - start) / 8) as u32;
                let sz = announce.unwrap_or(true_sz);
                let need = 15.min(sz as usize * 8); // bits taken when opening
                if announce.is_some() { cov.fault("wrong_announced_size"); }
                let wend = start + sz as usize * 8; // window the decoder was told
                let avail = wend.min(damaged.len());
                let window: Vec<u8> = if start < damaged.len() { damaged[start..avail].to_vec() } else { vec![] };
                let missing = wend > damaged.len();
                let pristine = sz == true_sz && !missing && damaged[start..end] == intact[start..end];
                let tag = if pristine { "C08" } else { "C11" };
                let before = q.len();
                let have = window.len();
                if let Err(e) = quiet(|| dec.init_decoder(&mut q, sz)) {
                    if have < need || (missing && have < need + 64) { return Ok(cov.done(h)); }
                    return v(tag, format!("segment {}: opening the decoder panicked: {}", si, e));
                }
                if have < need { return v("C11", format!("segment {}: decoder opened on {} bits without noticing", si, have)); }
                let mut tables = s.tables.clone();
                let mut rt = s.tables.clone();
                let mut d = RefDecoder::new(&window);
                let k = decode.unwrap_or(s.ops.len()).min(s.ops.len());
                let fair = Op::Bool(128, 0);
                for i in 0..k + *extra {
                    let op = if i < k { &s.ops[i] } else { &fair };
                    cov.steps += 1;
                    let want = ref_op(&mut d, &mut rt, op);
                    let lacking = missing && d.pos > have; // needed a bit that was announced but lost
                    match quiet(|| dec_op(dec, &mut q, &mut tables, op)) {
                        Err(e) => {
                            if lacking || (missing && d.pos + 64 > have) { cov.note("exhaustion_detected", 1); return Ok(cov.done(h)); }
                            return v(tag, format!("segment {} op {}: decoding panicked: {}", si, i, e));
                        }
                        Ok(got) => {
                            if !op_range_ok(op, &tables, &got) { return v("C11", format!("segment {} op {}: {:?} is outside the alphabet of {:?}", si, i, clip(&got), op)); }
                            if lacking { return v("C11", format!("segment {} op {}: returned {:?} although bit {} of {} available was needed", si, i, clip(&got), d.pos, have)); }
                            if got != want {
                                if i < k && pristine { return v("C08", format!("segment {} op {}: decoded {:?}, encoded {:?}", si, i, clip(&got), clip(&op_values(op)))); }
                                return v("C11", format!("segment {} op {}: decoded {:?}, the bits say {:?}", si, i, clip(&got), clip(&want)));
                            }
                            if pristine && i < k && table_hash(&tables) != sess_tables[si][i] {
                                return v("C08", format!("segment {} op {}: tables of encoder and decoder differ", si, i));
                            }
                        }
                    }
                }
                if let Err(e) = quiet(|| dec.exit_decoder(&mut q)) { return v("C09", format!("segment {}: closing the decoder panicked: {}", si, e)); }
                if missing { return Ok(cov.done(h)); }
                let used = before - q.len();
                if used != wend - start {
                    return v("C09", format!("segment {}: session of {} bits, decoder ({} of {} ops, {} extra) took {} bits", si, wend - start, k, s.ops.len(), extra, used));
                }
                if sz != true_sz { resync(&mut q, &damaged, end); }
            }
        }
    }
    if !q.is_empty() { return v("C09", format!("{} bits left over at the end of the stream", q.len())); }
    Ok(cov.done(h))
}

fn resync(q: &mut VecDeque<u8>, damaged: &[u8], at: usize) {
    q.clear();
    if at < damaged.len() { q.extend(damaged[at..].iter()); }
}
fn clip(v: &[u64]) -> Vec<u64> { v.iter().take(12).cloned().collect() }

// ---------------------------------------------------------------- generation
pub fn gen_table(r: &mut Rng, n: usize) -> Vec<i32> {
    // n-1 strictly increasing inner points in 1..32767, then 32768, then the counter
    let mut pts: Vec<i32> = vec![];
    match r.below(7) {
        0 => for i in 1..n { pts.push((32768 * i / n) as i32); },
        1 => { // first symbol nearly certain
            for i in 0..n - 1 { pts.push(32768 - (n - 1) as i32 + i as i32); }
        }
        2 => { // last symbol nearly certain
            for i in 0..n - 1 { pts.push(1 + i as i32); }
        }
        3 => { // one middle symbol nearly certain
            let m = r.us(0, n - 1);
            for i in 0..n - 1 { pts.push(if i < m { 1 + i as i32 } else { 32768 - (n - 1) as i32 + i as i32 }); }
        }
        4 => { // geometric
            let mut left = 32768i64;
            let num = r.range(1, 15) as i64;
            for i in 0..n - 1 {
                let rest = (n - 1 - i) as i64;
                left = (left * num / 16).max(rest);
                pts.push((32768 - left) as i32);
            }
            pts.dedup();
        }
        _ => { for _ in 0..n - 1 { pts.push(r.range(1, 32767) as i32); } }
    }
    pts.sort();
    pts.dedup();
    pts.retain(|x| *x > 0 && *x < 32768);
    let mut x = 1;
    while pts.len() < n - 1 { if !pts.contains(&x) { pts.push(x); } x += 1; }
    pts.truncate(n - 1);
    pts.sort();
    pts.push(32768);
    pts.push(if r.chance(1, 6) { r.range(0, 32) as i32 } else { 0 });
    pts
}

fn gen_tables(r: &mut Rng) -> Vec<Vec<i32>> {
    let k = r.us(1, 4);
    (0..k).map(|_| { let n = *r.pick(&[2usize, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]); gen_table(r, n) }).collect()
}

fn gen_lit(r: &mut Rng) -> Op {
    let n = if r.chance(1, 5) { r.range(1, 64) } else { r.range(1, 32) } as u8;
    let m = if n == 64 { u64::MAX } else { (1u64 << n) - 1 };
    let v = match r.below(5) { 0 => 0, 1 => m, 2 => 1u64 << r.below(n as u64), _ => r.next() & m };
    Op::Lit(n, v)
}

/// values drawn by style
pub fn gen_sess(r: &mut Rng, maxops: u64) -> Sess {
    if r.chance(2, 5) { return gen_crafted(r, maxops); }
    let tables = gen_tables(r);
    let style = r.below(6);
    let n = if r.chance(1, 20) { 0 } else { r.log(maxops) as usize };
    let mut cur = tables.clone(); // adapt a copy, to aim at likely or unlikely symbols
    let mut ops = vec![];
    let mix_other = r.chance(1, 2);
    let fixed_p = if r.chance(1, 2) { Some(r.range(0, 255) as i32) } else { None };
    for i in 0..n {
        if mix_other && r.chance(1, 4) {
            let p = fixed_p.unwrap_or_else(|| *r.pick(&[0, 1, 2, 64, 127, 128, 129, 200, 254, 255]));
            ops.push(match r.below(3) {
                0 => Op::Bool(p, (r.next() & 1) as u8),
                1 => gen_lit(r),
                _ => { let k = r.log(24) as usize; let bias = r.below(5); Op::Run(p, (0..k).map(|_| match bias { 0 => 0, 1 => 1, _ => (r.next() & 1) as u8 }).collect()) }
            });
            continue;
        }
        let t = r.us(0, tables.len() - 1);
        let m = cur[t].len() - 1;
        let prob = |c: &Vec<i32>, s: usize| c[s] - if s > 0 { c[s - 1] } else { 0 };
        let v = match style {
            0 => r.us(0, m - 1),
            1 => (0..m).max_by_key(|s| prob(&cur[t], *s)).unwrap(),
            2 => (0..m).min_by_key(|s| prob(&cur[t], *s)).unwrap(),
            3 => { let x = r.below(32768) as i32; (0..m).find(|s| cur[t][*s] > x).unwrap() }
            4 => if (i / 40) % 2 == 0 { 0 } else { m - 1 },
            _ => if r.chance(9, 10) { m - 1 } else { r.us(0, m - 1) },
        };
        adapt(&mut cur[t], v);
        ops.push(Op::Sym(t, v));
    }
    Sess { tables, ops }
}

/// a session of many kilobytes
pub fn gen_huge(r: &mut Rng, thorough: bool) -> Sess {
    let top = if thorough && r.chance(1, 4) { 80_000 } else { 20_000 };
    let n = r.range(1500, top);
    let tables = gen_tables(r);
    let ops = (0..n).map(|_| if r.chance(1, 50) { let t = r.us(0, tables.len() - 1); let v = r.us(0, tables[t].len() - 2); Op::Sym(t, v) } else { Op::Lit(32, r.next() >> 32) }).collect();
    Sess { tables, ops }
}

/// a carry that stays undecided for more than 2^16 bits
pub fn gen_monster(r: &mut Rng) -> Sess {
    let tables = gen_tables(r);
    let mut target: Vec<u8> = (0..r.below(40)).map(|_| (r.next() & 1) as u8).collect();
    let b = (r.next() & 1) as u8;
    target.push(1 - b);
    let n = target.len() + r.range(65_000, 140_000) as usize;
    target.resize(n, b);
    for _ in 0..r.range(1, 60) { target.push((r.next() & 1) as u8); }
    let mut cur = tables.clone();
    let mut ops = vec![];
    let mut d = RefDecoder::new(&target);
    while d.pos < target.len() {
        let op = if r.chance(1, 20) { Op::Sym(r.us(0, tables.len() - 1), 0) } else { Op::Lit(32, 0) };
        let v = ref_op(&mut d, &mut cur, &op);
        ops.push(match op { Op::Lit(n, _) => Op::Lit(n, v[0]), Op::Sym(t, _) => Op::Sym(t, v[0] as usize), o => o });
    }
    Sess { tables, ops }
}

/// symbols chosen so that the code value follows a given bit pattern: long runs of ones and zeros,
/// i.e. carries that stay undecided for long
pub fn gen_crafted(r: &mut Rng, maxops: u64) -> Sess {
    let tables = gen_tables(r);
    let mut target: Vec<u8> = vec![];
    let total = r.log((maxops * 2).max(64)) as usize + 8;
    for _ in 0..r.below(40) { target.push((r.next() & 1) as u8); }
    let mut b = (r.next() & 1) as u8;
    while target.len() < total {
        let k = r.log(((total as u64) / 2).max(2)) as usize;
        for _ in 0..k { target.push(b); }
        if r.chance(1, 3) { target.push((r.next() & 1) as u8); }
        b ^= 1;
    }
    let mut cur = tables.clone();
    let mut ops = vec![];
    let mut d = RefDecoder::new(&target);
    while d.pos < target.len() && (ops.len() as u64) < maxops {
        let op = match r.below(8) {
            0 => Op::Bool(*r.pick(&[0, 1, 30, 128, 128, 220, 255]), 0),
            1 => Op::Lit(r.range(1, 16) as u8, 0),
            _ => Op::Sym(r.us(0, tables.len() - 1), 0),
        };
        let v = ref_op(&mut d, &mut cur, &op);
        ops.push(match op { Op::Bool(p, _) => Op::Bool(p, v[0] as u8), Op::Lit(n, _) => Op::Lit(n, v[0]), Op::Sym(t, _) => Op::Sym(t, v[0] as usize), o => o });
    }
    Sess { tables, ops }
}

pub fn gen_field(r: &mut Rng) -> Field {
    fn val(r: &mut Rng, bits: u32) -> u64 {
        let m = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
        match r.below(8) {
            0 => 0, 1 => m, 2 => m - (r.below(3)).min(m), 3 => (1u64 << r.below(bits as u64)).min(m),
            4 => ((1u64 << r.below(bits as u64)) - 1).min(m), 5 => r.below(4).min(m),
            6 => r.next() & m, _ => { let k = r.range(1, bits as u64); r.next() & if k >= 64 { u64::MAX } else { (1u64 << k) - 1 } & m }
        }
    }
    match r.below(6) {
        0 => Field::Uvlc(val(r, 32) as u32),
        1 => { let n = r.range(1, 8) as u8; Field::Le(val(r, n as u32 * 8), n) }
        2 => Field::Leb(val(r, 56)),
        3 => {
            let n = if r.chance(3, 4) { r.range(1, 16) } else { r.range(1, 62) } as u8;
            let half = 1i64 << (n - 1);
            let v = val(r, n as u32) as i64 - half;
            Field::Su(v, n)
        }
        4 => {
            let n = 1 + match r.below(4) { 0 => r.below(40), 1 => val(r, 16), 2 => val(r, 61), _ => (1u64 << r.below(61)) - 1 + r.below(3) };
            let w = 64 - n.leading_zeros() as u64;
            let m = ((1u128 << w) - n as u128) as u64;
            let v = match r.below(6) { 0 => 0, 1 => n - 1, 2 => m.min(n - 1), 3 => m.saturating_sub(1).min(n - 1), _ => r.below(n) };
            Field::Ns(v, n)
        }
        _ => { let n = r.range(1, 32) as u8; Field::Raw(val(r, n as u32) as u32, n) }
    }
}

fn seg(s: Sess) -> Seg { Seg::Sess { s, decode: None, extra: 0, announce: None } }

fn history(r: &mut Rng, segs: &mut Vec<Seg>) {
    for _ in 0..r.below(4) {
        segs.push(match r.below(5) {
            0 | 1 => Seg::EncAbandon(gen_sess(r, 60)),
            2 => seg(gen_sess(r, 60)),
            3 => Seg::DecJunk { seed: r.next(), n: r.log(60) as usize, exit: r.chance(1, 2) },
            _ => Seg::Field(gen_field(r)),
        });
    }
}

pub fn gen(prop: &str, r: &mut Rng, thorough: bool) -> StreamCase {
    let mut segs = vec![];
    let mut flips = vec![];
    let mut cut = None;
    let shared = r.chance(1, 2);
    match prop {
        "C08" => {
            history(r, &mut segs);
            let big = if thorough { 40000 } else { 12000 };
            let m = if r.chance(1, 40) { big } else if r.chance(1, 4) { 2500 } else { 250 };
            segs.push(seg(if r.chance(1, 2500) { if r.chance(1, 2) { gen_huge(r, thorough) } else { gen_monster(r) } } else { gen_sess(r, m) }));
            if r.chance(1, 3) { history(r, &mut segs); segs.push(seg(gen_sess(r, 200))); }
        }
        "C09" => {
            for _ in 0..r.range(2, 9) {
                let x = r.below(10);
                segs.push(match x {
                    0 | 1 => Seg::Field(gen_field(r)),
                    2 => Seg::EncAbandon(gen_sess(r, 80)),
                    3 => Seg::DecJunk { seed: r.next(), n: r.log(40) as usize, exit: r.chance(1, 2) },
                    _ => {
                        let m = if r.chance(1, 25) { 4000 } else { 120 };
                        let s = if r.chance(1, 12000) { gen_huge(r, thorough) } else { gen_sess(r, m) };
                        let n = s.ops.len();
                        let decode = match r.below(4) { 0 => None, 1 => Some(0), _ => Some(r.us(0, n)) };
                        let extra = if decode.is_none() && r.chance(1, 2) { r.log(200) as usize } else { 0 };
                        Seg::Sess { s, decode, extra, announce: None }
                    }
                });
            }
            if r.chance(1, 3) {
                // damage inside sessions only
                let spans = layout(&StreamCase { shared, cut: None, flips: vec![], segs: segs.clone() });
                let cand: Vec<&(usize, usize, bool)> = spans.iter().filter(|s| s.2 && s.1 > s.0).collect();
                if !cand.is_empty() { for _ in 0..r.log(12) { let s = *r.pick(&cand); flips.push(r.us(s.0, s.1 - 1)); } }
            }
        }
        "C11" => {
            if r.chance(1, 3) { history(r, &mut segs); }
            for _ in 0..r.range(1, 3) {
                let m = if r.chance(1, 30) { 4000 } else { 200 };
                let s = if r.chance(1, 8000) { gen_huge(r, thorough) } else { gen_sess(r, m) };
                let extra = if r.chance(1, 3) { r.log(300) as usize } else { 0 };
                segs.push(Seg::Sess { s, decode: None, extra, announce: None });
                if r.chance(1, 3) { segs.push(Seg::Field(gen_field(r))); }
            }
            let spans = layout(&StreamCase { shared, cut: None, flips: vec![], segs: segs.clone() });
            let total = spans.last().map(|s| s.1).unwrap_or(0);
            let kind = r.below(4);
            if total > 0 && (kind == 0 || kind == 2) { for _ in 0..r.log(20) { flips.push(r.us(0, total - 1)); } }
            if total > 0 && (kind == 1 || kind == 2) { cut = Some(r.us(0, total)); }
            if kind == 3 {
                for (i, s) in segs.iter_mut().enumerate() {
                    if let Seg::Sess { announce, extra, .. } = s {
                        if r.chance(1, 2) {
                            let t = ((spans[i].1 - spans[i].0) / 8) as u64;
                            *announce = Some(match r.below(8) { 0 => r.below(3), 1 | 2 => r.range(2, t.max(2)), 3 => *r.pick(&[1u64 << 28, 1 << 29, (1 << 29) + 1, 1 << 31, u32::MAX as u64, (1 << 28) - 1, 3 << 28, 1 << 16, 1 << 24]), 4 | 5 => t + r.range(1, 4), _ => t + r.log(100) } as u32);
                            if r.chance(1, 2) { *extra = r.log(100) as usize; }
                        }
                    }
                }
            }
        }
        _ => { // C12
            let n = r.log(60) as usize;
            if r.chance(1, 5) { history(r, &mut segs); }
            for _ in 0..n { segs.push(Seg::Field(gen_field(r))); }
            if r.chance(1, 2) {
                let spans = layout(&StreamCase { shared, cut: None, flips: vec![], segs: segs.clone() });
                let total = spans.last().map(|s| s.1).unwrap_or(0);
                if total > 0 { cut = Some(r.us(0, total - 1)); }
            }
        }
    }
    StreamCase { shared, cut, flips, segs }
}

/// where each segment lies in the stream (start, end, is a session); empty if encoding panics
fn layout(case: &StreamCase) -> Vec<(usize, usize, bool)> {
    quiet(|| {
        let mut enc = BoolCoder::new();
        let mut out = vec![];
        let mut res = vec![];
        for s in &case.segs {
            let st = out.len();
            let mut is = false;
            match s {
                Seg::Field(f) => enc_field(&mut enc, &mut out, f),
                Seg::Sess { s, .. } => {
                    is = true;
                    let mut t = s.tables.clone();
                    enc.init_encoder();
                    for op in &s.ops { enc_op(&mut enc, &mut out, &mut t, op); }
                    enc.exit_encoder(&mut out);
                }
                Seg::EncAbandon(s) => {
                    let mut t = s.tables.clone();
                    let mut scratch = vec![];
                    enc.init_encoder();
                    for op in &s.ops { enc_op(&mut enc, &mut scratch, &mut t, op); }
                }
                _ => {}
            }
            res.push((st, out.len(), is));
        }
        res
    }).unwrap_or_default()
}

// ---------------------------------------------------------------- shrinking
pub fn shrink_sess(s: &Sess) -> Vec<Sess> {
    let n = s.ops.len();
    let mut v = vec![];
    let mut sz = n;
    while sz >= 1 {
        let mut i = 0;
        while i < n {
            let mut o = s.ops.clone();
            o.drain(i..(i + sz).min(n));
            v.push(Sess { tables: s.tables.clone(), ops: o });
            i += sz;
            if v.len() > 400 { return v; }
        }
        if sz == 1 { break; }
        sz /= 2;
    }
    v
}
pub fn shrinks(c: &StreamCase) -> Vec<StreamCase> {
    let mut v = vec![];
    let k = c.segs.len();
    let mut sz = k;
    while sz >= 1 {
        let mut i = 0;
        while i < k { let mut d = c.clone(); d.segs.drain(i..(i + sz).min(k)); v.push(d); i += sz; }
        if sz == 1 { break; }
        sz /= 2;
    }
    for i in 0..c.flips.len() { let mut d = c.clone(); d.flips.remove(i); v.push(d); }
    if c.cut.is_some() { let mut d = c.clone(); d.cut = None; v.push(d); }
    if c.shared { let mut d = c.clone(); d.shared = false; v.push(d); }
    for i in 0..k {
        match &c.segs[i] {
            Seg::Sess { s, decode, extra, announce } => {
                for t in shrink_sess(s) { let mut d = c.clone(); d.segs[i] = Seg::Sess { s: t, decode: *decode, extra: *extra, announce: *announce }; v.push(d); }
                if *extra > 0 { for e in [0, *extra / 2, *extra - 1] { let mut d = c.clone(); d.segs[i] = Seg::Sess { s: s.clone(), decode: *decode, extra: e, announce: *announce }; v.push(d); } }
                if let Some(x) = decode { if *x > 0 { let mut d = c.clone(); d.segs[i] = Seg::Sess { s: s.clone(), decode: Some(x / 2), extra: *extra, announce: *announce }; v.push(d); } }
            }
            Seg::EncAbandon(s) => for t in shrink_sess(s) { let mut d = c.clone(); d.segs[i] = Seg::EncAbandon(t); v.push(d); },
            Seg::DecJunk { seed, n, exit } => if *n > 0 { let mut d = c.clone(); d.segs[i] = Seg::DecJunk { seed: *seed, n: n / 2, exit: *exit }; v.push(d); },
            _ => {}
        }
    }
    v
}

// ---------------------------------------------------------------- text form (replay files)
pub fn sess_text(s: &Sess, o: &mut String) {
    for t in &s.tables { o.push_str(&format!("table {}\n", t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))); }
    for op in &s.ops {
        o.push_str(&match op {
            Op::Sym(t, v) => format!("sym {} {}\n", t, v),
            Op::Bool(p, b) => format!("bool {} {}\n", p, b),
            Op::Lit(n, v) => format!("lit {} {}\n", n, v),
            Op::Run(p, b) => format!("run {} {}\n", p, b.iter().map(|x| x.to_string()).collect::<String>()),
        });
    }
    o.push_str("end\n");
}
pub fn field_text(f: &Field) -> String {
    match f {
        Field::Uvlc(v) => format!("uvlc {} 0", v), Field::Le(v, n) => format!("le {} {}", v, n), Field::Leb(v) => format!("leb {} 0", v),
        Field::Su(v, n) => format!("su {} {}", v, n), Field::Ns(v, n) => format!("ns {} {}", v, n), Field::Raw(v, n) => format!("raw {} {}", v, n),
    }
}
pub fn parse_field(w: &[&str]) -> Field {
    let n = |i: usize| w[i].parse::<u64>().unwrap();
    match w[0] {
        "uvlc" => Field::Uvlc(n(1) as u32), "le" => Field::Le(n(1), n(2) as u8), "leb" => Field::Leb(n(1)),
        "su" => Field::Su(w[1].parse().unwrap(), n(2) as u8), "ns" => Field::Ns(n(1), n(2)), _ => Field::Raw(n(1) as u32, n(2) as u8),
    }
}
pub fn parse_sess<'a>(it: &mut dyn Iterator<Item = &'a str>) -> Sess {
    let mut s = Sess::default();
    for l in it {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "table" => s.tables.push(w[1].split(',').map(|x| x.parse().unwrap()).collect()),
            "sym" => s.ops.push(Op::Sym(w[1].parse().unwrap(), w[2].parse().unwrap())),
            "bool" => s.ops.push(Op::Bool(w[1].parse().unwrap(), w[2].parse().unwrap())),
            "lit" => s.ops.push(Op::Lit(w[1].parse().unwrap(), w[2].parse().unwrap())),
            "run" => s.ops.push(Op::Run(w[1].parse().unwrap(), w.get(2).unwrap_or(&"").bytes().map(|b| b - b'0').collect())),
            _ => break,
        }
    }
    s
}
pub fn text(c: &StreamCase) -> String {
    let mut o = format!("shared {}\n", c.shared as u8);
    if let Some(x) = c.cut { o.push_str(&format!("cut {}\n", x)); }
    for f in &c.flips { o.push_str(&format!("flip {}\n", f)); }
    let opt = |x: Option<u64>| x.map(|v| v.to_string()).unwrap_or("-".into());
    for s in &c.segs {
        match s {
            Seg::Field(f) => o.push_str(&format!("field {}\n", field_text(f))),
            Seg::Sess { s, decode, extra, announce } => { o.push_str(&format!("session {} {} {}\n", opt(decode.map(|x| x as u64)), extra, opt(announce.map(|x| x as u64)))); sess_text(s, &mut o); }
            Seg::EncAbandon(s) => { o.push_str("abandon\n"); sess_text(s, &mut o); }
            Seg::DecJunk { seed, n, exit } => o.push_str(&format!("junk {} {} {}\n", seed, n, *exit as u8)),
        }
    }
    o
}
pub fn parse(t: &str) -> StreamCase {
    let mut c = StreamCase { shared: false, cut: None, flips: vec![], segs: vec![] };
    let mut it = t.lines();
    while let Some(l) = it.next() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "shared" => c.shared = w[1] == "1",
            "cut" => c.cut = Some(w[1].parse().unwrap()),
            "flip" => c.flips.push(w[1].parse().unwrap()),
            "field" => c.segs.push(Seg::Field(parse_field(&w[1..]))),
            "session" => { let s = parse_sess(&mut it); c.segs.push(Seg::Sess { s, decode: w[1].parse().ok(), extra: w[2].parse().unwrap(), announce: w[3].parse().ok() }); }
            "abandon" => { let s = parse_sess(&mut it); c.segs.push(Seg::EncAbandon(s)); }
            "junk" => c.segs.push(Seg::DecJunk { seed: w[1].parse().unwrap(), n: w[2].parse().unwrap(), exit: w[3] == "1" }),
            _ => {}
        }
    }
    c
}
