//! Interleaved coding sessions under a seeded scheduler. Every actor is one encoder or decoder session on
//! a coder of its own; the schedule says, step by step, which actor advances (and on which thread), when
//! a snapshot is taken, what is done and undone after it, and when a header field is coded in between.
use crate::rng::*;
use crate::stream::*;
use crate::{Cov, Viol};
use av1enc::bool_coder::BoolCoder;
use std::collections::VecDeque;
use std::sync::mpsc;

#[derive(Clone, Debug, PartialEq)]
pub enum Act { Step, Snap, Restore, Junk(Op), JunkClose, JunkOpen, Hdr(Field) }

#[derive(Clone, Debug, PartialEq)]
pub struct Actor { pub enc: bool, pub s: Sess }

#[derive(Clone, Debug, PartialEq)]
pub struct InterCase { pub threads: usize, pub actors: Vec<Actor>, pub sched: Vec<(usize, usize, Act)> }

struct State {
    enc: bool,
    s: Sess,
    coder: BoolCoder,
    out: Vec<u8>,
    q: VecDeque<u8>,
    size: u32,
    tables: Vec<Vec<i32>>,
    next: usize, // 0: open, 1..=n: ops, n+1: close, n+2: done
    values: Vec<Vec<u64>>,
    snap: Option<(BoolCoder, usize, VecDeque<u8>, Vec<Vec<i32>>)>,
    err: Option<String>,
}

impl State {
    fn done(&self) -> bool { self.next > self.s.ops.len() + 1 }
    fn act(&mut self, a: &Act) {
        if self.err.is_some() { return; }
        let r = quiet(|| self.act2(a));
        // what is done after a snapshot is about to be undone; it may well run a decoder past its end
        if matches!(a, Act::Junk(_) | Act::JunkClose | Act::JunkOpen) { return; }
        if let Err(e) = r { self.err = Some(format!("panic at step {}: {}", self.next, e)); }
    }
    fn act2(&mut self, a: &Act) {
        let n = self.s.ops.len();
        match a {
            Act::Step => {
                if self.snap.is_some() || self.done() { return; }
                if self.next == 0 {
                    if self.enc { self.coder.init_encoder() } else { self.coder.init_decoder(&mut self.q, self.size) }
                } else if self.next <= n {
                    let op = self.s.ops[self.next - 1].clone();
                    if self.enc { enc_op(&mut self.coder, &mut self.out, &mut self.tables, &op) }
                    else { let v = dec_op(&mut self.coder, &mut self.q, &mut self.tables, &op); self.values.push(v); }
                } else if self.enc { self.coder.exit_encoder(&mut self.out) } else { self.coder.exit_decoder(&mut self.q) }
                self.next += 1;
            }
            Act::Snap => if self.snap.is_none() {
                // a plain copy or an explicit clone, in turn
                #[allow(clippy::clone_on_copy)]
                let c = if self.out.len() & 1 == 0 { self.coder } else { self.coder.clone() };
                self.snap = Some((c, self.out.len(), self.q.clone(), self.tables.clone()))
            },
            Act::Restore => if let Some((c, l, q, t)) = self.snap.take() { self.coder = c; self.out.truncate(l); self.q = q; self.tables = t },
            Act::Junk(op) => if self.snap.is_some() && self.next > 0 && !self.done() {
                if let Op::Sym(t, v) = op { if *t >= self.tables.len() || *v + 1 >= self.tables[*t].len() { return; } }
                if self.enc { enc_op(&mut self.coder, &mut self.out, &mut self.tables, op) }
                else { dec_op(&mut self.coder, &mut self.q, &mut self.tables, op); }
            },
            Act::JunkClose => if self.snap.is_some() && self.next > 0 { if self.enc { self.coder.exit_encoder(&mut self.out) } else { self.coder.exit_decoder(&mut self.q) } },
            Act::JunkOpen => if self.snap.is_some() {
                if self.enc { self.coder.init_encoder() }
                else { let mut z: VecDeque<u8> = (0..64).map(|i| (i & 1) as u8).collect(); self.coder.init_decoder(&mut z, 8) }
            },
            Act::Hdr(f) => {
                let mut o = vec![];
                enc_field(&mut self.coder, &mut o, f);
                let mut q: VecDeque<u8> = o.into_iter().collect();
                let v = dec_field(&mut self.coder, &mut q, f);
                if v != field_value(f) { self.err = Some(format!("header field {:?} read back as {} during an open session", f, v)); }
            }
        }
    }
}

fn fresh(a: &Actor) -> Result<State, String> {
    // solo run of the encoder on a coder of its own
    let mut c = BoolCoder::new();
    let mut out = vec![];
    let mut t = a.s.tables.clone();
    quiet(|| {
        c.init_encoder();
        for op in &a.s.ops { enc_op(&mut c, &mut out, &mut t, op); }
        c.exit_encoder(&mut out);
    })?;
    let size = (out.len() / 8) as u32;
    Ok(State { enc: a.enc, s: a.s.clone(), coder: BoolCoder::new(), out: vec![], q: out.into_iter().collect(), size, tables: a.s.tables.clone(), next: 0, values: vec![], snap: None, err: None })
}

pub fn exec(case: &InterCase, prop: &str, cov: &mut Cov) -> Result<(), Viol> {
    let v = |m: String| -> Result<(), Viol> { Err(Viol { prop: prop.to_string(), msg: m }) };
    let mut solo: Vec<(Vec<u8>, Vec<Vec<u64>>, usize)> = vec![];
    let mut states: Vec<Option<Box<State>>> = vec![];
    for a in &case.actors {
        let mut st = match fresh(a) { Ok(s) => s, Err(_) => return Ok(()) }; // C08's business
        let bits: Vec<u8> = st.q.iter().cloned().collect();
        if bits.len() % 8 != 0 { return Ok(()); }
        // solo run of the decoder
        let mut d = fresh(a).unwrap();
        d.enc = false;
        while !d.done() { d.act(&Act::Step); if d.err.is_some() { return Ok(()); } }
        solo.push((bits, d.values.clone(), d.q.len()));
        if a.enc { st.q.clear(); }
        states.push(Some(Box::new(st)));
    }
    let mut h = 0u64;
    let mut order: Vec<(usize, usize, Act)> = case.sched.clone();
    for (i, a) in case.actors.iter().enumerate() {
        order.push((i, 0, Act::Restore));
        for _ in 0..a.s.ops.len() + 2 { order.push((i, 0, Act::Step)); }
    }
    for (n, (i, t, a)) in order.iter().enumerate() {
        cov.steps += 1;
        if n < case.sched.len() {
            h = fnv(h, (*i as u64) << 8 ^ *t as u64 ^ (match a { Act::Step => 0, Act::Snap => 1, Act::Restore => 2, Act::Junk(_) => 3, Act::JunkClose => 4, Act::JunkOpen => 5, Act::Hdr(_) => 6 }) << 16);
            match a { Act::Restore => cov.fault("rollback"), Act::Hdr(_) => cov.fault("field_inside_open_session"), Act::Step => {}, _ => {} }
        }
    }
    if case.threads <= 1 {
        for (i, _, a) in &order { if let Some(s) = states[*i].as_mut() { s.act(a); } }
    } else {
        // one token: a step runs on the thread the schedule names while all others wait
        cov.fault("thread_migration");
        std::thread::scope(|sc| {
            let mut tx = vec![];
            let (back, rx) = mpsc::channel::<Box<State>>();
            for _ in 0..case.threads {
                let (t, r) = mpsc::channel::<(Box<State>, Act)>();
                let back = back.clone();
                sc.spawn(move || { while let Ok((mut s, a)) = r.recv() { s.act(&a); if back.send(s).is_err() { break; } } });
                tx.push(t);
            }
            for (i, t, a) in &order {
                let s = states[*i].take().unwrap();
                tx[*t % case.threads].send((s, a.clone())).unwrap();
                states[*i] = Some(rx.recv().unwrap());
            }
            drop(tx);
        });
    }
    for (i, s) in states.iter().enumerate() {
        let s = s.as_ref().unwrap();
        let what = if s.enc { "encoder" } else { "decoder" };
        if let Some(e) = &s.err { return v(format!("actor {} ({}): {}", i, what, e)); }
        if s.enc {
            if s.out != solo[i].0 { return v(format!("actor {} (encoder): interleaved bits differ from its solo run ({} vs {} bits, first difference at {})", i, s.out.len(), solo[i].0.len(), first_diff(&s.out, &solo[i].0))); }
        } else {
            if s.values != solo[i].1 { let k = s.values.iter().zip(&solo[i].1).position(|(a, b)| a != b); return v(format!("actor {} (decoder): interleaved symbols differ from its solo run at op {:?}", i, k)); }
            if s.q.len() != solo[i].2 { return v(format!("actor {} (decoder): {} bits left, {} in its solo run", i, s.q.len(), solo[i].2)); }
        }
    }
    Ok(cov.done(h))
}
fn first_diff(a: &[u8], b: &[u8]) -> usize { a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len())) }

pub fn gen(r: &mut Rng, thorough: bool) -> InterCase {
    let k = r.us(1, 5);
    let m = if thorough { 300 } else { 120 };
    let actors: Vec<Actor> = (0..k).map(|_| Actor { enc: r.chance(2, 3), s: gen_sess(r, m) }).collect();
    let total: usize = actors.iter().map(|a| a.s.ops.len() + 2).sum();
    let threads = if r.chance(1, 6) { r.us(2, 4) } else { 1 };
    let mut sched = vec![];
    let burst = r.log(20);
    let mut left: Vec<usize> = actors.iter().map(|a| a.s.ops.len() + 2).collect();
    let extras = r.below(3);
    let mut n = 0;
    while n < total {
        let live: Vec<usize> = (0..k).filter(|i| left[*i] > 0).collect();
        let i = *r.pick(&live);
        for _ in 0..r.range(1, burst) {
            if left[i] == 0 { break; }
            let t = r.us(0, threads - 1);
            if extras > 0 && r.chance(1, 12) { sched.push((i, t, Act::Hdr(gen_field(r)))); }
            if extras > 1 && r.chance(1, 10) {
                sched.push((i, t, Act::Snap));
                for _ in 0..r.log(30) {
                    let t = r.us(0, threads - 1);
                    let s = &actors[i].s;
                    let a = match r.below(12) {
                        0 => Act::JunkClose,
                        1 => Act::JunkOpen,
                        2 => Act::Hdr(gen_field(r)),
                        3 => Act::Junk(Op::Lit(r.range(1, 24) as u8, r.next() & 0xffff)),
                        _ => { let tb = r.us(0, s.tables.len() - 1); Act::Junk(Op::Sym(tb, r.us(0, s.tables[tb].len() - 2))) }
                    };
                    sched.push((i, t, a));
                    // other actors run meanwhile
                    if r.chance(1, 4) { let j = r.us(0, k - 1); if j != i && left[j] > 0 { sched.push((j, t, Act::Step)); left[j] -= 1; n += 1; } }
                }
                sched.push((i, r.us(0, threads - 1), Act::Restore));
            }
            sched.push((i, t, Act::Step));
            left[i] -= 1;
            n += 1;
        }
    }
    InterCase { threads, actors, sched }
}

pub fn shrinks(c: &InterCase) -> Vec<InterCase> {
    let mut v = vec![];
    for i in 0..c.actors.len() {
        if c.actors.len() > 1 {
            let mut d = c.clone();
            d.actors.remove(i);
            d.sched.retain(|x| x.0 != i);
            for x in d.sched.iter_mut() { if x.0 > i { x.0 -= 1; } }
            v.push(d);
        }
    }
    if c.threads > 1 { let mut d = c.clone(); d.threads = 1; v.push(d); }
    let k = c.sched.len();
    let mut sz = k;
    while sz >= 1 {
        let mut i = 0;
        while i < k && v.len() < 300 { let mut d = c.clone(); d.sched.drain(i..(i + sz).min(k)); v.push(d); i += sz; }
        if sz == 1 { break; }
        sz /= 2;
    }
    for i in 0..c.actors.len() { for s in shrink_sess(&c.actors[i].s) { if v.len() > 600 { break; } let mut d = c.clone(); d.actors[i].s = s; v.push(d); } }
    v
}

pub fn text(c: &InterCase) -> String {
    let mut o = format!("threads {}\n", c.threads);
    for a in &c.actors { o.push_str(&format!("actor {}\n", if a.enc { "enc" } else { "dec" })); sess_text(&a.s, &mut o); }
    for (i, t, a) in &c.sched {
        let s = match a {
            Act::Step => "step".to_string(), Act::Snap => "snap".into(), Act::Restore => "restore".into(), Act::JunkClose => "junkclose".into(), Act::JunkOpen => "junkopen".into(),
            Act::Junk(Op::Sym(t, v)) => format!("junksym {} {}", t, v), Act::Junk(Op::Lit(n, v)) => format!("junklit {} {}", n, v), Act::Junk(_) => "step".into(),
            Act::Hdr(f) => format!("hdr {}", field_text(f)),
        };
        o.push_str(&format!("do {} {} {}\n", i, t, s));
    }
    o
}
pub fn parse(t: &str) -> InterCase {
    let mut c = InterCase { threads: 1, actors: vec![], sched: vec![] };
    let mut it = t.lines();
    while let Some(l) = it.next() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "threads" => c.threads = w[1].parse().unwrap(),
            "actor" => { let s = parse_sess(&mut it); c.actors.push(Actor { enc: w[1] == "enc", s }); }
            "do" => {
                let a = match w[3] {
                    "step" => Act::Step, "snap" => Act::Snap, "restore" => Act::Restore, "junkclose" => Act::JunkClose, "junkopen" => Act::JunkOpen,
                    "junksym" => Act::Junk(Op::Sym(w[4].parse().unwrap(), w[5].parse().unwrap())),
                    "junklit" => Act::Junk(Op::Lit(w[4].parse().unwrap(), w[5].parse().unwrap())),
                    _ => Act::Hdr(parse_field(&w[4..])),
                };
                c.sched.push((w[1].parse().unwrap(), w[2].parse().unwrap(), a));
            }
            _ => {}
        }
    }
    c
}
