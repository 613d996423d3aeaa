//! Drives the real unit encoder: reads a scenario, encodes its units one after another the way main
//! does, flushes, and reports failure the way main does.  Needs /repo built with --cfg av1enc_sim.
mod common;
use av1enc::binary_reader::BinaryReader;
use av1enc::binary_writer::BinaryWriter;
use av1enc::bool_coder::BoolCoder;
use av1enc::encoder::EncoderContext;
use av1enc::obu::OBU;
use av1enc::obu_encoder::OBUEncoder;
use common::*;
use std::cell::RefCell;
use std::io::{BufRead, Read, Write};
use std::rc::Rc;

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
/// read_to_vec for one sample type; the samples as numbers
fn plane<T: From<u8> + Clone + Into<i128>>(r: &mut BinaryReader, n: usize, fill: u8) -> std::io::Result<(usize, Vec<i128>)> {
    let mut v: Vec<T> = vec![T::from(fill); n];
    let s = r.read_to_vec(&mut v)?;
    Ok((s, v.into_iter().map(|x| x.into()).collect()))
}
/// Drives the real reader and writer: one line of the script is one call; every result goes to the log.
fn rw(script: &str, inp: &str, outp: &str, log: &str) {
    let text = std::fs::read_to_string(script).unwrap();
    let mut log = std::fs::File::create(log).unwrap();
    let (stdin, stdout) = (std::io::stdin(), std::io::stdout());
    let fail = |what: &str, e: std::io::Error| -> ! { eprintln!("error: {}: {}", what, e); std::process::exit(1); };
    let mut reader = if inp == "stdin" { BinaryReader::standard(&stdin) } else { match BinaryReader::file(inp) { Ok(r) => r, Err(e) => fail("failed to open input", e) } };
    let mut writer = if outp == "stdout" { BinaryWriter::standard(&stdout) } else { match BinaryWriter::file(outp) { Ok(w) => w, Err(e) => fail("failed to open output", e) } };
    for l in text.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        let n = |i: usize| w[i].parse::<usize>().unwrap();
        let line = match w[0] {
            "v8" | "v16" | "v32" | "v64" => {
                let fill = n(2) as u8;
                let r = match w[0] { "v8" => plane::<u8>(&mut reader, n(1), fill), "v16" => plane::<i16>(&mut reader, n(1), fill), "v32" => plane::<u32>(&mut reader, n(1), fill), _ => plane::<i64>(&mut reader, n(1), fill) };
                match r { Ok((s, v)) => format!("{} {}", s, v.iter().map(|x| if (0..256).contains(x) { format!("{:02x}", x) } else { "??".to_string() }).collect::<String>()), Err(e) => fail("failed to read", e) }
            }
            "read" => {
                let mut b = vec![0u8; n(1)];
                loop {
                    match reader.read(&mut b) { Ok(k) => break hex(&b[..k]), Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}, Err(e) => fail("failed to read", e) }
                }
            }
            "exact" => {
                let mut b = vec![0u8; n(1)];
                match reader.read_exact(&mut b) { Ok(()) => hex(&b), Err(ref e) if e.kind() == std::io::ErrorKind::UnexpectedEof => "eof".into(), Err(e) => fail("failed to read", e) }
            }
            "peek" => {
                let (all, k) = loop {
                    match reader.fill_buf() { Ok(b) => break (hex(b), n(1).min(b.len())), Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}, Err(e) => fail("failed to read", e) }
                };
                reader.consume(k);
                format!("{} {}", k, all)
            }
            "until" => {
                let mut b = vec![];
                match reader.read_until(n(1) as u8, &mut b) { Ok(k) => format!("{} {}", k, hex(&b)), Err(e) => fail("failed to read", e) }
            }
            "rest" => {
                let mut b = vec![];
                match reader.read_to_end(&mut b) { Ok(k) => format!("{} {}", k, hex(&b)), Err(e) => fail("failed to read", e) }
            }
            "bit" => { writer.write_bit(n(1) as u8); String::new() }
            "bits" => { writer.write_bits(&w.get(1).unwrap_or(&"").bytes().map(|c| c - b'0').collect()); String::new() }
            "align" => { writer.byte_align(); String::new() }
            "bytes" => { if let Err(e) = writer.write_all(&unhex(w.get(1).unwrap_or(&""))) { fail("failed to write", e) } String::new() }
            _ => { if let Err(e) = writer.flush() { fail("failed to write", e) } String::new() }
        };
        log.write_all(format!("{}\n", line).as_bytes()).unwrap();
    }
    if let Err(e) = writer.flush() { fail("failed to write", e) }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "rw" { return rw(&a[2], &a[3], &a[4], &a[5]); }
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let stdout = std::io::stdout();
    let mut writer = if a[2] == "stdout" { BinaryWriter::standard(&stdout) } else {
        match BinaryWriter::file(&a[2]) { Ok(w) => w, Err(e) => { eprintln!("error: failed to open output file: {}", e); std::process::exit(1); } }
    };
    let mut coder = BoolCoder::new();
    let ectx = Rc::new(RefCell::new(EncoderContext::new()));
    {
        let mut enc = OBUEncoder::new(&ectx, &mut writer, &mut coder);
        let mut last: Option<OBU> = None;
        for l in text.lines() {
            let u = parse(l);
            match u.kind.as_str() {
                "seq" => {
                    let h = header(&u, &mut ectx.borrow_mut());
                    let mut o = OBU::OBU_SEQUENCE_HEADER(h);
                    enc.encode_temporal_unit(&mut o);
                    last = Some(o);
                }
                "again" => enc.encode_temporal_unit(last.as_mut().unwrap()),
                _ => enc.encode_temporal_unit(&mut other(&u)),
            }
        }
    }
    if let Err(e) = writer.flush() { eprintln!("error: failed to write output: {}", e); std::process::exit(1); }
}
