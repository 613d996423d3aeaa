//! Drives the real unit encoder with frame headers; otherwise as units.  Needs /repo built with --cfg av1enc_sim.
#[path = "../../units/src/common.rs"]
mod common;
mod frame;
use av1enc::binary_writer::BinaryWriter;
use av1enc::bool_coder::BoolCoder;
use av1enc::encoder::EncoderContext;
use av1enc::obu::OBU;
use av1enc::obu_encoder::OBUEncoder;
use common::*;
use frame::frame;
use std::cell::RefCell;
use std::io::Write;
use std::rc::Rc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let stdout = std::io::stdout();
    let mut writer = if a[2] == "stdout" { BinaryWriter::standard(&stdout) } else {
        match BinaryWriter::file(&a[2]) { Ok(w) => w, Err(e) => { eprintln!("error: failed to open output file: {}", e); std::process::exit(1); } }
    };
    let mut coder = BoolCoder::new();
    let ectx = Rc::new(RefCell::new(EncoderContext::new()));
    {
        let mut enc = OBUEncoder::new(&ectx, &mut writer, &mut coder);
        let mut last: Option<(OBU, Unit)> = None;
        for l in text.lines() {
            let u = parse(l);
            match u.kind.as_str() {
                "seq" => {
                    let h = header(&u, &mut ectx.borrow_mut());
                    let mut o = OBU::OBU_SEQUENCE_HEADER(h);
                    enc.encode_temporal_unit(&mut o);
                    last = Some((o, u));
                }
                "again" => enc.encode_temporal_unit(&mut last.as_mut().unwrap().0),
                "fh" | "show" => {
                    let f = frame(&u, &last.as_ref().unwrap().1, &mut ectx.borrow_mut());
                    enc.encode_temporal_unit(&mut OBU::OBU_FRAME_HEADER(f));
                }
                _ => enc.encode_temporal_unit(&mut other(&u)),
            }
        }
    }
    if let Err(e) = writer.flush() { eprintln!("error: failed to write output: {}", e); std::process::exit(1); }
}
