//! Independent reference models: a decoder of the format's adaptive arithmetic code, written from the
//! format's description with plain big-endian bit windows (it shares no code with the encoder under
//! test), and the table adaptation rule.

/// position of the highest set bit (0 for 0)
fn log2(mut n: u32) -> u32 { let mut r = 0; while n > 1 { n >>= 1; r += 1; } r }

/// Adapts a table of cumulative probabilities (32768 = certain) after `symbol`, as the format prescribes.
pub fn adapt(cdf: &mut [i32], symbol: usize) {
    let n = cdf.len() - 1;
    let rate = 4 + (if cdf[n] > 31 { 1 } else { 0 }) + log2(n as u32);
    let full = ((32768 - 32 * n as i64) >> rate) << rate;
    for i in 0..n - 1 {
        let mut target = 32 * (i as i64 + 1);
        if i >= symbol { target += full; }
        let d = cdf[i] as i64 - target;
        // arithmetic shift: rounds towards minus infinity
        let q = d.div_euclid(1i64 << rate);
        cdf[i] = (cdf[i] as i64 - q) as i32;
    }
    if cdf[n] < 32 { cdf[n] += 1; }
}

/// Decoder over an explicit window of bits; bits beyond the window are zero.
pub struct RefDecoder<'a> {
    bits: &'a [u8],
    /// bits taken so far (may pass the end of the window: then they are zero)
    pub pos: usize,
    dif: i64,
    rng: i64,
}

impl<'a> RefDecoder<'a> {
    pub fn new(bits: &'a [u8]) -> RefDecoder<'a> {
        let mut d = RefDecoder { bits, pos: 0, dif: 0, rng: 32768 };
        let mut v = 0i64;
        for _ in 0..15 { v = 2 * v + d.bit(); }
        d.dif = 32767 - v;
        d
    }
    fn bit(&mut self) -> i64 {
        let b = if self.pos < self.bits.len() { self.bits[self.pos] as i64 } else { 0 };
        self.pos += 1;
        b
    }
    /// Decodes one symbol and adapts the table. Returns the symbol.
    pub fn symbol(&mut self, cdf: &mut [i32]) -> usize {
        let n = cdf.len() - 1;
        let scale = self.rng / 256;
        let mut hi = self.rng;
        let mut s = 0;
        let lo = loop {
            let lo = if s + 1 == n { 0 } else { scale * (32768 - cdf[s] as i64) / 128 };
            if self.dif >= lo { break lo; }
            hi = lo;
            s += 1;
        };
        self.rng = hi - lo;
        self.dif -= lo;
        while self.rng < 32768 {
            self.rng *= 2;
            // one more bit of precision: the stored value is the complement of the coded one
            self.dif = 2 * self.dif + 1 - self.bit();
        }
        adapt(cdf, s);
        s
    }
}

pub fn bool_table(p: i32) -> Vec<i32> { vec![((p << 15) + 256 - p) >> 8, 1 << 15, 0] }

/// big-endian bit reader for fields
pub struct Bits<'a> { pub b: &'a [u8], pub pos: usize }
impl<'a> Bits<'a> {
    pub fn from_bytes(bytes: &[u8]) -> Vec<u8> {
        let mut v = Vec::with_capacity(bytes.len() * 8);
        for b in bytes { for i in (0..8).rev() { v.push((b >> i) & 1); } }
        v
    }
    pub fn new(b: &'a [u8]) -> Bits<'a> { Bits { b, pos: 0 } }
    pub fn f(&mut self, n: usize) -> Result<u64, String> {
        let mut v = 0u64;
        for _ in 0..n {
            let x = *self.b.get(self.pos).ok_or_else(|| format!("ran out of bits at {}", self.pos))?;
            self.pos += 1;
            v = (v << 1) | x as u64;
        }
        Ok(v)
    }
    pub fn uvlc(&mut self) -> Result<u64, String> {
        let mut lz = 0;
        while self.f(1)? == 0 { lz += 1; }
        if lz >= 32 { return Ok((1u64 << 32) - 1); }
        Ok(self.f(lz)? + (1u64 << lz) - 1)
    }
}

/// LEB128 at bytes[pos..]: (value, bytes used)
pub fn leb128(b: &[u8]) -> Result<(u64, usize), String> {
    let mut v = 0u64;
    for i in 0..8 {
        let x = *b.get(i).ok_or("size field runs off the end")?;
        v |= ((x & 0x7f) as u64) << (7 * i);
        if x & 0x80 == 0 { return Ok((v, i + 1)); }
    }
    Err("size field longer than 8 bytes".into())
}

/// Splits a stream into temporal units -> frame units -> OBUs (length-delimited format).
pub fn split_units(mut s: &[u8]) -> Result<Vec<Vec<Vec<Vec<u8>>>>, String> {
    fn take<'a>(s: &mut &'a [u8], what: &str) -> Result<&'a [u8], String> {
        let (n, k) = leb128(s).map_err(|e| format!("{}: {}", what, e))?;
        let n = n as usize;
        if s.len() - k < n { return Err(format!("{} size {} exceeds the {} bytes that follow", what, n, s.len() - k)); }
        let r = &s[k..k + n];
        *s = &s[k + n..];
        Ok(r)
    }
    let mut tus = vec![];
    while !s.is_empty() {
        let mut tu = take(&mut s, "temporal unit")?;
        let mut fus = vec![];
        while !tu.is_empty() {
            let mut fu = take(&mut tu, "frame unit")?;
            let mut obus = vec![];
            while !fu.is_empty() {
                let o = take(&mut fu, "obu")?;
                if o.is_empty() { return Err("empty obu".into()); }
                obus.push(o.to_vec());
            }
            fus.push(obus);
        }
        tus.push(fus);
    }
    Ok(tus)
}

/// A parsed OBU header: (type, offset of the payload)
pub fn obu_header(o: &[u8]) -> Result<(u8, usize), String> {
    let h = o[0];
    if h & 0x80 != 0 { return Err("forbidden bit set".into()); }
    let typ = (h >> 3) & 15;
    let ext = (h >> 2) & 1;
    let has_size = (h >> 1) & 1;
    if h & 1 != 0 { return Err("reserved bit set".into()); }
    let mut off = 1;
    if ext == 1 { off += 1; }
    if has_size == 1 {
        let (n, k) = leb128(o.get(off..).unwrap_or(&[]))?;
        off += k;
        if off as u64 + n != o.len() as u64 { return Err("obu_size does not match obu_length".into()); }
    }
    if off > o.len() { return Err("obu too short".into()); }
    Ok((typ, off))
}

/// The leading fields of a sequence header, up to the frame size. Returns (width, height, reader position).
pub fn seq_size(payload: &[u8]) -> Result<(u64, u64), String> {
    let bits = Bits::from_bytes(payload);
    let mut b = Bits::new(&bits);
    b.f(3)?; // profile
    b.f(1)?; // still picture
    let reduced = b.f(1)?;
    if reduced == 1 {
        b.f(5)?;
    } else {
        let cnt = b.f(5)? + 1;
        for _ in 0..cnt {
            b.f(12)?;
            let level = b.f(5)?;
            if level > 7 { b.f(1)?; }
        }
    }
    let wb = b.f(4)? as usize + 1;
    let hb = b.f(4)? as usize + 1;
    let w = b.f(wb)? + 1;
    let h = b.f(hb)? + 1;
    Ok((w, h))
}
