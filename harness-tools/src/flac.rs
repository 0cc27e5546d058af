//! A small independent FLAC encoder: constant, verbatim and fixed-predictor
//! subframes, independent and decorrelated stereo.
struct Bits {
    out: Vec<u8>,
    acc: u64,
    n: u32,
}
impl Bits {
    fn new() -> Self {
        Bits { out: vec![], acc: 0, n: 0 }
    }
    fn put(&mut self, v: u64, bits: u32) {
        for i in (0..bits).rev() {
            self.acc = (self.acc << 1) | ((v >> i) & 1);
            self.n += 1;
            if self.n == 8 {
                self.out.push(self.acc as u8);
                self.acc = 0;
                self.n = 0;
            }
        }
    }
    fn align(&mut self) {
        if self.n > 0 {
            self.put(0, 8 - self.n);
        }
    }
}
fn crc8(d: &[u8]) -> u8 {
    let mut c = 0u8;
    for b in d {
        c ^= b;
        for _ in 0..8 {
            c = if c & 0x80 != 0 { (c << 1) ^ 0x07 } else { c << 1 };
        }
    }
    c
}
fn crc16(d: &[u8]) -> u16 {
    let mut c = 0u16;
    for b in d {
        c ^= (*b as u16) << 8;
        for _ in 0..8 {
            c = if c & 0x8000 != 0 { (c << 1) ^ 0x8005 } else { c << 1 };
        }
    }
    c
}
fn utf8(b: &mut Bits, v: u32) {
    if v < 0x80 {
        b.put(v as u64, 8);
    } else if v < 0x800 {
        b.put(0xC0 | (v >> 6) as u64, 8);
        b.put(0x80 | (v & 0x3F) as u64, 8);
    } else {
        b.put(0xE0 | (v >> 12) as u64, 8);
        b.put(0x80 | ((v >> 6) & 0x3F) as u64, 8);
        b.put(0x80 | (v & 0x3F) as u64, 8);
    }
}
fn subframe(b: &mut Bits, x: &[i64], bps: u32, order: Option<u32>) {
    let mask = |v: i64, w: u32| (v as u64) & (u64::MAX >> (64 - w));
    if x.iter().all(|v| *v == x[0]) {
        b.put(0, 8);
        b.put(mask(x[0], bps), bps);
        return;
    }
    let order = order.filter(|o| (*o as usize) < x.len());
    let Some(o) = order else {
        b.put(0b0000_0010, 8);
        for v in x {
            b.put(mask(*v, bps), bps);
        }
        return;
    };
    b.put(((0b001000 | o) << 1) as u64, 8);
    for v in &x[..o as usize] {
        b.put(mask(*v, bps), bps);
    }
    let mut d = x.to_vec();
    for _ in 0..o {
        for i in (1..d.len()).rev() {
            d[i] -= d[i - 1];
        }
    }
    let res = &d[o as usize..];
    let zz: Vec<u64> = res.iter().map(|v| if *v >= 0 { (*v as u64) * 2 } else { (-*v as u64) * 2 - 1 }).collect();
    let max = zz.iter().copied().max().unwrap_or(0);
    // five-bit parameters, one partition
    let k = (64 - max.leading_zeros()).saturating_sub(4).min(30);
    b.put(1, 2);
    b.put(0, 4);
    b.put(k as u64, 5);
    for z in zz {
        for _ in 0..(z >> k) {
            b.put(0, 1);
        }
        b.put(1, 1);
        b.put(z & ((1u64 << k) - 1), k);
    }
}
pub struct Spec {
    pub rate: u32,
    pub bps: u32,
    pub block: usize,
    /// 0 independent, 1 left/side, 2 right/side, 3 mid/side (two channels only)
    pub stereo: u8,
    pub order: Option<u32>,
    pub total_known: bool,
}
/// `chans[c][i]`: samples per channel.  Also returns the byte offset after each frame.
pub fn encode(s: &Spec, chans: &[Vec<i32>]) -> (Vec<u8>, Vec<usize>) {
    let n = chans[0].len();
    let mut b = Bits::new();
    b.out.extend_from_slice(b"fLaC");
    b.put(0x80, 8);
    b.put(34, 24);
    b.put(s.block as u64, 16);
    b.put(s.block as u64, 16);
    b.put(0, 24);
    b.put(0, 24);
    b.put(s.rate as u64, 20);
    b.put(chans.len() as u64 - 1, 3);
    b.put(s.bps as u64 - 1, 5);
    b.put(if s.total_known { n as u64 } else { 0 }, 36);
    for _ in 0..16 {
        b.put(0, 8);
    }
    let mut out = b.out;
    let mut ends = vec![];
    for (f, start) in (0..n).step_by(s.block).enumerate() {
        let len = s.block.min(n - start);
        let mut b = Bits::new();
        b.put(0x3FFE, 14);
        b.put(0, 2);
        b.put(7, 4);
        b.put(0, 4);
        let st = if chans.len() == 2 { s.stereo } else { 0 };
        b.put(if st == 0 { chans.len() as u64 - 1 } else { 7 + st as u64 }, 4);
        b.put(0, 4);
        utf8(&mut b, f as u32);
        b.put(len as u64 - 1, 16);
        let c = crc8(&b.out);
        b.put(c as u64, 8);
        let get = |c: usize| -> Vec<i64> { chans[c][start..start + len].iter().map(|v| *v as i64).collect() };
        if st == 0 {
            for c in 0..chans.len() {
                subframe(&mut b, &get(c), s.bps, s.order);
            }
        } else {
            let (l, r) = (get(0), get(1));
            let side: Vec<i64> = l.iter().zip(&r).map(|(a, b)| a - b).collect();
            let mid: Vec<i64> = l.iter().zip(&r).map(|(a, b)| (a + b) >> 1).collect();
            match st {
                1 => {
                    subframe(&mut b, &l, s.bps, s.order);
                    subframe(&mut b, &side, s.bps + 1, s.order);
                }
                2 => {
                    subframe(&mut b, &side, s.bps + 1, s.order);
                    subframe(&mut b, &r, s.bps, s.order);
                }
                _ => {
                    subframe(&mut b, &mid, s.bps, s.order);
                    subframe(&mut b, &side, s.bps + 1, s.order);
                }
            }
        }
        b.align();
        let c = crc16(&b.out);
        b.put(c as u64, 16);
        out.extend_from_slice(&b.out);
        ends.push(out.len());
    }
    (out, ends)
}
