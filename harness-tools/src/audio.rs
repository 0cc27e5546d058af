//! C29: audio decoding and image writing of the sanity tool.
use crate::core::*;
use crate::flac;
use image::{ImageBuffer, Rgb};
use proptest::prelude::*;
use sanity_check::{read_audio, save_png, save_svg, PngDepth};
use serde::{Deserialize, Serialize};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

static COUNT: AtomicU64 = AtomicU64::new(0);
/// a scratch file that is removed when dropped
pub struct Tmp(pub PathBuf);
impl Tmp {
    pub fn new(suffix: &str) -> Tmp {
        let k = COUNT.fetch_add(1, Ordering::SeqCst);
        Tmp(std::env::temp_dir().join(format!("vpt-{}-{k}{suffix}", std::process::id())))
    }
    pub fn with(suffix: &str, data: &[u8]) -> Result<Tmp, String> {
        let t = Tmp::new(suffix);
        std::fs::write(&t.0, data).map_err(|e| e.to_string())?;
        Ok(t)
    }
}
impl Drop for Tmp {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Wave {
    Noise(u64),
    Ramp(i32),
    Square(u16),
    Extremes(u64),
    Zero,
    Quiet(u64),
    Tone(u16),
    /// sections of noise, tone or silence, each at its own loudness
    Steps(u64),
}
pub fn wave() -> impl Strategy<Value = Wave> + Clone {
    prop_oneof![
        5 => any::<u64>().prop_map(Wave::Noise),
        1 => (-500i32..500).prop_map(Wave::Ramp),
        1 => (1u16..50).prop_map(Wave::Square),
        2 => any::<u64>().prop_map(Wave::Extremes),
        1 => Just(Wave::Zero),
        1 => any::<u64>().prop_map(Wave::Quiet),
        2 => (1u16..500).prop_map(Wave::Tone),
        3 => any::<u64>().prop_map(Wave::Steps),
    ]
}
impl Wave {
    /// signed samples of `bits` bits for channel c
    pub fn make(&self, n: usize, bits: u32, c: usize) -> Vec<i32> {
        let hi = (1i64 << (bits - 1)) - 1;
        let lo = -hi - 1;
        let clamp = |v: i64| v.clamp(lo, hi) as i32;
        let rnd = |s: u64, f: &mut dyn FnMut(u64) -> i64| -> Vec<i32> {
            let mut s = s ^ ((c as u64) << 32);
            (0..n).map(|_| clamp(f(splitmix(&mut s)))).collect()
        };
        match self {
            Wave::Noise(s) => rnd(*s, &mut |r| lo + (r % (2 * (hi + 1)) as u64) as i64),
            Wave::Ramp(d) => (0..n).map(|i| clamp((i as i64 - c as i64) * *d as i64 + lo / 2)).collect(),
            Wave::Square(p) => (0..n).map(|i| clamp(if (i / *p as usize + c) % 2 == 0 { hi / 2 } else { lo / 2 })).collect(),
            Wave::Extremes(s) => rnd(*s, &mut |r| match r % 5 {
                0 => hi,
                1 => lo,
                2 => 0,
                3 => 1,
                _ => -1,
            }),
            Wave::Zero => vec![0; n],
            Wave::Quiet(s) => rnd(*s, &mut |r| (r % 7) as i64 - 3),
            Wave::Tone(f) => (0..n).map(|i| clamp((hi as f64 * 0.8 * (2.0 * std::f64::consts::PI * *f as f64 * i as f64 / 1024.0 + c as f64).sin()) as i64)).collect(),
            Wave::Steps(s) => {
                let mut s = *s ^ ((c as u64) << 40);
                let mut v = Vec::with_capacity(n);
                while v.len() < n {
                    let r = splitmix(&mut s);
                    let len = (1 + (r >> 8) as usize % (n / 2 + 2)).min(n - v.len());
                    let down = (r >> 4) % (bits as u64 - 1);
                    for i in 0..len {
                        let x = match r % 4 {
                            0 | 1 => lo + (splitmix(&mut s) % (2 * (hi + 1)) as u64) as i64,
                            2 => (hi as f64 * (i as f64 * (1 + r % 300) as f64 / 100.0).sin()) as i64,
                            _ => 0,
                        };
                        v.push(clamp(x >> down));
                    }
                }
                v
            }
        }
    }
    pub fn silent(&self) -> bool {
        matches!(self, Wave::Zero)
    }
}
/// A plain PCM WAV file; `junk` inserts an unrelated chunk before the data.
pub fn wav(chans: &[Vec<i32>], bits: u32, rate: u32, junk: Option<usize>) -> Vec<u8> {
    let n = chans.first().map_or(0, |c| c.len());
    let bytes = bits / 8;
    let mut data = vec![];
    for i in 0..n {
        for c in chans {
            match bits {
                8 => data.push((c[i] + 128) as u8),
                _ => data.extend_from_slice(&c[i].to_le_bytes()[..bytes as usize]),
            }
        }
    }
    let mut body = b"WAVEfmt ".to_vec();
    body.extend(16u32.to_le_bytes());
    body.extend(1u16.to_le_bytes());
    body.extend((chans.len() as u16).to_le_bytes());
    body.extend(rate.to_le_bytes());
    body.extend((rate.wrapping_mul(chans.len() as u32 * bytes)).to_le_bytes());
    body.extend((chans.len() as u16 * bytes as u16).to_le_bytes());
    body.extend((bits as u16).to_le_bytes());
    if let Some(k) = junk {
        body.extend(b"junk");
        body.extend((2 * k as u32).to_le_bytes());
        body.extend(vec![0x5a; 2 * k]);
    }
    body.extend(b"data");
    body.extend((data.len() as u32).to_le_bytes());
    body.extend(&data);
    if data.len() % 2 == 1 {
        body.push(0);
    }
    let mut f = b"RIFF".to_vec();
    f.extend((body.len() as u32).to_le_bytes());
    f.extend(body);
    f
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Clip {
    pub n: usize,
    pub ch: usize,
    pub bits: u32,
    pub rate: u32,
    pub wave: Wave,
    pub junk: Option<usize>,
    pub ext: u8,
    pub block: usize,
    pub stereo: u8,
    pub order: Option<u32>,
    pub total: bool,
}
fn rate() -> impl Strategy<Value = u32> + Clone {
    prop_oneof![3 => prop::sample::select(vec![8000u32, 11025, 16000, 22050, 44100, 48000, 96000]), 1 => 1u32..=200_000]
}
fn clip(bits: Vec<u32>, ch: std::ops::RangeInclusive<usize>, nmax: usize) -> impl Strategy<Value = Clip> + Clone {
    (
        (prop_oneof![1 => 0usize..=3, 4 => 1usize..=nmax], ch, prop::sample::select(bits), rate(), wave()),
        (prop::option::of(0usize..40), any::<u8>(), prop_oneof![2 => 16usize..=64, 2 => 16usize..=600, 1 => Just(4096usize)], 0u8..4, prop::option::of(0u32..=4), prop::bool::weighted(0.8)),
    )
        .prop_map(|((n, ch, bits, rate, wave), (junk, ext, block, stereo, order, total))| Clip { n, ch, bits, rate, wave, junk, ext, block, stereo, order, total })
}
impl Clip {
    fn chans(&self) -> Vec<Vec<i32>> {
        (0..self.ch).map(|c| self.wave.make(self.n, self.bits, c)).collect()
    }
    fn mono(&self, chans: &[Vec<i32>], scale: f64) -> Vec<f64> {
        (0..self.n).map(|i| chans.iter().map(|c| c[i] as f64).sum::<f64>() / scale / chans.len() as f64).collect()
    }
    fn verdict(&self) -> Verdict {
        if self.n > 0 && !self.wave.silent() { nt(format!("{} channel(s), {} bits", self.ch, self.bits)) } else { triv("empty or silent") }
    }
}
fn expect(what: &str, got: Result<(Vec<f32>, u32), Box<dyn std::error::Error>>, want: &[f64], rate: u32, tol: f64) -> Result<(), String> {
    let (s, r) = got.map_err(|e| format!("{what}: error {e}"))?;
    ensure!(r == rate, "{what}: sample rate {r} instead of {rate}");
    ensure!(s.len() == want.len(), "{what}: {} samples instead of {}", s.len(), want.len());
    for (i, (g, w)) in s.iter().zip(want).enumerate() {
        ensure!((*g as f64 - w).abs() <= tol, "{what}: sample {i} of {} is {g} instead of {w}", s.len());
    }
    Ok(())
}
/// WAV by extension: full scale maps to one.
fn wav_named(c: &Clip) -> Res {
    let ch = c.chans();
    let ext = [".wav", ".WAV", ".Wav", ".wAv"][c.ext as usize % 4];
    let t = Tmp::with(ext, &wav(&ch, c.bits, c.rate, c.junk))?;
    let full = ((1i64 << (c.bits - 1)) - 1) as f64;
    let got = no_panic("read_audio", || read_audio(&t.0))?;
    expect("WAV file", got, &c.mono(&ch, full), c.rate, 1e-6)?;
    Ok(c.verdict())
}
/// WAV content under another name (or none) is recognised by its content.
fn wav_sniffed(c: &Clip) -> Res {
    let ch = c.chans();
    if c.n == 0 {
        return Ok(triv("empty or silent"));
    }
    let ext = [".dat", ".wave", "", ".bin"][c.ext as usize % 4];
    let t = Tmp::with(ext, &wav(&ch, c.bits, c.rate, c.junk))?;
    let got = no_panic("read_audio", || read_audio(&t.0))?;
    expect(&format!("WAV data named {ext:?}"), got, &c.mono(&ch, (1i64 << (c.bits - 1)) as f64), c.rate, 1e-6)?;
    Ok(c.verdict())
}
/// Sample widths the WAV path may not support: an error or the right samples.
fn wav_wide(c: &Clip) -> Res {
    let ch = c.chans();
    let t = Tmp::with(".wav", &wav(&ch, c.bits, c.rate, c.junk))?;
    match no_panic("read_audio", || read_audio(&t.0).map_err(|e| e.to_string()))? {
        Err(_) => Ok(nt("refused")),
        Ok(g) => {
            expect("wide WAV file", Ok(g), &c.mono(&ch, ((1i64 << (c.bits - 1)) - 1) as f64), c.rate, 1e-4)?;
            Ok(nt("read"))
        }
    }
}
fn flac_spec(c: &Clip) -> flac::Spec {
    flac::Spec { rate: c.rate, bps: c.bits, block: c.block.max(16), stereo: c.stereo, order: c.order, total_known: c.total }
}
fn flac_file(c: &Clip) -> Res {
    if c.n == 0 {
        return Ok(triv("empty or silent"));
    }
    let ch = c.chans();
    let (data, _) = flac::encode(&flac_spec(c), &ch);
    let ext = [".flac", ".FLAC", ".dat", ""][c.ext as usize % 4];
    let t = Tmp::with(ext, &data)?;
    let got = no_panic("read_audio", || read_audio(&t.0))?;
    expect("FLAC file", got, &c.mono(&ch, (1i64 << (c.bits - 1)) as f64), c.rate, 1e-6)?;
    Ok(c.verdict())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Damage {
    Cut(u32),
    Flip(Vec<(u32, u8)>),
    Garbage(u64, u16),
    Splice(u32, u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Broken {
    clip: Clip,
    flac: bool,
    dmg: Damage,
}
/// A cut file yields an error or a prefix; any other damage an error or samples, never a panic.
fn broken(c: &Broken) -> Res {
    let ch = c.clip.chans();
    let mut data = if c.flac && c.clip.n > 0 { flac::encode(&flac_spec(&c.clip), &ch).0 } else { wav(&ch, c.clip.bits, c.clip.rate, c.clip.junk) };
    let flac = c.flac && c.clip.n > 0;
    let full = data.len();
    let mut cut = false;
    let header = if flac { 42 } else { 44 + c.clip.junk.map_or(0, |k| 8 + 2 * k) };
    match &c.dmg {
        Damage::Cut(k) => {
            data.truncate(*k as usize % full);
            cut = true;
        }
        Damage::Flip(v) => {
            for (p, m) in v {
                data[*p as usize % full] ^= m;
            }
        }
        Damage::Garbage(s, n) => {
            let mut s = *s;
            data = (0..*n).map(|_| splitmix(&mut s) as u8).collect();
        }
        Damage::Splice(a, b) => {
            let (a, b) = (*a as usize % full, *b as usize % full);
            data.drain(a.min(b)..a.max(b));
        }
    }
    let ext = if flac { ".flac" } else { ".wav" };
    let t = Tmp::with(ext, &data)?;
    let got = match no_panic("read_audio of a damaged file", || read_audio(&t.0).map_err(|e| e.to_string())) {
        // a panic raised inside the decoder crates is not this repository's code
        Err(_) if PANIC_FILE.with(|f| f.borrow().contains("/symphonia")) => return Ok(triv("the decoder crate panics")),
        r => r?,
    };
    if let Damage::Garbage(..) = c.dmg {
        ensure!(got.is_err(), "{} random bytes read as audio", data.len());
    }
    if cut {
        if data.len() < header {
            ensure!(got.is_err(), "a header cut to {} bytes was read as audio", data.len());
        }
        if let Ok((s, r)) = &got {
            let want = c.clip.mono(&ch, if flac { (1i64 << (c.clip.bits - 1)) as f64 } else { ((1i64 << (c.clip.bits - 1)) - 1) as f64 });
            ensure!(*r == c.clip.rate, "cut file: rate {r} instead of {}", c.clip.rate);
            ensure!(s.len() <= want.len(), "cut file gives {} samples, the whole had {}", s.len(), want.len());
            for (i, (g, w)) in s.iter().zip(&want).enumerate() {
                ensure!((*g as f64 - w).abs() <= 1e-6, "cut file: sample {i} is {g} instead of {w}");
            }
        }
        if !flac && c.clip.n > 0 && data.len() < header + c.clip.n * c.clip.ch * c.clip.bits as usize / 8 {
            ensure!(got.is_err(), "a WAV file with missing samples was read without error");
        }
    }
    Ok(nt(match (&c.dmg, got.is_ok()) {
        (_, false) => "refused",
        (Damage::Cut(_), true) => "prefix read",
        _ => "read",
    }))
}
fn missing(k: &u8) -> Res {
    let t = Tmp::new([".wav", ".flac", ".mp3", "", ".wav/x.wav"][*k as usize % 5]);
    let r = no_panic("read_audio of a missing file", || read_audio(&t.0).map(|_| ()).map_err(|e| e.to_string()))?;
    ensure!(r.is_err(), "a missing file was read");
    let d = std::env::temp_dir();
    let r = no_panic("read_audio of a directory", || read_audio(&d).map(|_| ()).map_err(|e| e.to_string()))?;
    ensure!(r.is_err(), "a directory was read");
    let e = Tmp::with([".wav", ".flac", ".mp3", "", ".ogg"][*k as usize % 5], b"")?;
    let r = no_panic("read_audio of an empty file", || read_audio(&e.0).map(|_| ()).map_err(|e| e.to_string()))?;
    ensure!(r.is_err(), "an empty file was read");
    Ok(nt("refused"))
}
// ---- images ---------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pic {
    w: u32,
    h: u32,
    seed: u64,
    style: u8,
}
impl Pic {
    fn make(&self) -> ImageBuffer<Rgb<u16>, Vec<u16>> {
        let mut s = self.seed;
        ImageBuffer::from_fn(self.w, self.h, |x, y| {
            let r = splitmix(&mut s);
            Rgb(match self.style % 4 {
                0 => [r as u16, (r >> 16) as u16, (r >> 32) as u16],
                1 => [(x * 257) as u16, (y * 4099) as u16, ((x ^ y) * 7) as u16],
                2 => [0xff00 | (r as u16 & 0xff), 0x00ff, (r >> 20) as u16 & 0x0100],
                _ => [if r & 1 == 0 { 0 } else { 65535 }, 32767, 255],
            })
        })
    }
}
fn png_file(c: &Pic) -> Res {
    let img = c.make();
    for (depth, deep) in [(PngDepth::Eight, false), (PngDepth::Sixteen, true)] {
        // an older, longer file is replaced
        let t = Tmp::with(".png", &vec![7u8; (c.seed % 3) as usize * 4000])?;
        no_panic("save_png", || save_png(&img, &t.0, depth).map_err(|e| e.to_string()))?.map_err(|e| format!("save_png: {e}"))?;
        let mut rd = png::Decoder::new(std::io::BufReader::new(std::fs::File::open(&t.0).map_err(|e| e.to_string())?)).read_info().map_err(|e| format!("not a PNG file: {e}"))?;
        let mut buf = vec![0; rd.output_buffer_size()];
        let info = rd.next_frame(&mut buf).map_err(|e| format!("undecodable PNG: {e}"))?;
        ensure!((info.width, info.height) == (c.w, c.h), "PNG is {}x{} instead of {}x{}", info.width, info.height, c.w, c.h);
        ensure!(info.color_type == png::ColorType::Rgb, "colour type {:?}", info.color_type);
        ensure!(info.bit_depth == if deep { png::BitDepth::Sixteen } else { png::BitDepth::Eight }, "bit depth {:?} for {depth:?}", info.bit_depth);
        for (i, v) in img.as_raw().iter().enumerate() {
            if deep {
                let g = u16::from_be_bytes([buf[2 * i], buf[2 * i + 1]]);
                ensure!(g == *v, "16-bit value {i} is {g} instead of {v}");
            } else {
                ensure!(buf[i] == (*v >> 8) as u8, "8-bit value {i} is {} instead of the high byte of {v}", buf[i]);
            }
        }
    }
    Ok(if c.w * c.h > 1 { nt("written and read back") } else { triv("one pixel") })
}
fn svg_file(c: &Pic) -> Res {
    let img = c.make();
    let t = Tmp::new(".svg");
    no_panic("save_svg", || save_svg(&img, &t.0).map_err(|e| e.to_string()))?.map_err(|e| format!("save_svg: {e}"))?;
    let s = std::fs::read_to_string(&t.0).map_err(|e| e.to_string())?;
    fn attr<'a>(tag: &'a str, k: &str) -> Option<&'a str> {
        let i = tag.find(&format!(" {k}=\""))? + k.len() + 3;
        Some(&tag[i..i + tag[i..].find('"')?])
    }
    let head = s.split('>').find(|p| p.contains("<svg")).ok_or("no svg element")?;
    let vb = attr(head, "viewBox").ok_or("no viewBox")?;
    let nums: Vec<u32> = vb.split_whitespace().filter_map(|v| v.parse().ok()).collect();
    ensure!(nums == [0, 0, c.w, c.h], "viewBox {vb:?} for {}x{}", c.w, c.h);
    let mut seen = std::collections::HashMap::new();
    for tag in s.split('<').filter(|p| p.starts_with("rect ")) {
        let g = |k: &str| -> Result<u32, String> { attr(tag, k).and_then(|v| v.parse().ok()).ok_or(format!("rect without {k}: {tag}")) };
        let (x, y) = (g("x")?, g("y")?);
        ensure!(g("width")? == 1 && g("height")? == 1, "rect of another size at {x},{y}");
        ensure!(seen.insert((x, y), attr(tag, "fill").unwrap_or("").to_lowercase()).is_none(), "two rects at {x},{y}");
    }
    ensure!(seen.len() as u32 == c.w * c.h, "{} rects for {}x{} pixels", seen.len(), c.w, c.h);
    for (x, y, p) in img.enumerate_pixels() {
        let want = format!("#{:02x}{:02x}{:02x}", p[0] >> 8, p[1] >> 8, p[2] >> 8);
        ensure!(seen.get(&(x, y)) == Some(&want), "pixel {x},{y} is {:?} instead of {want}", seen.get(&(x, y)));
    }
    Ok(if c.w * c.h > 1 { nt("written and read back") } else { triv("one pixel") })
}
fn unwritable(k: &u8) -> Res {
    let img = Pic { w: 2, h: 2, seed: 1, style: 0 }.make();
    let t = Tmp::new(&format!("-none/{k}.png"));
    ensure!(no_panic("save_png", || save_png(&img, &t.0, PngDepth::Eight).is_err())?, "save_png into a missing folder succeeded");
    ensure!(no_panic("save_svg", || save_svg(&img, &t.0).is_err())?, "save_svg into a missing folder succeeded");
    Ok(nt("refused"))
}
pub fn c29(r: &mut Reg) {
    let rule = "one or more samples, not silent";
    r.prop("wav", rule, 4000, clip(vec![8, 16], 1..=5, 400), wav_named);
    r.prop("wav-long", rule, 40, clip(vec![8, 16], 1..=3, 60_000), wav_named);
    r.prop("wav-wide", "every case", 200, clip(vec![24, 32], 1..=3, 100).prop_filter("empty", |c| c.n > 0), wav_wide);
    r.prop("wav-by-content", rule, 600, clip(vec![8, 16, 24, 32], 1..=2, 400), wav_sniffed);
    r.prop("flac", rule, 6000, clip(vec![8, 16, 24], 1..=2, 1500), flac_file);
    r.prop("flac-many-channels", rule, 300, clip(vec![16], 1..=8, 400), flac_file);
    r.prop("flac-long", rule, 20, clip(vec![16, 24], 1..=2, 40_000), flac_file);
    let dmg = prop_oneof![
        4 => any::<u32>().prop_map(Damage::Cut),
        4 => proptest::collection::vec((any::<u32>(), 1u8..), 1..6).prop_map(Damage::Flip),
        // into the header
        3 => proptest::collection::vec((0u32..60, 1u8..), 1..4).prop_map(Damage::Flip),
        1 => (any::<u64>(), 0u16..400).prop_map(|(s, n)| Damage::Garbage(s, n)),
        2 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| Damage::Splice(a, b)),
    ];
    r.prop("damaged-wav", "every case", 12000, (clip(vec![8, 16], 1..=3, 200), dmg.clone()).prop_map(|(clip, dmg)| Broken { clip, flac: false, dmg }), broken);
    r.prop("damaged-flac", "every case", 12000, (clip(vec![8, 16, 24], 1..=2, 200), dmg).prop_map(|(clip, dmg)| Broken { clip, flac: true, dmg }), broken);
    r.prop("missing-files", "every case", 10, any::<u8>(), missing);
    let pic = |m: u32| (1..=m, 1..=m, any::<u64>(), any::<u8>()).prop_map(|(w, h, seed, style)| Pic { w, h, seed, style });
    r.prop("png", "more than one pixel", 600, pic(40), png_file);
    r.prop("png-large", "more than one pixel", 10, pic(400), png_file);
    r.prop("svg", "more than one pixel", 200, pic(24), svg_file);
    r.prop("unwritable-image", "every case", 10, any::<u8>(), unwritable);
}
