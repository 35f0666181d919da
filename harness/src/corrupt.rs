//! Compressed data that no compressor made: every value the entropy decoder can be made to return
//! (variants hv, hi), and every state and byte the entropy decoder itself can see (variant real).
use crate::chunk::pick;
use crate::codec::{vlr_bytes, Items};
use crate::sx;
use laz::{LasZipAppender, LasZipDecompressor, LazVlr};
use std::io::{Cursor, Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

/// decompresses `n` records of `data` (and one more after an error): nothing but errors
fn read(i: Items, data: Vec<u8>, n: usize) {
    let s = crate::chunk::size(i);
    let vlr = LazVlr::from_buffer(&vlr_bytes(i, 100)).unwrap();
    let mut out = vec![0u8; s];
    if let Ok(mut d) = LasZipDecompressor::new(Cursor::new(data), vlr) {
        let mut errors = 0;
        for _ in 0..n {
            if d.decompress_one(&mut out).is_err() {
                errors += 1;
                if errors == 2 {
                    break;
                }
            }
        }
        sx::observe(1, &[errors]);
    }
    sx::cover(1);
    sx::assert(true, 1);
}
/// N records, the first arbitrary, the others whatever the entropy decoder returns
fn plain<const N: usize>(i: Items, limit: u32, ops: u32) {
    sx::ops(ops);
    sx::trace_limit(limit);
    let s = crate::chunk::size(i);
    let mut v = vec![0u8; 8 + s + 4 + 16];
    sx::fill(&mut v[8..8 + s], 0);
    let at = v.len();
    v[at - 8..].fill(0);
    read(i, v, N);
}
/// `layers`: the number of them; all present, all absent, or one absent
fn layered<const N: usize>(i: Items, layers: usize, some: bool, limit: u32) {
    sx::ops(30);
    sx::trace_limit(limit);
    let s = crate::chunk::size(i);
    let missing = if some { pick(2, 0..layers as u64 + 1) } else { layers + 1 };
    let mut v = vec![0u8; 8 + s];
    v.reserve(1024);
    sx::fill(&mut v[8..8 + s], 0);
    if i[0].0 == 10 {
        let c = sx::split(((v[8 + 15] >> 4) & 3) as u64);
        v[8 + 15] = (v[8 + 15] & 0xcf) | ((c as u8) << 4);
    }
    v.extend_from_slice(&[9, 0, 0, 0]);
    for l in 0..layers {
        let there = l != missing && missing != layers;
        v.extend_from_slice(&(if there { 4u32 } else { 0 }).to_le_bytes());
    }
    v.resize(v.len() + 4 * layers + 8, 0);
    read(i, v, N);
}

/// Layers whose sizes are not what is there: two of them any of the sizes that may be miscounted
fn sizes(i: Items, layers: usize, n: usize) {
    sx::ops(30);
    sx::trace_limit(0);
    let s = crate::chunk::size(i);
    let mut v = vec![0u8; 8 + s];
    v.reserve(1024);
    sx::fill(&mut v[8..8 + s], 0);
    if i[0].0 == 10 {
        let c = sx::split(((v[8 + 15] >> 4) & 3) as u64);
        v[8 + 15] = (v[8 + 15] & 0xcf) | ((c as u8) << 4);
    }
    v.extend_from_slice(&[9, 0, 0, 0]);
    let odd = [0, 1, 3, 5, 0x4000_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffc, u32::MAX];
    let a = pick(4, 0..layers as u64);
    let b = pick(5, a as u64..layers as u64);
    let (x, y) = (odd[pick(6, 0..odd.len() as u64)], odd[pick(7, 0..odd.len() as u64)]);
    for l in 0..layers {
        v.extend_from_slice(&(if l == a { x } else if l == b { y } else { 4 }).to_le_bytes());
    }
    v.resize(v.len() + 4 * layers + 8, 0);
    read(i, v, n);
}

/// the integer decoder, on whatever the entropy decoder returns
#[cfg(not(laz_verif_ghost_int))]
fn int(bits: u32, contexts: u32) {
    use laz::decoders::ArithmeticDecoder;
    use laz::decompressors::IntegerDecompressorBuilder;
    let mut id = IntegerDecompressorBuilder::new().bits(bits).contexts(contexts).build_initialized();
    let mut dec = ArithmeticDecoder::new(Cursor::new(vec![0u8; 64]));
    dec.read_init_bytes().unwrap();
    let mut pred = sx::any_u32(1) as i32;
    if bits < 32 {
        sx::assume(pred >= 0 && pred >> bits == 0);
    }
    for _ in 0..2 {
        let c = sx::any_u8(3) as u32;
        sx::assume(c < contexts);
        let c = sx::split(c as u64) as u32;
        if let Ok(v) = id.decompress(&mut dec, pred, c) {
            sx::assert(bits == 32 || v >= 0 && v >> bits == 0, 2);
            sx::assert(id.k() <= bits, 3);
            pred = v;
        }
    }
}
#[cfg(laz_verif_ghost_int)]
fn int(_: u32, _: u32) {
    sx::stop()
}

#[cfg(laz_verif)]
mod real {
    use crate::sx;
    use laz::decoders::ArithmeticDecoder;
    use laz::models::{ArithmeticBitModel, ArithmeticModelBuilder};
    use std::io::Cursor;

    type Dec = ArithmeticDecoder<Cursor<Vec<u8>>>;
    const MIN: u32 = 1 << 24;

    /// any state a decoder can be in, before any bytes, which end anywhere
    fn decoder() -> Dec {
        sx::nomerge(true);
        let n = crate::chunk::pick(7, 0..5);
        let mut v = vec![0u8; n];
        sx::fill(&mut v, 1);
        let mut d = ArithmeticDecoder::new(Cursor::new(v));
        let (value, length) = (sx::any_u32(2), sx::any_u32(3));
        sx::assume(length >= MIN && value < length);
        d.verif_set_interval(value, length);
        d
    }
    /// an operation that succeeds leads to such a state again
    fn valid(d: &Dec) {
        let (value, length) = d.verif_interval();
        sx::assert(length >= MIN, 1);
        sx::assert(value < length, 2);
    }
    pub fn init() {
        let v: [u8; 4] = sx::any(1);
        let mut d = ArithmeticDecoder::new(Cursor::new(v.to_vec()));
        if d.read_init_bytes().is_ok() {
            valid(&d);
        }
        let n = crate::chunk::pick(7, 0..4);
        let mut d = ArithmeticDecoder::new(Cursor::new(v[..n].to_vec()));
        sx::assert(d.read_init_bytes().is_err(), 3);
    }
    pub fn raw(bits: u32) {
        let mut d = decoder();
        let r = match bits {
            1 => d.read_bit(),
            64 => d.read_int_64().map(|_| 0),
            32 => d.read_int(),
            n => d.read_bits(n),
        };
        if let Ok(v) = r {
            sx::assert(bits >= 32 || v >> bits == 0, 4);
            valid(&d);
        }
    }
    pub fn bit() {
        let mut d = decoder();
        let mut m = ArithmeticBitModel::new();
        let p = sx::any_u16(6) as u32;
        sx::assume(p >= 1 && p < 8192);
        *m.verif_fields()[2] = p;
        if let Ok(v) = d.decode_bit(&mut m) {
            sx::assert(v <= 1, 4);
            valid(&d);
        }
    }
    /// any distribution of few symbols
    pub fn dist(n: u32) {
        let mut m = ArithmeticModelBuilder::new(n).build();
        {
            let f = m.verif_fields();
            let mut last = 0;
            for i in 1..n as usize {
                let x = sx::any_u16(6) as u32;
                sx::assume(x > last && x < 1 << 15);
                f.distribution[i] = x;
                last = x;
            }
        }
        let mut d = decoder();
        if let Ok(v) = d.decode_symbol(&mut m) {
            sx::assert(v < n, 4);
            valid(&d);
        }
    }
    /// the distribution that a fixed history leads to
    pub fn evolved(n: u32, hist: u32) {
        let mut m = ArithmeticModelBuilder::new(n).build();
        let mut e = laz::encoders::ArithmeticEncoder::new(std::io::sink());
        let mut r = crate::bare::Rng(5);
        for _ in 0..hist {
            let v = if r.next() % 3 == 0 { r.next() % n } else { r.next() % (n / 4 + 1) };
            e.encode_symbol(&mut m, v).unwrap();
        }
        let mut d = decoder();
        if let Ok(v) = d.decode_symbol(&mut m) {
            sx::assert(v < n, 4);
            valid(&d);
        }
    }
}
#[cfg(laz_verif)]
use real::*;
#[cfg(not(laz_verif))]
mod none {
    use crate::sx;
    pub fn init() { sx::stop() }
    pub fn raw(_: u32) { sx::stop() }
    pub fn bit() { sx::stop() }
    pub fn dist(_: u32) { sx::stop() }
    pub fn evolved(_: u32, _: u32) { sx::stop() }
}
#[cfg(not(laz_verif))]
use none::*;

/// GPS times that switch between the four sequences again and again; `item`: gpstime 2 or point14
fn switching(i: Items) {
    use laz::encoders::ArithmeticEncoder;
    use laz::models::ArithmeticModelBuilder;
    // the calls natively nest for as long as the stack lasts, if they do
    let n = if sx::is_native() { 3_000_000 } else { 500 };
    let layer = |symbols: u32, sym: u32, n: u32| -> Vec<u8> {
        let mut e = ArithmeticEncoder::new(Cursor::new(Vec::with_capacity(4096)));
        let mut m = ArithmeticModelBuilder::new(symbols).build();
        for _ in 0..n {
            e.encode_symbol(&mut m, sym).unwrap();
        }
        e.done().unwrap();
        let mut v = e.into_inner().into_inner();
        v.extend_from_slice(&[0; 64]);
        v
    };
    let s = crate::chunk::size(i);
    let mut v = vec![0u8; 8 + s];
    if i[0].0 == 7 {
        // a first symbol for each of the sequences without a difference: "go on to the last one"
        v.extend_from_slice(&layer(6, 5, n));
    } else {
        v[8 + 14] = 0x11;
        let l0 = layer(128, 1 << 4, 1);
        let l8 = layer(5, 4, n);
        v.extend_from_slice(&2u32.to_le_bytes());
        for k in 0..9 {
            let l = if k == 0 { l0.len() } else if k == 8 { l8.len() } else { 0 };
            v.extend_from_slice(&(l as u32).to_le_bytes());
        }
        v.extend_from_slice(&l0);
        v.extend_from_slice(&l8);
    }
    v.extend_from_slice(&[0; 16]);
    read(i, v, 2)
}

/// a file that cannot become large
struct Small(Cursor<Vec<u8>>);
impl Read for Small {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.0.read(b)
    }
}
impl Seek for Small {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.0.seek(to)
    }
}
impl Write for Small {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        if self.0.position() > 1 << 16 {
            return Err(Error::from(ErrorKind::Other));
        }
        self.0.write(b)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
/// a file of real chunks whose table says anything, variable-size chunks or not
fn table(i: Items, variable: bool, append: bool) {
    sx::ops(if append { 4 } else { 6 });
    if append || i[0].0 == 10 {
        sx::ops(4);
        sx::pick_few();
    }
    let s = crate::chunk::size(i);
    let pts = crate::bare::records(s, 2, 1);
    let vlr = crate::codec::vlr_of(i, if variable { u32::MAX } else { 2 });
    let mut v = vec![0u8; 8];
    v.extend_from_slice(&pts[..s]);
    if i[0].0 == 10 {
        v.extend_from_slice(&1u32.to_le_bytes());
        v.resize(v.len() + 4 * 9, 0);
    } else {
        v.extend_from_slice(&[0; 8]);
    }
    let at = v.len();
    v[..8].copy_from_slice(&(at as u64).to_le_bytes());
    v.extend_from_slice(&[0; 4]);
    let chunks = [0u32, 1, 2, u32::MAX][pick(4, 0..4)];
    v.extend_from_slice(&chunks.to_le_bytes());
    v.resize(v.len() + 16, 0);
    sx::observe(1, &[at as u8]);
    sx::cover(1);
    sx::assert(true, 1);
    if append {
        let n = [0, 1, 3, u64::MAX][pick(5, 0..4)];
        if let Ok(mut a) = LasZipAppender::new(Small(Cursor::new(v)), vlr, n) {
            if a.compress_many(&pts).is_ok() {
                let _ = a.done();
            }
        }
        return;
    }
    if let Ok(mut d) = LasZipDecompressor::new(Cursor::new(v), vlr) {
        let mut out = vec![0u8; s];
        let idx = sx::any_u64(6);
        sx::assume(idx < 3 || idx > u64::MAX - 2);
        let idx = sx::split(idx);
        if d.seek(idx).is_ok() {
            let _ = d.decompress_one(&mut out);
            let _ = d.decompress_one(&mut out);
        }
        let _ = d.seek(0);
        let _ = d.decompress_one(&mut out);
    }
}

/// files of the real coders with one byte (or the bytes behind it) replaced, anywhere
fn damaged(i: Items, n: usize) {
    let s = crate::chunk::size(i);
    let pts = crate::bare::records(s, n, 3);
    let vlr = crate::codec::vlr_of(i, 5);
    let data = crate::chunk::compress(&vlr, &pts, 5, 0, 0, crate::chunk::Calls::Many);
    let how = pick(8, 0..4);
    let mut out = vec![0u8; s];
    for at in (8..data.len()).step_by(11) {
        let mut v = data.clone();
        match how {
            0 => v[at] ^= 0xff,
            1 => v[at..(at + 4).min(data.len())].fill(0xff),
            2 => v[at..].fill(0),
            _ => v[at..].fill(0xff),
        }
        if let Ok(mut d) = LasZipDecompressor::new(Cursor::new(v), vlr.clone()) {
            for _ in 0..n {
                if d.decompress_one(&mut out).is_err() {
                    break;
                }
            }
        }
    }
    sx::assert(true, 1);
}

const P14V3: Items = &[(10, 30, 3)];
const P14V4: Items = &[(10, 30, 4)];

crate::harness! {
    fn cx_int32 = int(32, 2);
    fn cx_int16 = int(16, 2);
    fn cx_int8 = int(8, 2);
    fn cd_init = init();
    fn cd_raw1 = raw(1);
    fn cd_raw5 = raw(5);
    fn cd_raw8 = raw(8);
    fn cd_raw16 = raw(16);
    fn cd_raw19 = raw(19);
    fn cd_raw23 = raw(23);
    fn cd_raw31 = raw(31);
    fn cd_raw32 = raw(32);
    fn cd_raw64 = raw(64);
    fn cd_bit = bit();
    fn cd_dist2 = dist(2);
    fn cd_dist3 = dist(3);
    fn cd_ev16 = evolved(16, 300);
    fn cd_ev17 = evolved(17, 300);
    fn cd_ev64 = evolved(64, 3000);
    fn cd_ev256 = evolved(256, 5000);
    fn cx_p10v1 = plain::<3>(&[(6, 20, 1)], 0, 40);
    fn cx_p10v2 = plain::<3>(&[(6, 20, 2)], 0, 40);
    fn cx_gpsv1 = plain::<4>(&[(7, 8, 1)], 128, 6);
    fn cx_gpsv2 = plain::<4>(&[(7, 8, 2)], 128, 6);
    fn cx_rgbv1 = plain::<3>(&[(8, 6, 1)], 128, 40);
    fn cx_rgbv2 = plain::<3>(&[(8, 6, 2)], 128, 40);
    fn cx_wpv1 = plain::<3>(&[(9, 29, 1)], 128, 40);
    fn cx_byv1 = plain::<3>(&[(0, 3, 1)], 0, 40);
    fn cx_byv2 = plain::<3>(&[(0, 3, 2)], 0, 40);
    fn cx_p14v3_2 = layered::<2>(P14V3, 9, false, 128);
    fn cx_p14v4_2 = layered::<2>(P14V4, 9, false, 128);
    fn cx_p14v3_3 = layered::<3>(P14V3, 9, false, 128);
    fn cx_p14v4_3 = layered::<3>(P14V4, 9, false, 128);
    fn cx_p14v3_m = layered::<2>(P14V3, 9, true, 128);
    fn cx_p14v4_m = layered::<2>(P14V4, 9, true, 128);
    fn cx_rgb14v3 = layered::<3>(&[(11, 6, 3)], 1, true, 128);
    fn cx_rgb14v4 = layered::<3>(&[(11, 6, 4)], 1, true, 128);
    fn cx_nir14v3 = layered::<3>(&[(12, 8, 3)], 2, true, 128);
    fn cx_nir14v4 = layered::<3>(&[(12, 8, 4)], 2, true, 128);
    fn cx_wp14v3 = layered::<3>(&[(13, 29, 3)], 1, true, 128);
    fn cx_wp14v4 = layered::<3>(&[(13, 29, 4)], 1, true, 128);
    fn cx_by14v3 = layered::<3>(&[(14, 2, 3)], 2, true, 0);
    fn cx_by14v4 = layered::<3>(&[(14, 2, 4)], 2, true, 0);
    fn cx_c14v3 = layered::<2>(&[(10, 30, 3), (12, 8, 3), (13, 29, 3), (14, 1, 3)], 13, false, 128);
    fn cx_c14v4 = layered::<2>(&[(10, 30, 4), (12, 8, 4), (13, 29, 4), (14, 1, 4)], 13, false, 128);
    fn cx_lay_p = sizes(P14V3, 9, 1);
    fn cx_lay_p4 = sizes(P14V4, 9, 1);
    fn cx_lay_c = sizes(&[(10, 30, 3), (11, 6, 3), (13, 29, 3), (14, 2, 3)], 13, 1);
    fn cx_lay_n = sizes(&[(12, 8, 3)], 2, 2);
    fn cx_lay_w = sizes(&[(13, 29, 3)], 1, 2);
    fn cx_lay_b = sizes(&[(14, 2, 3)], 2, 2);
    fn cx_lay_b4 = sizes(&[(14, 2, 4)], 2, 2);
    fn cx_sw2 = switching(&[(7, 8, 2)]);
    fn cx_sw3 = switching(&[(10, 30, 3)]);
    fn cx_sw4 = switching(&[(10, 30, 4)]);
    fn cx_tab_f = table(&[(0, 2, 2)], false, false);
    fn cx_tab_v = table(&[(0, 2, 2)], true, false);
    fn cx_tab_fl = table(P14V3, false, false);
    fn cx_tab_vl = table(P14V3, true, false);
    fn cx_app_f = table(&[(0, 2, 2)], false, true);
    fn cx_app_v = table(&[(0, 2, 2)], true, true);
    fn cx_app_fl = table(P14V3, false, true);
    fn cx_app_vl = table(P14V3, true, true);
    fn cx_dam_0 = damaged(&[(6, 20, 2), (7, 8, 2), (8, 6, 2), (0, 2, 2)], 3);
    fn cx_dam_1 = damaged(&[(6, 20, 1), (7, 8, 1), (8, 6, 1), (9, 29, 1), (0, 2, 1)], 3);
    fn cx_dam_3 = damaged(&[(10, 30, 3), (12, 8, 3), (13, 29, 3), (14, 2, 3)], 3);
    fn cx_dam_4 = damaged(&[(10, 30, 4), (11, 6, 4), (13, 29, 4), (14, 2, 4)], 3);
}
