//! Round trips of the real code through its public interface alone, from fresh coders.  They stand
//! in when the tree's entropy or integer coder no longer fits the stand-ins or the state accessors.
use crate::codec::{roundtrip_vec, Items};
use crate::rd::decoders::ArithmeticDecoder;
use crate::rd::decompressors::IntegerDecompressorBuilder;
use crate::sx;
use crate::wr::compressors::IntegerCompressorBuilder;
use crate::wr::encoders::ArithmeticEncoder;
use crate::{rd, wr};
use std::io::Cursor;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u32 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) as u32
    }
}

/// `n` records of `size` bytes: mostly small changes, now and then a jump
pub fn records(size: usize, n: usize, seed: u64) -> Vec<u8> {
    let mut r = Rng(seed.wrapping_mul(7919).wrapping_add(1));
    let mut out = vec![0u8; size * n];
    for b in out[..size.min(size * n)].iter_mut() {
        *b = r.next() as u8
    }
    for i in 1..n {
        out.copy_within((i - 1) * size..i * size, i * size);
        for j in 0..size {
            let p = &mut out[i * size + j];
            match r.next() % 16 {
                0..=2 => *p = p.wrapping_add((r.next() % 5) as u8).wrapping_sub(2),
                3 if i % 7 == 3 => *p = r.next() as u8,
                _ => {}
            }
        }
    }
    out
}

fn fields(i: Items) {
    let size = i.iter().map(|x| x.1 as usize).sum::<usize>();
    let s = sx::any_u8(0) as u64;
    sx::assume(s < 4);
    let seed = sx::split(s);
    roundtrip_vec(i, &records(size, 60, seed));
}

/// raw values from a fresh coder
fn raw() {
    sx::nomerge(true);
    let (a, b, c) = (sx::any_u8(1) as u32 & 31, sx::any_u8(2), sx::any_u8(3) as u32 & 1);
    let mut e = ArithmeticEncoder::new(Cursor::new(Vec::<u8>::with_capacity(64)));
    e.write_bits(5, a).unwrap();
    e.write_byte(b).unwrap();
    e.write_bit(c).unwrap();
    e.done().unwrap();
    let mut d = ArithmeticDecoder::new(Cursor::new(e.into_inner().into_inner()));
    d.read_init_bytes().unwrap();
    sx::assert(d.read_bits(5).unwrap() == a, 1);
    sx::assert(d.read_bits(8).unwrap() == b as u32, 2);
    sx::assert(d.read_bit().unwrap() == c, 3);
}
/// long streams of symbols, bits and raw values
fn mixed() {
    let s = sx::any_u8(0) as u64;
    sx::assume(s < 6);
    let seed = sx::split(s);
    let n = [2u32, 16, 17, 64, 256, 516][seed as usize];
    for pass in 0..2 {
        let mut r = Rng(seed + 17);
        let (mut m, mut b) = (wr::models::ArithmeticModelBuilder::new(n).build(), wr::models::ArithmeticBitModel::new());
        let (mut m2, mut b2) = (rd::models::ArithmeticModelBuilder::new(n).build(), rd::models::ArithmeticBitModel::new());
        let mut e = ArithmeticEncoder::new(Cursor::new(Vec::<u8>::with_capacity(65536)));
        let mut ops = Vec::with_capacity(8192);
        for i in 0..8000u32 {
            let k = r.next() % 8;
            let v = match k {
                0 => r.next() & 0xff,
                1 => (r.next() % 9 == 0) as u32,
                _ if pass == 1 && i % 1000 < 600 => n - 1,
                _ => r.next() % n,
            };
            match k {
                0 => e.write_bits(8, v).unwrap(),
                1 => e.encode_bit(&mut b, v).unwrap(),
                _ => e.encode_symbol(&mut m, v).unwrap(),
            }
            ops.push((k, v));
        }
        e.done().unwrap();
        let mut d = ArithmeticDecoder::new(Cursor::new(e.into_inner().into_inner()));
        d.read_init_bytes().unwrap();
        for (k, v) in ops {
            let got = match k {
                0 => d.read_bits(8).unwrap(),
                1 => d.decode_bit(&mut b2).unwrap(),
                _ => d.decode_symbol(&mut m2).unwrap(),
            };
            sx::assert(got == v, 1);
        }
    }
}
fn ints() {
    let s = sx::any_u8(0) as u64;
    sx::assume(s < 3);
    let i = sx::split(s) as usize;
    let (bits, contexts) = [(32, 2), (16, 4), (8, 8)][i];
    let mut ic = IntegerCompressorBuilder::new().bits(bits).contexts(contexts).build_initialized();
    let mut id = IntegerDecompressorBuilder::new().bits(bits).contexts(contexts).build_initialized();
    let mut enc = ArithmeticEncoder::new(Cursor::new(Vec::<u8>::with_capacity(65536)));
    let mut r = Rng(3);
    let mut v = Vec::with_capacity(1024);
    let mask = if bits == 32 { u32::MAX } else { (1 << bits) - 1 };
    for i in 0..1000u32 {
        let p = (r.next() << 3 ^ r.next()) & mask;
        let x = p.wrapping_add((r.next() << 1).wrapping_shr(i % 32)).wrapping_sub(i % 3) & mask;
        let c = r.next() % contexts;
        ic.compress(&mut enc, p as i32, x as i32, c).unwrap();
        v.push((p, x, c, ic.k()));
    }
    enc.done().unwrap();
    let mut dec = ArithmeticDecoder::new(Cursor::new(enc.into_inner().into_inner()));
    dec.read_init_bytes().unwrap();
    for (p, x, c, k) in v {
        let got = id.decompress(&mut dec, p as i32, c).unwrap();
        sx::assert(got as u32 & mask == x, 1);
        sx::assert(id.k() == k, 2);
    }
}

crate::harness! {
    fn fb_raw = raw();
    fn fb_mixed = mixed();
    fn fb_ints = ints();
    fn fb_p10v1 = fields(&[(6, 20, 1)]);
    fn fb_p10v2 = fields(&[(6, 20, 2)]);
    fn fb_gpsv1 = fields(&[(7, 8, 1)]);
    fn fb_gpsv2 = fields(&[(7, 8, 2)]);
    fn fb_rgbv1 = fields(&[(8, 6, 1)]);
    fn fb_rgbv2 = fields(&[(8, 6, 2)]);
    fn fb_rgbv3 = fields(&[(10, 30, 3), (11, 6, 3)]);
    fn fb_rgbv4 = fields(&[(10, 30, 4), (11, 6, 4)]);
    fn fb_nirv3 = fields(&[(10, 30, 3), (12, 8, 3)]);
    fn fb_nirv4 = fields(&[(10, 30, 4), (12, 8, 4)]);
    fn fb_byv1 = fields(&[(0, 3, 1)]);
    fn fb_byv2 = fields(&[(0, 3, 2)]);
    fn fb_wpv1 = fields(&[(9, 29, 1)]);
    fn fb_wpv3 = fields(&[(10, 30, 3), (13, 29, 3), (14, 2, 3)]);
    fn fb_wpv4 = fields(&[(10, 30, 4), (13, 29, 4), (14, 2, 4)]);
    fn fb_p14v3 = fields(&[(10, 30, 3)]);
    fn fb_p14v4 = fields(&[(10, 30, 4)]);
}
