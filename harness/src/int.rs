//! Integer coder: what `decompress` returns and reports, for every prediction and value.
use crate::sx;
#[cfg(not(laz_verif_ghost_int))]
mod real {
    use crate::sx;
    use crate::wr::compressors::IntegerCompressorBuilder;
    use crate::rd::decoders::ArithmeticDecoder;
    use crate::rd::decompressors::IntegerDecompressorBuilder;
    use crate::wr::encoders::ArithmeticEncoder;
    use std::io::Cursor;

    /// lowest and highest corrector of the range n = 2^bits
    fn corrector_bounds(bits: u32) -> (i64, i64) {
        let n = 1i64 << bits;
        (-(n / 2), n / 2 - 1)
    }

    /// N values, each with its own arbitrary prediction and context
    pub fn int<const N: usize>(bits: u32, contexts: u32) {
        let mut ic = IntegerCompressorBuilder::new().bits(bits).contexts(contexts).build_initialized();
        let mut id = IntegerDecompressorBuilder::new().bits(bits).contexts(contexts).build_initialized();
        let mut enc = ArithmeticEncoder::new(Cursor::new(Vec::<u8>::with_capacity(2048)));
        let mut v = [(0i32, 0i32, 0u32, 0u32); N];
        for x in v.iter_mut() {
            let (p, r) = (sx::any_u32(1) as i32, sx::any_u32(2) as i32);
            let c = if contexts == 1 { 0 } else { sx::any_u8(3) as u32 };
            sx::assume(c < contexts);
            let c = sx::split(c as u64) as u32;
            if bits < 32 {
                // what the formats hand over: both in (-n, n), apart by less than 1.5 n
                let (n, lo) = (1i64 << bits, corrector_bounds(bits));
                let (p, r) = (p as i64, r as i64);
                sx::assume(p > -n && p < n && r > -n && r < n);
                sx::assume(r - p >= lo.0 - n && r - p <= lo.1 + n);
            }
            ic.compress(&mut enc, p, r, c).unwrap();
            *x = (p, r, c, ic.k());
        }
        enc.done().unwrap();
        let bytes = enc.into_inner().into_inner();
        let mut dec = ArithmeticDecoder::new(Cursor::new(bytes));
        dec.read_init_bytes().unwrap();
        for (p, r, c, k) in v {
            let got = id.decompress(&mut dec, p, c).unwrap();
            let mask = if bits < 32 { (1u32 << bits) - 1 } else { u32::MAX };
            sx::observe(1, &got.to_le_bytes());
            sx::assert(got as u32 & mask == r as u32 & mask, 1);
            if bits < 32 && p >= 0 {
                sx::assert(got >= 0 && got as u32 <= mask, 2);
            }
            sx::assert(id.k() == k, 3);
            // the corrector size the point codecs take their contexts from
            sx::assert(k <= bits, 4);
            let corr = (got as i64).wrapping_sub(p as i64) as i32;
            if bits == 32 {
                let m = if corr <= 0 { corr.wrapping_neg() } else { corr - 1 } as u32;
                sx::assert(k == 32 - m.leading_zeros(), 5);
            }
        }
    }
}
#[cfg(not(laz_verif_ghost_int))]
use real::int;
#[cfg(laz_verif_ghost_int)]
fn int<const N: usize>(_: u32, _: u32) {
    sx::stop()
}

crate::harness! {
    fn int32_1 = int::<1>(32, 1);
    fn int32_2 = int::<2>(32, 1);
    fn int32_3 = int::<3>(32, 1);
    fn int32c2_2 = int::<2>(32, 2);
    fn int32c6_1 = int::<1>(32, 6);
    fn int32c9_1 = int::<1>(32, 9);
    fn int32c20_1 = int::<1>(32, 20);
    fn int32c22_1 = int::<1>(32, 22);
    fn int16_1 = int::<1>(16, 1);
    fn int16c4_1 = int::<1>(16, 4);
    fn int16c8_1 = int::<1>(16, 8);
    fn int16_2 = int::<2>(16, 1);
    fn int16c4_2 = int::<2>(16, 4);
    fn int8c2_1 = int::<1>(8, 2);
    fn int8c2_2 = int::<2>(8, 2);
    fn int8c2_3 = int::<3>(8, 2);
}
