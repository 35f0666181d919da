//! Entropy coder: one operation from an arbitrary interval, undone by the decoder.
use crate::sx;
#[cfg(laz_verif)]
mod real {
    use crate::rd::decoders::ArithmeticDecoder;
    use crate::sx;
    use crate::wr::encoders::ArithmeticEncoder;
    use crate::{rd, wr};
    use std::io::Cursor;

    const MIN: u32 = 1 << 24;
    type Enc = ArithmeticEncoder<Cursor<Vec<u8>>>;

    /// One coding operation, for the encoder and for the decoder
    pub trait Op {
        fn encode(&mut self, e: &mut Enc);
        fn decode(&mut self, d: &mut ArithmeticDecoder<Cursor<[u8; 8]>>) -> bool;
        /// the largest number of bytes the interval is allowed to lose
        fn same_state(&mut self) -> bool;
    }

    fn be(b: &[u8]) -> u64 {
        let mut v = 0u64;
        for x in b {
            v = v << 8 | *x as u64;
        }
        v
    }

    /// From an arbitrary interval behind two arbitrary pending bytes, `op` leads to a smaller
    /// interval; from any code value inside that one the decoder finds the operation again and
    /// reaches the same interval, having read as many bytes as were emitted.
    pub fn step<O: Op>(op: &mut O) {
        sx::nomerge(true);
        let mut e: Enc = ArithmeticEncoder::new(Cursor::new(Vec::new()));
        let pre: [u8; 2] = sx::any(1);
        for b in pre {
            // emits exactly `b`
            e.verif_set_interval((b as u32) << 24, MIN);
            e.write_bit(0).unwrap();
        }
        // the carry stays within the two bytes (longer runs: C02)
        sx::assume(pre[0] != 0xff);
        let (base, length) = (sx::any_u32(2), sx::any_u32(3));
        sx::assume(length >= MIN);
        e.verif_set_interval(base, length);
        let before = e.verif_pending().len();
        sx::assert(before == 2, 10);
        op.encode(&mut e);
        let n = e.verif_pending().len() - before;
        let n = sx::split(n as u64) as usize;
        sx::assert(n <= 3, 11);
        let (base2, length2) = e.verif_interval();
        // where the operation moved the base to: the emitted bytes, then the rest of it
        let pending = e.verif_pending();
        let moved = ((be(&pending[2..]) << 32 | base2 as u64) >> (8 * n)) as u32;
        let carry = (moved < base) as u64;
        let x = moved.wrapping_sub(base);
        sx::assert((base2 as u64) & ((1 << (8 * n)) - 1) == 0, 12);
        sx::assert(be(&pending[..2]) == be(&pre) + carry, 15);
        // the new interval lies within the old one
        sx::assert(length2 as u64 & ((1 << (8 * n)) - 1) == 0, 16);
        sx::assert(length2 >= MIN, 14);
        let l2 = length2 >> (8 * n);
        sx::assert(x <= length && l2 <= length - x, 13);

        // any code value inside the new interval: its leading 32 bits, then n bytes
        let v2 = sx::any_u32(4);
        sx::assume(v2 < length2);
        let lead = x.wrapping_add(v2 >> (8 * n));
        let mut bytes = [0u8; 8];
        for i in 0..n {
            bytes[i] = (v2 >> (8 * (n - 1 - i))) as u8;
        }
        let mut d = ArithmeticDecoder::new(Cursor::new(bytes));
        d.verif_set_interval(lead, length);
        sx::assert(op.decode(&mut d), 20);
        sx::assert(d.get_ref().position() == n as u64, 21);
        let (v3, l3) = d.verif_interval();
        sx::assert(l3 == length2, 22);
        sx::assert(v3 == v2, 23);
        sx::assert(op.same_state(), 24);
        sx::observe(1, &[n as u8]);
    }

    pub struct Raw {
        pub bits: u32,
        pub sym: u64,
    }
    impl Op for Raw {
        fn encode(&mut self, e: &mut Enc) {
            match self.bits {
                1 => e.write_bit(self.sym as u32).unwrap(),
                8 => e.write_byte(self.sym as u8).unwrap(),
                16 => e.write_short(self.sym as u16).unwrap(),
                n => e.write_bits(n, self.sym as u32).unwrap(),
            }
        }
        fn decode(&mut self, d: &mut ArithmeticDecoder<Cursor<[u8; 8]>>) -> bool {
            match self.bits {
                1 => d.read_bit().unwrap() as u64 == self.sym,
                n => d.read_bits(n).unwrap() as u64 == self.sym,
            }
        }
        fn same_state(&mut self) -> bool {
            true
        }
    }
    pub fn raw(bits: u32) {
        let sym = sx::any_u32(5);
        sx::assume(sym >> bits == 0);
        step(&mut Raw { bits, sym: sym as u64 })
    }

    pub struct Bit {
        pub e: wr::models::ArithmeticBitModel,
        pub d: rd::models::ArithmeticBitModel,
        pub sym: u32,
    }
    impl Op for Bit {
        fn encode(&mut self, e: &mut Enc) {
            e.encode_bit(&mut self.e, self.sym).unwrap()
        }
        fn decode(&mut self, d: &mut ArithmeticDecoder<Cursor<[u8; 8]>>) -> bool {
            d.decode_bit(&mut self.d).unwrap() == self.sym
        }
        fn same_state(&mut self) -> bool {
            let (a, b) = (self.e.verif_fields(), self.d.verif_fields());
            (0..5).all(|i| *a[i] == *b[i])
        }
    }
    /// any probability
    pub fn bit() {
        let (mut e, mut d) = (wr::models::ArithmeticBitModel::new(), rd::models::ArithmeticBitModel::new());
        let p = sx::any_u16(6) as u32;
        sx::assume(p >= 1 && p < 8192);
        *e.verif_fields()[2] = p;
        *d.verif_fields()[2] = p;
        let sym = sx::split((sx::any_u8(5) & 1) as u64) as u32;
        step(&mut Bit { e, d, sym })
    }

    pub struct Sym {
        pub e: wr::models::ArithmeticModel,
        pub d: rd::models::ArithmeticModel,
        pub sym: u32,
    }
    impl Op for Sym {
        fn encode(&mut self, e: &mut Enc) {
            e.encode_symbol(&mut self.e, self.sym).unwrap()
        }
        fn decode(&mut self, d: &mut ArithmeticDecoder<Cursor<[u8; 8]>>) -> bool {
            d.decode_symbol(&mut self.d).unwrap() == self.sym
        }
        fn same_state(&mut self) -> bool {
            let (a, b) = (self.e.verif_fields(), self.d.verif_fields());
            a.distribution[..] == b.distribution[..]
                && a.symbol_count[..] == b.symbol_count[..]
                && *a.total_count == *b.total_count
                && *a.update_cycle == *b.update_cycle
                && *a.symbols_until_update == *b.symbols_until_update
        }
    }

    fn pair(pre: &[u8; 2], base: u32, length: u32) -> Enc {
        let mut e: Enc = ArithmeticEncoder::new(Cursor::new(Vec::new()));
        for b in pre {
            e.verif_set_interval((*b as u32) << 24, MIN);
            e.write_bit(0).unwrap();
        }
        e.verif_set_interval(base, length);
        e
    }
    fn same_enc(a: &Enc, b: &Enc) -> bool {
        a.verif_interval() == b.verif_interval() && a.verif_pending() == b.verif_pending()
    }
    /// Values of more than 19 bits are two shorter ones, low half first
    pub fn wide(bits: u32) {
        sx::nomerge(true);
        let pre: [u8; 2] = sx::any(1);
        sx::assume(pre[0] != 0xff);
        let (base, length) = (sx::any_u32(2), sx::any_u32(3));
        sx::assume(length >= MIN);
        let sym = sx::any_u64(5);
        let (mut a, mut b) = (pair(&pre, base, length), pair(&pre, base, length));
        match bits {
            64 => a.write_int64(sym).unwrap(),
            32 => a.write_int(sym as u32).unwrap(),
            n => {
                sx::assume(sym >> n == 0);
                a.write_bits(n, sym as u32).unwrap()
            }
        }
        let mut s = sym;
        let mut left = bits;
        while left > 0 {
            let n = left.min(16);
            b.write_bits(n, (s as u32) & ((1 << n) - 1)).unwrap();
            s >>= n;
            left -= n;
        }
        sx::assert(same_enc(&a, &b), 1);
        sx::observe(1, a.verif_pending());

        let data: [u8; 12] = sx::any(6);
        let (value, length) = (sx::any_u32(7), sx::any_u32(8));
        sx::assume(length >= MIN && value < length);
        let mut c = ArithmeticDecoder::new(Cursor::new(data));
        let mut d = ArithmeticDecoder::new(Cursor::new(data));
        c.verif_set_interval(value, length);
        d.verif_set_interval(value, length);
        sx::panic_ok(true);
        let (mut parts, mut left, mut k) = ([0u32; 4], bits, 0);
        while left > 0 {
            let n = left.min(16);
            parts[k] = d.read_bits(n).unwrap();
            sx::assume(parts[k] >> n == 0);
            left -= n;
            k += 1;
        }
        sx::panic_ok(false);
        let v = match bits {
            64 => c.read_int_64().unwrap(),
            32 => c.read_int().unwrap() as u64,
            n => c.read_bits(n).unwrap() as u64,
        };
        for i in 0..4 {
            sx::assert((v >> (16 * i)) as u16 as u32 == parts[i], 2);
        }
        sx::assert(c.verif_interval() == d.verif_interval(), 3);
        sx::assert(c.get_ref().position() == d.get_ref().position(), 4);
    }

    /// `n` symbols with every possible distribution
    pub fn any_dist(n: u32, sym: u32) {
        let mut e = wr::models::ArithmeticModelBuilder::new(n).build();
        let mut d = rd::models::ArithmeticModelBuilder::new(n).build();
        {
            let (f, g) = (e.verif_fields(), d.verif_fields());
            let mut last = 0;
            for i in 1..n as usize {
                let d = sx::any_u16(6) as u32;
                sx::assume(d > last && d < 1 << 15);
                f.distribution[i] = d;
                g.distribution[i] = d;
                last = d;
            }
        }
        step(&mut Sym { e, d, sym })
    }

    macro_rules! evolved_models {
        ($c:ident, $n:expr, $hist:expr, $skew:expr) => {{
            let mut m = $c::models::ArithmeticModelBuilder::new($n).build();
            let mut e = $c::encoders::ArithmeticEncoder::new(std::io::sink());
            let mut s = 12345u32;
            for _ in 0..$hist {
                s = s.wrapping_mul(1664525).wrapping_add(1013904223);
                let r = s >> 8;
                let v = if r % 16 < $skew { r % ($n / 4 + 1) } else { r % $n };
                e.encode_symbol(&mut m, v).unwrap();
            }
            m
        }};
    }

    /// `n` symbols, after a history of `hist` symbols of a fixed pseudo-random sequence; `syms`
    /// are tried on separate paths
    pub fn evolved(n: u32, hist: u32, skew: u32, syms: &[u32]) {
        let mut m = evolved_models!(wr, n, hist, skew);
        #[cfg(not(any(feature = "wr_ref", feature = "rd_ref")))]
        let mut d = m.clone();
        #[cfg(any(feature = "wr_ref", feature = "rd_ref"))]
        let mut d = evolved_models!(rd, n, hist, skew);
        // right before the statistics are recomputed, or not
        if sx::split((sx::any_u8(9) & 1) as u64) == 1 {
            *m.verif_fields().symbols_until_update = 1;
            *d.verif_fields().symbols_until_update = 1;
        }
        let i = sx::any_u8(5) as usize;
        sx::assume(i < syms.len());
        let i = sx::split(i as u64) as usize;
        step(&mut Sym { e: m, d, sym: syms[i] })
    }
}
#[cfg(laz_verif)]
use real::*;
#[cfg(not(laz_verif))]
mod none {
    use crate::sx;
    pub fn raw(_: u32) { sx::stop() }
    pub fn bit() { sx::stop() }
    pub fn wide(_: u32) { sx::stop() }
    pub fn any_dist(_: u32, _: u32) { sx::stop() }
    pub fn evolved(_: u32, _: u32, _: u32, _: &[u32]) { sx::stop() }
}
#[cfg(not(laz_verif))]
use none::*;

crate::harness! {
    fn ac_raw1 = raw(1);
    fn ac_raw2 = raw(2);
    fn ac_raw5 = raw(5);
    fn ac_raw8 = raw(8);
    fn ac_raw13 = raw(13);
    fn ac_raw16 = raw(16);
    fn ac_raw19 = raw(19);
    fn ac_wide20 = wide(20);
    fn ac_wide24 = wide(24);
    fn ac_wide31 = wide(31);
    fn ac_wide32 = wide(32);
    fn ac_wide64 = wide(64);
    fn ac_bit = bit();
    fn ac_dist2_0 = any_dist(2, 0);
    fn ac_dist2_1 = any_dist(2, 1);
    fn ac_dist3_1 = any_dist(3, 1);
    fn ac_dist4_2 = any_dist(4, 2);
    fn ac_ev2 = evolved(2, 37, 0, &[0, 1]);
    fn ac_ev16 = evolved(16, 500, 8, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]);
    fn ac_ev17 = evolved(17, 500, 8, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]);
    fn ac_ev17q = evolved(17, 500, 8, &[0, 1, 7, 8, 15, 16]);
    fn ac_ev16q = evolved(16, 500, 8, &[0, 1, 7, 8, 14, 15]);
    fn ac_ev33 = evolved(33, 700, 12, &[0, 1, 7, 8, 31, 32]);
    fn ac_ev64 = evolved(64, 1000, 12, &[0, 1, 15, 16, 62, 63]);
    fn ac_ev128 = evolved(128, 3000, 12, &[0, 1, 31, 32, 33, 126, 127]);
    fn ac_ev256 = evolved(256, 5000, 14, &[0, 1, 63, 64, 65, 254, 255]);
    fn ac_ev516 = evolved(516, 40000, 14, &[0, 1, 128, 129, 130, 514, 515]);
    fn ac_ev2048 = evolved(2048, 60000, 12, &[0, 511, 513, 2046, 2047]);
}
