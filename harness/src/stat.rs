//! Adaptive statistics against a transcription of LASzip's update rule, and the byte stream of the
//! entropy coder against an unbounded buffer.
use crate::sx;
#[cfg(laz_verif)]
mod real {
    use crate::sx;
    use laz::encoders::ArithmeticEncoder;
    use laz::models::{ArithmeticBitModel, ArithmeticModel, ArithmeticModelBuilder};
    use std::io::Cursor;

    /// LASzip's ArithmeticModel
    struct Ref {
        n: usize,
        count: Vec<u32>,
        dist: Vec<u32>,
        table: Vec<u32>,
        total: u32,
        cycle: u32,
        until: u32,
        shift: u32,
        size: u32,
    }
    impl Ref {
        fn new(n: usize) -> Self {
            let (mut size, mut shift) = (0, 0);
            if n > 16 {
                let mut bits = 3;
                while n > 1 << (bits + 2) {
                    bits += 1;
                }
                size = 1 << bits;
                shift = 15 - bits;
            }
            let mut r = Ref {
                n,
                count: vec![1; n],
                dist: vec![0; n],
                table: vec![0; if size > 0 { size as usize + 2 } else { 0 }],
                total: 0,
                cycle: n as u32,
                until: 0,
                shift,
                size,
            };
            r.update();
            r.cycle = (n as u32 + 6) >> 1;
            r.until = r.cycle;
            r
        }
        fn update(&mut self) {
            self.total += self.cycle;
            if self.total > 1 << 15 {
                self.total = 0;
                for c in self.count.iter_mut() {
                    *c = (*c + 1) >> 1;
                    self.total += *c;
                }
            }
            let scale = 0x8000_0000u32 / self.total;
            let (mut sum, mut s) = (0u32, 0usize);
            for k in 0..self.n {
                self.dist[k] = (scale * sum) >> 16;
                sum += self.count[k];
                if self.size != 0 {
                    let w = (self.dist[k] >> self.shift) as usize;
                    while s < w {
                        s += 1;
                        self.table[s] = k as u32 - 1;
                    }
                }
            }
            if self.size != 0 {
                self.table[0] = 0;
                while s <= self.size as usize {
                    s += 1;
                    self.table[s] = self.n as u32 - 1;
                }
            }
            self.cycle = (5 * self.cycle) >> 2;
            let max = (self.n as u32 + 6) << 3;
            if self.cycle > max {
                self.cycle = max
            }
            self.until = self.cycle;
        }
        fn push(&mut self, sym: usize) {
            self.count[sym] += 1;
            self.until -= 1;
            if self.until == 0 {
                self.update()
            }
        }
    }
    fn same(m: &mut ArithmeticModel, r: &Ref, id: u32) {
        let f = m.verif_fields();
        sx::assert(f.distribution[..] == r.dist[..], id);
        sx::assert(f.symbol_count[..] == r.count[..], id + 1);
        sx::assert(f.decoder_table[..] == r.table[..], id + 2);
        sx::assert(*f.total_count == r.total && *f.update_cycle == r.cycle, id + 3);
        sx::assert(*f.symbols_until_update == r.until, id + 4);
        sx::assert(f.table_shift == r.shift || r.size == 0, id + 5);
    }
    /// every symbol has a share, and the shares end below one
    fn valid(m: &mut ArithmeticModel, id: u32) {
        let f = m.verif_fields();
        sx::assert(f.distribution[0] == 0, id);
        for k in 1..f.distribution.len() {
            sx::assert(f.distribution[k] > f.distribution[k - 1], id + 1);
        }
        sx::assert(f.distribution[f.distribution.len() - 1] < 1 << 15, id + 2);
    }

    /// One update from arbitrary statistics: `free` of the n counts, and the phase, are arbitrary
    pub fn update(n: u32, free: &[usize], nomerge: bool) {
        let mut m = ArithmeticModelBuilder::new(n).build();
        let mut r = Ref::new(n as usize);
        same(&mut m, &r, 1);
        let cycle = sx::any_u16(1) as u32;
        sx::assume(cycle >= 1 && cycle <= (n + 6) << 3);
        {
            let f = m.verif_fields();
            let mut total = 0u32;
            for k in 0..n as usize {
                if free.contains(&k) {
                    let c = sx::any_u16(2) as u32;
                    sx::assume(c >= 1);
                    f.symbol_count[k] = c;
                }
                total += f.symbol_count[k];
                r.count[k] = f.symbol_count[k];
            }
            sx::assume(total > cycle && total - cycle <= 1 << 15);
            *f.total_count = total - cycle;
            *f.update_cycle = cycle;
            r.total = total - cycle;
            r.cycle = cycle;
        }
        sx::nomerge(nomerge);
        m.update();
        r.update();
        sx::observe(1, &m.verif_fields().distribution[n as usize - 1].to_le_bytes());
        same(&mut m, &r, 11);
        valid(&mut m, 21);
    }

    /// `len` symbols from a fresh model: the same as LASzip's after each; the last symbol is arbitrary
    pub fn history(n: u32, len: u32, skew: u32) {
        let mut m = ArithmeticModelBuilder::new(n).build();
        let mut r = Ref::new(n as usize);
        let mut e = ArithmeticEncoder::new(std::io::sink());
        let mut s = 99u32;
        for i in 0..len {
            s = s.wrapping_mul(1664525).wrapping_add(1013904223);
            let x = s >> 8;
            let v = if x % 16 < skew { x % (n / 8 + 1) } else { x % n };
            e.encode_symbol(&mut m, v).unwrap();
            r.push(v as usize);
            if i % 97 == 0 || i + 1 == len {
                same(&mut m, &r, 1);
                valid(&mut m, 21);
            }
        }
    }

    fn bit_fields(m: &mut ArithmeticBitModel) -> [u32; 5] {
        m.verif_fields().map(|x| *x)
    }
    /// One update of a bit model from an arbitrary state
    pub fn bit_update() {
        sx::nomerge(true);
        let mut m = ArithmeticBitModel::new();
        sx::assert(bit_fields(&mut m) == [1, 2, 4096, 4, 4], 1);
        let (mut zeros, mut count, mut cycle) =
            (sx::any_u16(1) as u32, sx::any_u16(2) as u32, sx::any_u8(3) as u32);
        sx::assume(cycle >= 4 && cycle <= 64 && count >= 2 && count <= 8192);
        sx::assume(zeros >= 1 && zeros < count + cycle);
        {
            let f = m.verif_fields();
            let [z, c, _, _, y] = f;
            *z = zeros;
            *c = count;
            *y = cycle;
        }
        m.update();
        // LASzip's ArithmeticBitModel::update
        count += cycle;
        if count > 8192 {
            count = (count + 1) >> 1;
            zeros = (zeros + 1) >> 1;
            if zeros == count {
                count += 1;
            }
        }
        let scale = 0x8000_0000u32 / count;
        let prob = (zeros * scale) >> 18;
        cycle = (5 * cycle) >> 2;
        if cycle > 64 {
            cycle = 64
        }
        let f = bit_fields(&mut m);
        sx::observe(1, &f[2].to_le_bytes());
        let want = [zeros, count, prob, cycle, cycle];
        for i in 0..5 {
            sx::assert(f[i] == want[i], 11);
        }
        // both bits keep a share; the state is one the next update may start from
        sx::assert(f[2] >= 1 && f[2] < 8192, 12);
        sx::assert(f[0] >= 1 && f[0] < f[1] && f[1] <= 8192, 13);
    }
    /// Bits from a fresh model, the last ones arbitrary, are counted as LASzip does
    pub fn bit_history(len: u32, skew: u32) {
        let mut m = ArithmeticBitModel::new();
        let mut e = ArithmeticEncoder::new(std::io::sink());
        let (mut zeros, mut count, mut prob, mut until, mut cycle) = (1u32, 2u32, 4096u32, 4u32, 4u32);
        let mut s = 77u32;
        for i in 0..len + 6 {
            s = s.wrapping_mul(1664525).wrapping_add(1013904223);
            let b = if i < len {
                ((s >> 8) % 64 < skew) as u32
            } else {
                sx::split((sx::any_u8(5) & 1) as u64) as u32
            };
            e.encode_bit(&mut m, b).unwrap();
            zeros += 1 - b;
            until -= 1;
            if until == 0 {
                count += cycle;
                if count > 8192 {
                    count = (count + 1) >> 1;
                    zeros = (zeros + 1) >> 1;
                    if zeros == count {
                        count += 1;
                    }
                }
                prob = (zeros * (0x8000_0000u32 / count)) >> 18;
                cycle = ((5 * cycle) >> 2).min(64);
                until = cycle;
            }
            sx::assert(bit_fields(&mut m) == [zeros, count, prob, until, cycle], 1);
        }
    }

    // ---- byte stream --------------------------------------------------------------------
    const MIN: u32 = 1 << 24;
    /// The coded interval over an unbounded byte string
    struct Stream {
        out: Vec<u8>,
        base: u32,
        length: u32,
    }
    impl Stream {
        fn carry(&mut self) {
            let mut i = self.out.len();
            while i > 0 {
                i -= 1;
                if self.out[i] == 0xff {
                    self.out[i] = 0
                } else {
                    self.out[i] += 1;
                    break;
                }
            }
        }
        fn renorm(&mut self) {
            while self.length < MIN {
                self.out.push((self.base >> 24) as u8);
                self.base <<= 8;
                self.length <<= 8;
            }
        }
        fn raw(&mut self, bits: u32, sym: u32) {
            self.length >>= bits;
            let (b, c) = self.base.overflowing_add(sym * self.length);
            self.base = b;
            if c {
                self.carry()
            }
            self.renorm()
        }
        fn done(&mut self) {
            let more = self.length > 2 * MIN;
            let (b, c) = self.base.overflowing_add(if more { MIN } else { MIN >> 1 });
            self.base = b;
            self.length = if more { MIN >> 1 } else { MIN >> 9 };
            if c {
                self.carry()
            }
            self.renorm();
            self.out.extend_from_slice(if more { &[0, 0, 0] } else { &[0, 0] });
        }
    }
    /// `pos` bytes are out, the last `run` of them 0xFF; then comes an arbitrary interval, an
    /// arbitrary byte, `tail` more bytes, and the end of the stream
    fn stream_case(pos: usize, run: usize, tail: usize) {
        let mut e = ArithmeticEncoder::new(Cursor::new(Vec::<u8>::with_capacity(32768)));
        let mut r = Stream { out: Vec::with_capacity(32768), base: 0, length: u32::MAX };
        for i in 0..pos {
            let b = if i + run >= pos { 0xff } else { (i * 7 % 251) as u32 };
            e.verif_set_interval(b << 24, MIN);
            e.write_bit(0).unwrap();
            r.base = b << 24;
            r.length = MIN;
            r.raw(1, 0);
        }
        let (base, length) = (sx::any_u32(2), sx::any_u32(3));
        sx::assume(length >= MIN);
        if run >= pos {
            // nothing in front that could take a carry
            sx::assume(base as u64 + length as u64 <= 1 << 32);
        }
        e.verif_set_interval(base, length);
        r.base = base;
        r.length = length;
        let sym = sx::any_u8(4);
        e.write_byte(sym).unwrap();
        r.raw(8, sym as u32);
        for i in 0..tail {
            // each emits exactly one byte
            let b = (i * 5 % 250) as u32;
            e.verif_set_interval(b << 24, MIN);
            e.write_bit(0).unwrap();
            r.base = b << 24;
            r.length = MIN;
            r.raw(1, 0);
        }
        if tail > 0 {
            let (base, length) = (sx::any_u32(6), sx::any_u32(7));
            sx::assume(length >= MIN);
            e.verif_set_interval(base, length);
            r.base = base;
            r.length = length;
            let sym = sx::any_u8(8) as u32 >> 4;
            e.write_bits(4, sym).unwrap();
            r.raw(4, sym);
        }
        e.done().unwrap();
        r.done();
        let got = e.into_inner().into_inner();
        sx::assert(got.len() == r.out.len(), 1);
        sx::observe(1, &got[pos..]);
        sx::assert(got == r.out, 2);
    }
    pub fn stream(pos: &[usize], run: &[usize], tail: usize) {
        sx::nomerge(true);
        let (i, j) = (sx::any_u8(10) as usize, sx::any_u8(11) as usize);
        sx::assume(i < pos.len() && j < run.len());
        let (i, j) = (sx::split(i as u64) as usize, sx::split(j as u64) as usize);
        stream_case(pos[i], run[j].min(pos[i]), tail)
    }
    /// Whatever the final interval, the bytes written at the end select a value inside it, and
    /// there are as many as the decoder reads ahead
    pub fn last() {
        sx::nomerge(true);
        let mut e = ArithmeticEncoder::new(Cursor::new(Vec::<u8>::with_capacity(64)));
        let pre: [u8; 2] = sx::any(1);
        for b in pre {
            e.verif_set_interval((b as u32) << 24, MIN);
            e.write_bit(0).unwrap();
        }
        sx::assume(pre[0] != 0xff);
        let (base, length) = (sx::any_u32(2), sx::any_u32(3));
        sx::assume(length >= MIN);
        e.verif_set_interval(base, length);
        e.done().unwrap();
        let got = e.into_inner().into_inner();
        sx::observe(1, &got);
        sx::assert(got.len() == 2 + 4, 1);
        let v = u32::from_be_bytes([got[2], got[3], got[4], got[5]]);
        let carry = (v < base) as u16;
        sx::assert(u16::from_be_bytes([got[0], got[1]]) == u16::from_be_bytes(pre) + carry, 2);
        sx::assert(v.wrapping_sub(base) < length, 3);
    }
}
#[cfg(laz_verif)]
use real::*;
#[cfg(not(laz_verif))]
mod none {
    use crate::sx;
    pub fn update(_: u32, _: &[usize], _: bool) { sx::stop() }
    pub fn history(_: u32, _: u32, _: u32) { sx::stop() }
    pub fn bit_update() { sx::stop() }
    pub fn bit_history(_: u32, _: u32) { sx::stop() }
    pub fn stream(_: &[usize], _: &[usize], _: usize) { sx::stop() }
    pub fn last() { sx::stop() }
}
#[cfg(not(laz_verif))]
use none::*;

crate::harness! {
    fn st_upd2 = update(2, &[0, 1], false);
    fn st_upd3 = update(3, &[0, 1, 2], false);
    fn st_upd4 = update(4, &[0, 1, 2, 3], false);
    fn st_upd16 = update(16, &[0, 7, 15], false);
    fn st_upd17 = update(17, &[0, 9], true);
    fn st_upd33 = update(33, &[32], true);
    fn st_upd64 = update(64, &[1], true);
    fn st_upd256 = update(256, &[255], true);
    fn st_hist2 = history(2, 30000, 0);
    fn st_hist9 = history(9, 20000, 12);
    fn st_hist17 = history(17, 20000, 12);
    fn st_hist33 = history(33, 20000, 12);
    fn st_hist64 = history(64, 40000, 14);
    fn st_hist128 = history(128, 40000, 14);
    fn st_hist256 = history(256, 40000, 15);
    fn st_hist516 = history(516, 40000, 14);
    fn st_hist2048 = history(2048, 70000, 12);
    fn st_bit = bit_update();
    fn st_bits_even = bit_history(20000, 32);
    fn st_bits_zero = bit_history(20000, 0);
    fn st_bits_one = bit_history(20000, 64);
    fn ac_stream_a = stream(&[0, 1, 2, 4093, 4094, 4095, 4096, 4097], &[0, 1, 3, 4000], 0);
    fn ac_stream_b = stream(&[8189, 8190, 8191, 8192, 8193, 8195], &[0, 2, 7, 4090], 2);
    fn ac_stream_c = stream(&[12286, 12287, 12288, 12289, 16383, 16384, 16386], &[0, 1, 4000], 3);
    fn ac_stream_d = stream(&[4090, 8190, 12280], &[1, 4000], 4200);
    fn ac_last = last();
}
