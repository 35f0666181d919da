// Ghost integer coder (compressors side), used with `--cfg laz_verif_ghost_int`; the contract it stands
// for is decided on the real src/compressors.rs and src/decompressors.rs (property int-codec-*).
use crate::encoders;
use std::io::Write;

pub(crate) fn digest(hist: u64, context: u32, real: i32) -> u64 {
    crate::verif_api::mix(hist, ((context as u64) << 32) | real as u32 as u64)
}
/// (corrector range or 0, lowest corrector, highest corrector)
pub(crate) fn corrector(bits: u32, range: u32) -> (u32, i32, i32) {
    let r = if range != 0 {
        range
    } else if bits >= 1 && bits < 32 {
        1u32 << bits
    } else {
        return (0, i32::MIN, i32::MAX);
    };
    let min = -((r / 2) as i32);
    (r, min, min + (r - 1) as i32)
}
/// The corrector of (pred, real), folded once into its interval
pub(crate) fn corr_of(r: (u32, i32, i32), pred: i32, real: i32) -> i32 {
    let corr = real.wrapping_sub(pred);
    if corr < r.1 {
        corr.wrapping_add(r.0 as i32)
    } else if corr > r.2 {
        corr.wrapping_sub(r.0 as i32)
    } else {
        corr
    }
}
/// The number of the interval a corrector belongs to
pub(crate) fn k_of(corr: i32) -> u32 {
    let c1 = (if corr <= 0 { corr.wrapping_neg() } else { corr - 1 }) as u32;
    32 - c1.leading_zeros()
}
/// The precondition under which `decompress` gives back `real` modulo the range
pub(crate) fn in_domain(r: (u32, i32, i32), pred: i32, real: i32) -> bool {
    if r.0 == 0 {
        return true;
    }
    let (n, p, v) = (r.0 as i64, pred as i64, real as i64);
    p > -n && p < n && v > -n && v < n && v - p >= r.1 as i64 - n && v - p <= r.2 as i64 + n
}

pub const DEFAULT_BITS: u32 = 16;
pub const DEFAULT_CONTEXTS: u32 = 1;
pub const DEFAULT_BITS_HIGH: u32 = 8;
pub const DEFAULT_RANGE: u32 = 0;
pub const DEFAULT_COMPRESS_CONTEXTS: u32 = 0;

#[derive(Debug, Clone)]
pub struct IntegerCompressor {
    bits: u32,
    contexts: u32,
    bits_high: u32,
    range: u32,
    k: u32,
    hist: u64,
    init: bool,
}

impl IntegerCompressor {
    pub fn new(bits: u32, contexts: u32, bits_high: u32, range: u32) -> Self {
        Self { bits, contexts, bits_high, range, k: 0, hist: 5, init: false }
    }
    pub fn k(&self) -> u32 {
        self.k
    }
    pub fn init(&mut self) {
        self.init = true;
    }
    fn config(&self) -> u32 {
        self.bits | (self.contexts << 6) | (self.bits_high << 14) | ((self.range & 0xfff) << 20)
    }
    pub fn compress<T: Write>(
        &mut self,
        encoder: &mut encoders::ArithmeticEncoder<T>,
        pred: i32,
        real: i32,
        context: u32,
    ) -> std::io::Result<()> {
        crate::verif_api::check_enc(self.init && context < self.contexts);
        let r = corrector(self.bits, self.range);
        crate::verif_api::check_enc(in_domain(r, pred, real));
        let corr = corr_of(r, pred, real);
        self.k = k_of(corr);
        let real = if r.0 != 0 { real & (r.0 as i32 - 1) } else { real };
        encoder.ghost_int(self.config(), self.hist, pred, context, real, corr);
        self.hist = digest(self.hist, context, corr);
        Ok(())
    }
}

pub struct IntegerCompressorBuilder {
    bits: u32,
    contexts: u32,
    bits_high: u32,
    range: u32,
}

impl IntegerCompressorBuilder {
    pub fn new() -> Self {
        Self {
            bits: DEFAULT_BITS,
            contexts: DEFAULT_CONTEXTS,
            bits_high: DEFAULT_BITS_HIGH,
            range: DEFAULT_RANGE,
        }
    }
    pub fn bits(&mut self, bits: u32) -> &mut Self {
        self.bits = bits;
        self
    }
    pub fn contexts(&mut self, contexts: u32) -> &mut Self {
        self.contexts = contexts;
        self
    }
    pub fn build(&self) -> IntegerCompressor {
        IntegerCompressor::new(self.bits, self.contexts, self.bits_high, self.range)
    }
    pub fn build_initialized(&self) -> IntegerCompressor {
        let mut ic = self.build();
        ic.init();
        ic
    }
}
