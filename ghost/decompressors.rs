// Ghost integer coder (decompressors side), used with `--cfg laz_verif_ghost_int`; the contract it stands
// for is decided on the real src/compressors.rs and src/decompressors.rs (property int-codec-*).
use crate::compressors::{digest, k_of};
use crate::decoders;
use std::io::Read;

pub const DEFAULT_BITS: u32 = 16;
pub const DEFAULT_CONTEXTS: u32 = 1;
pub const DEFAULT_BITS_HIGH: u32 = 8;
pub const DEFAULT_RANGE: u32 = 0;
pub const DEFAULT_DECOMPRESS_CONTEXTS: u32 = 0;

#[derive(Debug, Clone)]
pub struct IntegerDecompressor {
    bits: u32,
    contexts: u32,
    bits_high: u32,
    range: u32,
    k: u32,
    hist: u64,
    init: bool,
}

impl IntegerDecompressor {
    pub fn new(bits: u32, contexts: u32, bits_high: u32, range: u32) -> Self {
        Self { bits, contexts, bits_high, range, k: 0, hist: 5, init: false }
    }
    pub fn k(&self) -> u32 {
        self.k
    }
    pub fn init(&mut self) {
        self.init = true;
    }
    fn config(&self) -> u32 {
        self.bits | (self.contexts << 6) | (self.bits_high << 14) | ((self.range & 0xfff) << 20)
    }
    pub fn decompress<T: Read>(
        &mut self,
        dec: &mut decoders::ArithmeticDecoder<T>,
        pred: i32,
        context: u32,
    ) -> std::io::Result<i32> {
        crate::verif_api::check_dec(self.init && context < self.contexts, 20);
        let (real, corr) = dec.ghost_int(self.config(), self.hist, pred, context)?;
        self.k = k_of(corr);
        self.hist = digest(self.hist, context, corr);
        Ok(real)
    }
}

pub struct IntegerDecompressorBuilder {
    bits: u32,
    contexts: u32,
    bits_high: u32,
    range: u32,
}

impl IntegerDecompressorBuilder {
    pub fn new() -> Self {
        Self {
            bits: DEFAULT_BITS,
            contexts: DEFAULT_CONTEXTS,
            bits_high: DEFAULT_BITS_HIGH,
            range: DEFAULT_RANGE,
        }
    }
    pub fn bits(&mut self, bits: u32) -> &mut Self {
        self.bits = bits;
        self
    }
    pub fn contexts(&mut self, contexts: u32) -> &mut Self {
        self.contexts = contexts;
        self
    }
    pub fn build(&self) -> IntegerDecompressor {
        IntegerDecompressor::new(self.bits, self.contexts, self.bits_high, self.range)
    }
    pub fn build_initialized(&self) -> IntegerDecompressor {
        let mut ic = self.build();
        ic.init();
        ic
    }
}
