// Havoc entropy decoder, used with `--cfg laz_verif_havoc`: every decoding operation may return
// any value the real decoder can return for *some* input bytes, or an I/O error.
// (That the real decode functions stay inside these ranges, and never fault, for arbitrary input
// bytes is decided separately on the real src/decoders.rs.)
use crate::models;
use std::io::Read;

#[allow(dead_code)]
pub const AC_MAX_LENGTH: u32 = 0xFFFF_FFFF;
#[allow(dead_code)]
pub const AC_MIN_LENGTH: u32 = 0x0100_0000;

pub struct ArithmeticDecoder<T: Read> {
    in_stream: T,
}

fn eof() -> std::io::Error {
    std::io::Error::from(std::io::ErrorKind::UnexpectedEof)
}

impl<T: Read> ArithmeticDecoder<T> {
    pub fn new(in_stream: T) -> Self {
        Self { in_stream }
    }

    pub fn reset(&mut self) {}

    pub fn read_init_bytes(&mut self) -> std::io::Result<()> {
        let mut v = [0u8; 4];
        self.in_stream.read_exact(&mut v)
    }

    fn havoc(&mut self) -> std::io::Result<u32> {
        let v = crate::verif_api::any_u32();
        if crate::verif_api::any_fault() {
            return Err(eof());
        }
        Ok(v)
    }

    #[allow(dead_code)]
    pub(crate) fn ghost_int(
        &mut self,
        config: u32,
        _hist: u64,
        pred: i32,
        _context: u32,
    ) -> std::io::Result<(i32, i32)> {
        // what the integer decompressor makes of any symbols: |corrector| <= 2^n for n < 32 bits
        let corr = self.havoc()? as i32;
        let bits = config & 63;
        let mut real = pred.wrapping_add(corr);
        if bits != 0 && bits < 32 {
            let range = 1i32 << bits;
            crate::verif_api::assume(corr > -range && corr <= range);
            if real < 0 {
                real += range;
            } else if real >= range {
                real -= range;
            }
        }
        Ok((real, corr))
    }

    pub fn decode_bit(&mut self, _: &mut models::ArithmeticBitModel) -> std::io::Result<u32> {
        let v = self.havoc()?;
        crate::verif_api::assume(v <= 1);
        Ok(v)
    }

    pub fn decode_symbol(&mut self, model: &mut models::ArithmeticModel) -> std::io::Result<u32> {
        let v = self.havoc()?;
        crate::verif_api::assume(v < model.symbols);
        // small models select contexts
        let v = if model.symbols <= 3 { crate::verif_api::concrete(v) } else { v };
        crate::verif_api::trace_symbol(model.symbols, v);
        Ok(v)
    }

    pub fn read_bit(&mut self) -> std::io::Result<u32> {
        let v = self.havoc()?;
        crate::verif_api::assume(v <= 1);
        Ok(v)
    }

    pub fn read_bits(&mut self, bits: u32) -> std::io::Result<u32> {
        let v = self.havoc()?;
        if bits < 32 {
            crate::verif_api::assume(v >> bits == 0);
        }
        Ok(v)
    }

    pub fn read_int(&mut self) -> std::io::Result<u32> {
        self.havoc()
    }

    pub fn read_int_64(&mut self) -> std::io::Result<u64> {
        let lower_int = u64::from(self.read_int()?);
        let upper_int = u64::from(self.read_int()?);
        Ok((upper_int << 32) | lower_int)
    }

    pub fn get_mut(&mut self) -> &mut T {
        &mut self.in_stream
    }

    pub fn get_ref(&self) -> &T {
        &self.in_stream
    }

    pub fn into_inner(self) -> T {
        self.in_stream
    }
}
