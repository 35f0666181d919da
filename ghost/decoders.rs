// Ghost entropy coder (decoder side); see encoders.rs.
use crate::encoders::{MAGIC, REC, T_BIT, T_RAW, T_SYM};
use crate::models;
use std::io::Read;

#[allow(dead_code)]
pub const AC_MAX_LENGTH: u32 = 0xFFFF_FFFF;
#[allow(dead_code)]
pub const AC_MIN_LENGTH: u32 = 0x0100_0000;

pub struct ArithmeticDecoder<T: Read> {
    in_stream: T,
    init: bool,
}

impl<T: Read> ArithmeticDecoder<T> {
    pub fn new(in_stream: T) -> Self {
        Self { in_stream, init: false }
    }

    pub fn reset(&mut self) {
        self.init = false;
    }

    pub fn read_init_bytes(&mut self) -> std::io::Result<()> {
        let mut v = [0u8; 4];
        self.in_stream.read_exact(&mut v)?;
        crate::verif_api::check_dec(v == MAGIC, 10);
        self.init = true;
        Ok(())
    }

    fn record(&mut self, tag: u8) -> std::io::Result<(u32, u64, u32)> {
        crate::verif_api::check_dec(self.init, 11);
        let mut r = [0u8; REC];
        self.in_stream.read_exact(&mut r)?;
        let a = u32::from_le_bytes([r[1], r[2], r[3], r[4]]);
        let h = u64::from_le_bytes([r[5], r[6], r[7], r[8], r[9], r[10], r[11], r[12]]);
        let s = u32::from_le_bytes([r[13], r[14], r[15], r[16]]);
        crate::verif_api::check_dec(r[0] == tag, 12);
        Ok((a, h, s))
    }

    fn ghost_get(&mut self, tag: u8, arg: u32, hist: u64) -> std::io::Result<u32> {
        let (a, h, s) = self.record(tag)?;
        crate::verif_api::check_dec(a == arg, 13);
        crate::verif_api::check_dec(h == hist, 14);
        Ok(s)
    }

    #[allow(dead_code)]
    pub(crate) fn ghost_int(
        &mut self,
        config: u32,
        hist: u64,
        pred: i32,
        context: u32,
    ) -> std::io::Result<(i32, i32)> {
        let p = self.ghost_get(crate::encoders::T_INT, config, hist)?;
        crate::verif_api::check_dec(p == pred as u32, 14);
        let (corr, ctx, real) = self.record(crate::encoders::T_INT)?;
        crate::verif_api::check_dec(ctx == context as u64, 15);
        Ok((real as i32, corr as i32))
    }

    pub fn decode_bit(&mut self, model: &mut models::ArithmeticBitModel) -> std::io::Result<u32> {
        let sym = self.ghost_get(T_BIT, 2, model.hist)?;
        model.push(sym);
        Ok(sym)
    }

    pub fn decode_symbol(&mut self, model: &mut models::ArithmeticModel) -> std::io::Result<u32> {
        let sym = self.ghost_get(T_SYM, model.symbols, model.hist)?;
        model.push(sym);
        Ok(sym)
    }

    pub fn read_bit(&mut self) -> std::io::Result<u32> {
        self.ghost_get(T_RAW, 1, 0)
    }

    pub fn read_bits(&mut self, bits: u32) -> std::io::Result<u32> {
        self.ghost_get(T_RAW, bits, 0)
    }

    pub fn read_int(&mut self) -> std::io::Result<u32> {
        self.ghost_get(T_RAW, 32, 0)
    }

    pub fn read_int_64(&mut self) -> std::io::Result<u64> {
        let lower_int = u64::from(self.read_int()?);
        let upper_int = u64::from(self.read_int()?);
        Ok((upper_int << 32) | lower_int)
    }

    pub fn get_mut(&mut self) -> &mut T {
        &mut self.in_stream
    }

    pub fn get_ref(&self) -> &T {
        &self.in_stream
    }

    pub fn into_inner(self) -> T {
        self.in_stream
    }
}
