// Ghost entropy coder (encoder side).
//
// Replaces src/encoders.rs when the crate is built with `--cfg laz_verif_ghost`.  Instead of
// arithmetic-coding a symbol it appends a record describing the operation to a private buffer:
//     tag:u8  arg:u32  hist:u64  sym:u32            (17 bytes)
// where `hist` digests every symbol the model coded before.  The ghost decoder (decoders.rs)
// asserts that it performs the same operation, on a model with the same history.  That the real
// coder implements this "lossless, exactly consumed channel" contract is what the entropy coder
// checks (properties ac-*) decide on the real src/encoders.rs and src/decoders.rs.
use crate::models;
use std::io::Write;

pub(crate) const MAGIC: [u8; 4] = [0x47, 0x48, 0x53, 0x54];
pub(crate) const REC: usize = 17;
pub(crate) const T_SYM: u8 = 1;
pub(crate) const T_BIT: u8 = 2;
pub(crate) const T_RAW: u8 = 3;
#[allow(dead_code)]
pub(crate) const T_INT: u8 = 4;

pub struct ArithmeticEncoder<T: Write> {
    buf: Vec<u8>,
    out_stream: T,
}

impl<T: Write> ArithmeticEncoder<T> {
    pub fn new(out_stream: T) -> Self {
        Self { buf: Vec::new(), out_stream }
    }

    pub fn reset(&mut self) {
        self.buf.clear();
    }

    pub fn done(&mut self) -> std::io::Result<()> {
        if self.buf.is_empty() {
            self.buf.extend_from_slice(&MAGIC);
        }
        crate::verif_api::trace(0xD0E);
        self.out_stream.write_all(&self.buf)?;
        Ok(())
    }

    fn ghost_put(&mut self, tag: u8, arg: u32, hist: u64, sym: u32) {
        if self.buf.is_empty() {
            self.buf.reserve(512);
            self.buf.extend_from_slice(&MAGIC);
        }
        crate::verif_api::trace(tag as u64);
        let mut r = [0u8; REC];
        r[0] = tag;
        r[1..5].copy_from_slice(&arg.to_le_bytes());
        r[5..13].copy_from_slice(&hist.to_le_bytes());
        r[13..17].copy_from_slice(&sym.to_le_bytes());
        self.buf.extend_from_slice(&r);
    }

    #[allow(dead_code)]
    pub(crate) fn ghost_int(
        &mut self,
        config: u32,
        hist: u64,
        pred: i32,
        context: u32,
        real: i32,
        corr: i32,
    ) {
        self.ghost_put(T_INT, config, hist, pred as u32);
        self.ghost_put(T_INT, corr as u32, context as u64, real as u32);
    }

    pub fn encode_bit(
        &mut self,
        model: &mut models::ArithmeticBitModel,
        sym: u32,
    ) -> std::io::Result<()> {
        crate::verif_api::check_enc(sym <= 1);
        self.ghost_put(T_BIT, 2, model.hist, sym);
        model.push(sym);
        Ok(())
    }

    pub fn encode_symbol(
        &mut self,
        model: &mut models::ArithmeticModel,
        sym: u32,
    ) -> std::io::Result<()> {
        crate::verif_api::check_enc(sym < model.symbols);
        crate::verif_api::trace_symbol(model.symbols, sym);
        self.ghost_put(T_SYM, model.symbols, model.hist, sym);
        model.push(sym);
        Ok(())
    }

    #[allow(dead_code)]
    pub fn write_bit(&mut self, sym: u32) -> std::io::Result<()> {
        crate::verif_api::check_enc(sym <= 1);
        self.ghost_put(T_RAW, 1, 0, sym);
        Ok(())
    }

    pub fn write_bits(&mut self, bits: u32, sym: u32) -> std::io::Result<()> {
        crate::verif_api::check_enc(bits >= 1 && bits < 32 && (sym >> bits) == 0);
        self.ghost_put(T_RAW, bits, 0, sym);
        Ok(())
    }

    #[allow(dead_code)]
    pub fn write_byte(&mut self, sym: u8) -> std::io::Result<()> {
        self.ghost_put(T_RAW, 8, 0, sym as u32);
        Ok(())
    }

    pub fn write_short(&mut self, sym: u16) -> std::io::Result<()> {
        self.ghost_put(T_RAW, 16, 0, sym as u32);
        Ok(())
    }

    pub fn write_int(&mut self, sym: u32) -> std::io::Result<()> {
        self.ghost_put(T_RAW, 32, 0, sym);
        Ok(())
    }

    pub fn write_int64(&mut self, sym: u64) -> std::io::Result<()> {
        self.write_int(sym as u32)?;
        self.write_int((sym >> 32) as u32)
    }

    pub fn get_ref(&self) -> &T {
        &self.out_stream
    }

    pub fn get_mut(&mut self) -> &mut T {
        &mut self.out_stream
    }

    pub fn into_inner(self) -> T {
        self.out_stream
    }
}
