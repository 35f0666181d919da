//! The chunk table's on-disk form.
use crate::chunk::pick;
use crate::codec::{vlr_of, VARIABLE};
use crate::sx;
use laz::laszip::{ChunkTable, ChunkTableEntry};
use laz::LazVlr;
use std::io::Cursor;

fn vlr(chunk: u32) -> LazVlr {
    vlr_of(&[(0, 2, 2)], chunk)
}
fn entries<const N: usize>() -> [(u32, u32); N] {
    core::array::from_fn(|_| (sx::any_u32(1), sx::any_u32(2)))
}
fn table_of(e: &[(u32, u32)]) -> ChunkTable {
    let mut t = ChunkTable::with_capacity(e.len());
    for (p, b) in e {
        t.push(ChunkTableEntry { point_count: *p as u64, byte_count: *b as u64 });
    }
    t
}
/// `start` bytes, the offset (or -1), `data` bytes, the table, and the offset again when `tail`
fn file(t: &ChunkTable, chunk: u32, start: usize, data: usize, first: bool, tail: bool) -> Vec<u8> {
    let mut v = vec![0xA5u8; start];
    v.reserve(1024);
    let off = (start + 8 + data) as i64;
    v.extend_from_slice(&(if first { off } else { -1 }).to_le_bytes());
    v.resize(start + 8 + data, 0x77);
    let mut c = Cursor::new(v);
    c.set_position(off as u64);
    t.write_to(&mut c, &vlr(chunk)).unwrap();
    let mut v = c.into_inner();
    if tail {
        v.extend_from_slice(&off.to_le_bytes());
    }
    v
}
fn check(t: &ChunkTable, e: &[(u32, u32)], chunk: u32) {
    sx::assert(t.len() == e.len(), 1);
    for (x, (p, b)) in t.as_ref().iter().zip(e) {
        sx::assert(x.byte_count == *b as u64, 2);
        sx::assert(x.point_count == if chunk == VARIABLE { *p as u64 } else { chunk as u64 }, 3);
    }
}
/// any counts come back, and the source is left where the points start
fn round<const N: usize>(chunk: u32) {
    let e = entries::<N>();
    let start = if pick(3, 0..2) == 0 { 0 } else { 9 };
    let place = pick(4, 0..2);
    let f = file(&table_of(&e), chunk, start, 5, place == 0, place != 0);
    let mut c = Cursor::new(&f[..]);
    c.set_position(start as u64);
    let t = ChunkTable::read_from(&mut c, &vlr(chunk)).unwrap();
    sx::assert(c.position() == start as u64 + 8, 4);
    check(&t, &e, chunk);
}
/// no usable offset anywhere: an error
fn missing() {
    let (a, b) = (sx::any_u64(1), sx::any_u64(2));
    let start = 4u64;
    sx::assume(a as i64 <= start as i64 && b as i64 <= start as i64);
    let mut v = vec![0u8; 4];
    v.extend_from_slice(&a.to_le_bytes());
    v.extend_from_slice(&[1, 2, 3]);
    v.extend_from_slice(&b.to_le_bytes());
    let mut c = Cursor::new(&v[..]);
    c.set_position(start);
    let chunk = if pick(3, 0..2) == 0 { 10 } else { VARIABLE };
    sx::assert(ChunkTable::read_from(&mut c, &vlr(chunk)).is_err(), 5);
}
/// the table's bytes: version, count, and nothing else when it is empty
fn header<const N: usize>() {
    let e = entries::<N>();
    let mut v = Vec::new();
    table_of(&e).write_to(&mut v, &vlr(VARIABLE)).unwrap();
    sx::assert(v[..4] == [0; 4] && v[4..8] == (N as u32).to_le_bytes(), 6);
    sx::assert(N > 0 || v.len() == 8, 7);
}

crate::harness! {
    fn ct_fixed_0 = round::<0>(7);
    fn ct_fixed_1 = round::<1>(7);
    fn ct_fixed_2 = round::<2>(50000);
    fn ct_fixed_3 = round::<3>(50000);
    fn ct_fixed_4 = round::<4>(0xfffffffe);
    fn ct_var_0 = round::<0>(VARIABLE);
    fn ct_var_1 = round::<1>(VARIABLE);
    fn ct_var_2 = round::<2>(VARIABLE);
    fn ct_var_3 = round::<3>(VARIABLE);
    fn ct_var_5 = round::<5>(VARIABLE);
    fn ct_missing = missing();
    fn ct_header0 = header::<0>();
    fn ct_header2 = header::<2>();
}
