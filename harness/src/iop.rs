//! Files as a whole: one copy of the library writes, the other reads.
use crate::chunk::{chunks_of, dest, pick, size, Kind, BYTES, LAYERS, REAL0, REAL1, REAL3, REAL4, SMALL};
use crate::codec::{vlr_bytes, VARIABLE};
use crate::sx;
use crate::{rd, wr};
use std::io::{Cursor, Seek, SeekFrom};

/// the VLR as the writer stores it
fn stored(kind: Kind, chunk: u32) -> Vec<u8> {
    let mut v = Vec::with_capacity(64);
    wr::LazVlr::from_buffer(&vlr_bytes(kind.items, chunk)).unwrap().write_to(&mut v).unwrap();
    v
}
fn write(vlr: &[u8], pts: &[u8], s: usize, sizes: &[usize], variable: bool, start: usize) -> Vec<u8> {
    let mut c = wr::LasZipCompressor::new(dest(start), wr::LazVlr::from_buffer(vlr).unwrap()).unwrap();
    if variable {
        let mut at = 0;
        for (i, k) in sizes.iter().enumerate() {
            c.compress_many(&pts[at * s..(at + k) * s]).unwrap();
            if i + 1 < sizes.len() {
                c.finish_current_chunk().unwrap();
            }
            at += k;
        }
    } else {
        c.compress_many(pts).unwrap();
    }
    c.done().unwrap();
    c.into_inner().into_inner()
}
fn append(file: Vec<u8>, vlr: &[u8], pts: &[u8], start: usize, n: usize) -> Vec<u8> {
    let mut c = Cursor::new(file);
    c.set_position(start as u64);
    let mut a = wr::LasZipAppender::new(c, wr::LazVlr::from_buffer(vlr).unwrap(), n as u64).unwrap();
    a.compress_many(pts).unwrap();
    a.done().unwrap();
    a.into_inner().into_inner()
}
/// all points, then, from an index on, the rest
fn read(file: &[u8], vlr: &[u8], pts: &[u8], s: usize, start: usize, index: usize) {
    let mut src = Cursor::new(file);
    src.set_position(start as u64);
    let mut d = rd::LasZipDecompressor::new(src, rd::LazVlr::from_buffer(vlr).unwrap()).unwrap();
    let mut out = vec![0u8; pts.len()];
    d.decompress_many(&mut out).unwrap();
    sx::observe(1, &out);
    sx::assert(out == pts, 1);
    if index * s < pts.len() {
        d.seek(index as u64).unwrap();
        let mut out = vec![0u8; pts.len() - index * s];
        d.decompress_many(&mut out).unwrap();
        sx::assert(out == pts[index * s..], 2);
    }
}
fn file(kind: Kind, max: u64, variable: bool) {
    let s = size(kind.items);
    let n = pick(1, 0..max + 1);
    let (chunk, cuts) = if variable { (VARIABLE, pick(2, 0..1 << n.saturating_sub(1))) } else { (pick(2, 1..4) as u32, 0) };
    let start = if pick(3, 0..2) == 0 { 0 } else { 7 };
    let index = if n == 0 { 0 } else { pick(4, 0..n as u64) };
    let pts = (kind.make)(kind.items, n);
    let vlr = stored(kind, chunk);
    let sizes = if variable { chunks_of(n, chunk, cuts) } else { Vec::new() };
    let f = write(&vlr, &pts, s, &sizes, variable, start);
    read(&f, &vlr, &pts, s, start, index);
}
/// points are appended by the writer to a file that the reader's copy of the library wrote
fn appended(kind: Kind, max: u64, variable: bool) {
    let s = size(kind.items);
    let n = pick(1, 0..max + 1);
    let m = pick(5, 0..max + 1);
    let chunk = if variable { VARIABLE } else { pick(2, 1..4) as u32 };
    let pts = (kind.make)(kind.items, n + m);
    let vlr = stored(kind, chunk);
    let mut c = rd::LasZipCompressor::new(dest(3), rd::LazVlr::from_buffer(&vlr).unwrap()).unwrap();
    c.compress_many(&pts[..n * s]).unwrap();
    c.done().unwrap();
    let f = append(c.into_inner().into_inner(), &vlr, &pts[n * s..], 3, n);
    read(&f, &vlr, &pts, s, 3, 0);
}
/// the items of every point format are those the other side expects
fn formats() {
    let f = pick(1, 0..11) as u8;
    let extra = pick(2, 0..3) as u16;
    let a = wr::LazItemRecordBuilder::default_for_point_format_id(f, extra);
    let b = rd::LazItemRecordBuilder::default_for_point_format_id(f, extra);
    sx::assert(a.is_ok() == b.is_ok(), 3);
    if let (Ok(a), Ok(_)) = (a, b) {
        let s = a.iter().map(|i| i.size() as usize).sum::<usize>();
        let mut v = Vec::new();
        wr::LazVlr::from_laz_items(a).write_to(&mut v).unwrap();
        let pts = crate::bare::records(s, 2, 5);
        let w = write(&v, &pts, s, &[], false, 0);
        read(&w, &v, &pts, s, 0, 1);
    }
}

crate::harness! {
    fn iop_fixed_b = file(BYTES, 4, false);
    fn iop_fixed_l = file(LAYERS, 2, false);
    fn iop_fixed_0 = file(REAL0, 4, false);
    fn iop_fixed_1 = file(REAL1, 4, false);
    fn iop_fixed_3 = file(REAL3, 4, false);
    fn iop_fixed_4 = file(REAL4, 4, false);
    fn iop_fixed_r = file(SMALL, 3, false);
    fn iop_var_b = file(BYTES, 4, true);
    fn iop_var_0 = file(REAL0, 4, true);
    fn iop_var_3 = file(REAL3, 4, true);
    fn iop_var_r = file(SMALL, 3, true);
    fn iop_app_b = appended(BYTES, 3, false);
    fn iop_app_0 = appended(REAL0, 3, false);
    fn iop_app_3 = appended(REAL3, 3, false);
    fn iop_app_v0 = appended(REAL0, 3, true);
    fn iop_app_v3 = appended(REAL3, 3, true);
    fn iop_app_r = appended(SMALL, 2, false);
    fn iop_formats = formats();
}
