//! Selective decompression: a selected field has the value it has without selection.
use crate::bare::records;
use crate::chunk::{compress, pick, size, Calls};
use crate::codec::{vlr_of, Items, VARIABLE};
use crate::sx;
use laz::{DecompressionSelection, LasZipDecompressor};
use std::io::Cursor;

const ITEMS3: Items = &[(10, 30, 3), (12, 8, 3), (13, 29, 3), (14, 2, 3)];
const ITEMS4: Items = &[(10, 30, 4), (12, 8, 4), (13, 29, 4), (14, 2, 4)];
const POINT3: Items = &[(10, 30, 3)];
const POINT4: Items = &[(10, 30, 4)];

/// The bits of a record of ITEMS3 that a selection asks for
fn mask_of(sel: u32, out: &mut [u8]) {
    let on = |b: u32| sel >> b & 1 == 1;
    // x, y, return numbers, scanner channel: always
    out[..8].fill(0xff);
    out[14] = 0xff;
    out[15] = 0x30;
    if on(0) {
        out[8..12].fill(0xff)
    }
    if on(1) {
        out[16] = 0xff
    }
    if on(2) {
        out[15] = 0xff
    }
    if on(3) {
        out[12..14].fill(0xff)
    }
    if on(4) {
        out[18..20].fill(0xff)
    }
    if on(5) {
        out[17] = 0xff
    }
    if on(6) {
        out[20..22].fill(0xff)
    }
    if on(7) {
        out[22..30].fill(0xff)
    }
    if out.len() > 30 {
        if on(8) {
            out[30..36].fill(0xff)
        }
        if on(9) {
            out[36..38].fill(0xff)
        }
        if on(10) {
            out[38..67].fill(0xff)
        }
        if on(11) {
            out[67..].fill(0xff)
        }
    }
}
fn compare(out: &[u8], pts: &[u8], sel: u32, s: usize, id: u32) {
    let mut m = vec![0u8; s];
    mask_of(sel, &mut m);
    let mut ok = true;
    for i in 0..out.len() {
        ok &= (out[i] ^ pts[i]) & m[i % s] == 0;
    }
    sx::assert(ok, id);
}

/// every selection, fixed records in several chunks and scanner channels
fn every(i: Items, lo: u32, hi: u32) {
    let (data, pts) = changing(i);
    let s = size(i);
    let sel = sx::any_u32(1);
    sx::assume(sel >= lo && sel < hi);
    let sel = sx::split(sel as u64) as u32;
    with_selection(i, &data, &pts, sel, s);
}
/// each part alone, none, all
fn each(i: Items) {
    let (data, pts) = changing(i);
    let m = pick(1, 0..14) as u32;
    let sel = match m {
        0..=11 => 1 << m,
        12 => 0,
        _ => u32::MAX,
    };
    with_selection(i, &data, &pts, sel, size(i));
}
fn changing(i: Items) -> (Vec<u8>, Vec<u8>) {
    let s = size(i);
    let n = 7;
    let mut pts = records(s, n, 5);
    for k in 0..n {
        pts[k * s + 14] = if k & 1 == 1 { 0x21 } else { 0x22 };
        pts[k * s + 15] = [0x00, 0x10, 0x31, 0x02, 0x1c, 0x10, 0x81][k];
        // every byte differs between any two records
        for j in [8, 12, 16, 17, 18, 20, 22, 27, 30, 33, 36, 37, 40, 50, 60, 67, 68] {
            pts[k * s + j] = pts[j].wrapping_add(37 * k as u8);
        }
    }
    let data = compress(&vlr_of(i, 4), &pts, 4, 0, 0, Calls::Many);
    (data, pts)
}
fn with_selection(i: Items, data: &[u8], pts: &[u8], sel: u32, s: usize) {
    let selection = DecompressionSelection(sel);
    let mut d = LasZipDecompressor::selective(Cursor::new(&data[..]), vlr_of(i, 4), selection).unwrap();
    let mut out = vec![0u8; pts.len()];
    d.decompress_many(&mut out).unwrap();
    compare(&out, &pts, sel, s, 1);
    // the selection stays with the decompressor when it is moved
    d.seek(5).unwrap();
    d.decompress_one(&mut out[..s]).unwrap();
    compare(&out[..s], &pts[5 * s..6 * s], sel, s, 2);
}

/// records whose fields other than x, y are arbitrary; each field alone, all but it, all, none
fn fields<const K: usize>(i: Items, masks: core::ops::Range<u64>, free: core::ops::Range<usize>) {
    let mut pts = records(30, 2, 6);
    pts.resize(30 * (2 + K), 0);
    let inp: [[u8; 30]; K] = core::array::from_fn(|_| sx::any(0));
    sx::trace_limit(128);
    for (k, r) in inp.iter().enumerate() {
        pts.copy_within(30..60, 60 + 30 * k);
        for j in free.clone() {
            if j != 14 {
                pts[60 + 30 * k + j] = r[j];
            }
        }
        let ch = sx::split(((r[15] >> 4) & 3) as u64) as u8;
        pts[60 + 30 * k + 15] = pts[60 + 30 * k + 15] & 0xcf | ch << 4;
    }
    let data = compress(&vlr_of(i, 100), &pts, 100, 0, 0, Calls::Many);
    let m = pick(2, masks) as u32;
    let sel = match m {
        0..=7 => 1 << m,
        8..=15 => !(1 << (m - 8)),
        16 => 0,
        _ => u32::MAX,
    };
    let mut d = LasZipDecompressor::selective(Cursor::new(&data[..]), vlr_of(i, 100), DecompressionSelection(sel)).unwrap();
    let mut out = vec![0u8; pts.len()];
    d.decompress_many(&mut out).unwrap();
    compare(&out, &pts, sel, 30, 3);
}

/// formats without selective decompression ignore the selection, whatever it is
fn ignored() {
    const I: Items = &[(6, 20, 2), (7, 8, 2), (8, 6, 2), (0, 2, 2)];
    let pts = records(size(I), 6, 5);
    let data = compress(&vlr_of(I, 4), &pts, 4, 0, 0, Calls::Many);
    let sel = sx::any_u32(1);
    let mut d = LasZipDecompressor::selective(Cursor::new(&data[..]), vlr_of(I, 4), DecompressionSelection(sel)).unwrap();
    let mut out = vec![0u8; pts.len()];
    d.decompress_many(&mut out).unwrap();
    sx::assert(out == pts, 4);
    let _ = VARIABLE;
}

/// the builder sets, clears and reports exactly its bit
fn builder() {
    let v = sx::any_u32(1);
    let s = DecompressionSelection(v);
    type B = fn(DecompressionSelection) -> DecompressionSelection;
    type A = fn(DecompressionSelection) -> bool;
    type S = DecompressionSelection;
    let t: [(u32, B, B, A); 12] = [
        (0, S::decompress_z, S::skip_z, S::should_decompress_z),
        (1, S::decompress_classification, S::skip_classification, S::should_decompress_classification),
        (2, S::decompress_flags, S::skip_flags, S::should_decompress_flags),
        (3, S::decompress_intensity, S::skip_intensity, S::should_decompress_intensity),
        (4, S::decompress_scan_angle, S::skip_scan_angle, S::should_decompress_scan_angle),
        (5, S::decompress_user_data, S::skip_user_data, S::should_decompress_user_data),
        (6, S::decompress_point_source_id, S::skip_point_source_id, S::should_decompress_point_source_id),
        (7, S::decompress_gps_time, S::skip_gps_time, S::should_decompress_gps_time),
        (8, S::decompress_rgb, S::skip_rgb, S::should_decompress_rgb),
        (9, S::decompress_nir, S::skip_nir, S::should_decompress_nir),
        (10, S::decompress_wavepacket, S::skip_wavepacket, S::should_decompress_wavepacket),
        (11, S::decompress_extra_bytes, S::skip_extra_bytes, S::should_decompress_extra_bytes),
    ];
    for (b, set, clear, get) in t {
        sx::assert(set(s).0 == v | 1 << b, 10);
        sx::assert(clear(s).0 == v & !(1 << b), 11);
        sx::assert(get(s) == (v >> b & 1 == 1), 12);
    }
    sx::assert(S::all().0 == u32::MAX && S::base().0 == 0 && S::xy_returns_channel().0 == 0, 13);
}

crate::harness! {
    fn sel_every3a = every(ITEMS3, 0, 2048);
    fn sel_every3b = every(ITEMS3, 2048, 4096);
    fn sel_every4a = every(ITEMS4, 0, 2048);
    fn sel_every4b = every(ITEMS4, 2048, 4096);
    fn sel_one3_z = fields::<1>(POINT3, 0..18, 8..12);
    fn sel_one3_i = fields::<1>(POINT3, 0..18, 12..14);
    fn sel_one3_c = fields::<1>(POINT3, 0..18, 15..18);
    fn sel_one3_a = fields::<1>(POINT3, 0..18, 18..22);
    fn sel_one3_t = fields::<1>(POINT3, 0..18, 22..30);
    fn sel_one4_z = fields::<1>(POINT4, 0..18, 8..12);
    fn sel_one4_i = fields::<1>(POINT4, 0..18, 12..14);
    fn sel_one4_c = fields::<1>(POINT4, 0..18, 15..18);
    fn sel_one4_a = fields::<1>(POINT4, 0..18, 18..22);
    fn sel_one4_t = fields::<1>(POINT4, 0..18, 22..30);
    fn sel_gps3 = fields::<2>(POINT3, 7..8, 22..30);
    fn sel_gps4 = fields::<2>(POINT4, 7..8, 22..30);
    fn sel_each3 = each(ITEMS3);
    fn sel_each4 = each(ITEMS4);
    fn sel_ignored = ignored();
    fn sel_builder = builder();
}
