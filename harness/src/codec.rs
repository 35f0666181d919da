//! Per-field losslessness: N arbitrary records through the public compressor and decompressor.
use crate::chunk::pick;
use crate::sx;
use crate::{rd, wr};
use laz::LazVlr;
use std::io::Cursor;

/// (type, size, version) of the items, as stored in a LASzip VLR
pub type Items = &'static [(u16, u16, u16)];
pub const VARIABLE: u32 = u32::MAX;

/// A VLR's on-disk form
pub fn vlr_bytes(items: Items, chunk: u32) -> Vec<u8> {
    let mut b = Vec::with_capacity(128);
    b.extend_from_slice(&(if items[0].2 >= 3 { 3u16 } else { 2 }).to_le_bytes());
    b.extend_from_slice(&[0, 0, 2, 2, 0, 0, 0, 0, 0, 0]);
    b.extend_from_slice(&chunk.to_le_bytes());
    b.extend_from_slice(&[0xff; 16]);
    b.extend_from_slice(&(items.len() as u16).to_le_bytes());
    for i in items {
        b.extend_from_slice(&i.0.to_le_bytes());
        b.extend_from_slice(&i.1.to_le_bytes());
        b.extend_from_slice(&i.2.to_le_bytes());
    }
    b
}
pub fn vlr_of(items: Items, chunk: u32) -> LazVlr {
    LazVlr::from_buffer(&vlr_bytes(items, chunk)).unwrap()
}
pub fn compressed(i: Items, pts: &[u8], room: usize) -> Vec<u8> {
    let vlr = wr::LazVlr::from_buffer(&vlr_bytes(i, 100)).unwrap();
    let mut c = wr::LasZipCompressor::new(Cursor::new(Vec::<u8>::with_capacity(room)), vlr).unwrap();
    c.compress_many(pts).unwrap();
    c.done().unwrap();
    c.into_inner().into_inner()
}
pub fn decompress(i: Items, v: Vec<u8>, out: &mut [u8]) {
    let vlr = rd::LazVlr::from_buffer(&vlr_bytes(i, 100)).unwrap();
    let mut d = rd::LasZipDecompressor::new(Cursor::new(v), vlr).unwrap();
    d.decompress_many(out).unwrap();
}

/// compress `pts`, decompress them again, and compare
pub fn roundtrip<const N: usize>(i: Items, pts: &[u8; N]) {
    let v = compressed(i, pts, 2048);
    let mut out = [0u8; N];
    decompress(i, v, &mut out);
    sx::observe(1, &out);
    sx::assert(out == *pts, 1);
}

pub fn roundtrip_vec(i: Items, pts: &[u8]) {
    let v = compressed(i, pts, 16384);
    let mut out = vec![0u8; pts.len()];
    decompress(i, v, &mut out);
    sx::observe(1, &out[out.len() - pts.len().min(90)..]);
    sx::assert(out == pts, 1);
}

/// N bytes of records made of `i`
fn items<const N: usize>(i: Items) {
    let pts: [u8; N] = sx::any(0);
    roundtrip(i, &pts);
}

/// ... on separate paths per value of the "what changed" symbol
fn split<const N: usize>(i: Items) {
    sx::trace_limit(128);
    items::<N>(i)
}

fn set_channel(flags: &mut u8, c: u64) {
    *flags = (*flags & 0xcf) | ((c as u8) << 4)
}

/// point14 records, the first in scanner channel `c`; on separate paths per scanner channel, and
/// per combination of changed fields
fn p14<const N: usize>(i: Items, c: u64) {
    sx::trace_limit(128);
    let mut pts: [u8; N] = sx::any(0);
    set_channel(&mut pts[15], c);
    for k in 1..N / 30 {
        let ch = sx::split(((pts[k * 30 + 15] >> 4) & 3) as u64);
        set_channel(&mut pts[k * 30 + 15], ch);
    }
    roundtrip(i, &pts);
}

/// point14 records that only differ in the bytes of `free` (and the scanner channel, on separate
/// paths, when `channels`); `returns`: the return numbers come from this list, on separate paths
fn p14_free<const N: usize>(
    i: Items,
    free: &[core::ops::Range<usize>],
    channels: bool,
    returns: &[u8],
) {
    sx::trace_limit(128);
    let inp: [u8; N] = sx::any(0);
    let mut pts = [0u8; N];
    for k in 0..N / 30 {
        pts.copy_within(0..30, 30 * k);
        for r in if k == 0 { &[0..30][..] } else { free } {
            for j in r.clone() {
                pts[30 * k + j] = inp[30 * k + j];
            }
        }
        if channels || k == 0 {
            set_channel(&mut pts[30 * k + 15], sx::split(((inp[30 * k + 15] >> 4) & 3) as u64));
        }
        if !returns.is_empty() {
            let i = sx::split((inp[30 * k + 14] & 3) as u64) as usize;
            pts[30 * k + 14] = returns[i % returns.len()];
        }
    }
    roundtrip(i, &pts);
}

/// Records of S bytes: a point14 of which only the scanner channel varies, then arbitrary bytes
fn after_p14<const N: usize, const S: usize>(i: Items, limit: u32) {
    sx::trace_limit(limit);
    let mut pts: [u8; N] = sx::any(0);
    for k in 0..N / S {
        let ch = sx::split(((pts[k * S + 15] >> 4) & 3) as u64);
        for j in 0..30 {
            pts[k * S + j] = 0;
        }
        pts[k * S + 14] = 0x11;
        set_channel(&mut pts[k * S + 15], ch);
    }
    roundtrip(i, &pts);
}

/// A history of fixed records, on separate paths per history, then K bytes of arbitrary records
fn after<const K: usize>(i: Items, histories: &[Vec<u8>], limit: u32) {
    let h = sx::any_u8(7) as usize;
    sx::assume(h < histories.len());
    let mut pts = histories[sx::split(h as u64) as usize].clone();
    sx::trace_limit(limit);
    let inp: [u8; K] = sx::any(0);
    let at = pts.len();
    pts.extend_from_slice(&inp);
    if i[0].0 == 10 {
        let size = i.iter().map(|x| x.1 as usize).sum::<usize>();
        for k in (at..pts.len()).step_by(size) {
            let ch = sx::split(((pts[k + 15] >> 4) & 3) as u64);
            set_channel(&mut pts[k + 15], ch);
        }
    }
    let v = compressed(i, &pts, 16384);
    let mut out = vec![0u8; pts.len()];
    decompress(i, v, &mut out);
    sx::observe(1, &out[at..]);
    sx::assert(out == pts, 1);
}
fn seeds(i: Items, n: usize, seeds: core::ops::Range<u64>) -> Vec<Vec<u8>> {
    let size = i.iter().map(|x| x.1 as usize).sum::<usize>();
    seeds.map(|s| crate::bare::records(size, n, s)).collect()
}
/// Histories of GPS times that lead to every kind of state: reference difference set, three
/// extreme multipliers of each kind in a row, several interleaved sequences
fn times() -> Vec<Vec<i64>> {
    let t = 0x4100_0000_0000_0000i64;
    let (u, v, w) = (0x1234_5678_9abcu64 as i64, -7_000_000_000_000i64, 0x7fff_ffff_0000_0000i64);
    let sums = |d: &[i64]| {
        let mut x = t;
        let mut l = vec![x];
        for d in d {
            x += d;
            l.push(x);
        }
        l
    };
    vec![
        sums(&[1000]),
        sums(&[1000, 3, -4, 5]),
        sums(&[10, 50000, 60000, 70000]),
        sums(&[10, -50000, -60000, -70000]),
        sums(&[-7, 700_000, -20, 900_000, 3, 3]),
        vec![t, t + 5, u, u + 9, v, v - 100, w, w + 1, t + 9],
        vec![t, u, v, w, t + 1, w + 1, 7 * u, v + 3],
        sums(&[1000, 3, -4, 5, 6]),
        sums(&[10, 50000, 60000, 70000, 80000]),
        sums(&[1, 0, 0, i32::MAX as i64, i32::MIN as i64]),
    ]
}
/// All four sequences taken, then a fifth
fn full_times() -> Vec<Vec<i64>> {
    // all four sequences taken, with as many extreme multipliers in each as `k` says, then a fifth
    let all = |k: usize, steps: &[i64]| {
        let mut l = vec![];
        for s in 0..4 {
            let base = 0x4100_0000_0000_0000i64 + s * (1 << 45);
            l.push(base);
            let mut x = base + 10;
            l.push(x);
            for _ in 0..k {
                x += 50000;
                l.push(x);
            }
        }
        let mut x = 0x1234_5678_9abci64;
        l.push(x);
        for d in steps {
            x += d;
            l.push(x);
        }
        l
    };
    let mut l = vec![all(3, &[10]), all(3, &[]), all(2, &[10, 50000])];
    for k in [1, 3] {
        l.push(all(k, &[10, 50000]));
        l.push(all(k, &[10, -50000]));
        l.push(all(k, &[10, 50000, 50000, -60000]));
        l.push(all(k, &[1 << 46, 10, 1 << 46, 7, 1 << 46, 10, 50000, 50000]));
        l.push(all(k, &[1 << 46, 1 << 46, 1 << 46, 9, 90000, -(1 << 46)]));
    }
    l
}
fn gps_histories(record: usize, at: usize, full: bool) -> Vec<Vec<u8>> {
    if full { full_times() } else { times() }
        .iter()
        .map(|l| {
            let mut v = vec![0u8; l.len() * record];
            for (i, t) in l.iter().enumerate() {
                v[i * record + at..][..8].copy_from_slice(&t.to_le_bytes());
                if record >= 30 {
                    v[i * record + 14] = 0x11;
                }
            }
            v
        })
        .collect()
}
/// GPS times of point14 records after those histories; K arbitrary times
fn p14_times<const K: usize>(i: Items, switch: bool, full: bool) {
    let histories = gps_histories(30, 22, full);
    let h = sx::any_u8(7) as usize;
    sx::assume(h < histories.len());
    let mut pts = histories[sx::split(h as u64) as usize].clone();
    sx::trace_limit(128);
    let inp: [[u8; 9]; K] = core::array::from_fn(|_| sx::any(0));
    for x in inp {
        let mut r = [0u8; 30];
        r[14] = 0x11;
        r[22..30].copy_from_slice(&x[..8]);
        if switch {
            set_channel(&mut r[15], sx::split((x[8] & 1) as u64));
        }
        pts.extend_from_slice(&r);
    }
    roundtrip_vec(i, &pts);
}

/// 80 records whose return numbers, times, coordinates and intensities take every class and leave
/// different predictions in each; then one with any return numbers, with and without a new time
fn returns(i: Items, channels: bool) {
    let s = i.iter().map(|x| x.1 as usize).sum::<usize>();
    let mut r = 0x9e3779b97f4a7c15u64;
    let mut next = || {
        r ^= r << 13;
        r ^= r >> 7;
        r ^= r << 17;
        r >> 8
    };
    let n = 80;
    let mut pts = vec![0u8; (n + 1) * s];
    let (mut at, mut time) = ([0i32; 3], 0x4100_0000_0000_0000u64);
    for k in 0..n + 1 {
        let p = &mut pts[k * s..][..s];
        for j in 0..3 {
            at[j] = at[j].wrapping_add((next() % 200000) as i32 - 70000);
            p[4 * j..][..4].copy_from_slice(&at[j].to_le_bytes());
        }
        p[12..14].copy_from_slice(&(next() as u16).to_le_bytes());
        p[14] = next() as u8;
        p[15] = 2;
        if s >= 30 {
            if channels {
                set_channel(&mut p[15], next() & 1)
            }
            let new = if k == n { sx::split((sx::any_u8(1) & 1) as u64) } else { next() & 1 };
            time += new * (next() % 1000);
            p[22..30].copy_from_slice(&time.to_le_bytes());
        }
        if k == n {
            p[14] = sx::split(sx::any_u8(0) as u64) as u8
        }
    }
    roundtrip_vec(i, &pts);
}

/// 60 times whose steps are all kinds of multiples of the reference step; then a step of each
/// multiple and around it, and two more
fn multiples(i: Items) {
    let s = i.iter().map(|x| x.1 as usize).sum::<usize>();
    let mut r = 0x9e3779b97f4a7c15u64;
    let mut next = |n: u64| {
        r ^= r << 13;
        r ^= r >> 7;
        r ^= r << 17;
        (r >> 20) % n
    };
    let step = 1000i64;
    let mut steps = vec![step];
    for k in 0..60 {
        let m = match k % 6 {
            0 => next(9) as i64 + 1,
            1 => next(30) as i64 + 10,
            2 => -(next(9) as i64),
            3 => next(480) as i64 + 20,
            4 => [500, 501, -10, -11, 0, 1, 700, -60, 2, 10][k / 6],
            _ => 1,
        };
        steps.push(m * step + next(300) as i64 - 150);
        if k % 13 == 5 {
            steps.push(step + next(7) as i64)
        }
    }
    steps.extend_from_slice(&[1000, 1, 1000]);
    let m = match pick(0, 0..37) as i64 {
        x @ 0..=29 => x - 13,
        x => x - 30 + 496,
    };
    let d = [0, -500, -499, 499, 500, 1][pick(1, 0..6)];
    steps.push(m * step + d);
    steps.push(2 * step + 3);
    steps.push(10 * step);
    let mut pts = vec![0u8; (steps.len() + 1) * s];
    let mut t = 0x4100_0000_0000_0000i64;
    for k in 0..steps.len() + 1 {
        let p = &mut pts[k * s..][..s];
        if s >= 30 {
            p[14] = 0x11
        }
        p[if s >= 30 { 22 } else { 0 }..][..8].copy_from_slice(&t.to_le_bytes());
        if k < steps.len() {
            t += steps[k]
        }
    }
    roundtrip_vec(i, &pts);
}

const P10V1: Items = &[(6, 20, 1)];
const P10V2: Items = &[(6, 20, 2)];
const GPSV1: Items = &[(7, 8, 1)];
const GPSV2: Items = &[(7, 8, 2)];
const RGBV1: Items = &[(8, 6, 1)];
const RGBV2: Items = &[(8, 6, 2)];
const WPV1: Items = &[(9, 29, 1)];
const WPV2: Items = &[(9, 29, 2)];
const P14V3: Items = &[(10, 30, 3)];
const P14V4: Items = &[(10, 30, 4)];

crate::harness! {
    fn mul_gpsv1 = multiples(GPSV1);
    fn mul_gpsv2 = multiples(GPSV2);
    fn mul_p14v3 = multiples(P14V3);
    fn mul_p14v4 = multiples(P14V4);
    fn ret_p10v1 = returns(P10V1, false);
    fn ret_p10v2 = returns(P10V2, false);
    fn ret_p14v3 = returns(P14V3, false);
    fn ret_p14v4 = returns(P14V4, false);
    fn ret_p14v3_c = returns(P14V3, true);
    fn ret_p14v4_c = returns(P14V4, true);
    fn p10v2_2 = items::<40>(P10V2);
    fn p10v1_2 = items::<40>(P10V1);
    fn p10v1_3 = items::<60>(P10V1);
    fn p10v2_3 = items::<60>(P10V2);
    fn gpsv1_2 = items::<16>(GPSV1);
    fn gpsv1_3 = items::<24>(GPSV1);
    fn gpsv1_4 = items::<32>(GPSV1);
    fn gpsv2_2 = items::<16>(GPSV2);
    fn gpsv2_3 = split::<24>(GPSV2);
    fn gpsv2_4 = split::<32>(GPSV2);
    fn rgbv1_2 = items::<12>(RGBV1);
    fn rgbv1_3 = items::<18>(RGBV1);
    fn rgbv2_2 = split::<12>(RGBV2);
    fn rgbv2_3 = split::<18>(RGBV2);
    fn wpv1_2 = items::<58>(WPV1);
    fn wpv1_3 = items::<87>(WPV1);
    fn wpv2_2 = items::<58>(WPV2);
    fn wpv2_3 = items::<87>(WPV2);
    fn h_wpv2 = after::<29>(WPV2, &seeds(WPV2, 12, 0..4), 128);
    fn byv1_3 = items::<9>(&[(0, 3, 1)]);
    fn byv2_3 = items::<9>(&[(0, 3, 2)]);
    fn p14v3_2_c0 = p14::<60>(P14V3, 0);
    fn p14v3_2_c1 = p14::<60>(P14V3, 1);
    fn p14v3_2_c2 = p14::<60>(P14V3, 2);
    fn p14v3_2_c3 = p14::<60>(P14V3, 3);
    fn p14v4_2_c0 = p14::<60>(P14V4, 0);
    fn p14v4_2_c1 = p14::<60>(P14V4, 1);
    fn p14v4_2_c2 = p14::<60>(P14V4, 2);
    fn p14v4_2_c3 = p14::<60>(P14V4, 3);
    fn p14v3_gps3 = p14_free::<90>(P14V3, &[22..30], false, &[]);
    fn p14v3_gps4 = p14_free::<120>(P14V3, &[22..30], false, &[]);
    fn p14v3_gpsc3 = p14_free::<90>(P14V3, &[22..30], true, &[]);
    fn p14v3_xyz3 = p14_free::<90>(P14V3, &[0..12], true, &[0x11, 0x21, 0x22]);
    fn p14v3_cls3 = p14_free::<90>(P14V3, &[12..14, 15..18], true, &[0x11, 0x21]);
    fn p14v3_ang3 = p14_free::<90>(P14V3, &[18..22], true, &[]);
    fn p14v3_ret3 = p14_free::<90>(P14V3, &[14..15, 22..23], true, &[]);
    fn rgb14v3_2 = split::<12>(&[(11, 6, 3)]);
    fn p14v4_gps3 = p14_free::<90>(P14V4, &[22..30], false, &[]);
    fn p14v4_gps4 = p14_free::<120>(P14V4, &[22..30], false, &[]);
    fn p14v4_gpsc3 = p14_free::<90>(P14V4, &[22..30], true, &[]);
    fn p14v4_xyz3 = p14_free::<90>(P14V4, &[0..12], true, &[0x11, 0x21, 0x22]);
    fn p14v4_cls3 = p14_free::<90>(P14V4, &[12..14, 15..18], true, &[0x11, 0x21]);
    fn p14v4_ang3 = p14_free::<90>(P14V4, &[18..22], true, &[]);
    fn p14v4_ret3 = p14_free::<90>(P14V4, &[14..15, 22..23], true, &[]);
    fn rgb14v4_2 = split::<12>(&[(11, 6, 4)]);
    fn nir14v3_2 = split::<16>(&[(12, 8, 3)]);
    fn nir14v4_2 = split::<16>(&[(12, 8, 4)]);
    fn wp14v3_2 = items::<58>(&[(13, 29, 3)]);
    fn wp14v4_2 = items::<58>(&[(13, 29, 4)]);
    fn wp14v3_3 = items::<87>(&[(13, 29, 3)]);
    fn wp14v4_3 = items::<87>(&[(13, 29, 4)]);
    fn by14v3_3 = items::<9>(&[(14, 3, 3)]);
    fn by14v4_3 = items::<9>(&[(14, 3, 4)]);
    fn c_rgb14v3_3 = after_p14::<108, 36>(&[(10, 30, 3), (11, 6, 3)], 128);
    fn c_rgb14v4_3 = after_p14::<108, 36>(&[(10, 30, 4), (11, 6, 4)], 128);
    fn c_nir14v3_2 = after_p14::<76, 38>(&[(10, 30, 3), (12, 8, 3)], 128);
    fn c_nir14v4_2 = after_p14::<76, 38>(&[(10, 30, 4), (12, 8, 4)], 128);
    fn c_nir14v3_3 = after_p14::<114, 38>(&[(10, 30, 3), (12, 8, 3)], 128);
    fn c_nir14v4_3 = after_p14::<114, 38>(&[(10, 30, 4), (12, 8, 4)], 128);
    fn c_wp14v3_3 = after_p14::<177, 59>(&[(10, 30, 3), (13, 29, 3)], 0);
    fn c_wp14v4_3 = after_p14::<177, 59>(&[(10, 30, 4), (13, 29, 4)], 0);
    fn c_by14v3_3 = after_p14::<96, 32>(&[(10, 30, 3), (14, 2, 3)], 0);
    fn c_by14v4_3 = after_p14::<96, 32>(&[(10, 30, 4), (14, 2, 4)], 0);
    fn h_p10v1 = after::<20>(P10V1, &seeds(P10V1, 12, 0..3), 0);
    fn h_p10v1_2 = after::<40>(P10V1, &seeds(P10V1, 12, 3..4), 0);
    fn h_gpsv1_1 = after::<8>(GPSV1, &gps_histories(8, 0, false), 128);
    fn h_gpsv1_2 = after::<16>(GPSV1, &gps_histories(8, 0, false), 128);
    fn h_gpsv1_f = after::<16>(GPSV1, &gps_histories(8, 0, true)[..3], 128);
    fn h_gpsv1_f1 = after::<8>(GPSV1, &gps_histories(8, 0, true), 128);
    fn h_rgbv1 = after::<6>(RGBV1, &seeds(RGBV1, 12, 0..3), 128);
    fn h_byv1 = after::<6>(&[(0, 3, 1)], &seeds(&[(0, 3, 1)], 12, 0..3), 128);
    fn h_p10v2 = after::<20>(P10V2, &seeds(P10V2, 12, 0..3), 0);
    fn h_p10v2_2 = after::<40>(P10V2, &seeds(P10V2, 12, 3..4), 0);
    fn h_gpsv2_1 = after::<8>(GPSV2, &gps_histories(8, 0, false), 128);
    fn h_gpsv2_2 = after::<16>(GPSV2, &gps_histories(8, 0, false), 128);
    fn h_gpsv2_f = after::<16>(GPSV2, &gps_histories(8, 0, true)[..3], 128);
    fn h_gpsv2_f1 = after::<8>(GPSV2, &gps_histories(8, 0, true), 128);
    fn h_rgbv2 = after::<6>(RGBV2, &seeds(RGBV2, 12, 0..3), 128);
    fn h_byv2 = after::<6>(&[(0, 3, 2)], &seeds(&[(0, 3, 2)], 12, 0..3), 128);
    fn h_wpv1 = after::<29>(WPV1, &seeds(WPV1, 12, 0..4), 128);
    fn h_p14v3_0 = after::<30>(P14V3, &seeds(P14V3, 16, 0..1), 128);
    fn h_p14v3_1 = after::<30>(P14V3, &seeds(P14V3, 16, 1..2), 128);
    fn h_p14v3_2 = after::<30>(P14V3, &seeds(P14V3, 16, 2..3), 128);
    fn h_p14v3_3 = after::<30>(P14V3, &seeds(P14V3, 16, 3..4), 128);
    fn h_p14v3_t1 = p14_times::<1>(P14V3, false, false);
    fn h_p14v3_t2 = p14_times::<2>(P14V3, false, false);
    fn h_p14v3_t2c = p14_times::<2>(P14V3, true, false);
    fn h_p14v3_f = p14_times::<2>(P14V3, false, true);
    fn h_p14v3_f1 = p14_times::<1>(P14V3, false, true);
    fn h_rgb14v3 = after::<6>(&[(11, 6, 3)], &seeds(&[(11, 6, 3)], 12, 0..3), 128);
    fn h_nir14v3 = after::<8>(&[(12, 8, 3)], &seeds(&[(12, 8, 3)], 12, 0..3), 128);
    fn h_wp14v3 = after::<29>(&[(13, 29, 3)], &seeds(&[(13, 29, 3)], 12, 0..4), 128);
    fn h_by14v3 = after::<6>(&[(14, 3, 3)], &seeds(&[(14, 3, 3)], 12, 0..3), 128);
    fn h_p14v4_0 = after::<30>(P14V4, &seeds(P14V4, 16, 0..1), 128);
    fn h_p14v4_1 = after::<30>(P14V4, &seeds(P14V4, 16, 1..2), 128);
    fn h_p14v4_2 = after::<30>(P14V4, &seeds(P14V4, 16, 2..3), 128);
    fn h_p14v4_3 = after::<30>(P14V4, &seeds(P14V4, 16, 3..4), 128);
    fn h_p14v4_t1 = p14_times::<1>(P14V4, false, false);
    fn h_p14v4_t2 = p14_times::<2>(P14V4, false, false);
    fn h_p14v4_t2c = p14_times::<2>(P14V4, true, false);
    fn h_p14v4_f = p14_times::<2>(P14V4, false, true);
    fn h_p14v4_f1 = p14_times::<1>(P14V4, false, true);
    fn h_rgb14v4 = after::<6>(&[(11, 6, 4)], &seeds(&[(11, 6, 4)], 12, 0..3), 128);
    fn h_nir14v4 = after::<8>(&[(12, 8, 4)], &seeds(&[(12, 8, 4)], 12, 0..3), 128);
    fn h_wp14v4 = after::<29>(&[(13, 29, 4)], &seeds(&[(13, 29, 4)], 12, 0..4), 128);
    fn h_by14v4 = after::<6>(&[(14, 3, 4)], &seeds(&[(14, 3, 4)], 12, 0..3), 128);
}
