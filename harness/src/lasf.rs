//! The LAS/LAZ reader of las::file: whatever the header, the VLRs and the points in a file are, it
//! delivers the header's values and every point record, exactly, and then the end.
use crate::chunk::{compress, pick, Calls};
use crate::codec::{vlr_bytes, Items};
use crate::sx;
use laz::las::file::{read_header_and_vlrs, QuickHeader, SimpleReader};
use laz::LazVlr;
use std::io::{Cursor, Seek};

const LASZIP: &[u8; 16] = b"laszip encoded\0\0";
fn put16(f: &mut [u8], at: usize, v: u16) {
    f[at..at + 2].copy_from_slice(&v.to_le_bytes())
}
fn put32(f: &mut [u8], at: usize, v: u32) {
    f[at..at + 4].copy_from_slice(&v.to_le_bytes())
}
/// a VLR with any reserved bytes and description
fn vlr(f: &mut Vec<u8>, user: &[u8; 16], id: u16, data: &[u8]) {
    let at = f.len();
    f.resize(at + 54, 0);
    sx::fill(&mut f[at..at + 54], 7);
    f[at + 2..at + 18].copy_from_slice(user);
    put16(f, at + 18, id);
    put16(f, at + 20, data.len() as u16);
    f.extend_from_slice(data);
}
/// header (its size is one of the real ones and one more), VLRs, a gap; the bytes that say nothing about the points are arbitrary
struct File {
    f: Vec<u8>,
    minor: u8,
}
fn file(format: u8, size: usize, n: u64, lazvlr: Option<&[u8]>, minors: core::ops::Range<u64>, vlrs: core::ops::Range<u64>) -> File {
    let minor = pick(2, minors) as u8;
    let header = (if minor >= 4 { 375 } else if minor == 3 { 235 } else { 227 }) + 3 * pick(3, 0..2);
    let mut f = Vec::with_capacity(2048);
    f.resize(header, 0);
    sx::fill(&mut f, 1);
    f[24] = 1;
    f[25] = minor;
    put16(&mut f, 94, header as u16);
    f[104] = format;
    put16(&mut f, 105, size as u16);
    if minor >= 4 {
        // the legacy count says nothing
        f[247..255].copy_from_slice(&n.to_le_bytes());
    } else {
        put32(&mut f, 107, n as u32);
    }
    // other VLRs, among them ones that resemble the LASzip VLR
    let others = pick(4, vlrs);
    let at = if lazvlr.is_some() { pick(5, 0..others as u64 + 1) } else { others };
    for k in 0..others + 1 {
        if k == at {
            if let Some(v) = lazvlr {
                vlr(&mut f, LASZIP, 22204, v)
            }
        }
        if k < others {
            let mut b: [u8; 5] = sx::any(6);
            b[0] = if k == 1 { sx::split((b[0] & 1) as u64) as u8 } else { b[0] };
            match k {
                0 => vlr(&mut f, LASZIP, 22203, &b),
                1 => vlr(&mut f, if b[0] & 1 == 0 { b"laszip\0encoded\0\0" } else { b"laszip encode\0\0\0" }, 22204, &vlr_bytes(&[(6, 20, 1)], 5)),
                _ => vlr(&mut f, b"LASF_Projection\0", 34735, &[]),
            }
        }
    }
    put32(&mut f, 100, others as u32 + lazvlr.is_some() as u32);
    let gap = 5 * pick(8, 0..2);
    let at = f.len() + gap;
    f.resize(at, 0xC3);
    put32(&mut f, 96, at as u32);
    File { f, minor }
}
fn check(h: &QuickHeader, f: &[u8], major: u8, minor: u8, format: u8, size: usize, n: u64) {
    sx::assert(h.major == major && h.minor == minor, 10);
    sx::assert(h.point_format_id == format, 11);
    sx::assert(h.point_size as usize == size, 12);
    sx::assert(h.num_points == n, 13);
    sx::assert(h.header_size == f[94] as u16 | (f[95] as u16) << 8, 14);
    sx::assert(h.offset_to_points == u32::from_le_bytes([f[96], f[97], f[98], f[99]]), 15);
    sx::assert(h.num_vlrs == u32::from_le_bytes([f[100], f[101], f[102], f[103]]), 16);
}
/// the points, one by one or all at once, then the end
fn read(f: Vec<u8>, minor: u8, format: u8, size: usize, n: usize, pts: &[u8], there: usize) {
    let head = f[..110].to_vec();
    let mut r = SimpleReader::new(Cursor::new(f)).unwrap();
    check(&r.header, &head, 1, minor, format, size, n as u64);
    if sx::split((sx::any_u8(9) & 1) as u64) == 0 {
        for k in 0..n {
            match r.read_next() {
                Some(Ok(p)) => {
                    sx::assert(k < there, 1);
                    sx::assert(p.len() == size && *p == pts[k * size..][..size], 2);
                }
                Some(Err(_)) => {
                    sx::assert(k >= there, 3);
                    sx::cover(1);
                    return;
                }
                None => sx::assert(false, 4),
            }
        }
        sx::assert(there >= n, 5);
        sx::assert(r.read_next().is_none() && r.read_next().is_none(), 6);
    } else {
        let mut out = Vec::new();
        match r.read_to_end(&mut out) {
            Ok(k) => {
                sx::assert(there >= n && k == n, 7);
                sx::assert(out == pts, 8);
                sx::assert(r.read_next().is_none(), 9);
            }
            Err(_) => sx::assert(there < n, 17),
        }
    }
    sx::cover(1);
}
const FORMATS: [(u8, usize); 11] =
    [(0, 20), (1, 28), (2, 26), (3, 34), (4, 57), (5, 63), (6, 30), (7, 36), (8, 38), (9, 59), (10, 67)];
/// uncompressed points of any format, some of them possibly missing
fn las() {
    let (format, base) = FORMATS[pick(10, 0..11)];
    let size = base + 3 * pick(11, 0..2);
    let n = pick(12, 0..4);
    let there = if n == 3 { 2 } else { n };
    let mut pts = vec![0u8; n * size];
    sx::fill(&mut pts, 0);
    let h = file(format, size, n as u64, None, if format < 4 { 0..5 } else { 3..5 }, 0..2);
    let mut f = h.f;
    f.extend_from_slice(&pts[..there * size]);
    if there == n {
        f.extend_from_slice(&[0x77; 4]);
    }
    read(f, h.minor, format, size, n, &pts, there);
}
/// compressed ones, chunk size 2
fn lazf(items: Items, format: u8, minors: core::ops::Range<u64>, vlrs: u64, most: u64, make: fn(usize, usize) -> Vec<u8>) {
    let size = crate::chunk::size(items);
    let n = if vlrs == 2 { most as usize } else { pick(12, 0..most + 1) };
    let pts = make(size, n);
    let v = vlr_bytes(items, 2);
    let h = file(format | 0x80, size, n as u64, Some(&v), minors, 0..vlrs);
    let mut f = h.f;
    let start = f.len();
    let c = compress(&LazVlr::from_buffer(&v).unwrap(), &pts, 2, 0, start, Calls::One);
    f.extend_from_slice(&c[start..]);
    f.extend_from_slice(&[0x77; 4]);
    read(f, h.minor, format, size, n, &pts, n);
}
fn bytes(size: usize, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n * size];
    sx::fill(&mut v, 0);
    v
}
/// any header at all
fn header() {
    let n = [0usize, 25, 26, 94, 100, 106, 107, 110, 111, 247, 254, 255, 375][pick(1, 0..13)];
    let mut f = vec![0u8; n];
    sx::fill(&mut f, 0);
    sx::cover(1);
    let mut c = Cursor::new(&f[..]);
    match QuickHeader::read_from(&mut c) {
        Err(_) => {
            sx::assert(n < 255, 1);
            let new = n < 26 || f[24] == 1 && f[25] >= 4;
            sx::assert(n < 111 || new, 2);
        }
        Ok(h) => {
            let new = f[24] == 1 && f[25] >= 4;
            sx::assert(n >= if new { 255 } else { 111 }, 3);
            let at = if new { 247 } else { 107 };
            let mut p = u32::from_le_bytes([f[at], f[at + 1], f[at + 2], f[at + 3]]) as u64;
            if new {
                p |= (u32::from_le_bytes([f[at + 4], f[at + 5], f[at + 6], f[at + 7]]) as u64) << 32;
            }
            check(&h, &f, f[24], f[25], f[104], f[105] as usize | (f[106] as usize) << 8, p);
            sx::assert(c.stream_position().unwrap() == h.header_size as u64, 4);
        }
    }
}
/// the LASzip VLR is found among the others, and the source is left at the points
fn vlrs() {
    let items: Items = &[(6, 20, 2)];
    let v = vlr_bytes(items, 77);
    let there = pick(14, 0..2) == 1;
    let h = file(0x80, 20, 0, if there { Some(&v) } else { None }, 2..5, 0..4);
    let end = h.f.len();
    let mut c = Cursor::new(h.f);
    let (head, found) = read_header_and_vlrs(&mut c).unwrap();
    sx::assert(found.is_some() == there, 1);
    if let Some(l) = found {
        sx::assert(l.chunk_size() == 77 && l.items_size() == 20, 2);
    }
    sx::assert(c.position() == end as u64 && head.offset_to_points as usize == end, 3);
    sx::cover(1);
}
/// the extra bytes are what the record holds beyond the format's own
fn extra() {
    let (format, base) = FORMATS[pick(10, 0..11)];
    let size = sx::any_u16(1);
    sx::assume(size as usize >= base);
    let h = file(format, size as usize, 0, None, 4..5, 0..1);
    let head = QuickHeader::read_from(&mut Cursor::new(h.f)).unwrap();
    sx::assert(head.num_extra_bytes() as usize == size as usize - base, 1);
    sx::cover(1);
}
crate::harness! {
    fn lf_header = header();
    fn lf_vlrs = vlrs();
    fn lf_extra = extra();
    fn lf_las = las();
    fn lf_laz_b = lazf(&[(6, 20, 2), (0, 2, 2)], 0, 2..5, 4, 5, |s, n| {
        let mut v = crate::bare::records(s, n, 1);
        for k in 0..n {
            sx::fill(&mut v[k * s + 20..][..2], 0)
        }
        v
    });
    fn lf_laz_f = lazf(&[(6, 20, 2), (7, 8, 2)], 1, 3..4, 2, 3, |s, n| crate::bare::records(s, n, 1));
    fn lf_laz_t = lazf(&[(7, 8, 2)], 1, 2..5, 4, 3, bytes);
    fn lf_laz_l = lazf(&[(10, 30, 3), (14, 1, 3)], 6, 4..5, 4, 3, |s, n| {
        let mut v = crate::bare::records(s, n, 1);
        for k in 0..n {
            sx::fill(&mut v[k * s + 30..][..1], 0)
        }
        v
    });
}
