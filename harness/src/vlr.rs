//! The LAZ VLR: which points a file holds, and how they are coded.
use crate::chunk::pick;
use crate::sx;
use laz::laszip::{CompressorType, LazItemType};
use laz::{LasZipCompressor, LasZipDecompressor, LazItem, LazItemRecordBuilder, LazVlr, LazVlrBuilder};
use std::io::Cursor;

/// the size an item of this type must have; None: no such type
fn size_of(t: u16, size: u16) -> Option<u16> {
    Some(match t {
        0 | 14 => size,
        6 => 20,
        7 => 8,
        8 | 11 => 6,
        9 | 13 => 29,
        10 => 30,
        12 => 8,
        _ => return None,
    })
}
fn code_of(t: LazItemType) -> u16 {
    match t {
        LazItemType::Byte(_) => 0,
        LazItemType::Point10 => 6,
        LazItemType::GpsTime => 7,
        LazItemType::RGB12 => 8,
        LazItemType::WavePacket13 => 9,
        LazItemType::Point14 => 10,
        LazItemType::RGB14 => 11,
        LazItemType::RGBNIR14 => 12,
        LazItemType::WavePacket14 => 13,
        LazItemType::Byte14(_) => 14,
    }
}
fn u16_at(b: &[u8], i: usize) -> u16 {
    u16::from_le_bytes([b[i], b[i + 1]])
}
fn u32_at(b: &[u8], i: usize) -> u32 {
    u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]])
}

/// any bytes: an error, or the very content of the bytes, which writing gives back
fn parse<const K: usize>() {
    let mut b = vec![0u8; 34 + 6 * K];
    sx::fill(&mut b, 0);
    let n = u16_at(&b, 32);
    sx::assume(n as usize <= K + 1);
    let n = sx::split(n as u64) as usize;
    let mut valid = u16_at(&b, 0) <= 3 && n <= K;
    for i in 0..n.min(K) {
        let (t, s) = (u16_at(&b, 34 + 6 * i), u16_at(&b, 36 + 6 * i));
        valid &= size_of(t, s) == Some(s);
    }
    match LazVlr::read_from(&b[..]) {
        Err(_) => sx::assert(!valid, 1),
        Ok(v) => {
            sx::cover(1);
            sx::assert(valid, 2);
            let chunk = u32_at(&b, 12);
            let variable = chunk == 0 || chunk == u32::MAX;
            sx::assert(v.uses_variable_size_chunks() == variable, 3);
            sx::assert(variable || v.chunk_size() == chunk, 4);
            sx::assert(v.items().len() == n, 5);
            let mut sum = 0u64;
            for (i, it) in v.items().iter().enumerate() {
                let s = u16_at(&b, 36 + 6 * i);
                sx::assert(code_of(it.item_type()) == u16_at(&b, 34 + 6 * i), 6);
                sx::assert(it.size() == s && it.version() == u16_at(&b, 38 + 6 * i), 7);
                match it.item_type() {
                    LazItemType::Byte(k) | LazItemType::Byte14(k) => sx::assert(k == s, 8),
                    _ => {}
                }
                sum += s as u64;
            }
            sx::assert(v.items_size() == sum, 9);
            let mut w = Vec::with_capacity(64);
            v.write_to(&mut w).unwrap();
            if chunk == 0 {
                b[12..16].fill(0xff);
            }
            sx::assert(w[..] == b[..34 + 6 * n], 10);
            sx::assert(LazVlr::from_buffer(&w).unwrap() == v, 11);
        }
    }
}
/// a record that ends early is an error
fn cut() {
    let mut b = [0u8; 40];
    sx::fill(&mut b, 0);
    sx::assume(u16_at(&b, 32) >= 1 && u16_at(&b, 32) < 5);
    let n = pick(1, 0..40);
    sx::assert(LazVlr::read_from(&b[..n]).is_err(), 12);
    let n = u16_at(&b, 32) as usize;
    sx::assume(n > 1);
    sx::assert(LazVlr::read_from(&b[..]).is_err(), 13);
}

fn supported(t: u16, layered: bool, version: u16) -> bool {
    match (layered, version) {
        (false, 1) | (false, 2) => matches!(t, 0 | 6 | 7 | 8 | 9),
        (true, 3) | (true, 4) => matches!(t, 10..=14),
        _ => false,
    }
}
/// A VLR with K items of any type and version
pub struct AnyItems {
    pub vlr: LazVlr,
    pub ok: bool,
    /// what a point-wise file, without chunks, may hold
    pub one_chunk: bool,
    pub total: usize,
    pub chunked: u8,
}
pub fn any_items<const K: usize>(chunk_size: u8, kinds: u64) -> AnyItems {
    let mut b = vec![0u8; 34 + 6 * K];
    b[32] = K as u8;
    // no chunks at all (0, 1): not supported
    let chunked = pick(1, 0..kinds) as u8;
    b[0] = chunked;
    b[12] = chunk_size;
    let mut first = 9u16;
    let mut ok = true;
    let mut total = 0;
    for i in 0..K {
        const TYPES: [u16; 10] = [0, 6, 7, 8, 9, 10, 11, 12, 13, 14];
        let t = TYPES[pick(2, 0..10)];
        let version = pick(3, 0..6) as u16;
        let extra = if t == 0 || t == 14 { pick(4, 0..3) as u16 } else { 0 };
        let s = size_of(t, extra).unwrap();
        if i == 0 {
            first = version;
        }
        ok &= supported(t, first >= 3, version);
        total += s as usize;
        b[34 + 6 * i..][..2].copy_from_slice(&t.to_le_bytes());
        b[36 + 6 * i..][..2].copy_from_slice(&s.to_le_bytes());
        b[38 + 6 * i..][..2].copy_from_slice(&version.to_le_bytes());
    }
    let one_chunk = ok && total > 0 && chunked == 1;
    ok &= total > 0 && chunked == 2;
    if chunked == 2 && first >= 3 {
        b[0] = 3;
    }
    let vlr = LazVlr::read_from(&b[..]).unwrap();
    sx::assert(vlr.items_size() == total as u64, 20);
    AnyItems { vlr, ok, one_chunk, total, chunked }
}
/// any items, valid or not: a compressor and a decompressor for them, or an error, as LASzip defines;
/// the first record passes unchanged
fn items<const K: usize>() {
    let AnyItems { vlr: v, ok, one_chunk, total, chunked } = any_items::<K>(10, 3);
    let mut point = vec![0u8; total];
    sx::fill(&mut point, 0);
    let data = match LasZipCompressor::new(Cursor::new(Vec::new()), v.clone()) {
        Ok(mut c) => {
            sx::assert(ok, 21);
            c.compress_one(&point).unwrap();
            c.done().unwrap();
            c.into_inner().into_inner()
        }
        Err(_) => {
            sx::assert(!ok, 22);
            let mut data = vec![0xff; 400];
            if chunked == 1 {
                data[..total].copy_from_slice(&point);
            }
            data
        }
    };
    match LasZipDecompressor::new(Cursor::new(data), v) {
        Ok(mut d) => {
            sx::cover(1);
            sx::assert(ok || one_chunk, 23);
            // the stand-in for the coder only accepts its own streams
            if one_chunk {
                return;
            }
            let mut out = vec![0u8; total];
            d.decompress_one(&mut out).unwrap();
            sx::assert(out == point, 24);
        }
        Err(_) => sx::assert(!ok && !one_chunk, 25),
    }
}

/// the items of each point format: type and size, in the order of the record
fn format(id: u8) -> (&'static [(u16, u16)], u16) {
    match id {
        0 => (&[(6, 20)], 20),
        1 => (&[(6, 20), (7, 8)], 28),
        2 => (&[(6, 20), (8, 6)], 26),
        3 => (&[(6, 20), (7, 8), (8, 6)], 34),
        4 => (&[(6, 20), (7, 8), (9, 29)], 57),
        5 => (&[(6, 20), (7, 8), (8, 6), (9, 29)], 63),
        6 => (&[(10, 30)], 30),
        7 => (&[(10, 30), (11, 6)], 36),
        8 => (&[(10, 30), (12, 8)], 38),
        9 => (&[(10, 30), (13, 29)], 59),
        10 => (&[(10, 30), (12, 8), (13, 29)], 67),
        _ => (&[], 0),
    }
}
fn check_items(v: &[LazItem], id: u8, extra: u16, version: u16) {
    let (want, _) = format(id);
    let e = if id < 6 { 0 } else { 14 };
    sx::assert(v.len() == want.len() + (extra > 0) as usize, 30);
    for (i, it) in v.iter().enumerate() {
        let (t, s) = if i < want.len() { want[i] } else { (e, extra) };
        sx::assert(code_of(it.item_type()) == t && it.size() == s && it.version() == version, 31);
        match it.item_type() {
            LazItemType::Byte(k) | LazItemType::Byte14(k) => sx::assert(k == extra, 32),
            _ => {}
        }
    }
}
/// any point format id and number of extra bytes
fn formats() {
    let id = sx::any_u8(1);
    let extra = sx::any_u16(2);
    let chunk = sx::any_u32(3);
    sx::assume(chunk != 0 && chunk != u32::MAX);
    if id > 10 {
        sx::assert(LazVlrBuilder::default().with_point_format(id, extra).is_err(), 33);
        sx::assert(LazItemRecordBuilder::default_for_point_format_id(id, extra).is_err(), 34);
        return;
    }
    let id = sx::split(id as u64) as u8;
    let b = LazVlrBuilder::default().with_point_format(id, extra).unwrap();
    let variable = pick(4, 0..2) == 1;
    let v = if variable { b.with_variable_chunk_size().build() } else { b.with_fixed_chunk_size(chunk).build() };
    check_items(v.items(), id, extra, if id < 6 { 2 } else { 3 });
    sx::assert(v.items_size() == format(id).1 as u64 + extra as u64, 35);
    sx::assert(v.uses_variable_size_chunks() == variable, 36);
    sx::assert(variable || v.chunk_size() == chunk, 37);
    let mut w = Vec::with_capacity(128);
    v.write_to(&mut w).unwrap();
    sx::assert(u16_at(&w, 0) == if id < 6 { CompressorType::PointWiseChunked } else { CompressorType::LayeredChunked } as u16, 38);
    sx::assert(w[2..4] == [0, 0] && w[16..32] == [0xff; 16], 39);
    sx::assert(LazVlr::from_buffer(&w).unwrap() == v, 40);
}
/// the items of every version of every point type
fn versions() {
    use laz::las::*;
    let extra = sx::any_u16(2);
    macro_rules! check {
        ($($t:ident $id:literal $v:literal $f:ident)*) => {
            $(check_items(&LazItemRecordBuilder::$f::<$t>(extra), $id, extra, $v);)*
        };
    }
    check!(Point0 0 1 version_1_of Point1 1 1 version_1_of Point2 2 1 version_1_of Point3 3 1 version_1_of
        Point4 4 1 version_1_of Point5 5 1 version_1_of
        Point0 0 2 version_2_of Point1 1 2 version_2_of Point2 2 2 version_2_of Point3 3 2 version_2_of
        Point4 4 2 version_2_of Point5 5 2 version_2_of
        Point6 6 3 version_3_of Point7 7 3 version_3_of Point8 8 3 version_3_of Point9 9 3 version_3_of Point10 10 3 version_3_of
        Point6 6 4 version_4_of Point7 7 4 version_4_of Point8 8 4 version_4_of Point9 9 4 version_4_of Point10 10 4 version_4_of
        Point0 0 2 default_version_of Point1 1 2 default_version_of Point2 2 2 default_version_of Point3 3 2 default_version_of
        Point4 4 2 default_version_of Point5 5 2 default_version_of
        Point6 6 3 default_version_of Point7 7 3 default_version_of Point8 8 3 default_version_of
        Point9 9 3 default_version_of Point10 10 3 default_version_of);
}
/// items added one by one
fn builder() {
    let n = sx::any_u16(2);
    use LazItemType::*;
    let all = [Byte(n), Point10, GpsTime, RGB12, WavePacket13, Point14, RGB14, RGBNIR14, WavePacket14, Byte14(n)];
    let mut b = LazItemRecordBuilder::new();
    for t in all {
        b.add_item(t);
    }
    let v = b.build();
    sx::assert(v.len() == 10, 50);
    let mut sum = 0;
    for (it, t) in v.iter().zip(all) {
        let c = code_of(t);
        sx::assert(it.item_type() == t && it.size() == size_of(c, n).unwrap(), 51);
        sx::assert(it.version() == if c >= 10 { 3 } else { 2 }, 52);
        sum += it.size() as u64;
    }
    sx::assert(LazVlr::from_laz_items(v).items_size() == sum, 53);
}
/// a LAS header's fields are where the standard has them
fn header() {
    let mut b = [0u8; 400];
    sx::fill(&mut b, 0);
    let mut c = Cursor::new(&b[..]);
    let h = laz::las::file::QuickHeader::read_from(&mut c).unwrap();
    sx::assert(h.major == b[24] && h.minor == b[25], 60);
    sx::assert(h.header_size == u16_at(&b, 94) && h.offset_to_points == u32_at(&b, 96), 61);
    sx::assert(h.num_vlrs == u32_at(&b, 100) && h.point_format_id == b[104] && h.point_size == u16_at(&b, 105), 62);
    let n = if h.major == 1 && h.minor >= 4 {
        u32_at(&b, 247) as u64 | (u32_at(&b, 251) as u64) << 32
    } else {
        u32_at(&b, 107) as u64
    };
    sx::assert(h.num_points == n, 63);
    sx::assert(c.position() == h.header_size as u64, 64);
}

crate::harness! {
    fn vl_parse0 = parse::<0>();
    fn vl_parse1 = parse::<1>();
    fn vl_parse2 = parse::<2>();
    fn vl_parse3 = parse::<3>();
    fn vl_cut = cut();
    fn vl_items0 = items::<0>();
    fn vl_items1 = items::<1>();
    fn vl_items2 = items::<2>();
    fn vl_formats = formats();
    fn vl_versions = versions();
    fn vl_builder = builder();
    fn vl_header = header();
}
