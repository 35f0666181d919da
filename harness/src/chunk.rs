//! Chunks, the chunk table, seeking and appending: what the public compressor, decompressor and
//! appender do for every number of points, chunking, call sequence and point index.
use crate::codec::{vlr_of, Items, VARIABLE};
use crate::sx;
use laz::laszip::{ChunkTable, ChunkTableEntry};
use laz::{LasZipAppender, LasZipCompressor, LasZipDecompressor, LazVlr};
use std::io::{Cursor, Seek, SeekFrom};

/// Items, and how to make n records of them
#[derive(Clone, Copy)]
pub struct Kind {
    pub items: Items,
    pub make: fn(Items, usize) -> Vec<u8>,
}
pub fn size(i: Items) -> usize {
    i.iter().map(|x| x.1 as usize).sum()
}
/// every byte arbitrary
fn arbitrary(i: Items, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n * size(i)];
    sx::fill(&mut v, 0);
    v
}
/// point14 fields fixed, but changing; the extra bytes behind it arbitrary
fn arbitrary_tail(i: Items, n: usize) -> Vec<u8> {
    let s = size(i);
    let mut v = vec![0u8; n * s];
    sx::fill(&mut v, 0);
    let f = crate::bare::records(30, n, 1);
    for k in 0..n {
        v[k * s..][..30].copy_from_slice(&f[k * 30..][..30]);
    }
    v
}
fn fixed(i: Items, n: usize) -> Vec<u8> {
    crate::bare::records(size(i), n, 2)
}
/// records whose only change, x, is predicted: whole points take less than a bit
fn steps(i: Items, n: usize) -> Vec<u8> {
    let s = size(i);
    let mut v = vec![7u8; n * s];
    for k in 0..n {
        v[k * s..][..4].copy_from_slice(&(k as u32).to_le_bytes());
    }
    v
}
pub const BYTES: Kind = Kind { items: &[(0, 2, 2)], make: arbitrary };
pub const LAYERS: Kind = Kind { items: &[(10, 30, 3), (14, 1, 3)], make: arbitrary_tail };
pub const LAYERS4: Kind = Kind { items: &[(10, 30, 4), (14, 1, 4)], make: arbitrary_tail };
pub const REAL0: Kind = Kind { items: &[(6, 20, 2), (7, 8, 2), (8, 6, 2), (0, 2, 2)], make: fixed };
pub const REAL1: Kind = Kind { items: &[(6, 20, 1), (7, 8, 1), (8, 6, 1)], make: fixed };
pub const REAL3: Kind = Kind { items: &[(10, 30, 3), (12, 8, 3), (13, 29, 3), (14, 2, 3)], make: fixed };
pub const REAL4: Kind = Kind { items: &[(10, 30, 4), (11, 6, 4), (14, 2, 4)], make: fixed };
pub const SMALL: Kind = Kind { items: &[(7, 8, 2), (8, 6, 2)], make: fixed };
pub const STEPS: Kind = Kind { items: &[(6, 20, 2)], make: steps };

/// one path per value in the range
pub fn pick(id: u32, r: core::ops::Range<u64>) -> usize {
    let v = sx::any_u8(id) as u64;
    sx::assume(v >= r.start && v < r.end);
    sx::split(v) as usize
}

/// the chunk sizes that n points make: fixed size, or cut after every point of the mask
pub fn chunks_of(n: usize, chunk: u32, cuts: usize) -> Vec<usize> {
    let mut v = Vec::with_capacity(n);
    let mut c = 0;
    for i in 0..n {
        c += 1;
        let full = if chunk == VARIABLE { cuts >> i & 1 == 1 } else { c == chunk as usize };
        if full || i == n - 1 {
            v.push(c);
            c = 0;
        }
    }
    v
}

pub fn dest(start: usize) -> Cursor<Vec<u8>> {
    let mut v = Vec::with_capacity(4096);
    v.resize(start, 0xA5);
    let mut c = Cursor::new(v);
    c.set_position(start as u64);
    c
}

/// How the points are handed over
#[derive(Clone, Copy, PartialEq)]
pub enum Calls {
    One,
    Many,
    /// the first k with compress_one, the rest with compress_many
    Mixed(usize),
    /// compress_chunks (variable-size chunks only)
    Chunks,
}

pub fn compress(vlr: &LazVlr, pts: &[u8], chunk: u32, cuts: usize, start: usize, calls: Calls) -> Vec<u8> {
    let s = vlr.items_size() as usize;
    let n = pts.len() / s;
    let mut c = LasZipCompressor::new(dest(start), vlr.clone()).unwrap();
    if chunk == VARIABLE && calls == Calls::Chunks {
        let mut l = Vec::new();
        let mut at = 0;
        for k in chunks_of(n, chunk, cuts) {
            l.push(&pts[at * s..(at + k) * s]);
            at += k;
        }
        c.compress_chunks(l).unwrap();
    } else if chunk == VARIABLE {
        let mut at = 0;
        let l = chunks_of(n, chunk, cuts);
        for (i, k) in l.iter().enumerate() {
            let b = &pts[at * s..(at + k) * s];
            if calls == Calls::One {
                for p in b.chunks(s) {
                    c.compress_one(p).unwrap();
                }
            } else {
                c.compress_many(b).unwrap();
            }
            at += k;
            if i + 1 < l.len() || cuts >> (n - 1) & 1 == 1 {
                c.finish_current_chunk().unwrap();
            }
        }
    } else {
        let k = match calls {
            Calls::One => n,
            Calls::Mixed(k) => k.min(n),
            _ => 0,
        };
        for p in pts[..k * s].chunks(s) {
            c.compress_one(p).unwrap();
        }
        if k < n {
            c.compress_many(&pts[k * s..]).unwrap();
        }
    }
    c.done().unwrap();
    c.into_inner().into_inner()
}

pub fn at_start(data: &[u8], start: usize) -> Cursor<&[u8]> {
    let mut c = Cursor::new(data);
    c.set_position(start as u64);
    c
}
/// the entries that hold points, and the file's size
pub fn table(data: &[u8], vlr: &LazVlr, start: usize) -> Vec<ChunkTableEntry> {
    let mut c = at_start(data, start);
    let t = ChunkTable::read_from(&mut c, vlr).unwrap();
    sx::assert(c.position() == start as u64 + 8, 20);
    t.as_ref().to_vec()
}
pub fn i64_at(data: &[u8], at: usize) -> usize {
    let b: [u8; 8] = data[at..at + 8].try_into().unwrap();
    u64::from_le_bytes(b) as usize
}

/// The file is: what was there before, the offset of the table, the chunks, each exactly what its
/// points alone compress to, and the table, which lists exactly these chunks
pub fn check_file(data: &[u8], kind: Kind, chunk: u32, sizes: &[usize], pts: &[u8], start: usize) {
    let s = size(kind.items);
    let vlr = vlr_of(kind.items, chunk);
    sx::assert(data[..start].iter().all(|b| *b == 0xA5), 21);
    let off = i64_at(data, start);
    let t = table(data, &vlr, start);
    sx::assert(t.len() == sizes.len(), 22);
    let mut at = start + 8;
    let mut p = 0;
    for (e, k) in t.iter().zip(sizes) {
        sx::assert(e.point_count == if chunk == VARIABLE { *k as u64 } else { chunk as u64 }, 23);
        let mut alone = LasZipCompressor::new(Cursor::new(Vec::<u8>::with_capacity(2048)), vlr_of(kind.items, 1000)).unwrap();
        alone.compress_many(&pts[p..p + k * s]).unwrap();
        alone.done().unwrap();
        let alone = alone.into_inner().into_inner();
        let end = i64_at(&alone, 0);
        sx::assert(e.byte_count as usize == end - 8, 24);
        sx::assert(at + end - 8 <= data.len(), 25);
        sx::assert(data[at..at + end - 8] == alone[8..end], 26);
        at += end - 8;
        p += k * s;
    }
    sx::assert(off == at, 27);
}

/// all points, in order, by decompress_one or decompress_many
pub fn check_read(data: &[u8], vlr: &LazVlr, pts: &[u8], start: usize, many: bool) {
    let mut d = LasZipDecompressor::new(at_start(data, start), vlr.clone()).unwrap();
    let mut out = vec![0u8; pts.len()];
    if many {
        d.decompress_many(&mut out).unwrap();
    } else {
        for p in out.chunks_mut(vlr.items_size() as usize) {
            d.decompress_one(p).unwrap();
        }
    }
    sx::observe(1, &out);
    sx::assert(out == pts, 28);
}

/// fixed-size chunks
fn fixed_chunks(kind: Kind, max: u64, max_chunk: u64) {
    let n = pick(1, 0..max + 1);
    let chunk = pick(2, 1..max_chunk + 1) as u32;
    let start = if pick(3, 0..2) == 0 { 0 } else { 13 };
    let calls = match pick(4, 0..3) {
        0 => Calls::One,
        1 => Calls::Many,
        _ => Calls::Mixed(2),
    };
    let pts = (kind.make)(kind.items, n);
    let vlr = vlr_of(kind.items, chunk);
    let data = compress(&vlr, &pts, chunk, 0, start, calls);
    check_file(&data, kind, chunk, &chunks_of(n, chunk, 0), &pts, start);
    check_read(&data, &vlr, &pts, start, calls != Calls::One);
}

/// variable-size chunks, every way of cutting n points
fn variable_chunks(kind: Kind, max: u64) {
    let n = pick(1, 1..max + 1);
    let cuts = pick(2, 0..1 << n);
    let start = if pick(3, 0..2) == 0 { 0 } else { 13 };
    let calls = match pick(4, 0..3) {
        0 => Calls::One,
        1 => Calls::Many,
        _ => Calls::Chunks,
    };
    let pts = (kind.make)(kind.items, n);
    let vlr = vlr_of(kind.items, VARIABLE);
    let data = compress(&vlr, &pts, VARIABLE, cuts, start, calls);
    check_file(&data, kind, VARIABLE, &chunks_of(n, VARIABLE, cuts), &pts, start);
    check_read(&data, &vlr, &pts, start, calls != Calls::One);
}

/// empty chunks: finish_current_chunk with nothing compressed, or an empty slice of points
fn empty_chunks(kind: Kind) {
    let n = 3;
    let empty = pick(2, 0..1 << (n + 1));
    let start = if pick(3, 0..2) == 0 { 0 } else { 13 };
    let slices = pick(4, 0..2) == 1;
    let pts = (kind.make)(kind.items, n);
    let s = size(kind.items);
    let vlr = vlr_of(kind.items, VARIABLE);
    let mut c = LasZipCompressor::new(dest(start), vlr.clone()).unwrap();
    for i in 0..=n {
        if empty >> i & 1 == 1 {
            if slices {
                c.compress_chunks(&[&pts[..0]]).unwrap();
            } else {
                c.finish_current_chunk().unwrap();
            }
        }
        if i < n {
            c.compress_one(&pts[i * s..(i + 1) * s]).unwrap();
            c.finish_current_chunk().unwrap();
        }
    }
    c.done().unwrap();
    let data = c.into_inner().into_inner();
    check_read(&data, &vlr, &pts, start, true);
    let t = table(&data, &vlr, start);
    sx::assert(t.iter().map(|e| e.point_count).sum::<u64>() == n as u64, 29);
    let bytes = t.iter().map(|e| e.byte_count).sum::<u64>();
    sx::assert(i64_at(&data, start) == start + 8 + bytes as usize, 30);
}

/// A decompressor that has read `before` points is moved to any index, and from there reads
/// what a sequential reader does there, or, behind the last chunk, an error
fn seek(kind: Kind, n: usize, chunk: u32, cuts: usize, before: usize) {
    let start = 13;
    let s = size(kind.items);
    let pts = (kind.make)(kind.items, n);
    let vlr = vlr_of(kind.items, chunk);
    let data = compress(&vlr, &pts, chunk, cuts, start, Calls::Many);
    let mut d = LasZipDecompressor::new(at_start(&data, start), vlr).unwrap();
    let mut out = vec![0u8; s];
    for i in 0..before {
        d.decompress_one(&mut out).unwrap();
        sx::assert(out == pts[i * s..][..s], 31);
    }
    // how many points a last, partial chunk has is not recorded: the caller knows
    let full: usize = if chunk == VARIABLE { n } else { (n + chunk as usize - 1) / chunk as usize * chunk as usize };
    let i = pick(4, 0..n as u64 + 1);
    let idx = if i < n { i as u64 } else { sx::any_u64(9) };
    sx::assume(i < n || idx >= full as u64);
    match d.seek(idx) {
        Ok(()) if i < n => {
            for i in i..n {
                d.decompress_one(&mut out).unwrap();
                sx::assert(out == pts[i * s..][..s], 32);
            }
        }
        Ok(()) => {
            sx::cover(1);
            sx::assert(d.decompress_one(&mut out).is_err(), 33);
            // and it can still be moved back
            d.seek(0).unwrap();
            d.decompress_one(&mut out).unwrap();
            sx::assert(out == pts[..s], 34);
        }
        Err(_) => sx::assert(i == n, 35),
    }
}
fn seek_fixed(kind: Kind, max: u64, max_chunk: u64) {
    let n = pick(1, 1..max + 1);
    let chunk = pick(2, 1..max_chunk + 1) as u32;
    let before = pick(3, 0..n as u64 + 1);
    seek(kind, n, chunk, 0, before)
}
fn seek_variable(kind: Kind, max: u64) {
    let n = pick(1, 1..max + 1);
    let cuts = pick(2, 0..1 << (n - 1));
    let before = pick(3, 0..n as u64 + 1);
    seek(kind, n, VARIABLE, cuts, before)
}
/// two moves in a row, the second from wherever the first left the decompressor
fn seek_twice(kind: Kind, n: usize, chunk: u32, cuts: usize) {
    let s = size(kind.items);
    let pts = (kind.make)(kind.items, n);
    let vlr = vlr_of(kind.items, chunk);
    let data = compress(&vlr, &pts, chunk, cuts, 0, Calls::Many);
    let mut d = LasZipDecompressor::new(at_start(&data, 0), vlr).unwrap();
    let mut out = vec![0u8; s];
    for id in 0..3 {
        let i = pick(5 + id, 0..n as u64);
        let read = pick(8 + id, 0..3);
        d.seek(i as u64).unwrap();
        for j in i..(i + read).min(n) {
            d.decompress_one(&mut out).unwrap();
            sx::assert(out == pts[j * s..][..s], 36);
        }
    }
}

/// reading behind the last point is an error, never a panic
fn past_end(kind: Kind, variable: bool) {
    let n = pick(1, 1..5);
    let chunk = if variable { VARIABLE } else { pick(2, 1..3) as u32 };
    let cuts = if variable { pick(2, 0..1 << (n - 1)) } else { 0 };
    // how many points a last, partial chunk has is not recorded
    sx::assume(variable || n as u32 % chunk == 0);
    let s = size(kind.items);
    let pts = (kind.make)(kind.items, n);
    let vlr = vlr_of(kind.items, chunk);
    let data = compress(&vlr, &pts, chunk, cuts, 0, Calls::Many);
    let mut d = LasZipDecompressor::new(at_start(&data, 0), vlr).unwrap();
    let mut out = vec![0u8; n * s];
    d.decompress_many(&mut out).unwrap();
    for _ in 0..2 {
        sx::assert(d.decompress_one(&mut out[..s]).is_err(), 37);
    }
}

/// n points, reopened and m more: the same points as n + m at once; with fixed-size chunks, and
/// whole variable-size ones, the same file
fn append(kind: Kind, n: usize, m: usize, chunk: u32, cuts: usize, cuts2: usize, start: usize) {
    append_told(kind, n, m, chunk, cuts, cuts2, start, n as u64)
}
/// ... when told that there are `told` points
#[allow(clippy::too_many_arguments)]
fn append_told(kind: Kind, n: usize, m: usize, chunk: u32, cuts: usize, cuts2: usize, start: usize, told: u64) {
    let s = size(kind.items);
    let pts = (kind.make)(kind.items, n + m);
    let vlr = vlr_of(kind.items, chunk);
    let data = compress(&vlr, &pts[..n * s], chunk, cuts, start, Calls::Many);
    let mut c = Cursor::new(data);
    c.set_position(start as u64);
    let mut a = LasZipAppender::new(c, vlr.clone(), told).unwrap();
    if chunk == VARIABLE {
        for (i, p) in pts[n * s..].chunks(s).enumerate() {
            if cuts2 >> i & 1 == 1 {
                a.finish_current_chunk().unwrap();
            }
            a.compress_one(p).unwrap();
        }
    } else if m > 0 {
        a.compress_one(&pts[n * s..(n + 1) * s]).unwrap();
        a.compress_many(&pts[(n + 1) * s..]).unwrap();
    }
    a.done().unwrap();
    let data = a.into_inner().into_inner();
    check_read(&data, &vlr, &pts, start, true);
    if chunk == VARIABLE {
        let t = table(&data, &vlr, start);
        sx::assert(t.iter().map(|e| e.point_count).sum::<u64>() == (n + m) as u64, 39);
        let bytes = t.iter().map(|e| e.byte_count).sum::<u64>();
        sx::assert(i64_at(&data, start) == start + 8 + bytes as usize, 40);
        // the chunks before the last are untouched
        let old = chunks_of(n, chunk, cuts);
        for (e, k) in t.iter().zip(&old[..old.len().max(1) - 1]) {
            sx::assert(e.point_count == *k as u64, 41);
        }
    } else {
        check_file(&data, kind, chunk, &chunks_of(n + m, chunk, 0), &pts, start);
    }
}
fn append_fixed(kind: Kind, max: u64, max_chunk: u64) {
    let n = pick(1, 0..max + 1);
    let m = pick(2, 0..max + 1);
    let chunk = pick(3, 1..max_chunk + 1) as u32;
    let start = if pick(4, 0..2) == 0 { 0 } else { 13 };
    append(kind, n, m, chunk, 0, 0, start)
}
fn append_variable(kind: Kind, max: u64) {
    let n = pick(1, 0..max + 1);
    let m = pick(2, 0..max + 1);
    let cuts = pick(3, 0..1 << n);
    let cuts2 = pick(4, 0..1 << m);
    append(kind, n, m, VARIABLE, cuts, cuts2, 13)
}
/// the file has fewer points than the appender is told: the rest does not exist
fn append_more(kind: Kind, max: u64, variable: bool) {
    let n = pick(1, 1..max + 1);
    let m = pick(2, 0..2);
    let told = [n as u64 + 1, n as u64 + 3, 1 << 32, 1 << 62, u64::MAX][pick(5, 0..5)];
    if variable {
        let cuts = pick(3, 0..1 << n);
        append_told(kind, n, m, VARIABLE, cuts, 1, 0, told)
    } else {
        let chunk = pick(3, 1..4) as u32;
        append_told(kind, n, m, chunk, 0, 0, 0, told)
    }
}

/// a thousand evenly spaced points: seeking in a chunk whose last points take no bytes
fn seek_last(n: usize) {
    let s = 20;
    let pts = steps(STEPS.items, n);
    let vlr = vlr_of(STEPS.items, 50000);
    let data = compress(&vlr, &pts, 50000, 0, 0, Calls::Many);
    let mut d = LasZipDecompressor::new(at_start(&data, 0), vlr).unwrap();
    let mut out = vec![0u8; s];
    let idx = n - 1 - pick(1, 0..8);
    d.seek(idx as u64).unwrap();
    d.decompress_one(&mut out).unwrap();
    sx::assert(out == pts[idx * s..][..s], 42);
}

/// any chunk size: with n points or more it makes one chunk
fn any_chunk_size(kind: Kind, n: usize) {
    let chunk = sx::any_u32(1);
    sx::assume(chunk >= 1 && chunk != VARIABLE);
    let small = sx::split(if chunk as usize >= n { n as u64 } else { chunk as u64 }) as u32;
    let pts = (kind.make)(kind.items, n);
    let vlr = vlr_of(kind.items, chunk);
    let data = compress(&vlr, &pts, chunk, 0, 13, Calls::Mixed(2));
    check_file(&data, kind, chunk, &chunks_of(n, small, 0), &pts, 13);
    check_read(&data, &vlr, &pts, 13, true);
}
/// chunks of any fixed size: the index of a chunk's first point leads there (whether or not the chunks
/// in front really have so many points)
fn any_fixed_start(kind: Kind) {
    let n = 6;
    let s = size(kind.items);
    let pts = (kind.make)(kind.items, n);
    let data = compress(&vlr_of(kind.items, 2), &pts, 2, 0, 13, Calls::Many);
    let chunk = sx::any_u32(1);
    sx::assume(chunk >= 2 && chunk != VARIABLE);
    let mut d = LasZipDecompressor::new(at_start(&data, 13), vlr_of(kind.items, chunk)).unwrap();
    let mut out = vec![0u8; s];
    for id in 0..2 {
        let k = pick(2 + id, 0..3);
        d.seek(k as u64 * chunk as u64).unwrap();
        for i in 0..2 {
            d.decompress_one(&mut out).unwrap();
            sx::assert(out == pts[(2 * k + i) * s..][..s], 43);
        }
    }
}
/// ... and chunks of any variable size, by the table
fn any_variable_start(kind: Kind) {
    let n = 6;
    let s = size(kind.items);
    let pts = (kind.make)(kind.items, n);
    let vlr = vlr_of(kind.items, VARIABLE);
    let mut data = compress(&vlr, &pts, VARIABLE, 0b001010, 13, Calls::Many);
    let mut t = ChunkTable::with_capacity(3);
    let mut starts = vec![0u64];
    for e in table(&data, &vlr, 13) {
        let point_count = sx::any_u32(1) as u64;
        sx::assume(point_count >= 2);
        starts.push(starts[starts.len() - 1] + point_count);
        t.push(ChunkTableEntry { point_count, byte_count: e.byte_count });
    }
    let at = i64_at(&data, 13);
    data.truncate(at);
    let mut c = Cursor::new(data);
    c.set_position(at as u64);
    t.write_to(&mut c, &vlr).unwrap();
    let data = c.into_inner();
    let mut d = LasZipDecompressor::new(at_start(&data, 13), vlr).unwrap();
    let mut out = vec![0u8; s];
    for id in 0..2 {
        let k = pick(2 + id, 0..3);
        d.seek(starts[k]).unwrap();
        for i in 0..2 {
            d.decompress_one(&mut out).unwrap();
            sx::assert(out == pts[(2 * k + i) * s..][..s], 44);
        }
    }
}

/// a source that cannot seek
pub struct Stream<'a>(pub &'a [u8]);
impl std::io::Read for Stream<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(b)
    }
}
impl Seek for Stream<'_> {
    fn seek(&mut self, _: SeekFrom) -> std::io::Result<u64> {
        Err(std::io::Error::from(std::io::ErrorKind::Other))
    }
}
/// a chunk says that it has any number of points: unless it is the number it has, the points of the
/// next chunk are not taken for its own, nor the other way round
fn any_count(kind: Kind) {
    let s = size(kind.items);
    let pts = (kind.make)(kind.items, 4);
    let vlr = vlr_of(kind.items, VARIABLE);
    let mut data = compress(&vlr, &pts, VARIABLE, 0b0010, 0, Calls::Many);
    let at = 8 + s;
    sx::assert(data[at..at + 4] == 2u32.to_le_bytes(), 45);
    let count = sx::any_u32(1);
    sx::assume(count >= 2);
    data[at..at + 4].copy_from_slice(&count.to_le_bytes());
    let mut d = LasZipDecompressor::new(Stream(&data), vlr).unwrap();
    let mut out = vec![0u8; s];
    for i in 0..2 {
        d.decompress_one(&mut out).unwrap();
        sx::assert(out == pts[i * s..][..s], 46);
    }
    match d.decompress_one(&mut out) {
        Ok(()) => {
            sx::cover(1);
            sx::assert(count == 2, 47);
            sx::assert(out == pts[2 * s..][..s], 48);
        }
        Err(_) => {
            sx::cover(2);
            sx::assert(count != 2, 49);
        }
    }
}
/// as many points as a 16-bit counter cannot hold, in one chunk or two
fn long_chunk(items: Items, n: usize, chunk: u32) {
    let mut pts = vec![0u8; n];
    pts[n - 3] = 7;
    let vlr = vlr_of(items, chunk);
    let data = compress(&vlr, &pts, chunk, 0, 0, Calls::Many);
    let t = table(&data, &vlr, 0);
    sx::assert(t.len() == (n + chunk as usize - 1) / chunk as usize, 50);
    check_read(&data, &vlr, &pts, 0, true);
    let mut d = LasZipDecompressor::new(at_start(&data, 0), vlr).unwrap();
    let mut out = [0u8; 1];
    for i in [n - 3, n - 1, 65536] {
        d.seek(i as u64).unwrap();
        d.decompress_one(&mut out).unwrap();
        sx::assert(out[0] == pts[i], 51);
    }
}

crate::harness! {
    fn ck_size_b = any_chunk_size(BYTES, 4);
    fn ck_size_l = any_chunk_size(LAYERS, 3);
    fn ck_size_0 = any_chunk_size(REAL0, 5);
    fn ck_size_3 = any_chunk_size(REAL3, 5);
    fn ck_count_l = any_count(LAYERS);
    fn ck_count_3 = any_count(REAL3);
    fn ck_count_4 = any_count(REAL4);
    fn ck_long_0 = long_chunk(&[(0, 1, 2)], 65540, 65537);
    fn ck_long_3 = long_chunk(&[(14, 1, 3)], 65540, 65537);
    fn sk_size_b = any_fixed_start(BYTES);
    fn sk_size_0 = any_fixed_start(REAL0);
    fn sk_size_3 = any_fixed_start(REAL3);
    fn sk_count_b = any_variable_start(BYTES);
    fn sk_count_0 = any_variable_start(REAL0);
    fn sk_count_3 = any_variable_start(REAL3);
    fn ck_fixed_b = fixed_chunks(BYTES, 6, 4);
    fn ck_fixed_l = fixed_chunks(LAYERS, 3, 2);
    fn ck_fixed_0 = fixed_chunks(REAL0, 7, 4);
    fn ck_fixed_1 = fixed_chunks(REAL1, 7, 4);
    fn ck_fixed_3 = fixed_chunks(REAL3, 7, 4);
    fn ck_fixed_4 = fixed_chunks(REAL4, 7, 4);
    fn ck_fixed_r = fixed_chunks(SMALL, 4, 2);
    fn ck_var_b = variable_chunks(BYTES, 5);
    fn ck_var_l = variable_chunks(LAYERS4, 3);
    fn ck_var_0 = variable_chunks(REAL0, 5);
    fn ck_var_3 = variable_chunks(REAL3, 5);
    fn ck_var_r = variable_chunks(SMALL, 3);
    fn ck_empty_b = empty_chunks(BYTES);
    fn ck_empty_l = empty_chunks(LAYERS);
    fn ck_empty_0 = empty_chunks(REAL0);
    fn ck_empty_3 = empty_chunks(REAL3);
    fn sk_fixed_b = seek_fixed(BYTES, 6, 4);
    fn sk_fixed_l = seek_fixed(LAYERS, 3, 2);
    fn sk_fixed_0 = seek_fixed(REAL0, 7, 4);
    fn sk_fixed_3 = seek_fixed(REAL3, 7, 4);
    fn sk_fixed_r = seek_fixed(SMALL, 4, 2);
    fn sk_var_b = seek_variable(BYTES, 5);
    fn sk_var_l = seek_variable(LAYERS4, 3);
    fn sk_var_0 = seek_variable(REAL0, 5);
    fn sk_var_4 = seek_variable(REAL4, 5);
    fn sk_var_r = seek_variable(SMALL, 3);
    fn sk_twice_0 = seek_twice(REAL0, 6, 2, 0);
    fn sk_twice_3 = seek_twice(REAL3, 6, 2, 0);
    fn sk_twice_v0 = seek_twice(REAL0, 6, VARIABLE, 0b010010);
    fn sk_twice_v3 = seek_twice(REAL3, 6, VARIABLE, 0b010010);
    fn sk_last = seek_last(1000);
    fn sk_past_fb = past_end(BYTES, false);
    fn sk_past_f0 = past_end(REAL0, false);
    fn sk_past_f3 = past_end(REAL3, false);
    fn sk_past_vb = past_end(BYTES, true);
    fn sk_past_v0 = past_end(REAL0, true);
    fn sk_past_v3 = past_end(REAL3, true);
    fn ap_fixed_b = append_fixed(BYTES, 4, 3);
    fn ap_fixed_l = append_fixed(LAYERS, 2, 2);
    fn ap_fixed_l1 = append_fixed(LAYERS, 1, 2);
    fn ap_fixed_0 = append_fixed(REAL0, 5, 4);
    fn ap_fixed_3 = append_fixed(REAL3, 5, 4);
    fn ap_fixed_r = append_fixed(SMALL, 2, 2);
    fn ap_more_b = append_more(BYTES, 4, false);
    fn ap_more_l = append_more(LAYERS, 1, false);
    fn ap_more_3 = append_more(REAL3, 4, false);
    fn ap_more_vb = append_more(BYTES, 3, true);
    fn ap_more_v0 = append_more(REAL0, 3, true);
    fn ap_more_v3 = append_more(REAL3, 3, true);
    fn ap_more_vr = append_more(SMALL, 2, true);
    fn ap_var_b = append_variable(BYTES, 3);
    fn ap_var_l = append_variable(LAYERS4, 2);
    fn ap_var_l1 = append_variable(LAYERS4, 1);
    fn ap_var_0 = append_variable(REAL0, 3);
    fn ap_var_3 = append_variable(REAL3, 3);
    fn ap_var_r = append_variable(SMALL, 2);
}
