//! The parallel compressor, decompressor and appender do what the sequential ones do, in whatever
//! order their tasks run.
use crate::chunk::{
    at_start, check_file, check_read, chunks_of, compress, dest, i64_at, pick, size, table, Calls, Kind, BYTES, LAYERS,
    LAYERS4, REAL0, REAL3, REAL4, SMALL,
};
use crate::codec::{vlr_of, VARIABLE};
use crate::io::{fault, Dev, Fault};
use crate::sx;
use laz::las::selective::DecompressionSelection;
use laz::laszip::ChunkTable;
use laz::{LasZipAppender, LasZipDecompressor, LazCompressor, LazVlr, ParLasZipAppender, ParLasZipCompressor, ParLasZipDecompressor};
use std::io::Cursor;

fn order(id: u32) {
    rayon::set_order(pick(id, 0..3));
}
fn slices<'a>(pts: &'a [u8], s: usize, sizes: &[usize]) -> Vec<&'a [u8]> {
    let mut at = 0;
    let mut v = Vec::new();
    for k in sizes {
        v.push(&pts[at..at + k * s]);
        at += k * s;
    }
    v
}

/// fixed-size chunks, handed over in two parts, one by one, or by par_compress_buffer
fn fixed(kind: Kind, max: u64, max_chunk: u64) {
    let n = pick(1, 0..max + 1);
    let chunk = pick(2, 1..max_chunk + 1) as u32;
    let start = if pick(3, 0..2) == 0 { 0 } else { 13 };
    order(4);
    let how = pick(5, 0..n as u64 + 3);
    let s = size(kind.items);
    let pts = (kind.make)(kind.items, n);
    let vlr = vlr_of(kind.items, chunk);
    let data = if how == 0 {
        let mut d = dest(start);
        laz::par_compress_buffer(&mut d, &pts, &vlr).unwrap();
        d.into_inner()
    } else {
        let mut c = ParLasZipCompressor::new(dest(start), vlr.clone()).unwrap();
        if how == 1 {
            for p in pts.chunks(s) {
                LazCompressor::compress_one(&mut c, p).unwrap();
            }
        } else {
            let (a, b) = pts.split_at((how - 2) * s);
            c.compress_many(a).unwrap();
            c.compress_many(b).unwrap();
        }
        c.done().unwrap();
        c.into_inner().into_inner()
    };
    sx::assert(data == compress(&vlr, &pts, chunk, 0, start, Calls::Many), 1);
    check_read(&data, &vlr, &pts, start, true);
}
/// variable-size chunks, in two calls of compress_chunks
fn variable(kind: Kind, max: u64) {
    let n = pick(1, 1..max + 1);
    let cuts = pick(2, 0..1 << (n - 1));
    let start = if pick(3, 0..2) == 0 { 0 } else { 13 };
    order(4);
    let s = size(kind.items);
    let pts = (kind.make)(kind.items, n);
    let vlr = vlr_of(kind.items, VARIABLE);
    let sizes = chunks_of(n, VARIABLE, cuts);
    let first = pick(5, 0..sizes.len() as u64 + 1);
    let v = slices(&pts, s, &sizes);
    let mut c = ParLasZipCompressor::new(dest(start), vlr.clone()).unwrap();
    c.compress_chunks(v[..first].to_vec()).unwrap();
    c.compress_chunks(v[first..].to_vec()).unwrap();
    c.done().unwrap();
    let data = c.into_inner().into_inner();
    sx::assert(data == compress(&vlr, &pts, VARIABLE, cuts, start, Calls::Chunks), 2);
    check_read(&data, &vlr, &pts, start, true);
}
/// chunks without points among the others
fn empty(kind: Kind) {
    let n = 3;
    let empty = pick(2, 0..1 << (n + 1));
    order(3);
    let s = size(kind.items);
    let pts = (kind.make)(kind.items, n);
    let vlr = vlr_of(kind.items, VARIABLE);
    let mut v = Vec::new();
    for i in 0..=n {
        if empty >> i & 1 == 1 {
            v.push(&pts[..0]);
        }
        if i < n {
            v.push(&pts[i * s..(i + 1) * s]);
        }
    }
    let mut c = ParLasZipCompressor::new(dest(0), vlr.clone()).unwrap();
    c.compress_chunks(v).unwrap();
    c.done().unwrap();
    let data = c.into_inner().into_inner();
    check_read(&data, &vlr, &pts, 0, true);
    let t = table(&data, &vlr, 0);
    sx::assert(t.iter().map(|e| e.point_count).sum::<u64>() == n as u64, 3);
    let mut d = ParLasZipDecompressor::new(at_start(&data, 0), vlr).unwrap();
    let mut out = vec![0u8; n * s];
    d.decompress_many(&mut out).unwrap();
    sx::assert(out == pts, 4);
}

struct File {
    s: usize,
    pts: Vec<u8>,
    data: Vec<u8>,
    vlr: LazVlr,
    /// points are known to end here
    full: usize,
}
fn file(kind: Kind, n: usize, chunk: u32, cuts: usize, start: usize) -> File {
    let pts = (kind.make)(kind.items, n);
    let vlr = vlr_of(kind.items, chunk);
    let data = compress(&vlr, &pts, chunk, cuts, start, Calls::Many);
    let full = if chunk == VARIABLE { n } else { (n + chunk as usize - 1) / chunk as usize * chunk as usize };
    File { s: size(kind.items), pts, data, vlr, full }
}
/// n points, in chunks of any size or any cuts
fn any_file(kind: Kind, n: usize, max_chunk: u64, start: usize) -> File {
    if max_chunk == 0 {
        let cuts = pick(2, 0..1 << (n - 1));
        file(kind, n, VARIABLE, cuts, start)
    } else {
        file(kind, n, pick(2, 1..max_chunk + 1) as u32, 0, start)
    }
}
/// three reads of any sizes
fn reads(kind: Kind, max: u64, max_chunk: u64) {
    let n = pick(1, 1..max + 1);
    let f = any_file(kind, n, max_chunk, 13);
    order(3);
    let mut d = ParLasZipDecompressor::new(at_start(&f.data, 13), f.vlr).unwrap();
    let mut at = 0;
    for id in 0..3 {
        let k = if id == 2 { n - at } else { pick(4 + id, 0..(n - at) as u64 + 1) };
        let mut out = vec![0u8; k * f.s];
        d.decompress_many(&mut out).unwrap();
        sx::assert(out == f.pts[at * f.s..][..k * f.s], 5);
        at += k;
    }
}
/// the whole-buffer shortcuts
fn buffers(kind: Kind, max: u64, max_chunk: u64) {
    let n = pick(1, 1..max + 1);
    let f = any_file(kind, n, max_chunk, 0);
    order(3);
    let mut out = vec![0u8; n * f.s];
    laz::par_decompress_buffer(&f.data, &mut out, &f.vlr).unwrap();
    sx::assert(out == f.pts, 6);
    let t = ChunkTable::read_from(at_start(&f.data, 0), &f.vlr).unwrap();
    let end = i64_at(&f.data, 0);
    let mut out = vec![0u8; n * f.s];
    laz::par_decompress(&f.data[8..end], &mut out, &f.vlr, t.as_ref()).unwrap();
    sx::assert(out == f.pts, 7);
    // more points than there are
    let mut out = vec![0u8; (f.full + 1) * f.s];
    sx::assert(laz::par_decompress_buffer(&f.data, &mut out, &f.vlr).is_err(), 8);
}
/// `before` points read, moved to any index, then reading
fn seek(kind: Kind, max: u64, max_chunk: u64) {
    let n = pick(1, 1..max + 1);
    let f = any_file(kind, n, max_chunk, 13);
    order(6);
    let before = pick(3, 0..n as u64 + 1);
    let s = f.s;
    let mut d = ParLasZipDecompressor::new(at_start(&f.data, 13), f.vlr).unwrap();
    let mut out = vec![0u8; before * s];
    d.decompress_many(&mut out).unwrap();
    sx::assert(out == f.pts[..before * s], 9);
    let i = pick(4, 0..n as u64 + 1);
    let idx = if i < n { i as u64 } else { sx::any_u64(9) };
    sx::assume(i < n || idx >= f.full as u64);
    let mut one = vec![0u8; s];
    match d.seek(idx) {
        Ok(()) if i < n => {
            let k = pick(5, 1..(n - i) as u64 + 1);
            let mut out = vec![0u8; k * s];
            d.decompress_many(&mut out).unwrap();
            sx::assert(out == f.pts[i * s..][..k * s], 10);
            let mut out = vec![0u8; (n - i - k) * s];
            d.decompress_many(&mut out).unwrap();
            sx::assert(out == f.pts[(i + k) * s..], 11);
        }
        Ok(()) => {
            sx::cover(1);
            sx::assert(d.decompress_many(&mut one).is_err(), 12);
            d.seek(0).unwrap();
            d.decompress_many(&mut one).unwrap();
            sx::assert(one == f.pts[..s], 13);
        }
        Err(_) => sx::assert(i == n, 14),
    }
}
/// three moves in a row
fn moves(kind: Kind, n: usize, chunk: u32, cuts: usize) {
    let f = file(kind, n, chunk, cuts, 0);
    let s = f.s;
    let mut d = ParLasZipDecompressor::new(at_start(&f.data, 0), f.vlr).unwrap();
    for id in 0..3 {
        let i = pick(5 + id, 0..n as u64);
        let k = pick(8 + id, 0..4).min(n - i);
        d.seek(i as u64).unwrap();
        let mut out = vec![0u8; k * s];
        d.decompress_many(&mut out).unwrap();
        sx::assert(out == f.pts[i * s..][..k * s], 15);
    }
}
/// asking for more than there is
fn past_end(kind: Kind, max: u64, max_chunk: u64) {
    let n = pick(1, 1..max + 1);
    let f = any_file(kind, n, max_chunk, 0);
    let before = pick(3, 0..n as u64 + 1);
    let more = pick(4, 1..4);
    order(5);
    sx::assume(n - before + more > f.full - before);
    let s = f.s;
    let mut d = ParLasZipDecompressor::new(at_start(&f.data, 0), f.vlr).unwrap();
    let mut out = vec![0u8; before * s];
    d.decompress_many(&mut out).unwrap();
    for _ in 0..2 {
        let mut out = vec![0u8; (n - before + more) * s];
        sx::assert(d.decompress_many(&mut out).is_err(), 16);
    }
    d.seek(0).unwrap();
    let mut out = vec![0u8; n * s];
    d.decompress_many(&mut out).unwrap();
    sx::assert(out == f.pts, 17);
}
/// a selection: the same bytes as the sequential decompressor's, also behind a seek
fn select(kind: Kind, n: usize, max_chunk: u64) {
    let f = any_file(kind, n, max_chunk, 0);
    order(3);
    let bits = [0u32, 1, 0x2, 0x4, 0x60, 0x400, 0x7ff, 0xfff][pick(4, 0..8)];
    let sel = DecompressionSelection(bits);
    let s = f.s;
    let mut d = ParLasZipDecompressor::selective(at_start(&f.data, 0), f.vlr.clone(), sel).unwrap();
    let mut e = LasZipDecompressor::selective(at_start(&f.data, 0), f.vlr, sel).unwrap();
    let i = pick(5, 0..n as u64);
    let (mut a, mut b) = (vec![0u8; (n - 1) * s], vec![0u8; (n - 1) * s]);
    d.decompress_many(&mut a).unwrap();
    e.decompress_many(&mut b).unwrap();
    sx::assert(a == b, 18);
    d.seek(i as u64).unwrap();
    e.seek(i as u64).unwrap();
    let (mut a, mut b) = (vec![0u8; (n - i) * s], vec![0u8; (n - i) * s]);
    d.decompress_many(&mut a).unwrap();
    e.decompress_many(&mut b).unwrap();
    sx::assert(a == b, 19);
}
/// n points, reopened, m more
fn append_fixed(kind: Kind, max: u64, max_chunk: u64) {
    let n = pick(1, 0..max + 1);
    let m = pick(2, 0..max + 1);
    let chunk = pick(3, 1..max_chunk + 1) as u32;
    order(4);
    let start = 13;
    let s = size(kind.items);
    let pts = (kind.make)(kind.items, n + m);
    let vlr = vlr_of(kind.items, chunk);
    let data = compress(&vlr, &pts[..n * s], chunk, 0, start, Calls::Many);
    let mut c = Cursor::new(data);
    c.set_position(start as u64);
    let mut a = ParLasZipAppender::new(c, vlr.clone(), n as u64).unwrap();
    let k = pick(5, 0..m as u64 + 1);
    a.compress_many(&pts[n * s..(n + k) * s]).unwrap();
    a.compress_many(&pts[(n + k) * s..]).unwrap();
    a.done().unwrap();
    let data = a.into_inner().into_inner();
    check_file(&data, kind, chunk, &chunks_of(n + m, chunk, 0), &pts, start);
    check_read(&data, &vlr, &pts, start, true);
}
fn append_variable(kind: Kind, max: u64) {
    let n = pick(1, 0..max + 1);
    let m = pick(2, 0..max + 1);
    let cuts = pick(3, 0..1 << n.max(1) - 1);
    let cuts2 = pick(4, 0..1 << m.max(1) - 1);
    order(5);
    let start = 13;
    let s = size(kind.items);
    let pts = (kind.make)(kind.items, n + m);
    let vlr = vlr_of(kind.items, VARIABLE);
    let data = compress(&vlr, &pts[..n * s], VARIABLE, cuts, start, Calls::Many);
    let mut c = Cursor::new(data);
    c.set_position(start as u64);
    let mut a = ParLasZipAppender::new(c, vlr.clone(), n as u64).unwrap();
    let sizes = chunks_of(m, VARIABLE, cuts2);
    a.compress_chunks(slices(&pts[n * s..], s, &sizes)).unwrap();
    a.done().unwrap();
    let data = a.into_inner().into_inner();
    check_read(&data, &vlr, &pts, start, true);
    let mut all = chunks_of(n, VARIABLE, cuts);
    all.extend(sizes);
    check_file(&data, kind, VARIABLE, &all, &pts, start);
}
/// the sequential appender continues what the parallel compressor wrote, and the other way round
fn mixed(kind: Kind, n: usize, m: usize) {
    let chunk = pick(3, 1..4) as u32;
    order(4);
    let s = size(kind.items);
    let pts = (kind.make)(kind.items, n + m);
    let vlr = vlr_of(kind.items, chunk);
    let mut c = ParLasZipCompressor::new(dest(0), vlr.clone()).unwrap();
    c.reserve_offset_to_chunk_table().unwrap();
    c.compress_many(&pts[..n * s]).unwrap();
    c.done().unwrap();
    let mut c = c.into_inner();
    c.set_position(0);
    let mut a = LasZipAppender::new(c, vlr.clone(), n as u64).unwrap();
    a.compress_many(&pts[n * s..]).unwrap();
    a.done().unwrap();
    let data = a.into_inner().into_inner();
    sx::assert(data == compress(&vlr, &pts, chunk, 0, 0, Calls::Many), 20);
}

/// reading from a source that fails once, is interrupted, or gives few bytes at a time
fn read_faults(kind: Kind, n: usize) {
    let chunk = if pick(1, 0..2) == 0 { 2 } else { VARIABLE };
    let f = file(kind, n, chunk, 0b01101, 0);
    let s = f.s;
    let small = pick(2, 0..2) == 1;
    let run = |mut dev: Dev, fault_: Fault, at: usize| -> (bool, usize) {
        if small {
            dev.cap = 3;
        }
        dev.fault = fault_;
        dev.fail_at = at;
        let mut d = match ParLasZipDecompressor::new(dev, f.vlr.clone()) {
            Ok(d) => d,
            Err(_) => return (false, 0),
        };
        let mut out = vec![0u8; 3 * s];
        if d.decompress_many(&mut out).is_err() {
            return (false, 0);
        }
        sx::assert(out == f.pts[..3 * s], 21);
        if d.seek(1).is_err() {
            return (false, 0);
        }
        let mut out = vec![0u8; (n - 1) * s];
        if d.decompress_many(&mut out).is_err() {
            return (false, 0);
        }
        sx::assert(out == f.pts[s..], 22);
        (true, d.get().ops)
    };
    let (ok, ops) = run(Dev::new(f.data.clone(), 0), Fault::None, 0);
    sx::assert(ok, 23);
    let kind = fault(3, false);
    let at = pick(4, 0..ops as u64);
    let (ok, _) = run(Dev::new(f.data.clone(), 0), kind, at);
    sx::assert(ok || kind != Fault::Interrupted, 24);
}
fn write_faults(kind: Kind, n: usize) {
    let chunk = if pick(1, 0..2) == 0 { 2 } else { VARIABLE };
    let vlr = vlr_of(kind.items, chunk);
    let s = size(kind.items);
    let pts = (kind.make)(kind.items, n);
    let small = pick(2, 0..2) == 1;
    let run = |mut dev: Dev| -> (bool, Dev) {
        if small {
            dev.cap = 3;
        }
        let mut c = ParLasZipCompressor::new(dev, vlr.clone()).unwrap();
        let ok = if chunk == VARIABLE {
            c.compress_chunks(slices(&pts, s, &chunks_of(n, chunk, 0b01101))).is_ok()
        } else {
            c.compress_many(&pts[..s]).is_ok() && c.compress_many(&pts[s..]).is_ok()
        } && c.done().is_ok();
        (ok, c.into_inner())
    };
    let (ok, good) = run(Dev::new(vec![0xA5; 13], 13));
    sx::assert(ok && good.data == compress(&vlr, &pts, chunk, 0b01101, 13, Calls::Many), 25);
    let mut dev = Dev::new(vec![0xA5; 13], 13);
    dev.fault = fault(3, true);
    dev.fail_at = pick(4, 0..good.ops as u64);
    let f = dev.fault;
    let (ok, dev) = run(dev);
    sx::assert(dev.fired, 26);
    if ok {
        sx::assert(f == Fault::Interrupted || f == Fault::Zero, 27);
        sx::assert(dev.data == good.data, 28);
    } else {
        sx::assert(f != Fault::Interrupted, 29);
    }
}
/// a file that ends anywhere
fn truncated(kind: Kind, n: usize) {
    let chunk = if pick(1, 0..2) == 0 { 2 } else { VARIABLE };
    let mut f = file(kind, n, chunk, 0b01101, 0);
    let keep = sx::any_u16(2) as u64;
    sx::assume(keep < f.data.len() as u64);
    let keep = sx::split(keep) as usize;
    f.data.truncate(keep);
    let mut out = vec![0u8; n * f.s];
    if let Ok(mut d) = ParLasZipDecompressor::new(at_start(&f.data, 0), f.vlr.clone()) {
        sx::assert(d.decompress_many(&mut out).is_err() || out == f.pts, 30);
    }
    sx::assert(laz::par_decompress_buffer(&f.data, &mut out, &f.vlr).is_err() || out == f.pts, 31);
}

/// a chunk whose last bytes are lost, as the table says: its points give an error, never others
fn lost(kind: Kind, orders: bool, amounts: &[usize]) {
    let n = 6;
    let (chunk, cuts) = [(3, 0), (VARIABLE, 0b100010), (VARIABLE, 0b101111)][pick(1, 0..3)];
    if orders {
        order(9)
    }
    let mut f = file(kind, n, chunk, cuts, 0);
    let mut t = table(&f.data, &f.vlr, 0);
    let c = pick(2, 0..t.len() as u64);
    let first = t[..c].iter().map(|e| e.byte_count as usize).sum::<usize>() + 8;
    let size = t[c].byte_count as usize;
    let gone = amounts[pick(3, 0..amounts.iter().filter(|g| **g <= size).count() as u64)];
    let end = i64_at(&f.data, 0);
    f.data.truncate(end);
    f.data.drain(first + size - gone..first + size);
    f.data[..8].copy_from_slice(&((end - gone) as u64).to_le_bytes());
    t[c].byte_count -= gone as u64;
    let mut w = ChunkTable::with_capacity(t.len());
    for e in &t {
        w.push(*e);
    }
    w.write_to(&mut f.data, &f.vlr).unwrap();
    let mut d = ParLasZipDecompressor::new(at_start(&f.data, 0), f.vlr.clone()).unwrap();
    let mut at = 0;
    if pick(4, 0..2) == 1 {
        at = pick(5, 0..n as u64);
        if d.seek(at as u64).is_err() {
            sx::cover(1);
            return;
        }
    }
    let k = pick(6, 1..(n - at) as u64 + 1);
    let mut out = vec![0u8; k * f.s];
    match d.decompress_many(&mut out) {
        Ok(()) => sx::assert(out == f.pts[at * f.s..][..k * f.s], 32),
        Err(_) => {
            sx::cover(1);
            return;
        }
    }
    let mut out = vec![0u8; (n - at - k) * f.s];
    sx::assert(d.decompress_many(&mut out).is_err() || out == f.pts[(at + k) * f.s..], 33);
}

/// any items: refused, or a record passes unchanged
fn items<const K: usize>() {
    let a = crate::vlr::any_items::<K>(10, 3);
    let ok = a.ok;
    let mut point = vec![0u8; a.total];
    sx::fill(&mut point, 0);
    let mut dst = dest(0);
    match ParLasZipCompressor::new(dest(0), a.vlr.clone()) {
        Ok(mut c) => {
            sx::assert(ok, 40);
            c.compress_many(&point).unwrap();
            c.done().unwrap();
            let data = c.into_inner().into_inner();
            laz::par_compress_buffer(&mut dst, &point, &a.vlr).unwrap();
            sx::assert(dst.into_inner() == data, 41);
            let mut d = ParLasZipDecompressor::new(at_start(&data, 0), a.vlr.clone()).unwrap();
            let mut out = vec![0u8; a.total];
            d.decompress_many(&mut out).unwrap();
            sx::assert(out == point, 42);
        }
        Err(_) => {
            sx::assert(!ok, 43);
            if a.chunked == 2 {
                sx::assert(laz::par_compress_buffer(&mut dst, &point, &a.vlr).is_err(), 44);
            }
            if !a.ok {
                // a table of one chunk of four bytes
                let t = vec![8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
                let mut out = point.clone();
                if let Ok(mut d) = ParLasZipDecompressor::new(at_start(&t, 0), a.vlr.clone()) {
                    sx::assert(d.decompress_many(&mut out).is_err(), 45);
                }
                if a.chunked == 2 {
                    sx::assert(laz::par_decompress_buffer(&t, &mut out, &a.vlr).is_err(), 46);
                }
            }
        }
    }
}

/// chunks of no points cannot be made
fn no_chunks(kind: Kind) {
    let pts = (kind.make)(kind.items, 2);
    let mut b = laz::LazVlrBuilder::default().with_fixed_chunk_size(0);
    b = b.with_laz_items(vlr_of(kind.items, 10).items().clone());
    let vlr = b.build();
    sx::assert(ParLasZipCompressor::new(dest(0), vlr.clone()).is_err(), 47);
    sx::assert(laz::par_compress_buffer(&mut dest(0), &pts, &vlr).is_err(), 48);
}

crate::harness! {
    fn pv_zero = no_chunks(BYTES);
    fn pv_items0 = items::<0>();
    fn pv_items1 = items::<1>();
    fn pv_items2 = items::<2>();
    fn pc_fixed_b = fixed(BYTES, 5, 3);
    fn pc_fixed_l = fixed(LAYERS, 3, 2);
    fn pc_fixed_0 = fixed(REAL0, 6, 4);
    fn pc_fixed_3 = fixed(REAL3, 6, 4);
    fn pc_fixed_r = fixed(SMALL, 3, 2);
    fn pc_var_b = variable(BYTES, 5);
    fn pc_var_l = variable(LAYERS4, 3);
    fn pc_var_0 = variable(REAL0, 5);
    fn pc_var_3 = variable(REAL3, 5);
    fn pc_var_r = variable(SMALL, 3);
    fn pc_empty_b = empty(BYTES);
    fn pc_empty_3 = empty(REAL3);
    fn pd_reads_fb = reads(BYTES, 5, 3);
    fn pd_reads_fl = reads(LAYERS, 2, 2);
    fn pd_reads_f0 = reads(REAL0, 6, 4);
    fn pd_reads_f3 = reads(REAL3, 6, 4);
    fn pd_reads_fr = reads(SMALL, 3, 2);
    fn pd_reads_vb = reads(BYTES, 5, 0);
    fn pd_reads_vl = reads(LAYERS4, 2, 0);
    fn pd_reads_v0 = reads(REAL0, 5, 0);
    fn pd_reads_v4 = reads(REAL4, 5, 0);
    fn pd_reads_vr = reads(SMALL, 3, 0);
    fn pd_buf_fb = buffers(BYTES, 5, 3);
    fn pd_buf_f0 = buffers(REAL0, 6, 4);
    fn pd_buf_f3 = buffers(REAL3, 6, 4);
    fn pd_buf_fr = buffers(SMALL, 3, 2);
    fn pd_buf_vb = buffers(BYTES, 5, 0);
    fn pd_buf_v3 = buffers(REAL3, 5, 0);
    fn pf_lost_b = lost(BYTES, true, &[1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 18]);
    fn pf_lost_0 = lost(REAL0, false, &[1, 2, 4, 9, 30, 40]);
    fn pf_lost_3 = lost(REAL3, false, &[1, 3, 8, 60]);
    fn pf_lost_r = lost(SMALL, false, &[1, 5]);
    fn pd_seek_fb = seek(BYTES, 5, 3);
    fn pd_seek_fl = seek(LAYERS, 2, 2);
    fn pd_seek_f0 = seek(REAL0, 6, 4);
    fn pd_seek_f3 = seek(REAL3, 5, 3);
    fn pd_seek_fr = seek(SMALL, 3, 2);
    fn pd_seek_vb = seek(BYTES, 5, 0);
    fn pd_seek_v0 = seek(REAL0, 5, 0);
    fn pd_seek_v4 = seek(REAL4, 5, 0);
    fn pd_seek_vr = seek(SMALL, 3, 0);
    fn pd_moves_0 = moves(REAL0, 6, 2, 0);
    fn pd_moves_3 = moves(REAL3, 6, 2, 0);
    fn pd_moves_v0 = moves(REAL0, 6, VARIABLE, 0b010010);
    fn pd_moves_v3 = moves(REAL3, 6, VARIABLE, 0b010010);
    fn pd_past_fb = past_end(BYTES, 4, 3);
    fn pd_past_f0 = past_end(REAL0, 4, 3);
    fn pd_past_f3 = past_end(REAL3, 4, 3);
    fn pd_past_vb = past_end(BYTES, 4, 0);
    fn pd_past_v0 = past_end(REAL0, 4, 0);
    fn pd_past_v3 = past_end(REAL3, 4, 0);
    fn pd_past_vr = past_end(SMALL, 3, 0);
    fn pd_sel_3 = select(REAL3, 5, 3);
    fn pd_sel_v4 = select(REAL4, 4, 0);
    fn pd_sel_l = select(LAYERS, 2, 2);
    fn pd_sel_0 = select(REAL0, 4, 2);
    fn pa_fixed_b = append_fixed(BYTES, 3, 3);
    fn pa_fixed_l = append_fixed(LAYERS, 2, 2);
    fn pa_fixed_0 = append_fixed(REAL0, 4, 3);
    fn pa_fixed_3 = append_fixed(REAL3, 4, 3);
    fn pa_fixed_r = append_fixed(SMALL, 2, 2);
    fn pa_var_b = append_variable(BYTES, 3);
    fn pa_var_0 = append_variable(REAL0, 3);
    fn pa_var_3 = append_variable(REAL3, 3);
    fn pa_var_r = append_variable(SMALL, 2);
    fn pa_mixed_0 = mixed(REAL0, 3, 3);
    fn pa_mixed_4 = mixed(REAL4, 3, 3);
    fn pf_read_b = read_faults(BYTES, 5);
    fn pf_read_0 = read_faults(REAL0, 5);
    fn pf_read_3 = read_faults(REAL3, 5);
    fn pf_write_b = write_faults(BYTES, 5);
    fn pf_write_0 = write_faults(REAL0, 5);
    fn pf_write_3 = write_faults(REAL3, 5);
    fn pf_cut_b = truncated(BYTES, 5);
    fn pf_cut_0 = truncated(REAL0, 5);
    fn pf_cut_3 = truncated(REAL3, 5);
}
