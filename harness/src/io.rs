//! What happens when the source or the destination is slow, interrupted, failing, not seekable, or
//! ends early.
use crate::chunk::{chunks_of, compress, pick, size, Calls, Kind, BYTES, LAYERS, REAL0, REAL3, REAL4, SMALL};
use crate::codec::{vlr_of, VARIABLE};
use crate::sx;
use laz::{LasZipAppender, LasZipCompressor, LasZipDecompressor, LazVlr};
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

#[derive(Clone, Copy, PartialEq)]
pub enum Fault {
    None,
    Fails(ErrorKind),
    /// a read or write is interrupted: it has to be repeated
    Interrupted,
    /// a write takes nothing
    Zero,
}
/// A file whose operations can be made to fail, and to take few bytes at a time
pub struct Dev {
    pub data: Vec<u8>,
    pub pos: usize,
    pub ops: usize,
    pub fail_at: usize,
    pub fault: Fault,
    pub fired: bool,
    pub cap: usize,
    pub seekable: bool,
}
impl Dev {
    pub fn new(data: Vec<u8>, pos: usize) -> Self {
        Dev { data, pos, ops: 0, fail_at: usize::MAX, fault: Fault::None, fired: false, cap: usize::MAX, seekable: true }
    }
    fn op(&mut self) -> bool {
        self.ops += 1;
        let hit = self.ops - 1 == self.fail_at && self.fault != Fault::None;
        self.fired |= hit;
        hit
    }
}
impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if self.op() {
            match self.fault {
                Fault::Fails(k) => return Err(Error::from(k)),
                Fault::Interrupted => return Err(Error::from(ErrorKind::Interrupted)),
                _ => {}
            }
        }
        let n = buf.len().min(self.cap).min(self.data.len().saturating_sub(self.pos));
        if n > 0 {
            buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        }
        self.pos += n;
        Ok(n)
    }
}
impl Write for Dev {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        if self.op() {
            match self.fault {
                Fault::Fails(k) => return Err(Error::from(k)),
                Fault::Interrupted => return Err(Error::from(ErrorKind::Interrupted)),
                Fault::Zero => return Ok(0),
                _ => {}
            }
        }
        let n = buf.len().min(self.cap);
        if self.data.len() < self.pos + n {
            self.data.resize(self.pos + n, 0);
        }
        self.data[self.pos..self.pos + n].copy_from_slice(&buf[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Seek for Dev {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        if self.op() {
            if let Fault::Fails(k) = self.fault {
                return Err(Error::from(k));
            }
        }
        if !self.seekable {
            return Err(Error::from(ErrorKind::Unsupported));
        }
        let p = match to {
            SeekFrom::Start(p) => p as i64,
            SeekFrom::Current(d) => self.pos as i64 + d,
            SeekFrom::End(d) => self.data.len() as i64 + d,
        };
        if p < 0 {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        self.pos = p as usize;
        Ok(p as u64)
    }
}
/// every way an operation can fail
pub fn fault(id: u32, write: bool) -> Fault {
    match pick(id, 0..if write { 4 } else { 3 }) {
        0 => Fault::Fails(ErrorKind::Other),
        1 => Fault::Fails(ErrorKind::UnexpectedEof),
        2 => Fault::Interrupted,
        _ => Fault::Zero,
    }
}
fn chunking(id: u32) -> u32 {
    if pick(id, 0..2) == 0 {
        2
    } else {
        VARIABLE
    }
}
const CUTS: usize = 0b01101;

/// points that arrive are right; the operation that fails is reported, or did not matter
fn read_all(dev: Dev, vlr: LazVlr, pts: &[u8], many: bool) -> bool {
    let s = vlr.items_size() as usize;
    let mut d = match LasZipDecompressor::new(dev, vlr) {
        Ok(d) => d,
        Err(_) => return false,
    };
    let mut out = vec![0u8; pts.len()];
    if many {
        if d.decompress_many(&mut out).is_err() {
            return false;
        }
        sx::assert(out == pts, 1);
        return true;
    }
    for (o, p) in out.chunks_mut(s).zip(pts.chunks(s)) {
        if d.decompress_one(o).is_err() {
            return false;
        }
        sx::assert(o == p, 2);
    }
    true
}
fn count(mut dev: Dev, vlr: LazVlr, n: usize) -> usize {
    dev.fault = Fault::None;
    let s = vlr.items_size() as usize;
    let mut d = LasZipDecompressor::new(dev, vlr).unwrap();
    let mut out = vec![0u8; s];
    for _ in 0..n {
        d.decompress_one(&mut out).unwrap();
    }
    d.get().ops
}
fn read_fault(kind: Kind, n: usize, start: usize) {
    let chunk = chunking(1);
    let vlr = vlr_of(kind.items, chunk);
    let pts = (kind.make)(kind.items, n);
    let data = compress(&vlr, &pts, chunk, CUTS, start, Calls::Many);
    let ops = count(Dev::new(data.clone(), start), vlr.clone(), n);
    let mut dev = Dev::new(data, start);
    dev.fault = fault(2, false);
    dev.fail_at = pick(3, 0..ops as u64);
    let interrupted = dev.fault == Fault::Interrupted;
    let many = pick(4, 0..2) == 1;
    let ok = read_all(dev, vlr, &pts, many);
    sx::assert(ok || !interrupted, 3);
}
/// moving with a failing source
fn seek_fault(kind: Kind, n: usize) {
    let chunk = chunking(1);
    let vlr = vlr_of(kind.items, chunk);
    let s = size(kind.items);
    let pts = (kind.make)(kind.items, n);
    let data = compress(&vlr, &pts, chunk, CUTS, 0, Calls::Many);
    let mut d = LasZipDecompressor::new(Dev::new(data, 0), vlr).unwrap();
    let mut out = vec![0u8; s];
    d.decompress_one(&mut out).unwrap();
    let dev = d.get_mut();
    dev.fault = fault(2, false);
    dev.fail_at = dev.ops + pick(3, 0..30);
    let i = pick(4, 0..n as u64);
    if d.seek(i as u64).is_ok() && d.decompress_one(&mut out).is_ok() {
        sx::assert(out == pts[i * s..][..s], 4);
    } else {
        sx::assert(d.get().fired && d.get().fault != Fault::Interrupted, 5);
        // once the source works again, so does the reader
        let i = pick(5, 0..n as u64);
        d.seek(i as u64).unwrap();
        d.decompress_one(&mut out).unwrap();
        sx::assert(out == pts[i * s..][..s], 6);
    }
}
/// few bytes at a time: the same points, the same file
fn small(kind: Kind, n: usize, start: usize) {
    let chunk = chunking(1);
    let vlr = vlr_of(kind.items, chunk);
    let s = size(kind.items);
    let pts = (kind.make)(kind.items, n);
    let data = compress(&vlr, &pts, chunk, CUTS, start, Calls::Many);
    let cap = [1, 2, 3, 7][pick(2, 0..4)];
    let mut dev = Dev::new(vec![0xA5; start], start);
    dev.cap = cap;
    let mut c = LasZipCompressor::new(dev, vlr.clone()).unwrap();
    let mut at = 0;
    for k in chunks_of(n, chunk, CUTS) {
        c.compress_many(&pts[at * s..(at + k) * s]).unwrap();
        at += k;
        if chunk == VARIABLE {
            c.finish_current_chunk().unwrap();
        }
    }
    c.done().unwrap();
    let mut dev = c.into_inner();
    sx::assert(dev.data == data, 7);
    dev.pos = start;
    sx::assert(read_all(dev, vlr, &pts, pick(3, 0..2) == 1), 8);
}
/// a failing destination is reported by one of the calls
fn write_fault(kind: Kind, n: usize, start: usize) {
    let chunk = chunking(1);
    let vlr = vlr_of(kind.items, chunk);
    let s = size(kind.items);
    let pts = (kind.make)(kind.items, n);
    let run = |dev: Dev| -> (bool, Dev) {
        let mut c = LasZipCompressor::new(dev, vlr.clone()).unwrap();
        let mut at = 0;
        let mut ok = true;
        for k in chunks_of(n, chunk, CUTS) {
            ok = ok && c.compress_many(&pts[at * s..(at + k) * s]).is_ok();
            at += k;
            if chunk == VARIABLE {
                ok = ok && c.finish_current_chunk().is_ok();
            }
        }
        ok = ok && c.done().is_ok();
        (ok, c.into_inner())
    };
    let (ok, good) = run(Dev::new(vec![0xA5; start], start));
    sx::assert(ok, 9);
    let mut dev = Dev::new(vec![0xA5; start], start);
    dev.fault = fault(2, true);
    dev.fail_at = pick(3, 0..good.ops as u64);
    let f = dev.fault;
    let (ok, dev) = run(dev);
    sx::assert(dev.fired, 10);
    if ok {
        // seeking cannot be interrupted, nor take nothing
        sx::assert(f == Fault::Interrupted || f == Fault::Zero, 11);
        sx::assert(dev.data == good.data, 12);
    } else {
        sx::assert(f != Fault::Interrupted, 13);
    }
}
/// appending to a failing file is reported
fn append_fault(kind: Kind, n: usize, m: usize) {
    let chunk = chunking(1);
    let vlr = vlr_of(kind.items, chunk);
    let s = size(kind.items);
    let pts = (kind.make)(kind.items, n + m);
    let data = compress(&vlr, &pts[..n * s], chunk, CUTS, 0, Calls::Many);
    let run = |dev: Dev| -> (bool, Option<Dev>) {
        let mut a = match LasZipAppender::new(dev, vlr.clone(), n as u64) {
            Ok(a) => a,
            Err(_) => return (false, None),
        };
        let ok = a.compress_many(&pts[n * s..]).is_ok() && a.done().is_ok();
        (ok, Some(a.into_inner()))
    };
    let (ok, good) = run(Dev::new(data.clone(), 0));
    let good = good.unwrap();
    sx::assert(ok, 14);
    let mut dev = Dev::new(data, 0);
    dev.fault = fault(2, true);
    dev.fail_at = pick(3, 0..good.ops as u64);
    let f = dev.fault;
    let (ok, dev) = run(dev);
    if ok {
        sx::assert(f == Fault::Interrupted || f == Fault::Zero, 15);
        sx::assert(dev.unwrap().data == good.data, 16);
    } else {
        sx::assert(f != Fault::Interrupted, 17);
    }
}
/// A file that ends anywhere: the points that are there, then an error
fn truncated(kind: Kind, n: usize, start: usize) {
    let chunk = chunking(1);
    let vlr = vlr_of(kind.items, chunk);
    let pts = (kind.make)(kind.items, n);
    let mut data = compress(&vlr, &pts, chunk, CUTS, start, Calls::Many);
    let keep = pick16(2, start as u64..data.len() as u64);
    let end = i64::from_le_bytes(data[start..start + 8].try_into().unwrap()) as usize;
    data.truncate(keep);
    let one = pick(3, 0..2) == 0;
    let ok = read_all(Dev::new(data, start), vlr, &pts, !one);
    sx::assert(!ok || keep >= end, 20);
    // without chunks of variable size, the points do not need the table
    if chunk != VARIABLE && keep >= end {
        sx::assert(ok, 21);
    }
}
fn pick16(id: u32, r: core::ops::Range<u64>) -> usize {
    let v = sx::any_u16(id) as u64;
    sx::assume(v >= r.start && v < r.end);
    sx::split(v) as usize
}
/// A source that cannot seek: the points, when chunk sizes are fixed or stored with the chunks
fn no_seek(kind: Kind, layered: bool, n: usize) {
    let chunk = chunking(1);
    let vlr = vlr_of(kind.items, chunk);
    let pts = (kind.make)(kind.items, n);
    let data = compress(&vlr, &pts, chunk, CUTS, 0, Calls::Many);
    let mut dev = Dev::new(data, 0);
    dev.seekable = false;
    dev.cap = [1, 4, usize::MAX][pick(2, 0..3)];
    let ok = read_all(dev, vlr, &pts, pick(3, 0..2) == 1);
    sx::assert(ok == (chunk != VARIABLE || layered), 22);
}
/// A file whose writer could not go back: the table's offset is at the end, or nowhere
fn streamed(kind: Kind, layered: bool, n: usize) {
    let chunk = chunking(1);
    let vlr = vlr_of(kind.items, chunk);
    let s = size(kind.items);
    let pts = (kind.make)(kind.items, n);
    let mut data = compress(&vlr, &pts, chunk, CUTS, 0, Calls::Many);
    let off: [u8; 8] = data[..8].try_into().unwrap();
    let missing = pick(2, 0..3);
    data[..8].copy_from_slice(&(-1i64).to_le_bytes());
    if missing == 0 {
        data.extend_from_slice(&off);
    } else {
        // no table, and what is where its offset would be is no offset
        data.truncate(u64::from_le_bytes(off) as usize);
        data.extend_from_slice(&if missing == 1 { [0; 8] } else { [0xff; 8] });
    }
    let ok = read_all(Dev::new(data.clone(), 0), vlr.clone(), &pts, pick(3, 0..2) == 1);
    sx::assert(ok == (missing == 0 || chunk != VARIABLE || layered), 23);
    if let Ok(mut d) = LasZipDecompressor::new(Dev::new(data, 0), vlr) {
        let i = pick(4, 0..n as u64);
        match d.seek(i as u64) {
            Ok(()) => {
                let mut out = vec![0u8; s];
                d.decompress_one(&mut out).unwrap();
                sx::assert(missing == 0 && out == pts[i * s..][..s], 24);
            }
            Err(_) => sx::assert(missing != 0, 25),
        }
    }
}
/// All points in one chunk, no table: the oldest kind of file
fn point_wise(kind: Kind, max: u64) {
    let n = pick(1, 1..max + 1);
    let pts = (kind.make)(kind.items, n);
    let data = compress(&vlr_of(kind.items, 1000), &pts, 1000, 0, 0, Calls::Many);
    let end = i64::from_le_bytes(data[..8].try_into().unwrap()) as usize;
    let mut v = Vec::new();
    vlr_of(kind.items, 1000).write_to(&mut v).unwrap();
    v[0] = 1;
    // LASzip stores any chunk size here
    v[12..16].copy_from_slice(&[[0u8; 4], [2, 0, 0, 0], [0xff; 4]][pick(2, 0..3)]);
    let vlr = LazVlr::from_buffer(&v).unwrap();
    let ok = read_all(Dev::new(data[8..end].to_vec(), 0), vlr, &pts, pick(3, 0..2) == 1);
    sx::assert(ok, 26);
}
/// the shortcuts for whole buffers, and the reserved offset
fn buffers(kind: Kind, max: u64) {
    let n = pick(1, 0..max + 1);
    let chunk = pick(2, 1..4) as u32;
    let vlr = vlr_of(kind.items, chunk);
    let pts = (kind.make)(kind.items, n);
    let data = compress(&vlr, &pts, chunk, 0, 0, Calls::Many);
    let mut c = std::io::Cursor::new(Vec::new());
    laz::compress_buffer(&mut c, &pts, vlr.clone()).unwrap();
    let buf = c.into_inner();
    sx::assert(buf == data, 27);
    let mut out = vec![0u8; pts.len()];
    laz::decompress_buffer(&buf, &mut out, vlr.clone()).unwrap();
    sx::assert(out == pts, 28);
    let mut c = LasZipCompressor::new(Dev::new(vec![0xA5; 13], 13), vlr.clone()).unwrap();
    c.reserve_offset_to_chunk_table().unwrap();
    c.compress_many(&pts).unwrap();
    c.done().unwrap();
    let d = c.into_inner().data;
    let want = compress(&vlr, &pts, chunk, 0, 13, Calls::Many);
    sx::assert(d == want, 29);
}

crate::harness! {
    fn io_read_b = read_fault(BYTES, 5, 0);
    fn io_read_l = read_fault(LAYERS, 3, 0);
    fn io_read_0 = read_fault(REAL0, 5, 13);
    fn io_read_3 = read_fault(REAL3, 5, 13);
    fn io_read_r = read_fault(SMALL, 3, 0);
    fn io_seek_b = seek_fault(BYTES, 5);
    fn io_seek_0 = seek_fault(REAL0, 5);
    fn io_seek_4 = seek_fault(REAL4, 5);
    fn io_seek_r = seek_fault(SMALL, 3);
    fn io_small_b = small(BYTES, 5, 13);
    fn io_small_0 = small(REAL0, 5, 13);
    fn io_small_3 = small(REAL3, 5, 0);
    fn io_small_r = small(SMALL, 3, 13);
    fn io_write_b = write_fault(BYTES, 5, 13);
    fn io_write_0 = write_fault(REAL0, 5, 0);
    fn io_write_3 = write_fault(REAL3, 5, 0);
    fn io_write_r = write_fault(SMALL, 3, 0);
    fn io_append_b = append_fault(BYTES, 5, 2);
    fn io_append_0 = append_fault(REAL0, 3, 3);
    fn io_append_4 = append_fault(REAL4, 3, 3);
    fn io_append_r = append_fault(SMALL, 1, 2);
    fn tr_b = truncated(BYTES, 5, 13);
    fn tr_0 = truncated(REAL0, 5, 0);
    fn tr_3 = truncated(REAL3, 5, 13);
    fn tr_4 = truncated(REAL4, 5, 0);
    fn tr_r = truncated(SMALL, 3, 0);
    fn ns_b = no_seek(BYTES, false, 5);
    fn ns_0 = no_seek(REAL0, false, 5);
    fn ns_3 = no_seek(REAL3, true, 5);
    fn ns_4 = no_seek(REAL4, true, 5);
    fn st_b = streamed(BYTES, false, 5);
    fn st_0 = streamed(REAL0, false, 5);
    fn st_3 = streamed(REAL3, true, 5);
    fn st_r = streamed(SMALL, false, 3);
    fn pw_b = point_wise(BYTES, 5);
    fn pw_0 = point_wise(REAL0, 5);
    fn pw_1 = point_wise(crate::chunk::REAL1, 5);
    fn pw_r = point_wise(SMALL, 4);
    fn bf_b = buffers(BYTES, 4);
    fn bf_0 = buffers(REAL0, 5);
    fn bf_3 = buffers(REAL3, 5);
    fn bf_r = buffers(SMALL, 3);
}
