//! The point views: packed form, fields, and what each setter changes.
use crate::chunk::pick;
use crate::sx;
use laz::las::gps::{GpsTime, LasGpsTime};
use laz::las::nir::{LasNIR, Nir};
use laz::las::rgb::{LasRGB, RGB};
use laz::las::wavepacket::LasWavepacket;
use laz::las::point0::LasPoint0;
use laz::las::point6::LasPoint6;
use laz::las::{Point0, Point1, Point2, Point3, Point4, Point5, Point6, Point7};
use laz::las::extra_bytes::{ExtraBytes, LasExtraBytes};
use laz::packers::Packable;

fn u16_at(b: &[u8], i: usize) -> u16 {
    b[i] as u16 | (b[i + 1] as u16) << 8
}
fn u32_at(b: &[u8], i: usize) -> u32 {
    u16_at(b, i) as u32 | (u16_at(b, i + 2) as u32) << 16
}
fn u64_at(b: &[u8], i: usize) -> u64 {
    u32_at(b, i) as u64 | (u32_at(b, i + 4) as u64) << 32
}
/// unpacked and packed again into a larger buffer: the same N bytes, and nothing behind them
fn same<T: Packable, const N: usize>(v: &T, b: &[u8; N], id: u32) {
    let mut out = [0xA5u8; 80];
    v.pack_into(&mut out[1..]);
    sx::assert(out[1..1 + N] == b[..], id);
    sx::assert(out[0] == 0xA5 && out[1 + N] == 0xA5 && out[2 + N] == 0xA5, id + 1);
    let mut exact = [0u8; N];
    v.pack_into(&mut exact);
    sx::assert(exact == *b, id + 2);
    unsafe { v.pack_into_unchecked(&mut out[40..]) };
    sx::assert(N > 38 || out[40..40 + N] == b[..] && out[40 + N] == 0xA5, id + 3);
}
fn view<T: Packable, const N: usize>(b: &[u8; N], id: u32) -> T {
    let v = T::unpack_from(b);
    same(&v, b, id);
    // from a longer slice: the first N bytes
    let mut long = [0x5Au8; 80];
    long[3..3 + N].copy_from_slice(b);
    same(&T::unpack_from(&long[3..]), b, id + 4);
    same(&unsafe { T::unpack_from_unchecked(&long[3..]) }, b, id + 8);
    v
}
/// a slice that is too short is refused, not read or written past its end
fn short<T: Packable + Default, const N: usize>() {
    let b: [u8; N] = sx::any(0);
    let n = pick(1, 0..N as u64);
    let w = pick(2, 0..2);
    sx::cover(1);
    sx::panic_ok(true);
    if w == 0 {
        T::unpack_from(&b[..n]);
    } else {
        let mut out = [0u8; N];
        T::default().pack_into(&mut out[..n]);
    }
    sx::panic_ok(false);
    sx::assert(false, 99);
}

fn ints() {
    let b: [u8; 8] = sx::any(0);
    sx::assert(view::<u8, 1>(&[b[0]], 10) == b[0], 1);
    sx::assert(view::<i8, 1>(&[b[0]], 10) == b[0] as i8, 2);
    let b2 = [b[0], b[1]];
    sx::assert(view::<u16, 2>(&b2, 10) == u16_at(&b, 0), 3);
    sx::assert(view::<i16, 2>(&b2, 10) == u16_at(&b, 0) as i16, 4);
    let b4 = [b[0], b[1], b[2], b[3]];
    sx::assert(view::<u32, 4>(&b4, 10) == u32_at(&b, 0), 5);
    sx::assert(view::<i32, 4>(&b4, 10) == u32_at(&b, 0) as i32, 6);
    sx::assert(view::<f32, 4>(&b4, 10).to_bits() == u32_at(&b, 0), 7);
    sx::assert(view::<u64, 8>(&b, 10) == u64_at(&b, 0), 8);
    sx::cover(1);
}
/// what the fields of a legacy point record are
fn fields0<P: LasPoint0>(p: &P, b: &[u8], id: u32) {
    sx::assert(p.x() == u32_at(b, 0) as i32, id);
    sx::assert(p.y() == u32_at(b, 4) as i32, id + 1);
    sx::assert(p.z() == u32_at(b, 8) as i32, id + 2);
    sx::assert(p.intensity() == u16_at(b, 12), id + 3);
    sx::assert(p.bit_fields() == b[14], id + 4);
    sx::assert(p.return_number() == b[14] & 7, id + 5);
    sx::assert(p.number_of_returns_of_given_pulse() == b[14] >> 3 & 7, id + 6);
    sx::assert(p.scan_direction_flag() == (b[14] & 0x40 != 0), id + 7);
    sx::assert(p.edge_of_flight_line() == (b[14] & 0x80 != 0), id + 8);
    sx::assert(p.classification() == b[15], id + 9);
    sx::assert(p.scan_angle_rank() == b[16] as i8, id + 10);
    sx::assert(p.user_data() == b[17], id + 11);
    sx::assert(p.point_source_id() == u16_at(b, 18), id + 12);
}
fn point0() {
    let mut b: [u8; 20] = sx::any(0);
    let mut p = view::<Point0, 20>(&b, 10);
    fields0(&p, &b, 30);
    // one setter: its field, and nothing else
    let n: [u8; 4] = sx::any(1);
    match pick(2, 0..9) {
        0 => {
            p.set_x(u32_at(&n, 0) as i32);
            b[0..4].copy_from_slice(&n)
        }
        1 => {
            p.set_y(u32_at(&n, 0) as i32);
            b[4..8].copy_from_slice(&n)
        }
        2 => {
            p.set_z(u32_at(&n, 0) as i32);
            b[8..12].copy_from_slice(&n)
        }
        3 => {
            p.set_intensity(u16_at(&n, 0));
            b[12..14].copy_from_slice(&n[..2])
        }
        4 => {
            p.set_bit_fields(n[0]);
            b[14] = n[0]
        }
        5 => {
            p.set_classification(n[0]);
            b[15] = n[0]
        }
        6 => {
            p.set_scan_angle_rank(n[0] as i8);
            b[16] = n[0]
        }
        7 => {
            p.set_user_data(n[0]);
            b[17] = n[0]
        }
        _ => {
            p.set_point_source_id(u16_at(&n, 0));
            b[18..20].copy_from_slice(&n[..2])
        }
    }
    same(&p, &b, 50);
    fields0(&p, &b, 60);
    sx::cover(1);
}
fn fields6<P: LasPoint6>(p: &P, b: &[u8], id: u32) {
    sx::assert(p.x() == u32_at(b, 0) as i32, id);
    sx::assert(p.y() == u32_at(b, 4) as i32, id + 1);
    sx::assert(p.z() == u32_at(b, 8) as i32, id + 2);
    sx::assert(p.intensity() == u16_at(b, 12), id + 3);
    sx::assert(p.bit_fields() == b[14], id + 4);
    sx::assert(p.return_number() == b[14] & 15, id + 5);
    sx::assert(p.number_of_returns_of_given_pulse() == b[14] >> 4, id + 6);
    sx::assert(p.flags() == b[15], id + 7);
    sx::assert(p.classification_flags() == b[15] & 15, id + 8);
    sx::assert(p.scanner_channel() == b[15] >> 4 & 3, id + 9);
    sx::assert(p.scan_direction_flag() == (b[15] & 0x40 != 0), id + 10);
    sx::assert(p.edge_of_flight_line() == (b[15] & 0x80 != 0), id + 11);
    sx::assert(p.classification() == b[16], id + 12);
    sx::assert(p.user_data() == b[17], id + 13);
    sx::assert(p.scan_angle_rank() == u16_at(b, 18) as i16, id + 14);
    sx::assert(p.point_source_id() == u16_at(b, 20), id + 15);
    sx::assert(p.gps_time().to_bits() == u64_at(b, 22), id + 16);
}
fn point6() {
    let mut b: [u8; 30] = sx::any(0);
    let mut p = view::<Point6, 30>(&b, 10);
    fields6(&p, &b, 30);
    let n: [u8; 8] = sx::any(1);
    match pick(2, 0..14) {
        0 => {
            p.set_x(u32_at(&n, 0) as i32);
            b[0..4].copy_from_slice(&n[..4])
        }
        1 => {
            p.set_y(u32_at(&n, 0) as i32);
            b[4..8].copy_from_slice(&n[..4])
        }
        2 => {
            p.set_z(u32_at(&n, 0) as i32);
            b[8..12].copy_from_slice(&n[..4])
        }
        3 => {
            p.set_intensity(u16_at(&n, 0));
            b[12..14].copy_from_slice(&n[..2])
        }
        4 => {
            p.set_bit_fields(n[0]);
            b[14] = n[0]
        }
        5 => {
            p.set_flags(n[0]);
            b[15] = n[0]
        }
        6 => {
            p.set_return_number(n[0]);
            b[14] = b[14] & 0xf0 | n[0] & 15
        }
        7 => {
            p.set_number_of_returns(n[0]);
            b[14] = b[14] & 0x0f | n[0] << 4
        }
        8 => {
            p.set_scanner_channel(n[0]);
            b[15] = b[15] & 0xcf | (n[0] & 3) << 4
        }
        9 => {
            p.set_classification(n[0]);
            b[16] = n[0]
        }
        10 => {
            p.set_user_data(n[0]);
            b[17] = n[0]
        }
        11 => {
            p.set_scan_angle_rank(u16_at(&n, 0) as i16);
            b[18..20].copy_from_slice(&n[..2])
        }
        12 => {
            p.set_point_source_id(u16_at(&n, 0));
            b[20..22].copy_from_slice(&n[..2])
        }
        _ => {
            p.set_gps_time(f64::from_bits(u64_at(&n, 0)));
            b[22..30].copy_from_slice(&n)
        }
    }
    same(&p, &b, 50);
    fields6(&p, &b, 60);
    sx::cover(1);
}
fn colours<C: LasRGB>(c: &mut C, b: &[u8; 6], id: u32) {
    c.set_blue(u16_at(b, 4));
    c.set_red(u16_at(b, 0));
    c.set_green(u16_at(b, 2));
    sx::assert(c.red() == u16_at(b, 0), id);
    sx::assert(c.green() == u16_at(b, 2), id + 1);
    sx::assert(c.blue() == u16_at(b, 4), id + 2);
}
fn time<G: LasGpsTime>(g: &mut G, b: &[u8; 8], id: u32) {
    g.set_gps_time(f64::from_bits(u64_at(b, 0)));
    sx::assert(g.gps_time().to_bits() == u64_at(b, 0), id);
    let mut rev = *b;
    rev[0] ^= 1;
    rev[7] ^= 0x80;
    g.read_from(&mut &rev[..]).unwrap();
    sx::assert(g.gps_time().to_bits() == u64_at(b, 0) ^ 1 ^ 1 << 63, id + 1);
    sx::assert(g.read_from(&mut &rev[..7]).is_err(), id + 2);
}
fn items() {
    let b: [u8; 29] = sx::any(0);
    let mut c6 = [0; 6];
    c6.copy_from_slice(&b[..6]);
    let mut c = view::<RGB, 6>(&c6, 10);
    sx::assert(c.red() == u16_at(&b, 0) && c.green() == u16_at(&b, 2) && c.blue() == u16_at(&b, 4), 1);
    c6.copy_from_slice(&b[6..12]);
    colours(&mut c, &c6, 2);
    same(&c, &c6, 30);
    let mut t8 = [0; 8];
    t8.copy_from_slice(&b[..8]);
    let mut t = view::<GpsTime, 8>(&t8, 10);
    sx::assert(t.gps_time().to_bits() == u64_at(&b, 0) && i64::from(t) == u64_at(&b, 0) as i64, 5);
    sx::assert(f64::from(t).to_bits() == u64_at(&b, 0), 6);
    t8.copy_from_slice(&b[8..16]);
    time(&mut t, &t8, 7);
    let mut w = view::<LasWavepacket, 29>(&b, 10);
    same(&w, &b, 30);
    w = LasWavepacket::default();
    same(&w, &[0u8; 29], 40);
    let mut n = Nir::default();
    n.set_nir(u16_at(&b, 2));
    sx::assert(n.nir() == u16_at(&b, 2), 12);
    let mut e = ExtraBytes::new(5);
    sx::assert(e.extra_bytes() == [0u8; 5], 13);
    e.set_extra_bytes(&b[3..8]);
    sx::assert(e.extra_bytes() == &b[3..8], 14);
    sx::assert(ExtraBytes::from(b.to_vec()).extra_bytes() == b, 15);
    sx::cover(1);
}
/// the composed points: colours and time are kept apart
fn composed() {
    let b: [u8; 14] = sx::any(0);
    let (mut c, mut t) = ([0; 6], [0; 8]);
    c.copy_from_slice(&b[..6]);
    t.copy_from_slice(&b[6..]);
    time(&mut Point1::default(), &t, 1);
    colours(&mut Point2::default(), &c, 11);
    let mut p = Point3::default();
    time(&mut p, &t, 21);
    colours(&mut p, &c, 31);
    sx::assert(p.gps_time().to_bits() == u64_at(&t, 0) ^ 1 ^ 1 << 63, 41);
    time(&mut p, &t, 51);
    sx::assert(p.red() == u16_at(&c, 0) && p.green() == u16_at(&c, 2) && p.blue() == u16_at(&c, 4), 61);
    time(&mut Point4::default(), &t, 71);
    time(&mut Point5::default(), &t, 81);
    colours(&mut Point7::default(), &c, 91);
    sx::cover(1);
}
crate::harness! {
    fn pk_ints = ints();
    fn pk_point0 = point0();
    fn pk_point6 = point6();
    fn pk_items = items();
    fn pk_composed = composed();
    fn pk_short_0 = short::<Point0, 20>();
    fn pk_short_6 = short::<Point6, 30>();
    fn pk_short_rgb = short::<RGB, 6>();
    fn pk_short_gps = short::<GpsTime, 8>();
    fn pk_short_wave = short::<LasWavepacket, 29>();
    fn pk_short_u8 = short::<u8, 1>();
    fn pk_short_i8 = short::<i8, 1>();
    fn pk_short_u16 = short::<u16, 2>();
    fn pk_short_i16 = short::<i16, 2>();
    fn pk_short_u32 = short::<u32, 4>();
    fn pk_short_i32 = short::<i32, 4>();
    fn pk_short_f32 = short::<f32, 4>();
    fn pk_short_u64 = short::<u64, 8>();
}
