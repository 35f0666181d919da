// Bridge between the ghost coder and the symbolic executor (or its native replay stubs).
extern "C" {
    fn sx_assert(c: bool, id: u32);
    fn sx_assume(c: bool);
    fn sx_trace(v: u64);
    fn sx_u32(id: u32) -> u32;
    fn sx_u8(id: u32) -> u8;
    fn sx_split(v: u64) -> u64;
    fn sx_mix(h: u64, v: u64) -> u64;
    fn sx_ghost_faults() -> bool;
    fn sx_ghost_pick(v: u32) -> u32;
    fn sx_ghost_trace_limit() -> u32;
}

#[inline(always)]
pub fn check_enc(c: bool) {
    unsafe { sx_assert(c, 9001) }
}
#[inline(always)]
pub fn check_dec(c: bool, _what: u32) {
    unsafe { sx_assert(c, 9002) }
}
#[inline(always)]
pub fn trace(v: u64) {
    unsafe { sx_trace(v) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { sx_assume(c) }
}
#[inline(always)]
pub fn any_u32() -> u32 {
    unsafe { sx_ghost_pick(sx_u32(9100)) }
}
#[inline(always)]
pub fn any_fault() -> bool {
    unsafe { sx_ghost_faults() }
}
/// one path per value
#[inline(always)]
pub fn concrete(v: u32) -> u32 {
    unsafe { sx_split(v as u64) as u32 }
}

/// A digest of (h, v), which the symbolic executor compares as the pair
#[inline(always)]
pub fn mix(h: u64, v: u64) -> u64 {
    unsafe { sx_mix(h, v) }
}

/// Lets the executor split on the symbols of small models (the "what changed" flags), so that it
/// does not join paths that code different fields
#[inline(always)]
pub fn trace_symbol(symbols: u32, sym: u32) {
    unsafe {
        let limit = sx_ghost_trace_limit();
        if symbols == limit {
            sx_trace(0x1000 | sym as u64)
        } else if limit != 0 && symbols > 256 {
            // GPS time multipliers: the kind of multiplier
            let mut class = 0u64;
            for bound in [1, 2, 10, 500, 501, 510, 511, 512, 513, 514, 515] {
                class += (sym >= bound) as u64;
            }
            sx_trace(0x2000 | class)
        }
    }
}
