"""Which entry points decide which property."""


class E:
    def __init__(self, name, bound, variant="g2", timeout=(240, 1500), tiers=("quick", "thorough"),
                 weight=1, samples=2, query_timeout=20, args=(), ghost_counts=True, real_replay=True):
        self.name, self.bound, self.variant = name, bound, variant
        self.timeout, self.tiers, self.weight = timeout, tiers, weight
        self.samples, self.query_timeout, self.args = samples, query_timeout, args
        self.ghost_counts, self.real_replay = ghost_counts, real_replay


def T(name, bound, **k):
    """thorough tier only"""
    return E(name, bound, tiers=("thorough",), **k)


class Check:
    def __init__(self, title, technique, level_note, explain, assumptions, entries, fallback=()):
        self.title, self.technique, self.level_note = title, technique, level_note
        self.explain, self.assumptions = explain, assumptions
        self.entries, self.fallback = entries, fallback


SYM = "symbolic execution of the compiled code (LLVM IR), paths and assertions decided by SMT (cvc5, z3)"
BOUNDED = ("Within the bounds stated per entry, every value of the symbolic inputs is decided by the "
           "solver; nothing is claimed outside them. ")
GHOST = ("The entropy coder and the integer coder are replaced, at compile time, by stand-ins that record "
         "each operation (model, context, history, symbol) and assert that the decoder performs the same "
         "one; that the real coders are such lossless channels is decided by C01-C04.")
IRTRUST = ("rustc's optimised LLVM IR (debug assertions and overflow checks on), symx's semantics of it and "
           "the SMT solvers are trusted; sampled paths are replayed natively and must agree")

CHECKS = {}


BARE = "no state accessors, fresh coders: the fallback when the tree no longer fits them"


def F(*names):
    return [E(n, "fixed data sets, on separate paths, through the real coders", variant="bare", samples=0)
            for n in names]


ACC = ("The coder's interval, pending bytes and statistics are read and set through accessors compiled in "
       "with cfg(laz_verif).")


def R(name, bound, **k):
    return E(name, bound, variant="real", **k)


CHECKS["C01"] = Check(
    "entropy coder step", SYM, BOUNDED + ACC,
    "One operation of the real encoder from an arbitrary interval (any base, any legal length, two arbitrary "
    "pending bytes) is decided to stay inside the old interval, and the real decoder, from every code value "
    "inside the new interval, to return the same symbol, consume the same bytes, reach the same interval "
    "and the same statistics.  By induction every sequence of operations round-trips.",
    [IRTRUST, "models of more than 4 symbols are reached by fixed pseudo-random histories; in them the interval is "
     "arbitrary, the symbols those listed"],
    [R("ac_raw%d" % b, "every value of %d bits, every interval" % b) for b in (1, 2, 5, 8, 13, 16, 19)]
    + [R("ac_wide%d" % b, "every %d-bit value, every interval, every data (as two to four parts)" % b, weight=3) for b in (20, 31, 32, 64)]
    + [R("ac_bit", "every probability, both bits, every interval", weight=4)]
    + [R("ac_dist2_0", "2 symbols, every distribution"), R("ac_dist2_1", "2 symbols, every distribution"),
       R("ac_dist3_1", "3 symbols, every distribution, symbol 1", weight=10, query_timeout=60),
       R("ac_dist4_2", "4 symbols, every distribution, symbol 2", weight=11, query_timeout=60),
       R("ac_ev2", "2 symbols after 37, before and after an update", weight=4),
       R("ac_ev16q", "16 symbols after 500; symbols 0 1 7 8 14 15", weight=4),
       R("ac_ev17q", "17 symbols (decoder table) after 500; symbols 0 1 7 8 15 16", weight=4),
       R("ac_ev33", "33 symbols after 700; symbols 0 1 7 8 31 32", weight=6),
       R("ac_ev256", "256 symbols after 5000; symbols 0 1 63 64 65 254 255", weight=8),
       T("ac_ev16", "16 symbols after 500; all symbols", variant="real", weight=8),
       T("ac_ev17", "17 symbols after 500; all symbols", variant="real", weight=9),
       T("ac_ev64", "64 symbols after 1000", variant="real", weight=6),
       T("ac_ev128", "128 symbols after 3000", variant="real", weight=6),
       T("ac_ev516", "516 symbols after 40000", variant="real", weight=6),
       T("ac_ev2048", "2048 symbols after 60000", variant="real", weight=6)],
    F("fb_raw", "fb_mixed"))
CHECKS["C02"] = Check(
    "entropy coder byte stream", SYM, BOUNDED + ACC,
    "Behind a given number of emitted bytes, the last `run` of them 0xFF, come an arbitrary interval, an arbitrary "
    "byte, further bytes and the end of the stream; the bytes in the sink must equal those of the same coding over an "
    "unbounded buffer.  ac_last: from every final interval the terminating bytes select a value inside it, and are as "
    "many as the decoder reads ahead.",
    [IRTRUST, "runs of more than 4090 bytes 0xFF in front of a carry are outside (the format's buffer design cannot "
     "carry further)", "the positions are those listed; the interval, byte and carries are arbitrary"],
    [R("ac_stream_a", "0 1 2 4093..4097 bytes out, runs 0 1 3 4000", weight=2),
     R("ac_stream_b", "8189..8195 bytes out, runs 0 2 7 4090", weight=3),
     R("ac_stream_c", "12286..12289, 16383..16386 bytes out, runs 0 1 4000", weight=3),
     R("ac_stream_d", "4090, 8190, 12280 bytes out, runs 1 4000, 4200 more bytes, then a second arbitrary interval", weight=3),
     R("ac_last", "every final interval")],
    F("fb_raw", "fb_mixed"))
CHECKS["C03"] = Check(
    "adaptive statistics", SYM, BOUNDED + ACC,
    "The statistics after an update are compared with a transcription of LASzip's rule (counts, shares, lookup "
    "table, rescaling, update phase): one update from arbitrary counts and phase for small models and the bit "
    "model; long histories for models of every size the formats use.  Every symbol must keep a share.",
    [IRTRUST, "st_hist*/st_bits*: fixed pseudo-random histories (checked every 97 symbols), the last 6 bits arbitrary"],
    [R("st_upd2", "2 symbols, any counts and phase"), R("st_upd3", "3 symbols, any counts and phase"),
     R("st_upd4", "4 symbols, any counts and phase", weight=3),
     R("st_upd16", "16 symbols, 3 of them with any count, any phase", weight=9),
     R("st_bit", "any counts and phase of a bit model"),
     R("st_bits_even", "20000 bits, then any 6"), R("st_bits_zero", "20000 zeros and ones, mostly zeros, then any 6"),
     R("st_bits_one", "20000 mostly ones, then any 6")]
    + [R("st_hist%d" % n, "a history of a model of %d symbols" % n, weight=3) for n in (2, 9, 17, 33, 64, 128, 256, 516, 2048)],
    F("fb_mixed"))
G1 = ("The entropy coder is replaced, at compile time, by a stand-in that records each operation and asserts that the "
      "decoder performs the same one (C01-C03 decide that the real one is such a channel).")
CHECKS["C04"] = Check(
    "integer coder", SYM, BOUNDED + "Compositional: " + G1,
    "Arbitrary predictions and values (within what the formats hand over) through IntegerCompressor and "
    "IntegerDecompressor: the value must come back, and the reported corrector size must be equal on both sides and "
    "be that of the corrector.",
    [G1, IRTRUST],
    [E(n, b, variant="g1", weight=w) for n, b, w in (
        ("int32_1", "1 value, 32 bit", 3), ("int32_2", "2 values, 32 bit", 5), ("int32_3", "3 values, 32 bit", 9),
        ("int32c2_2", "2 values, 32 bit, 2 contexts", 7), ("int32c6_1", "1 value, 32 bit, 6 contexts", 4),
        ("int32c22_1", "1 value, 32 bit, 22 contexts", 5), ("int16_1", "1 value, 16 bit", 1), ("int16_2", "2 values, 16 bit", 3),
        ("int16c4_1", "1 value, 16 bit, 4 contexts", 1), ("int16c4_2", "2 values, 16 bit, 4 contexts", 3),
        ("int16c8_1", "1 value, 16 bit, 8 contexts", 1), ("int8c2_1", "1 value, 8 bit, 2 contexts", 1),
        ("int8c2_2", "2 values, 8 bit, 2 contexts", 1), ("int8c2_3", "3 values, 8 bit, 2 contexts", 1))],
    F("fb_ints"))


def codec(pid, title, entries, fallback=()):
    CHECKS[pid] = Check(
        title, SYM,
        BOUNDED + "Compositional: " + GHOST,
        "N arbitrary consecutive records are compressed and decompressed through the public API with a "
        "LAZ VLR that holds the item(s) under test; the output must equal the input byte for byte, the "
        "decoder must perform the very operations the encoder did, and no panic or overflow may occur.",
        [GHOST, IRTRUST], entries + F(*fallback), F(*fallback))


RETS = "80 fixed records of any return numbers, then one with each return byte, new time or not"
MULS = "60 fixed times of all multiples, then one step of each multiple and around it, and two more"
HIST = "behind a fixed history of records, "
FULL = "behind 3-13 fixed histories that take all four sequences and reuse some, "


codec("P05", "point10", [
    E("p10v1_2", "2 arbitrary 20-byte records"), E("p10v2_2", "2 arbitrary 20-byte records"),
    E("p10v1_3", "3 arbitrary 20-byte records", weight=9), E("p10v2_3", "3 arbitrary 20-byte records", weight=9),
    E("h_p10v1", HIST + "1 arbitrary record"), E("h_p10v2", HIST + "1 arbitrary record"),
    E("h_p10v1_2", HIST + "2 arbitrary records", weight=8), E("h_p10v2_2", HIST + "2 arbitrary records", weight=7),
    E("ret_p10v1", RETS, weight=2), E("ret_p10v2", RETS, weight=2),
], ["fb_p10v1", "fb_p10v2"])
codec("P06", "gps time", [
    E("mul_gpsv1", MULS, weight=2), E("mul_gpsv2", MULS, weight=2),
    E("gpsv1_2", "2 arbitrary times"), E("gpsv1_3", "3 arbitrary times"), E("gpsv1_4", "4 arbitrary times", weight=3),
    E("gpsv2_2", "2 arbitrary times"), E("gpsv2_3", "3 arbitrary times", weight=3), E("gpsv2_4", "4 arbitrary times", weight=9),
    E("h_gpsv1_1", HIST + "1 arbitrary time"), E("h_gpsv2_1", HIST + "1 arbitrary time"),
    E("h_gpsv1_f1", FULL + "1 arbitrary time"), E("h_gpsv2_f1", FULL + "1 arbitrary time"),
    T("h_gpsv1_f", FULL + "2 arbitrary times", weight=8), T("h_gpsv2_f", FULL + "2 arbitrary times", weight=10),
    E("h_gpsv1_2", HIST + "2 arbitrary times", weight=8), E("h_gpsv2_2", HIST + "2 arbitrary times", weight=10),
], ["fb_gpsv1", "fb_gpsv2"])
codec("P07", "colors", [
    E("rgbv1_2", "2 arbitrary colors"), E("rgbv1_3", "3 arbitrary colors", weight=3), E("rgbv2_2", "2 arbitrary colors", weight=4),
    E("rgb14v3_2", "2 arbitrary colors", weight=5), E("rgb14v4_2", "2 arbitrary colors", weight=5),
    E("nir14v3_2", "2 arbitrary colors + nir", weight=5), E("nir14v4_2", "2 arbitrary colors + nir", weight=5),
    E("h_rgbv1", HIST + "1 arbitrary color", weight=2), E("h_rgbv2", HIST + "1 arbitrary color", weight=2),
    E("h_rgb14v3", HIST + "1 arbitrary color", weight=2), E("h_rgb14v4", HIST + "1 arbitrary color", weight=2),
    E("h_nir14v3", HIST + "1 arbitrary color + nir", weight=2), E("h_nir14v4", HIST + "1 arbitrary color + nir", weight=2),
], ["fb_rgbv1", "fb_rgbv2", "fb_rgbv3", "fb_rgbv4", "fb_nirv3", "fb_nirv4"])
codec("P08", "extra bytes, wavepackets", [
    E("byv1_3", "3 arbitrary records of 3 extra bytes"), E("byv2_3", "3 arbitrary records of 3 extra bytes"),
    E("by14v3_3", "3 arbitrary records of 3 extra bytes", weight=2), E("by14v4_3", "3 arbitrary records of 3 extra bytes", weight=2),
    E("c_by14v3_3", "3 records of 2 extra bytes, any scanner channels", weight=3),
    E("c_by14v4_3", "3 records of 2 extra bytes, any scanner channels", weight=3),
    E("wpv1_2", "2 arbitrary wavepackets"), E("wpv1_3", "3 arbitrary wavepackets", weight=6),
    E("wp14v3_2", "2 arbitrary wavepackets"), E("wp14v4_2", "2 arbitrary wavepackets"),
    E("wp14v3_3", "3 arbitrary wavepackets", weight=5), E("wp14v4_3", "3 arbitrary wavepackets", weight=5),
    E("c_wp14v3_3", "3 arbitrary wavepackets, any scanner channels", weight=6),
    E("c_wp14v4_3", "3 arbitrary wavepackets, any scanner channels", weight=6),
    E("h_byv1", HIST + "1 arbitrary record"), E("h_byv2", HIST + "1 arbitrary record"),
    E("h_by14v3", HIST + "1 arbitrary record"), E("h_by14v4", HIST + "1 arbitrary record"),
    E("h_wpv1", HIST + "1 arbitrary wavepacket", weight=2), E("h_wpv2", HIST + "1 arbitrary wavepacket"),
    E("h_wp14v3", HIST + "1 arbitrary wavepacket", weight=2), E("h_wp14v4", HIST + "1 arbitrary wavepacket", weight=2),
    E("wpv2_2", "2 arbitrary wavepackets, item version 2"), E("wpv2_3", "3 arbitrary wavepackets, item version 2", weight=3),
], ["fb_byv1", "fb_byv2", "fb_wpv1", "fb_wpv3", "fb_wpv4"])
codec("P09", "point14", [
    E("p14v%d_2_c%d" % (v, c), "2 arbitrary 30-byte records, the first in scanner channel %d" % c, weight=20)
    for v in (3, 4) for c in range(4)
] + [
    e for v in (3, 4) for e in (
        E("p14v%d_gps3" % v, "3 records that differ in GPS time only", weight=4),
        E("p14v%d_gpsc3" % v, "3 records that differ in GPS time and scanner channel only", weight=5),
        E("p14v%d_xyz3" % v, "3 records that differ in x, y, z, scanner channel and return number (3 kinds)", weight=6),
        E("p14v%d_ang3" % v, "3 records that differ in scan angle, point source and scanner channel", weight=4),
        E("mul_p14v%d" % v, MULS, weight=3), E("ret_p14v%d" % v, RETS, weight=3), E("ret_p14v%d_c" % v, RETS + ", in 2 scanner channels", weight=3),
        T("p14v%d_gps4" % v, "4 records that differ in GPS time only", weight=10),
        T("p14v%d_cls3" % v, "3 records that differ in intensity, flags, classification, user data, channel", weight=10),
        T("p14v%d_ret3" % v, "3 records that differ in return numbers, GPS time (low byte), channel", weight=10),
    )
] + [
    e for v in (3, 4) for e in [
        E("h_p14v%d_%d" % (v, k), HIST + "1 arbitrary record in scanner channel %d" % k, weight=7) for k in (1, 2, 3)
    ] + [
        E("h_p14v%d_f1" % v, FULL + "1 arbitrary GPS time"), T("h_p14v%d_f" % v, FULL + "2 arbitrary GPS times", weight=12),
        E("h_p14v%d_t1" % v, HIST + "1 arbitrary GPS time"), E("h_p14v%d_t2" % v, HIST + "2 arbitrary GPS times", weight=12),
        T("h_p14v%d_0" % v, HIST + "1 arbitrary record in scanner channel 0", weight=12),
        T("h_p14v%d_t2c" % v, HIST + "2 arbitrary GPS times, any channel", weight=12),
    ]
], ["fb_p14v3", "fb_p14v4"])

FIXEDREC = "records whose content is fixed (r, 0, 1, 3, 4) or arbitrary (b, l)"
ONREAL = "through the real coders (small items); the other entries replace the coders by the stand-ins"


def B(name, bound, **k):
    k.setdefault("samples", 1)
    return E(name, bound, variant="bare", **k)


SPACE = ("The control inputs (number of points, chunk size or cut positions, index, call sequence, start offset) are "
         "symbolic; each path is one value or a class of values of them, and where a bound says 'arbitrary' so are the records. ")
CHECKS["P10"] = Check(
    "chunking", SYM, BOUNDED + SPACE + GHOST,
    "Points are compressed through the public API for every number of points, chunk size (or every set of cuts), "
    "start offset and way of handing points over, within the bounds. The file must be: what was there before, the "
    "table's offset, the chunks, each byte for byte what its points alone compress to, and a table that lists exactly these "
    "chunks; and both ways of reading must return the points.",
    [GHOST, IRTRUST, FIXEDREC, ONREAL],
    [E("ck_fixed_b", "0-6 arbitrary points, chunks of 1-4, 2 offsets, 3 call sequences", weight=2),
     E("ck_fixed_l", "0-3 points, arbitrary layered extra byte, chunks of 1-2", weight=9),
     E("ck_var_b", "1-5 arbitrary points, every cut, 3 call sequences", weight=2),
     E("ck_var_l", "1-3 points, arbitrary layered extra byte, every cut", weight=9)]
    + [E("ck_fixed_%d" % k, "0-7 fixed points of 4 kinds of item sets, chunks of 1-4", weight=2) for k in (0, 1, 3, 4)]
    + [E("ck_var_%d" % k, "1-5 fixed points, every cut", weight=2) for k in (0, 3)]
    + [E("ck_empty_%s" % k, "3 points, empty chunks at every set of 4 places") for k in "bl03"]
    + [E("ck_size_%s" % k, "3-5 points, any 32-bit chunk size") for k in "bl03"]
    + [E("ck_count_%s" % k, "layered chunk that says to have any number of points (>= 2), source that cannot seek") for k in "l34"]
    + [B("ck_long_%d" % k, "65540 points in chunks of 65537, seeks, real coders", samples=0) for k in (0, 3)]
    + [B("ck_fixed_r", "0-4 fixed points, chunks of 1-2, real coders", weight=4),
       B("ck_var_r", "1-3 fixed points, every cut, real coders", weight=4)],
    [B("ck_fixed_r", "0-4 fixed points, chunks of 1-2, real coders", weight=4),
     B("ck_var_r", "1-3 fixed points, every cut, real coders", weight=4)])
CHECKS["P11"] = Check(
    "seeking", SYM, BOUNDED + SPACE + GHOST,
    "A decompressor that has read any number of points is moved to any index and must from there return what a "
    "sequential reader does; an index behind the chunks (any 64-bit value) must give an error, at the latest when "
    "reading, never a panic or points; three moves in a row from wherever the last one stopped.",
    [GHOST, IRTRUST, FIXEDREC, ONREAL],
    [E("sk_fixed_b", "1-6 arbitrary points, chunks of 1-4, every state, every index", weight=2),
     E("sk_fixed_l", "1-3 points, arbitrary layered extra byte, chunks of 1-2", weight=2),
     E("sk_var_b", "1-5 arbitrary points, every cut, state, index", weight=2),
     E("sk_var_l", "1-3 points, arbitrary layered extra byte, every cut", weight=2)]
    + [E("sk_fixed_%d" % k, "1-7 fixed points, chunks of 1-4, every state, every index", weight=2) for k in (0, 3)]
    + [E("sk_var_%d" % k, "1-5 fixed points, every cut, state, index", weight=2) for k in (0, 4)]
    + [E("sk_twice_%s" % k, "6 fixed points in 3 chunks, any 3 moves and reads of 0-2 points", weight=3) for k in ("0", "3", "v0", "v3")]
    + [E("sk_size_%s" % k, "3 chunks of any fixed 32-bit size, any 2 moves to their starts") for k in "b03"]
    + [E("sk_count_%s" % k, "3 chunks with any 32-bit counts in the table, any 2 moves to their starts") for k in "b03"]
    + [E("sk_past_%s" % k, "1-4 points, read beyond the end twice") for k in ("fb", "f0", "f3", "vb", "v0", "v3")]
    + [B("sk_fixed_r", "1-4 fixed points, chunks of 1-2, real coders", weight=4),
       B("sk_var_r", "1-3 fixed points, every cut, real coders", weight=4),
       B("sk_last", "1000 well predicted points, each of the last 8, real coders", weight=4)],
    [B("sk_fixed_r", "1-4 fixed points, chunks of 1-2, real coders", weight=4),
     B("sk_var_r", "1-3 fixed points, every cut, real coders", weight=4)])
CHECKS["P12"] = Check(
    "appending", SYM, BOUNDED + SPACE + GHOST,
    "n points are written, the file is reopened and m more are appended, for every n, m, chunk size or cuts. The "
    "points must be the n + m ones; with fixed-size chunks the file must be the one that n + m points at once make; "
    "with variable-size chunks the chunks before the last must be untouched and the table exact. ap_more_*: the "
    "appender is told of more points than the file has.",
    [GHOST, IRTRUST, FIXEDREC, ONREAL],
    [E("ap_fixed_b", "0-4 + 0-4 arbitrary points, chunks of 1-3, 2 offsets", weight=2),
     E("ap_fixed_l1", "0-1 + 0-1 points, arbitrary layered extra byte, chunks of 1-2", weight=5),
     T("ap_fixed_l", "0-2 + 0-2 points, arbitrary layered extra byte, chunks of 1-2", weight=9),
     E("ap_var_b", "0-3 + 0-3 arbitrary points, every cut", weight=2),
     E("ap_var_l1", "0-1 + 0-1 points, arbitrary layered extra byte, every cut", weight=5),
     T("ap_var_l", "0-2 + 0-2 points, arbitrary layered extra byte, every cut", weight=9)]
    + [E("ap_more_%s" % k, "told of 1, 3, 2^32, 2^62 .. 2^64-1 more points than there are") for k in ("b", "l", "3", "vb", "v0", "v3")]
    + [E("ap_fixed_%d" % k, "0-5 + 0-5 fixed points, chunks of 1-4", weight=2) for k in (0, 3)]
    + [E("ap_var_%d" % k, "0-3 + 0-3 fixed points, every cut", weight=2) for k in (0, 3)]
    + [B("ap_fixed_r", "0-2 + 0-2 fixed points, chunks of 1-2, real coders", weight=4),
       B("ap_var_r", "0-2 + 0-2 fixed points, every cut, real coders", weight=4)],
    [B("ap_fixed_r", "0-2 + 0-2 fixed points, chunks of 1-2, real coders", weight=4),
     B("ap_var_r", "0-2 + 0-2 fixed points, every cut, real coders", weight=4)])
CTS = [("ct_fixed_%d" % n, "%d entries, any 32-bit byte counts" % n) for n in range(5)] + \
      [("ct_var_%d" % n, "%d entries, any 32-bit point and byte counts" % n) for n in (0, 1, 2, 3, 5)] + \
      [("ct_missing", "no valid offset in either place, any such values"), ("ct_header0", "no entries"), ("ct_header2", "2 entries, any counts")]
CHECKS["P13"] = Check(
    "chunk table", SYM, BOUNDED + GHOST,
    "A table of N entries with arbitrary 32-bit counts is written and read back, its offset stored in front of the "
    "points or (streamed files) in the last 8 bytes; all counts must return and the source must be left at the first "
    "point. Without any usable offset reading must be an error.",
    [GHOST, IRTRUST, "the integer coder's own exactness for every 32-bit pair is decided by C04; the bare entries run it on fixed counts"],
    [E(n, b) for n, b in CTS] + [E(n, b + " (integer coder real)", variant="g1", weight=3) for n, b in CTS if n in ("ct_var_1", "ct_fixed_1")],
    [E("ct_missing", "no valid offset", variant="bare")])
CHECKS["P14"] = Check(
    "selective decompression", SYM, BOUNDED + SPACE + GHOST,
    "Layered records are decompressed under a selection; every bit of a selected field must be what was compressed, "
    "also behind a seek. sel_every*: all 4096 selections on records that change every field in 2 chunks and several "
    "scanner channels; sel_one*: an arbitrary record behind fixed ones, in part, under 18 selections (each part alone, all "
    "but it, none, all).",
    [GHOST, IRTRUST, "the value of an unselected field is not specified"],
    [E("sel_every%d%s" % (v, h), "%s half of all 4096 selections" % h, weight=9) for v in (3, 4) for h in "ab"]
    + [E("sel_one%d_%s" % (v, n), "18 selections, arbitrary " + b, weight=2) for v in (3, 4) for n, b in
       (("z", "z"), ("i", "intensity"), ("c", "flags, classification, user data"), ("a", "scan angle, point source"), ("t", "GPS time"))]
    + [E("sel_gps%d" % v, "GPS time alone, 2 arbitrary times", weight=2) for v in (3, 4)]
    + [E("sel_ignored", "formats without selection: any selection, fixed records"), E("sel_builder", "every 32-bit selection")]
    + [B("sel_each%d" % v, "14 selections, fixed records, real coders", weight=6, samples=0) for v in (3, 4)],
    [B("sel_each%d" % v, "14 selections, fixed records, real coders", weight=6, samples=0) for v in (3, 4)])
VLF = [("vl_parse%d" % n, "a record of %d items, any content" % n) for n in range(4)]
VLM = [("vl_formats", "all 256 format ids, any number of extra bytes"), ("vl_versions", "every item list of the formats, 3 and 4 included")]
CHECKS["P15"] = Check(
    "LAZ VLR", SYM, BOUNDED + SPACE + GHOST,
    "vl_parse*: any bytes as the record; what the parser accepts must be what the format says is valid, be written back as "
    "those bytes, and every accessor agree with the bytes. vl_items*: any items (type, size, version, compressor, chunk "
    "size) either are refused by compressor and decompressor with an error, or compress and restore an arbitrary record. "
    "vl_formats, vl_builder: the items built for a point format are those of the standard.",
    [GHOST, IRTRUST, "the list of valid (type, version, compressor) triples is transcribed from LASzip in harness/src/vlr.rs"],
    [E(n, b, weight=2) for n, b in VLF + VLM]
    + [E("vl_cut", "a record of up to 2 items, cut anywhere"), E("vl_builder", "every item type in turn, any extra byte counts"),
       E("vl_header", "any header bytes")]
    + [E("vl_items%d" % n, "%d items, any types, versions, compressor" % n) for n in range(3)],
    [B(n, b) for n, b in VLF + VLM])
FAULT = "5 points, chunks of 2 or 4 cuts, every operation x (error, early end, interruption%s)"
CHECKS["P16"] = Check(
    "I/O faults", SYM, BOUNDED + SPACE + GHOST,
    "The reader or writer below the compressor, decompressor or appender fails at any one of its operations (read, write, seek), "
    "is interrupted, takes nothing, or only takes a few bytes at a time. The failure must reach the caller as an error from some "
    "call; nothing wrong may be returned before or after; interruptions and short transfers must change nothing.",
    [GHOST, IRTRUST, FIXEDREC, ONREAL, "one fault per run; the fault's kind is one of Other, UnexpectedEof, Interrupted, zero bytes written"],
    [E("io_read_%s" % k, FAULT % "", weight=2) for k in "bl03"] + [E("io_seek_%s" % k, FAULT % "" + "; usable afterwards", weight=2) for k in "b04"]
    + [E("io_small_%s" % k, "5 points, transfers of 1, 2, 3, 7 bytes") for k in "b03"]
    + [E("io_write_%s" % k, FAULT % ", nothing taken", weight=2) for k in "b03"]
    + [E("io_append_%s" % k, FAULT % ", nothing taken", weight=2) for k in "b04"]
    + [B("io_read_r", "3 points, as above, real coders", weight=3), B("io_seek_r", "3 points, as above, real coders", weight=3),
       B("io_small_r", "3 points, as above, real coders"), B("io_write_r", "3 points, as above, real coders", weight=3),
       B("io_append_r", "1 + 2 points, as above, real coders", weight=4)],
    [B("io_read_r", "3 points, real coders"), B("io_seek_r", "3 points, real coders"), B("io_write_r", "3 points, real coders"),
     B("io_append_r", "1 + 2 points, real coders")])
CHECKS["P17"] = Check(
    "damaged and streamed files", SYM, BOUNDED + SPACE + GHOST,
    "tr_*: a file that ends at any byte gives the points that are there, then an error. ns_*: a source that cannot seek. st_*: the "
    "table's offset at the end of the file, or no table. pw_*: point-wise files (one chunk, no table, any stored chunk size). "
    "bf_*: compress_buffer, decompress_buffer and a reserved offset give the same file and points.",
    [GHOST, IRTRUST, FIXEDREC, ONREAL],
    [E("tr_%s" % k, "5 points, chunks of 2 or 4 cuts, every length", weight=w) for k, w in (("b", 1), ("0", 3), ("3", 8), ("4", 4))]
    + [E("ns_%s" % k, "5 points, chunks of 2 or 4 cuts, transfers of 1, 4, all bytes") for k in "b034"]
    + [E("st_%s" % k, "5 points, chunks of 2 or 4 cuts, 3 endings, every index") for k in "b03"]
    + [E("pw_%s" % k, "1-5 points, 3 stored chunk sizes") for k in "b01"]
    + [E("bf_%s" % k, "0-4 (b) or 0-5 points, chunks of 1-3") for k in "b03"]
    + [B("tr_r", "3 points, every length, real coders", weight=2), B("st_r", "3 points, real coders"), B("pw_r", "1-4 points, real coders"),
       B("bf_r", "0-3 points, real coders")],
    [B("tr_r", "3 points, every length, real coders"), B("st_r", "3 points, real coders"), B("pw_r", "1-4 points, real coders"),
     B("bf_r", "0-3 points, real coders")])


def PE(name, bound, **k):
    return E(name, bound, variant="p2", **k)


def PB(name, bound, **k):
    k.setdefault("samples", 1)
    return E(name, bound, variant="pb", **k)


RAYON = ("rayon is replaced by a stand-in (/verif/rayon) that runs each task whole, in order, backwards or odd ones first, and puts "
         "results where rayon does; tasks of safe Rust share only immutable data, so finer interleavings cannot be told apart")
PCR = [PB("pc_fixed_r", "0-3 fixed points, chunks of 1-2, 3 orders, real coders", weight=6),
       PB("pc_var_r", "1-3 fixed points, every cut, 3 orders, real coders", weight=5),
       PB("pa_fixed_r", "0-2 + 0-2 fixed points, real coders", weight=5), PB("pa_var_r", "0-2 + 0-2 fixed points, every cut, real coders", weight=4)]
CHECKS["P18"] = Check(
    "parallel compression", SYM, BOUNDED + SPACE + GHOST,
    "The parallel compressor, compress_chunks, par_compress_buffer and the parallel appender must write, byte for byte, the file the "
    "sequential ones write (or, for appended variable-size chunks, the exact old and new chunks), whatever the order the tasks run in. "
    "pf_write: faults as in P16. pv_*: items and chunk sizes that cannot be compressed give an error.",
    [GHOST, IRTRUST, RAYON, FIXEDREC, ONREAL],
    [PE("pc_fixed_b", "0-5 arbitrary points, chunks of 1-3, every split into 2 calls, 3 orders"),
     PE("pc_fixed_l", "0-3 points, arbitrary layered extra byte, chunks of 1-2", weight=2),
     PE("pc_fixed_0", "0-6 fixed points, chunks of 1-4", weight=2), PE("pc_fixed_3", "0-6 fixed points, chunks of 1-4", weight=4),
     PE("pc_var_b", "1-5 arbitrary points, every cut, every split into 2 calls, 3 orders", weight=3),
     PE("pc_var_l", "1-3 points, arbitrary layered extra byte", weight=2),
     PE("pc_var_0", "1-5 fixed points", weight=2), PE("pc_var_3", "1-5 fixed points", weight=3),
     PE("pc_empty_b", "3 points, empty chunks at every set of 4 places"), PE("pc_empty_3", "3 points, empty chunks at every set of 4 places"),
     PE("pa_fixed_b", "0-3 + 0-3 arbitrary points, chunks of 1-3"), PE("pa_fixed_l", "0-2 + 0-2 points, arbitrary extra byte", weight=9),
     PE("pa_fixed_0", "0-4 + 0-4 fixed points, chunks of 1-3", weight=2), PE("pa_fixed_3", "0-4 + 0-4 fixed points, chunks of 1-3", weight=5)]
    + [PE("pa_var_%s" % k, "0-3 + 0-3 points, every cut", weight=2) for k in "b03"]
    + [PE("pa_mixed_%s" % k, "3 + 3 points, sequential appending to a parallel file") for k in "04"]
    + [PE("pf_write_%s" % k, FAULT % ", nothing taken", weight=w) for k, w in (("b", 1), ("0", 2), ("3", 5))]
    + [PE("pv_items%d" % k, "%d items, any types, versions, compressor" % k) for k in range(3)] + [PE("pv_zero", "chunk size 0")]
    + PCR, PCR)
PDR = [PB("pf_lost_r", "6 fixed points, three chunkings, the end of any chunk lost, real coders", weight=3),
       PB("pd_reads_fr", "1-3 fixed points, real coders"), PB("pd_reads_vr", "1-3 fixed points, every cut, real coders"),
       PB("pd_buf_fr", "1-3 fixed points, real coders"), PB("pd_seek_fr", "1-3 fixed points, real coders", weight=2),
       PB("pd_seek_vr", "1-3 fixed points, every cut, real coders", weight=3), PB("pd_past_vr", "1-3 fixed points, every cut, real coders", weight=4)]
CHECKS["P19"] = Check(
    "parallel decompression", SYM, BOUNDED + SPACE + GHOST,
    "The parallel decompressor (reads of any sizes, seeks from any state, selections) and par_decompress_buffer must return the "
    "points the sequential one does, whatever the order the tasks run in; asking for more than there is, damaged and failing "
    "sources give an error, never a panic or other points.",
    [GHOST, IRTRUST, RAYON, FIXEDREC, ONREAL],
    [PE("pd_reads_f%s" % k, b, weight=w) for k, b, w in (
        ("b", "1-5 arbitrary points, chunks of 1-3, every split into 3 reads, 3 orders", 1), ("l", "1-2 points, arbitrary extra byte", 4),
        ("0", "1-6 fixed points, chunks of 1-4", 1), ("3", "1-6 fixed points, chunks of 1-4", 2))]
    + [PE("pd_reads_v%s" % k, b, weight=w) for k, b, w in (
        ("b", "1-5 arbitrary points, every cut, every split into 3 reads, 3 orders", 1), ("l", "1-2 points, arbitrary extra byte", 4),
        ("0", "1-5 fixed points", 1), ("4", "1-5 fixed points", 2))]
    + [PE("pd_buf_%s" % k, "1-5 (f0, f3: 6) points, all chunkings, and more points than there are") for k in ("fb", "f0", "f3", "vb", "v3")]
    + [PE("pd_seek_%s" % k, b + ", every state, every index, every next read", weight=w) for k, b, w in (
        ("fb", "1-5 arbitrary points, chunks of 1-3", 1), ("fl", "1-2 points, arbitrary extra byte", 7), ("f0", "1-6 fixed points, chunks of 1-4", 2),
        ("f3", "1-5 fixed points, chunks of 1-3", 2), ("vb", "1-5 arbitrary points, every cut", 2), ("v0", "1-5 fixed points, every cut", 2),
        ("v4", "1-5 fixed points, every cut", 6))]
    + [PE("pd_moves_%s" % k, "6 points in 3 chunks, any 3 moves and reads of 0-3 points", weight=9) for k in ("0", "v0")]
    + [T("pd_moves_%s" % k, "6 points in 3 chunks, any 3 moves and reads of 0-3 points", variant="p2", weight=12) for k in ("3", "v3")]
    + [PE("pd_past_%s" % k, "1-4 points, all chunkings, 1-3 points too many, twice") for k in ("fb", "f0", "f3", "vb", "v0", "v3")]
    + [PE("pd_sel_%s" % k, b + ", 8 selections, any seek", weight=w) for k, b, w in (
        ("3", "5 fixed points", 3), ("v4", "4 fixed points, every cut", 4), ("l", "2 points, arbitrary extra byte", 6), ("0", "4 points without layers", 1))]
    + [PE("pf_read_%s" % k, FAULT % "" + ", transfers of 3 bytes", weight=2) for k in "b03"]
    + [PE("pf_lost_%s" % k, "6 points, three chunkings, the end of any chunk lost, any seek and reads") for k in "b03"]
    + [PE("pf_cut_%s" % k, "5 points, every length", weight=w) for k, w in (("b", 1), ("0", 4), ("3", 9))]
    + PDR, PDR)


def interop(pid, title, p, who):
    def X(name, bound, v="g2", **k):
        if v in ("bare", "real"):
            k.setdefault("samples", 1)
        return E(name, bound, variant=p + v, **k)

    def XT(name, bound, v="g2", **k):
        return X(name, bound, v, tiers=("thorough",), **k)
    real = [X("iop_fixed_r", "0-3 fixed points, chunks of 1-3, real coders", "bare", weight=3),
            X("iop_var_r", "1-3 fixed points, every cut, real coders", "bare", weight=3),
            X("iop_app_r", "0-2 + 0-2 fixed points, real coders", "bare", weight=3)] + [
            X(n, "fixed data sets through the real coders", "bare", samples=0) for n in
            ("fb_p10v2", "fb_gpsv2", "fb_rgbv2", "fb_p14v3", "fb_wpv3", "fb_nirv4")]
    CHECKS[pid] = Check(
        title, SYM, BOUNDED + "Compositional: " + GHOST,
        who + "  The other copy is the snapshot in /verif/ref, whose files are LASzip's.  Entropy coder: one operation from any "
        "interval; integer coder, items, files: as in C04, P05-P13, across the two copies.",
        [GHOST, IRTRUST, FIXEDREC, "/verif/ref, a copy of this repository's sources (with the repairs listed in known/FINDINGS.txt), "
         "is taken as the definition of the format; the repository's own tests compare that version with LASzip's files"],
        [X(n, b, "real", weight=w) for n, b, w in (
            ("ac_raw1", "1 bit, every interval", 1), ("ac_raw13", "13 bits, every interval", 1), ("ac_bit", "every probability and interval", 3),
            ("ac_dist2_0", "2 symbols, every distribution", 1), ("ac_ev2", "2 symbols after 37", 2),
            ("ac_ev16q", "16 symbols after 500; 6 symbols", 3), ("ac_ev17q", "17 symbols after 500; 6 symbols", 3))]
        + [X(n, b, "g1", weight=w) for n, b, w in (
            ("int32_1", "1 value, 32 bit", 2), ("int32c22_1", "1 value, 22 contexts", 3), ("int16_1", "1 value, 16 bit", 1),
            ("int16c4_1", "1 value, 16 bit, 4 contexts", 1), ("int8c2_2", "2 values, 8 bit, 2 contexts", 1))]
        + [X("p10v1_2", "2 arbitrary records"), X("p10v2_2", "2 arbitrary records"),
           X("h_p10v1", HIST + "1 arbitrary record", weight=6), X("h_p10v2", HIST + "1 arbitrary record", weight=6),
           X("h_gpsv1_1", HIST + "1 arbitrary time", weight=5), X("h_gpsv2_1", HIST + "1 arbitrary time", weight=5),
           X("rgbv1_2", "2 arbitrary colors")]
        + [X("h_" + n, HIST + "1 arbitrary record", weight=w) for n, w in (
            ("rgbv1", 2), ("rgbv2", 5), ("rgb14v3", 3), ("rgb14v4", 3), ("nir14v3", 3), ("nir14v4", 3), ("byv1", 1), ("byv2", 1),
            ("by14v3", 1), ("by14v4", 1), ("wpv1", 1), ("wp14v3", 1), ("wp14v4", 1))]
        + [X("p14v%d_gps3" % v, "3 records that differ in GPS time only", weight=8) for v in (3, 4)]
        + [X(n + "_f1", FULL + "1 arbitrary GPS time", weight=3) for n in ("h_gpsv1", "h_gpsv2", "h_p14v3", "h_p14v4")]
        + [X("h_p14v%d_t1" % v, HIST + "1 arbitrary GPS time", weight=2) for v in (3, 4)]
        + [X("h_p14v3_1", HIST + "1 arbitrary record in scanner channel 1", weight=20),
           X("h_p14v4_2", HIST + "1 arbitrary record in scanner channel 2", weight=20)]
        + [X("mul_" + n, MULS, weight=2) for n in ("gpsv1", "gpsv2", "p14v3", "p14v4")]
        + [X(n, RETS, weight=3) for n in ("ret_p10v1", "ret_p10v2", "ret_p14v3_c", "ret_p14v4_c")]
        + [X("c_by14v%d_3" % v, "3 records of 2 extra bytes, any scanner channels", weight=4) for v in (3, 4)]
        + [X("iop_fixed_%s" % k, "0-4 points, chunks of 1-3, any index") for k in "bl0134"]
        + [X("iop_var_%s" % k, "1-4 points, every cut, any index") for k in "b03"]
        + [X("iop_app_%s" % k, "0-3 + 0-3 points appended to the other copy's file") for k in ("b", "0", "3", "v0", "v3")]
        + [X("iop_formats", "point formats 0-10, 0-2 extra bytes")]
        + [XT(n, "as in C04, P05-P09", weight=w) for n, w in (
            ("p10v1_3", 9), ("p10v2_3", 9), ("gpsv1_3", 3), ("gpsv2_3", 5), ("h_gpsv1_2", 8), ("h_gpsv2_2", 10), ("rgbv1_3", 5),
            ("rgbv2_2", 6), ("rgb14v3_2", 6), ("rgb14v4_2", 6), ("nir14v3_2", 6), ("nir14v4_2", 6), ("wpv1_3", 5), ("wp14v3_3", 5),
            ("wp14v4_3", 5), ("c_rgb14v3_3", 9), ("c_rgb14v4_3", 9), ("c_nir14v3_2", 9), ("c_nir14v4_2", 9), ("c_wp14v3_3", 6),
            ("c_wp14v4_3", 6), ("h_p14v3_2", 9), ("h_p14v3_3", 9), ("h_p14v4_1", 9), ("h_p14v4_3", 9), ("h_p14v3_t2", 12),
            ("h_p14v4_t2", 12), ("p14v3_xyz3", 8), ("p14v4_xyz3", 8), ("p14v3_ang3", 8), ("p14v4_ang3", 8), ("p14v3_gpsc3", 8),
            ("p14v4_gpsc3", 8), ("p14v3_2_c0", 20), ("p14v4_2_c0", 20))]
        + [XT(n, "as in C04", "g1", weight=5) for n in ("int32_2", "int32c2_2", "int16_2", "int16c8_1")]
        + [XT(n, "as in C01", "real", weight=5) for n in ("ac_raw5", "ac_raw16", "ac_raw19", "ac_dist3_1", "ac_ev33", "ac_ev256")]
        + real, real)


interop("P20", "readable by LASzip", "w", "The tree compresses, the reference decompresses: the very input must come back.")
interop("P21", "reads LASzip's files", "x", "The reference compresses, the tree decompresses: the very input must come back.")


HAVOC = ("cx_*: the entropy decoder, the integer decoder or both are replaced by stand-ins that return any value of the range the "
         "real ones can return (cx_int*: only the entropy decoder is); each such sequence is what the real ones return for some bytes, "
         "as an encoder may code any symbols at all, so what is reported happens on some input")


def H(name, bound, v="hv", **k):
    return E(name, bound, variant=v, real_replay=False, **k)


REC2, REC3 = "1 + 1 arbitrary records", "any values decoded for 2 records"
ADV = [B("cx_sw%d" % k, "GPS times that switch sequence at every point, layers and versions %d" % k) for k in (2, 3, 4)]
DAM = [B("cx_dam_%d" % k, "a file of point kind %d, damaged at places listed" % k, weight=w) for k, w in ((0, 4), (1, 3), (3, 9), (4, 9))]
CHECKS["P22"] = Check(
    "corrupt data", SYM, BOUNDED + "Compositional: " + HAVOC + ". " + ACC,
    "Every value the coders may hand to a field's decompressor must give some record: no panic, overflow, index out of bounds, "
    "unbounded loop or recursion. cd_*: the real entropy decoder with an arbitrary interval and arbitrary bytes gives a value of its "
    "range or an error. cx_tab_*, cx_app_*: a chunk table with arbitrary entries gives points or an error, without allocating or "
    "seeking by what it says. cx_sw*, cx_dam_*: concrete files through the real coders.",
    [IRTRUST, HAVOC, "the memory the parallel decompressor sets aside is in proportion to the chunk table's entries and outside"],
    [H("cx_p10v1", REC3, weight=2), H("cx_p10v2", REC3, weight=9), H("cx_gpsv1", REC3, weight=2), H("cx_gpsv2", REC3, weight=3),
     H("cx_rgbv1", REC3, weight=3), H("cx_rgbv2", REC3, weight=3), H("cx_wpv1", REC3), H("cx_byv1", REC3), H("cx_byv2", REC3)]
    + [e for v in (3, 4) for e in (
        H("cx_p14v%d_2" % v, REC3, weight=4), H("cx_p14v%d_m" % v, "some fields of 3 records", weight=10),
        H("cx_rgb14v%d" % v, REC3, weight=3), H("cx_nir14v%d" % v, REC3, weight=3), H("cx_wp14v%d" % v, REC3), H("cx_by14v%d" % v, REC3),
        T("cx_p14v%d_3" % v, "any values decoded for 3 records", variant="hv", real_replay=False, weight=12),
        T("cx_c14v%d" % v, "any values decoded, all items", variant="hv", real_replay=False, weight=12))]
    + [H("cx_lay_" + k, "the sizes of any two layers miscounted, " + b, weight=w) for k, b, w in (
        ("p", "point14 version 3", 3), ("p4", "point14 version 4", 3), ("c", "all items", 6), ("n", "2 NIR layers", 1),
        ("w", "wavepackets", 1), ("b", "2 extra bytes", 1), ("b4", "2 extra bytes, version 4", 1))]
    + [H("cx_tab_%s" % k, "a chunk table with any entries", weight=w) for k, w in (("f", 1), ("v", 2), ("fl", 4), ("vl", 5))]
    + [H("cx_app_%s" % k, "appending to a file whose chunk table holds any entries", weight=2) for k in ("f", "v", "fl", "vl")]
    + [H("cx_int%d" % b, "any symbols and bits decoded, %d-bit values" % b, v="hi") for b in (32, 16, 8)]
    + [R("cd_init", "any first 4 bytes"), R("cd_bit", "every probability, any interval, any bytes", weight=2)]
    + [R("cd_raw%d" % b, "%d bits, any interval, any bytes" % b) for b in (1, 5, 8, 16, 19, 23, 31, 32, 64)]
    + [R("cd_dist2", "2 symbols, every distribution, any interval, any bytes", weight=3),
       R("cd_ev16", "16 symbols after 500, any interval, any bytes", weight=4), R("cd_ev17", "17 symbols after 500, any interval, any bytes", weight=4),
       T("cd_ev64", "64 symbols after 1000, any interval, any bytes", variant="real", weight=9),
       T("cd_ev256", "256 symbols, any interval, any bytes", variant="real", weight=9),
       T("cd_dist3", "3 symbols, every distribution, any interval, any bytes", variant="real", weight=9)]
    + ADV + DAM, ADV + DAM)

CHECKS["P23"] = Check(
    "point views", SYM, BOUNDED,
    "The packed form of each view is unpacked and packed again, from and into slices of any surroundings; every getter is compared "
    "with the LAS specification's place for the field, and after each setter the packed form may differ in that field only.  "
    "pk_short*: slices that are too short are refused.",
    [IRTRUST, "in composed points only what their traits offer is looked at"],
    [E("pk_ints", "every pattern of 1, 2, 4 and 8 bytes"), E("pk_point0", "every 20-byte record, every setter and value"),
     E("pk_point6", "every 30-byte record, every setter and value"), E("pk_items", "every RGB, GPS time, wavepacket, NIR; 5 extra bytes"),
     E("pk_composed", "every colour and time in points 1-5 and 7")]
    + [E("pk_short_" + n, "every shorter slice") for n in ("0", "6", "rgb", "gps", "wave", "u8", "i8", "u16", "i16", "u32", "i32", "f32", "u64")],
    [B("pk_point0", "-"), B("pk_point6", "-"), B("pk_items", "-"), B("pk_ints", "-")])
LASF = [("lf_header", "every header, cut at 13 lengths"), ("lf_vlrs", "0-3 other VLRs, the LASzip VLR at any place among them or absent"),
        ("lf_extra", "formats 0-10, every record size"), ("lf_las", "formats 0-10, 0-3 points, versions 1.0-1.4, up to one other VLR, any bytes"),
        ("lf_laz_b", "0-5 points of format 0 with extra bytes, chunks of 2, 0-3 other VLRs"),
        ("lf_laz_t", "0-3 records of GPS time, chunks of 2, 0-3 other VLRs"), ("lf_laz_l", "0-3 points of format 6 with extra bytes, chunks of 2, 0-3 other VLRs")]
LASFB = [B("lf_laz_f", "3 fixed points of format 1 through the real coders, up to one other VLR")]
CHECKS["P24"] = Check(
    "LAS file reader", SYM, BOUNDED + "Compositional: " + GHOST,
    "Files are laid out by the LAS specification: header of the version's size or longer, VLRs, a gap, points, bytes behind them; what says nothing "
    "about the points is arbitrary.  QuickHeader and SimpleReader must give the header's values, each record exactly, by both ways of reading, "
    "then the end; an error where records are missing.",
    [GHOST, IRTRUST, "malformed VLRs (on which SimpleReader panics by design of its unwraps) are outside"],
    [E(n, b) for n, b in LASF] + LASFB, LASFB + [B(n, b) for n, b in LASF if "laz" not in n])
