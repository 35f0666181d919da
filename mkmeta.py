#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and table.py."""
import json, os, subprocess
from table import CHECKS

V = os.path.dirname(os.path.abspath(__file__))
PROPS, NA = [], {}


def P(id, title, statement, over, text, why, files, mech, observe=(), hook=None):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
        "anchors": {"files": files.split(), "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": list(observe), "hook_needed": hook},
    })


P("C01", "Arithmetic coding of one symbol is exactly undone by the decoder",
  "Whatever interval the coder is in and whatever the adaptive statistics are, a symbol, bit or raw value "
  "that is encoded is read back unchanged by the decoder, which ends in the interval the encoder ended in, "
  "having consumed exactly the bytes the encoder produced for it.",
  "inputs histories", "every coder interval, every symbol, every model the adaptive rules can reach within the bounds",
  "Tests decode a few files; carries, renormalisation at the interval's edge and rarely visited statistics are not among them.",
  "src/encoders.rs src/decoders.rs src/models.rs",
  [("encode/decode symbol, bit, raw", "src/encoders.rs, src/decoders.rs"), ("renormalisation", "renorm_*_interval")],
  ["public encoder/decoder"], "state accessors behind cfg(laz_verif)")
P("C02", "The entropy coder's byte stream survives carries and buffer wrap-around",
  "The bytes an entropy coder has emitted once finished are the exact base-256 digits of the coded interval, "
  "for every stream length and every run of carry propagation, including runs that cross the ends of its "
  "internal ring buffer; a decoder reads every value back and never needs bytes beyond those written.",
  "inputs histories", "every tail of operations at every buffer position near a flush, including all-0xFF runs",
  "A carry through the ring buffer's edge needs thousands of bytes and a specific value; no test holds one.",
  "src/encoders.rs src/decoders.rs", [("ring buffer, carry propagation, end of stream", "src/encoders.rs")],
  ["bytes written to the sink"], "state accessors behind cfg(laz_verif)")
P("C03", "Adaptive statistics stay valid and follow the LASzip update rule on both sides",
  "After any history of symbols, encoder and decoder statistics are equal, every symbol keeps a non-zero "
  "share of the interval, and the shares, rescaling moments and the decoder's lookup table are exactly those "
  "of the LASzip format.",
  "inputs histories", "every symbol-count vector and update phase within the bounds, models of 2 to 2048 symbols",
  "Tests never inspect the statistics, and a wrong rule applied by both sides still round-trips.",
  "src/models.rs", [("update of bit and symbol models", "src/models.rs")], ["model state"],
  "state accessors behind cfg(laz_verif)")
P("C04", "Integer coding returns the exact value for every prediction and context",
  "For every prediction, real value and context within a coder's range, the integer decoder returns the value "
  "that was encoded and reports the same corrector size, for every bit width and context count the formats use.",
  "inputs histories", "all pairs of 32-bit prediction and value; sequences of up to 3 values per coder",
  "32-bit pairs cannot be sampled; tests see only near-zero corrections.",
  "src/compressors.rs src/decompressors.rs", [("corrector folding and k-intervals", "src/compressors.rs, src/decompressors.rs")],
  ["value returned by the decoder"], None)
P("P05", "Point record coding (formats 0-5) is lossless for every sequence of records",
  "Any sequence of legacy 20-byte point records, whatever their coordinates, return numbers, flags, "
  "intensities, classifications, angles and ids, is returned byte for byte by decompression, for every "
  "version of the point record coding the library writes.",
  "inputs histories", "all byte patterns of 2 and 3 consecutive records, item versions 1 and 2",
  "Tests use a handful of real files with smooth coordinates.",
  "src/las/point0.rs", [("versions 1, 2", "src/las/point0.rs")], ["decompressed records"])
P("P06", "GPS time coding (formats 1-5) is lossless for every sequence of times",
  "Any sequence of 64-bit GPS times, including far-apart, repeated, zero, NaN and interleaved ones, is "
  "returned bit for bit by decompression, for every version of the GPS time coding.",
  "inputs histories", "all bit patterns of up to 4 consecutive times, item versions 1 and 2",
  "The multiplier and multi-sequence logic only shows on histories of specific differences.",
  "src/las/gps.rs", [("versions 1, 2", "src/las/gps.rs")], ["decompressed records"])
P("P07", "Color and near-infrared coding is lossless for every sequence of colors",
  "Any sequence of RGB (and NIR) values is returned bit for bit by decompression, for every version of the "
  "color codings, inside a chunk as well as across scanner channel switches.",
  "inputs histories", "all values of 2 (3 where stated) consecutive colors, item versions 1, 2, 3 and 4",
  "Clamping and per-channel correction branch on the differences of several channels at once.",
  "src/las/rgb.rs src/las/nir.rs", [("versions 1-4", "src/las/rgb.rs, src/las/nir.rs")], ["decompressed records"])
P("P08", "Extra bytes and wavepacket coding is lossless for every sequence of records",
  "Any sequence of extra-byte blocks and waveform packet descriptors is returned byte for byte by "
  "decompression, for every version of their codings and any interleaving of scanner channels.",
  "inputs histories", "all byte patterns of up to 3 consecutive records, item versions 1, 2, 3 and 4",
  "No test holds waveform data with distant offsets, or layered extra bytes that switch channel.",
  "src/las/extra_bytes.rs src/las/wavepacket.rs", [("versions 1-4", "src/las/extra_bytes.rs, src/las/wavepacket.rs")],
  ["decompressed records"])
P("P09", "Point record coding (formats 6-10) is lossless for every sequence of records",
  "Any sequence of extended 30-byte point records, over all scanner channels, return numbers, flags, "
  "classifications, angles and GPS times, is returned byte for byte by decompression, for both layered versions.",
  "inputs histories", "all byte patterns of 2 consecutive records; restricted classes of 3 and 4 (see bounds), versions 3 and 4",
  "No existing test compresses or decompresses an extended point format record by record.",
  "src/las/point6.rs", [("layered versions 3, 4", "src/las/point6.rs")], ["decompressed records"])
P("P10", "Chunks are independent and exactly described by the chunk table",
  "Whatever the number of points, the chunk size or the places where the caller ends variable-size chunks, the calls used "
  "to hand points over and the offset of the data in the file, the file is the table offset, the chunks, each what "
  "its points alone compress to, and a table that lists exactly these chunks; all points are read back.",
  "inputs histories", "all point counts, chunk sizes, cut sets, call sequences and offsets within the bounds",
  "The tests write one chunking of one file; empty, single-point and exactly full chunks at either end are not among them.",
  "src/laszip/sequential/compression.rs src/laszip/sequential/decompression.rs src/laszip/chunk_table.rs src/record.rs",
  [("chunk ends", "LasZipCompressor"), ("chunk reading", "LasZipDecompressor")], ["file bytes", "decompressed points"])
P("P11", "Seeking to any point gives what sequential reading gives there",
  "From any state of a decompressor, seek to any point index makes the next reads return the points a sequential read "
  "returns there, with fixed-size and variable-size chunks; an index behind the data gives an error, never other points or a panic.",
  "inputs histories", "all file shapes, reader states and indices within the bounds, any 64-bit index behind the end",
  "The tests seek in one file with fixed-size chunks.",
  "src/laszip/sequential/decompression.rs", [("seek", "LasZipDecompressor::seek")], ["points read after seek"])
P("P12", "Appending yields the file that writing everything at once would",
  "Reopening a compressed file and appending points keeps every earlier point and gives, with fixed-size chunks, the very "
  "file that compressing all points at once gives, and with variable-size chunks leaves every chunk before the last "
  "untouched and describes the new ones exactly. A point count larger than the file's gives a readable file or an error.",
  "inputs histories", "all counts before and after, chunk sizes and cuts within the bounds",
  "The tests append to one file at one position.",
  "src/laszip/sequential/appender.rs", [("LasZipAppender", "src/laszip/sequential/appender.rs")], ["file bytes", "decompressed points"])
P("P13", "The chunk table's stored form returns every count",
  "A chunk table with any number of entries and any 32-bit point and byte counts is read back as it was written, from "
  "the offset in front of the points or from the one at the end of the file; a file without a valid offset is an error.",
  "inputs", "all counts, tables of up to 5 entries",
  "Tests only see counts of small files; the signed coder makes counts of 2^31 and more special.",
  "src/laszip/chunk_table.rs", [("ChunkTable::read_from, write_to", "src/laszip/chunk_table.rs")], ["entries read"])
P("P14", "Selective decompression returns selected fields unchanged",
  "With any decompression selection, every field it asks for, and x, y, return numbers and scanner channel, have the values a "
  "full decompression returns; formats that have no layers ignore the selection, and the selection's builder sets exactly its bit.",
  "inputs histories", "all 4096 selections on fixed records, 18 on arbitrary ones",
  "4096 selections times record histories; the tests try a few on one file.",
  "src/las/selective.rs src/las/point6.rs src/laszip/sequential/decompression.rs",
  [("layers are skipped", "v3/v4 init_first_layer")], ["decompressed fields"])
P("P15", "The LAZ VLR is parsed, written and built exactly, or refused with an error",
  "Any bytes given as a LAZ VLR either are refused with an error or are represented exactly and written back unchanged; any "
  "items they name either are refused when a compressor or decompressor is made, or work without loss. The items built for "
  "each point format, version and number of extra bytes are those the LAS standard and LASzip define.",
  "inputs", "all records of up to 3 items, all item lists of up to 2 items, all 256 point format ids",
  "The tests parse the records of intact files.",
  "src/laszip/vlr.rs src/record.rs", [("LazVlr, LazItem, builder", "src/laszip/vlr.rs")],
  ["LazVlr accessors", "written bytes"])
P("P16", "I/O failures reach the caller; interruptions and short transfers change nothing",
  "When the source or destination fails at any operation, some call of the compressor, decompressor or appender returns an "
  "error, and never a panic, a wrong point or a success with a damaged file. Interrupted operations, and sources or "
  "destinations that transfer a few bytes at a time, give the same points and the same file.",
  "faults", "every single fault at every operation within the bounds, transfers of 1, 2, 3 and 7 bytes",
  "The tests use in-memory buffers that never fail.",
  "src/laszip/sequential/compression.rs src/laszip/sequential/decompression.rs src/laszip/sequential/appender.rs src/laszip/chunk_table.rs src/las/utils.rs",
  [("reads, writes and seeks of the stream", "src/laszip, src/las")], ["results of calls", "file bytes"])
P("P17", "Truncated, streamed and unseekable files give their points or an error",
  "A file that ends early gives the points that are there and then an error; a source that cannot seek, a table offset at the "
  "end, or a missing table gives all points when the format allows it and an error otherwise. Point-wise files and the "
  "whole-buffer shortcuts give the same points and bytes as the compressor and decompressor do.",
  "inputs faults", "every file length, and the other shapes listed, within the bounds",
  "The tests read complete files from seekable buffers.",
  "src/laszip/sequential/decompression.rs src/laszip/chunk_table.rs src/laszip/mod.rs",
  [("missing table, non-seekable source", "src/laszip/sequential/decompression.rs")], ["results of calls", "decompressed points"])
P("P18", "Parallel compression writes the files sequential compression writes",
  "For every number of points, chunking, way of handing points over and order in which its tasks run, the parallel compressor, "
  "the buffer shortcut and the parallel appender write the very bytes their sequential counterparts write. Failing "
  "destinations and unsupported items give an error, never a panic.",
  "inputs schedules faults", "all point counts, chunkings, splits into calls within the bounds, 3 task orders, single faults",
  "The tests compress one file in parallel in one way.",
  "src/laszip/parallel/compression.rs src/laszip/parallel/appender.rs", [("ParLasZipCompressor, ParLasZipAppender", "src/laszip/parallel")],
  ["file bytes"])
P("P19", "Parallel decompression returns what sequential decompression returns",
  "For every chunking, sequence of reads and seeks, selection and order in which its tasks run, the parallel decompressor and "
  "the buffer shortcut return the points the sequential decompressor returns. More points than there are, damaged "
  "and failing sources give an error, never other points or a panic.",
  "inputs histories schedules faults", "all file shapes, read splits, states and indices within the bounds, 3 task orders, single faults",
  "The tests read and seek in one file with full chunks.",
  "src/laszip/parallel/decompression.rs src/byteslice.rs", [("ParLasZipDecompressor", "src/laszip/parallel/decompression.rs")],
  ["decompressed points"])
P("P20", "Files it writes are readable by other LASzip implementations",
  "Whatever points are compressed, in whatever chunking and item versions, the bytes written are in the LASzip format: a reader "
  "that implements the format as it stands, and not this crate's latest changes, returns the very points that were written.",
  "inputs histories", "records, integers, coder intervals, chunkings, appended files, within the bounds of P05-P13 and C01-C04",
  "A change made alike in compressor and decompressor passes every round trip, and a few sample files do not reach rare contexts.",
  "src/compressors.rs src/encoders.rs src/models.rs src/las src/laszip",
  [("contexts, models and order of coded values", "src/las/*/v*.rs, src/compressors.rs"), ("file layout", "src/laszip")],
  ["file bytes, as a reference reader sees them"])
P("P21", "Files written by other LASzip implementations are read exactly",
  "A file in the LASzip format, written by an implementation of the format as it stands, is decompressed to the very points that "
  "were put into it, for every item version, chunking and point index sought, and points can be appended to it.",
  "inputs histories", "records, integers, coder intervals, chunkings, indices, within the bounds of P05-P13 and C01-C04",
  "A change made alike in compressor and decompressor passes every round trip, and a few sample files do not reach rare contexts.",
  "src/decompressors.rs src/decoders.rs src/models.rs src/las src/laszip",
  [("contexts, models and order of decoded values", "src/las/*/v*.rs, src/decompressors.rs"), ("file layout", "src/laszip")],
  ["decompressed points"])
P("P22", "Corrupt compressed data gives points or an error, never a crash",
  "Whatever bytes a file's compressed points and chunk table are replaced by, decompressing, seeking and appending return "
  "points or an error: no panic, arithmetic overflow, access out of bounds, endless loop or recursion, and sequentially "
  "no allocation in proportion to what the data claims rather than to what is there.",
  "inputs", "every value any coder can return for 2-3 records of each item, any coder state and bytes, chunk tables of 0-2 entries",
  "Corrupt data takes the decoder through states no compressor produces; the tests only decompress intact files.",
  "src/decoders.rs src/decompressors.rs src/las src/laszip",
  [("values decoded are used as indices, shifts and sizes", "src/las/*/v*.rs, src/decompressors.rs"),
   ("chunk table entries", "src/laszip/chunk_table.rs, src/laszip/sequential")], ["results of calls", "panics"])
P("P23", "The point views have the LAS layout and their setters keep to their field",
  "Unpacking any record bytes into the crate's point types (points 0 and 6, colour, time, wavepacket, NIR, extra bytes, integers) and "
  "packing them again gives the same bytes; each getter returns the bits the LAS specification puts in that field, each setter "
  "changes those and no others, nothing outside the record is written, and a slice too short for it is refused.",
  "inputs", "every record, every value set, every too-short slice length",
  "The tests look at two values of one bit field; every compressor and decompressor relies on all of them.",
  "src/packers.rs src/las/point0.rs src/las/point6.rs src/las/rgb.rs src/las/gps.rs src/las/wavepacket.rs src/las/nir.rs src/las/pointtypes.rs",
  [("Packable", "src/packers.rs, src/las/*.rs"), ("bit fields", "src/las/point0.rs, src/las/point6.rs")], ["packed bytes", "getters"])
P("P24", "The LAS/LAZ file reader delivers the header's values and every point once",
  "For every LAS or LAZ file of any version and point format, with any other VLRs, header size and gap before the points, "
  "las::file reports the header's values, finds the LASzip VLR, and delivers each point record exactly, one by one or all at once, then "
  "the end; missing points give an error.",
  "inputs", "all headers, VLR orders, point counts of 0-5, versions 1.0-1.4, formats 0-10",
  "The tests read a few files with one VLR layout.",
  "src/las/file.rs", [("QuickHeader, SimpleReader", "src/las/file.rs")], ["header values", "records"])
NOT_YET = "machinery not built yet"


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    ids = {p["id"] for p in PROPS}
    assert set(CHECKS) <= ids, set(CHECKS) - ids
    hooks = ["f5f435a"]
    m = {
        "version": 1,
        "setup_cmd": "python3 build.py engine",
        "hooks": {
            "guard": "rustc cfg flags laz_verif, laz_verif_ghost, laz_verif_ghost_int, laz_verif_havoc",
            "enable": "RUSTFLAGS='--cfg laz_verif' (or the ghost flags, with LAZ_VERIF_DIR=/verif/ghost); see build.py",
            "source_commits": [subprocess.run(["git", "-C", "/repo", "rev-parse", h], capture_output=True, text=True).stdout.strip() or h for h in hooks],
        },
        "checks": [{
            "property": k, "quick_cmd": "python3 check.py %s quick" % k,
            "thorough_cmd": "python3 check.py %s thorough" % k,
            "technique": c.technique, "level": "model_checking", "level_note": c.level_note,
        } for k, c in sorted(CHECKS.items())],
        "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], NOT_YET)} for p in PROPS if p["id"] not in CHECKS],
        "notes": "DESIGN.md describes the approach; known/FINDINGS.txt lists the defects found and repaired.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
