#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, note,
         level="proof", claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w)
                                          for n, w in mech],
                               observe_at=observe, hook_needed=None),
                  _note=note, _level=level, _claimed=claimed))
    if not claimed:
        NA.append(dict(property=id, reason=reason))


UTIL = "mkvmuxer/mkvmuxerutil.cc"
MUX = "mkvmuxer/mkvmuxer.cc"
PAR = "mkvparser/mkvparser.cc"
WP = "webm_parser/src/"

prop("C01", "Muxer primitives encode every ID, size and value exactly as EBML requires",
     "Every element the muxer's element-writing API emits is the element ID in its own bytes, then the shortest non-reserved EBML size, then exactly that many payload bytes holding the value (minimal big-endian unsigned or signed integer, IEEE float, 8-byte date, string or binary bytes). The size the API predicts for an element equals the bytes it writes, element starts are announced at the position of the ID, and a value that cannot be represented, an absent value, a null writer or any failed write is reported as a failure.",
     ["inputs", "fault_sequences"],
     "all IDs, all 64-bit values, all sizes up to 4 GiB, all stream positions, a write failure at any byte with any error code",
     "the unit tests call these helpers with a few small values at position 0 and a writer that never fails",
     [UTIL],
     [("WriteUIntSize/WriteUInt/WriteID/SerializeInt/SerializeFloat", UTIL),
      ("WriteEbmlElement overloads, WriteEbmlMasterElement, WriteEbmlDateElement, WriteVoidElement", UTIL),
      ("EbmlElementSize overloads, GetCodedUIntSize, GetUIntSize, GetIntSize", UTIL)],
     ["bytes passed to IMkvWriter::Write"],
     "Byte-level contracts of every encoding primitive, all inputs; the Void element is bounded (payload up to 40 bytes plus four larger sizes).")

prop("C02", "Every metadata element the muxer writes is exactly sized, nested and filled",
     "Whatever valid configuration the user gives to the EBML header, segment info, tracks (video, audio, colour, mastering, projection, encryption), cues, chapters and tags, what the muxer writes is a well-formed element tree: each master holds exactly the bytes its size declares, each element sits in the parent the Matroska schema names, and each configured value appears exactly once with that value and nothing else appears. The size reported for an element equals the bytes written, an invalid configuration is refused, and a failed write at any point makes the writing call report failure.",
     ["inputs", "fault_sequences"],
     "all integer, float, string and binary field values and all combinations of present and absent fields; one failing write at any point",
     "tests compare a few golden files written from fixed settings with a writer that never fails",
     [MUX, UTIL],
     [("Write/Size/PayloadSize of CuePoint, Cues, ContentEncoding, Track, VideoTrack, AudioTrack, Tracks, Colour, MasteringMetadata, Projection", MUX),
      ("Chapter::WriteAtom, Chapter::Display::WriteDisplay, Chapters::Write, Tag::Write, Tags::Write, SegmentInfo::Write", MUX),
      ("WriteEbmlHeader", UTIL)],
     ["bytes passed to IMkvWriter::Write, results of Write and Size"],
     "Leaf elements: all field values, strings below 2^15 bytes. Containers (cues, tracks, encodings, displays, chapters, tags): bounded to 2-3 children, each child used through its contract. Acceptance of every valid track is bounded in lengths.")

prop("C03", "Every frame handed to the muxer becomes one exact block element or is refused",
     "A frame with data, a track number from 1 to 126 and a time 0 to 32767 ticks after its cluster is written as one SimpleBlock, or as a BlockGroup when it carries additional data, a duration or discard padding, whose declared sizes are exact and whose track number, 16-bit relative time, key-frame flag, frame bytes, additional data, block duration, reference and padding are the frame's. Any other frame is refused with nothing written, the call returns the number of bytes written, and a failed write at any point makes it return 0.",
     ["inputs", "fault_sequences"],
     "all frame contents and lengths below 4 GiB, all track numbers, times, flags, durations, paddings and additional data; one failing write at any point",
     "tests write a handful of small frames at small times to a writer that never fails",
     [UTIL, MUX],
     [("WriteFrame, WriteSimpleBlock, WriteBlock", UTIL),
      ("Frame::IsValid, Frame::CanBeSimpleBlock, Cluster::GetRelativeTimecode", MUX)],
     ["bytes passed to IMkvWriter::Write, result of WriteFrame"],
     "SimpleBlock: all lengths below 4 GiB, all times at timecode scale 1; other scales bounded. BlockGroup without additional data: frames below 2^15 bytes; with additional data: bounded to 255 bytes.")

prop("C04", "Parser primitives decode every EBML ID, size and value exactly or report",
     "From any file contents and any readable length, the demuxer's decoding primitives return exactly the element ID, the element size, the unsigned, signed or floating-point value, or the string that the bytes at the given position encode, and the position after it, and decode what the muxer's encoding rules produce back to the same value. A malformed length marker, a value of an impossible size, an infinite or NaN float, a header that runs past its parent or a byte that cannot be read is always reported as an error, never as a value.",
     ["inputs", "fault_sequences"],
     "all byte contents, all positions, all readable lengths, all positive and negative reader error codes",
     "tests parse a few valid files; truncation at every byte and every malformed marker is not sampled",
     [PAR],
     [("ReadUInt, ReadID, GetUIntLength, ParseElementHeader", PAR),
      ("UnserializeUInt, UnserializeInt, UnserializeFloat, UnserializeString", PAR)],
     ["results of the decoding functions"],
     "All inputs; strings up to the 20 MB the parser accepts.")

prop("C05", "Demuxed blocks yield exactly the frames, track, time and flags they hold",
     "From any bytes, parsing a block either reports an error or yields the track number, signed 16-bit relative time, key-frame and invisible flags and lacing the block header encodes, and frames that lie back to back, in order, non-empty, and end exactly where the block ends, with the lengths its Xiph, fixed-size or EBML lacing encodes. Every well-formed block is accepted, every inconsistent lace size or unreadable byte is reported, a frame's absolute time is its cluster's time plus its relative time scaled to nanoseconds, and reading a frame reads exactly its bytes.",
     ["inputs", "fault_sequences"],
     "all track numbers, times, flags, lace sizes and block sizes, an unreadable byte at any header or lace position",
     "no test parses laced blocks with inconsistent sizes or truncated at each byte",
     [PAR],
     [("Block::Parse, Block::GetFrame, Block::Frame::Read", PAR),
      ("Block::GetTimeCode, Block::GetTime", PAR)],
     ["Block accessors after Block::Parse"],
     "Unlaced blocks: all inputs. Laces: bounded to 5 (Xiph, 6 size bytes), 7 (fixed) and 3 (EBML; 4 thorough) frames. Decoding primitives are used through the contracts proved for C04.")

prop("C06", "The streaming parser decodes the same values however the bytes arrive",
     "For every byte stream and every way it is split into partial reads, the streaming parser's element ID, element size, variable-length integer, signed and unsigned integer, boolean, date, float, string and binary parsers consume exactly the element's bytes, report how many bytes each call consumed, pass on the reader's status when it stops, and resume to the value that the EBML encoding denotes. Empty elements yield the documented default, IDs and sizes without a valid length marker and impossible element sizes are rejected with the documented error, the all-ones size is reported as unknown, and skipping passes over exactly the element's bytes.",
     ["inputs", "schedules"],
     "all values and byte contents, interruptions at any byte",
     "the unit tests try single values and one-byte-at-a-time delivery only",
     [WP + "id_parser.cc", WP + "size_parser.cc", WP + "var_int_parser.cc", WP + "int_parser.h", WP + "float_parser.cc", WP + "bool_parser.h", WP + "date_parser.cc", WP + "byte_parser.h", WP + "skip_parser.cc"],
     [("IdParser::Feed, SizeParser::Feed, VarIntParser::Feed", WP),
      ("UnsignedIntParser, SignedIntParser, BoolParser, DateParser, FloatParser, StringParser, BinaryParser, SkipParser: Init and Feed", WP),
      ("ReadByte, AccumulateIntegerBytes", WP + "parser_utils.h")],
     ["value() and the status and byte count returned by Feed"],
     "All values; the number of interruptions is bounded (up to 3 at any byte) and strings and binaries are bounded to 4 bytes.")

prop("C07", "The streaming parser delivers each block's frames once, exact and in order",
     "For every block the streaming parser announces once the track number, signed 16-bit time, visibility, lacing and frame count its header encodes, then hands over each frame once, in order, with the position and size its Xiph, fixed-size or EBML lacing encodes, the last one ending where the block ends, and then reports the block's end; this holds however the bytes are split and when a frame's delivery is interrupted and resumed. A block too small for its header, lace sizes that do not fit and fixed laces that do not divide the data are rejected before any frame is delivered, and a block the callback skips is passed over exactly without delivering frames.",
     ["inputs", "schedules"],
     "all times, positions and block sizes, lace sizes of all lengths listed, interruptions at header and lace bytes and within frames",
     "the unit tests use a few hand-written blocks and sizes that fit",
     [WP + "block_parser.cc", WP + "block_header_parser.cc", WP + "virtual_block_parser.cc"],
     [("BasicBlockParser::Init, Feed, WasSkipped", WP + "block_parser.cc"),
      ("BlockHeaderParser::Feed", WP + "block_header_parser.cc"),
      ("VirtualBlockParser::Init, Feed", WP + "virtual_block_parser.cc")],
     ["Callback::OnSimpleBlockBegin, OnBlockBegin, OnFrame, OnSimpleBlockEnd, OnBlockEnd"],
     "Unlaced blocks: all sizes and positions. Laces: bounded to 4 (fixed) and 3 (Xiph, EBML) frames; interruptions bounded to 2.")

prop("C08", "VP9 headers, superframes and codec private data are read as VP9 defines",
     "For every VP9 frame with a complete uncompressed header, the header parser accepts it exactly when frame marker and sync code are right and reports its profile, frame type, visibility, error resilience, refresh flags, bit depth, colour space, frame and display size, parallel mode and (key frames without segmentation) tile rows and columns; it never reads outside the frame. A superframe index is split into back-to-back frame ranges with the sizes it lists, one that does not fit is an error, VP9 CodecPrivate yields exactly the listed profile, level, bit depth and subsampling or is refused, and byte-order conversion reverses all bytes.",
     ["inputs"],
     "all header field values, all CodecPrivate and superframe index contents up to the bounds",
     "the tests read headers of sample files and a handful of CodecPrivate strings",
     ["common/vp9_header_parser.cc", "common/libwebm_util.cc", "common/hdr_util.cc", "common/webm_endian.cc"],
     [("Vp9HeaderParser::ParseUncompressedHeader, ReadBit", "common/vp9_header_parser.cc"),
      ("ParseVP9SuperFrameIndex", "common/libwebm_util.cc"),
      ("ParseVpxCodecPrivate", "common/hdr_util.cc"),
      ("host_to_bigendian, bigendian_to_host", "common/webm_endian.cc")],
     ["accessors after ParseUncompressedHeader, frame ranges, feature struct"],
     "Header: bit reader by contract (proved separately); syntax-deciding bits enumerated, all others symbolic. CodecPrivate bounded to 14 bytes; superframes bounded to 300 bytes and 1, 2, 3 or 8 frames.")

prop("C09", "File and buffer readers and writers move exactly the bytes they report",
     "Reading a byte range through the file-backed demuxer reader succeeds only if exactly those bytes, at that file position, were put in the caller's buffer, and writing through the file-backed muxer writer succeeds only if every byte was written at the current position; failed seeks, short transfers, closed files and absent arguments are reported. The streaming parser's file and buffer readers return exactly the bytes available, in order, report complete, partial or end of file accordingly, and keep a position that equals the bytes consumed, also across skips and seeks.",
     ["inputs", "fault_sequences"],
     "all offsets, lengths and file sizes, a transfer or seek failing at any point",
     "tests use files that never fail and in-range reads",
     ["mkvparser/mkvreader.cc", "mkvmuxer/mkvwriter.cc", "webm_parser/src/file_reader.cc", "webm_parser/src/buffer_reader.cc", "webvtt/vttreader.cc"],
     [("MkvReader::Read, Length, Close", "mkvparser/mkvreader.cc"),
      ("MkvWriter::Write, Position, Close", "mkvmuxer/mkvwriter.cc"),
      ("FileReader::Read, Skip, Seek, Position", "webm_parser/src/file_reader.cc"),
      ("BufferReader::Read, Skip, Position", "webm_parser/src/buffer_reader.cc"),
      ("VttReader::GetChar", "webvtt/vttreader.cc")],
     ["results and buffers of the calls"],
     "C stdio is used through its contract. BufferReader bounded to 6 bytes and 3 operations.")

prop("C10", "PES and TS packets carry every frame byte once, framed as MPEG-2 requires",
     "Converting a VP8 or VP9 frame to PES yields, per frame (or per frame of a VP9 superframe), packets with start code, stream ID and exact length, the 33-bit time with its marker bits and a BCMV header with the frame length in the first packet only, and payloads of at most 32768 bytes that together are the frame's bytes in order, with start codes inside the data escaped reversibly; empty frames and bad superframes are refused. The TS writer turns PES data into whole 188-byte packets with sync byte, unit-start flag on the first only, a continuity counter that advances by one modulo 16 over all packets, padding through an adaptation field and all payload bytes in order, and reports a failed write.",
     ["inputs", "fault_sequences", "histories"],
     "all times, frame bytes and frame lengths within the bounds, a TS write failing at any packet",
     "the tests convert one sample file and compare a handful of values",
     ["m2ts/webm2pes.cc", "m2ts/vpxpes2ts.cc", "m2ts/vpxpes_parser.cc"],
     [("PesOptionalHeader::SetPtsBits, PesOptionalHeader::Write, PesHeader::Write, BCMVHeader::Write", "m2ts/webm2pes.cc"),
      ("Webm2Pes::WritePesPacket, CopyAndEscapeStartCodes", "m2ts/webm2pes.cc"),
      ("VpxPes2Ts::ReceivePacket, TsHeader::Write", "m2ts/vpxpes2ts.cc"),
      ("VpxPesParser::RemoveStartCodeEmulationPreventionBytes", "m2ts/vpxpes_parser.cc")],
     ["packet buffer, bytes passed to fwrite"],
     "Header fields: all values. Escaping bounded to 16 bytes, packet splitting to frames of 98304 bytes (pieces through their contracts), TS to 400 bytes per PES unit. The conversion of nanoseconds to ticks is not covered.")

prop("C11", "Segment info and track metadata are reported exactly as stored in the file",
     "For segment info and for every track entry with its video, audio, colour, mastering, projection and content-encoding children, the demuxer reports for each field the value stored by the last such child, or the documented default when there is none, whatever other children are present and in whatever order. A child that overruns its parent, a field that cannot be read or whose value is out of its documented range, a track without number or type, or settings that do not match the track type make parsing that element fail; a track is found under exactly its number and its position in the file.",
     ["inputs"],
     "all element IDs, header lengths, sizes and values, unreadable payloads, the parent's end anywhere in the last child",
     "the tests parse a few files produced by well-behaved muxers",
     [PAR],
     [("SegmentInfo::Parse, SegmentInfo::GetDuration", PAR),
      ("Tracks::Parse, Tracks::ParseTrackEntry, Tracks::GetTrackByNumber, Track::Info::Copy", PAR),
      ("VideoTrack::Parse, AudioTrack::Parse, Colour::Parse, MasteringMetadata::Parse, PrimaryChromaticity::Parse, Projection::Parse", PAR),
      ("Track::ParseContentEncodingsEntry, ContentEncoding::ParseContentEncodingEntry, ParseCompressionEntry, ParseEncryptionEntry, ParseContentEncAESSettingsEntry", PAR)],
     ["accessors of SegmentInfo, Tracks, Track and ContentEncoding"],
     "Modular: each parser over the contracts of the decoding primitives (C04) and of the nested parsers. Loops are bounded to 3 children per element (2-3 with fixed sizes where children are read twice), strings to 3 bytes; single-value parsers are unbounded.")

prop("C12", "Chapters and tags are reported exactly as stored in the file",
     "For chapters and tags the demuxer reports every edition, chapter, display, tag and simple tag of the file in file order and by index, and for each its UID, string UID, start and end times, title, language, country, tag name and tag value as stored by the last such child, or the absent value when there is none. Empty children and children of other kinds are passed over, a child that overruns its parent or cannot be read makes parsing fail, and chapter times in nanoseconds are the stored times multiplied by the timecode scale.",
     ["inputs"],
     "all element IDs, header lengths, sizes and values, unreadable payloads, the parent's end anywhere in the last child",
     "the tests parse a few files produced by well-behaved muxers",
     [PAR],
     [("Chapters::Parse, Edition::Parse, Atom::Parse, Atom::ParseDisplay, Display::Parse, Expand*Array, accessors", PAR),
      ("Tags::Parse, Tag::Parse, SimpleTag::Parse, Expand*Array, accessors", PAR),
      ("Chapters::Atom::GetStartTime, GetStopTime, GetTime", PAR)],
     ["accessors of Chapters and Tags"],
     "Modular: each parser over the contracts of the decoding primitives (C04) and of the nested parsers. Bounded to 3 children for records and 4 for containers, strings to 3 bytes; chapter times for all values at timecode scales 1, 1000 and 1000000.")

prop("C13", "Seek entries and cue points are read exactly and searched by time",
     "The demuxer reports the entries and void elements of a seek head in file order with the ID and position stored in the file, and loads cue points one after another in file order with their stored time and, for each of their track positions, the track, cluster position and block number (1 when absent). A child that overruns its parent or cannot be read, a cue point without time or track position, and a track position without track or cluster position are refused, a cue's time in nanoseconds is its stored time multiplied by the timecode scale, and a lookup yields the latest loaded cue point not after the time asked for (or the first) exactly if that cue point has the track.",
     ["inputs"],
     "all element sizes and values, unreadable payloads, the parent's end anywhere in the last child, all cue times and lookup times",
     "the tests read the cues of a few files produced by well-behaved muxers",
     [PAR],
     [("SeekHead::Parse, ParseEntry, accessors", PAR),
      ("Cues::Init, PreloadCuePoint, LoadCuePoint, Find, GetFirst, GetNext, GetLast", PAR),
      ("CuePoint::Load, TrackPosition::Parse, Find, GetTime", PAR)],
     ["accessors of SeekHead, Cues and CuePoint"],
     "Modular: each parser over the contracts of the decoding primitives (C04) and of the nested parsers. Bounded: records of 3 children, seek heads and cues of up to 4, laid out as listed in the proofs; lookups among up to 6 cue points of strictly increasing times; cue times for all values at timecode scales 1, 1000 and 1000000.")

prop("C14", "Blocks are walked in file order and found by track and time",
     "Among the loaded clusters of a segment, looking up a time yields the last cluster that starts at or before it (or the first), and looking up a track and time in a cluster yields the latest block of that track not after the time (for video, the latest such key frame) or the end marker. Walking a cluster, or a track across clusters, visits each of its blocks once in file order, parsing blocks as needed, and tells the end of the track from clusters that are not loaded yet. Seeking a track returns its first block when the time is not after it, and otherwise the track's block in the last loaded cluster that starts at or before the time and has one (for video, the latest key frame not after the time).",
     ["inputs", "histories"],
     "all cluster and block times in order, tracks and key-frame flags, lookup times, every state of parsing of the clusters",
     "the tests walk a few files from start to end and hardly seek",
     [PAR],
     [("Segment::FindCluster, GetFirst, GetNext", PAR),
      ("Cluster::GetFirst, GetNext, GetLast, GetEntry (by track and time, by cue)", PAR),
      ("Track::GetFirst, GetNext, Seek, VetEntry; VideoTrack::Seek, VetEntry", PAR)],
     ["return values and block entries handed out"],
     "Modular: lazy parsing of a cluster through a contract (one more block, none left, or an error); single steps in clusters and segments of any length; seeking over the contracts of the first block and of the lookup in a cluster. Bounded: up to 6 clusters for the lookup by time, 4 for seeking, 3 clusters of up to 3 blocks for walking.")

prop("C15", "The EBML header of a file is found, read exactly and checked",
     "From any file the demuxer finds the EBML header behind up to 1024 leading bytes that are not its first byte, reports its versions, ID and size length limits, document type and document type versions as stored by the last such child or the documented default, and leaves the position right after the header. A header is accepted exactly if it is all there, every child is non-empty and inside it, every number is positive, there is exactly one document type, IDs are limited to at most 4 and sizes to at most 8 bytes; as long as bytes of it are not available yet, the call reports how far it needs to read or an error, and a header that cannot be read or overruns the file is refused.",
     ["inputs"],
     "all child IDs, sizes and values, any number of children, any available and total length, unreadable payloads",
     "the tests open a few files produced by well-behaved muxers",
     [PAR],
     [("EBMLHeader::Parse, EBMLHeader::Init", PAR)],
     ["fields of the header and the returned position"],
     "Modular over the contracts of the decoding primitives (C04): induction over any number of children; complete headers of 3 children with document types of at most 3 bytes; leading bytes bounded to 0, 3 and 1024; size field of 8 bytes.")

prop("C20", "A written file reads back as the frames, tracks and positions that were put in",
     "For every sequence of frames given to the muxer, the finished file lists the same tracks and yields the same frames with the same times, key flags and data in order. Segment size, duration, cue entries and seek entries in the finished file point at what they name.",
     ["histories", "fault_sequences"], "all frame sequences, all writer modes, all failures of the writer",
     "the tests compare a few golden files",
     [MUX, PAR], [("Segment::AddGenericFrame, Finalize, Cluster::Finalize, SeekHead, Cues", MUX), ("Segment::Load, LoadCluster, Cluster::Parse", PAR)],
     ["the finished file"], "", claimed=False,
     reason="needs invariants over unbounded heap structures (clusters, queued frames, block entries) tied to file contents; CBMC has no quantified heap predicates or separation logic and no deductive verifier for C++ is installed (Frama-C here has no WP). The bytes of every element and their decoding are decided by C01-C05 and C11-C15.")

prop("C21", "The streaming parser reports the element tree of any document",
     "For every document and every split of it into pieces, the parser announces each element once, in order, with the right ID, size and position, skips what the callback declines, and resumes where it stopped.",
     ["inputs", "histories"], "all documents, all splits",
     "the tests parse short hand-written buffers",
     [WP + "master_parser.cc", WP + "webm_parser.cc"], [("MasterParser::Feed, WebmParser::Feed", WP)],
     ["callback calls"], "", claimed=False,
     reason="the child table is a std::unordered_map of parsers built by variadic templates; its out-of-line parts (hash policy) exist only as a binary, so the function cannot be extracted whole. The leaf parsers are decided by C06 and C07.")

prop("C22", "WebVTT cues are read exactly from any text",
     "From any text the cue parser yields the identifiers, times, settings and payload lines that the WebVTT format prescribes, or reports an error.",
     ["inputs"], "all texts",
     "there are no tests of it",
     ["webvtt/webvttparser.cc"], [("Parser::Init, Parser::Parse", "webvtt/webvttparser.cc")],
     ["the parsed cue"], "", claimed=False,
     reason="the parser builds std::string and std::list objects of unbounded length, for which no contract within reach exists here (the string contracts cover short strings). Its character source is decided by C09.")


# ---------------------------------------------------------------- output
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=NA)
    for p in P:
        if p["_claimed"]:
            m["checks"].append(dict(
                property=p["id"], quick_cmd="python3 check.py " + p["id"],
                thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                technique="contract-based deductive verification of the code "
                "extracted from /repo on every run (clang bitcode -> C -> CBMC)",
                level=p["_level"], level_note=p["_note"]))
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
