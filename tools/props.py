#!/usr/bin/env python3
"""The list of properties. Writes properties.jsonl and MANIFEST.json from it
(only the properties that checks.json has a check for)."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique,
         level, note, observe=None):
    mech = [{"name": a, "where": b} for a, b in mechanism]
    P.append(dict(
        id=id, technique=technique, level=level, note=note,
        line=dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech,
                               observe_at=observe or [], hook_needed=None))))


prop(
    "C01", "Muxed frames come back from the parsers unchanged",
    "Every frame a muxer call accepted (AddFrame, AddFrameWithAdditional, "
    "AddFrameWithDiscardPadding, AddMetadata, AddGenericFrame) is in the finished file exactly "
    "once, with its payload, track number, timestamp (rounded down to the timecode scale), key "
    "flag, duration, BlockAdditions, DiscardPadding and reference block (the track's previous frame "
    "if none is given) as given, in input order "
    "(per track in accurate-cluster-duration mode), and nothing else is; an independent decoder "
    "and mkvparser both read it back so. A frame a call refused leaves no trace, and the calls and "
    "Finalize() succeed for every valid frame sequence.",
    ["inputs", "histories", "configurations"],
    "every valid sequence of add calls on any set of tracks, in every writer mode and segment "
    "setting (file/live, cluster duration and size limits, accurate cluster duration, forced "
    "clusters, timecode scale), with any frame sizes, timestamps, durations and extras",
    "The muxer tests compare a few dozen fixed files; interleavings of queued audio, extras, "
    "gaps and modes are unbounded and their combinations are not sampled.",
    ["mkvmuxer/mkvmuxer.cc", "mkvmuxer/mkvmuxerutil.cc", "mkvparser/mkvparser.cc"],
    [("audio queue and cluster creation", "mkvmuxer.cc Segment::AddGenericFrame, QueueFrame, WriteFramesAll, WriteFramesLessThan"),
     ("block writing", "mkvmuxerutil.cc WriteFrame, WriteBlock, WriteSimpleBlock"),
     ("block parsing", "mkvparser.cc Cluster, Block::Parse")],
    "model-based property testing: random add-call histories, round trip through an independent EBML decoder and mkvparser",
    "exploration",
    "Random and edge-biased histories (about 330,000 per quick run) under ASan/UBSan with a leak oracle, each "
    "compared frame by frame with a model. Trusts the harness's own EBML decoder; bounded to at most a few hundred frames per case.")

prop(
    "C02", "Muxer output is well-formed EBML with exact sizes",
    "The bytes the muxer leaves behind form one EBML header and one Segment in which every element "
    "is a known element in an allowed place with a size that exactly covers its children, "
    "every mandatory element is present once, and every size that is left unknown belongs to a live "
    "Segment or Cluster; nothing follows the Segment. Segment and Cluster sizes, Info/Duration, track numbers "
    "and UIDs, and Void padding are consistent with the rest of the file.",
    ["inputs", "histories", "configurations"],
    "every segment configuration and frame history that is finalised successfully",
    "Tests compare with golden files for a few configurations; size computations depend on every value's encoded length.",
    ["mkvmuxer/mkvmuxer.cc", "mkvmuxer/mkvmuxerutil.cc", "mkvmuxer/mkvwriter.cc"],
    [("size computation and writing", "mkvmuxer.cc *::Size/PayloadSize/Write; mkvmuxerutil.cc EbmlElementSize, WriteEbmlElement"),
     ("back-patching of sizes and duration", "mkvmuxer.cc Cluster::Finalize, Segment::Finalize, SegmentInfo::Finalize")],
    "property testing with a strict independent EBML decoder as oracle",
    "exploration",
    "Every generated file is decoded strictly by an independent schema-driven decoder and checked for sizes, mandatory elements and cross references. "
    "About 300,000 files per quick run.")

prop(
    "C03", "Cues and SeekHead point at what they claim",
    "In a finished file each SeekHead entry's position is the position of an element with that ID, and every "
    "Info, Tracks, Cues, Chapters and Tags element has its entry; each cue point's time, track, cluster position "
    "and block number designate an existing block of that track with that timestamp, one cue per "
    "cluster that has a frame of the cue track when cues are on, and none otherwise. This also holds after the "
    "cues have been moved before the clusters, and mkvparser finds the cued block through the index.",
    ["inputs", "histories", "configurations"],
    "every frame history and segment setting with seekable output, with and without moving the cues to the front",
    "Positions depend on the byte lengths of everything before them; tests check a few fixed files.",
    ["mkvmuxer/mkvmuxer.cc", "mkvparser/mkvparser.cc"],
    [("cue creation", "mkvmuxer.cc Segment::AddCuePoint, Cues::AddCue, CuePoint::Write"),
     ("moving the cues", "mkvmuxer.cc Segment::CopyAndMoveCuesBeforeClusters, MoveCuesBeforeClustersHelper"),
     ("seek entries", "mkvmuxer.cc SeekHead::AddSeekEntry, Finalize"),
     ("lookup", "mkvparser.cc Cues::Find, CuePoint, Segment::GetBlock")],
    "property testing: index entries resolved against an independently decoded file",
    "exploration",
    "Each generated file's Cues and SeekHead are resolved against the independently decoded layout, before and after moving the cues. About 150,000 files per quick run.")

prop(
    "C04", "Header metadata survives muxing and parsing",
    "Every header value accepted by a muxer setter (segment info, track fields, video, colour, mastering metadata, projection, "
    "audio, content encodings, chapters and their displays, tags) is written once with exactly that value and comes back "
    "unchanged from mkvparser's accessors; values that were not set are absent or have their documented default. Values the muxer documents as invalid are refused "
    "by the setter or by writing, and setting a value again replaces it without a leak.",
    ["inputs", "configurations"],
    "every combination of header fields, with values over their whole valid range and the edges just outside",
    "Each test sets a few fields once; the encoded length of a value and the presence of its neighbours change the layout.",
    ["mkvmuxer/mkvmuxer.cc", "mkvmuxer/mkvmuxerutil.cc", "mkvparser/mkvparser.cc"],
    [("setters and writers", "mkvmuxer.cc SegmentInfo, Track, VideoTrack, AudioTrack, Colour, Projection, ContentEncoding, Chapters, Tags"),
     ("readers", "mkvparser.cc SegmentInfo::Parse, Tracks::ParseTrackEntry, VideoTrack::Parse, Colour::Parse, Projection::Parse, Chapters, Tags")],
    "property testing: random header configurations, round trip through an independent decoder and mkvparser",
    "exploration",
    "About 150,000 random configurations per quick run; both the written elements and every mkvparser accessor are compared with the values set.")

prop(
    "C05", "Frames are grouped into clusters by the documented rules",
    "In every finished file each cluster's timecode is that of its first block, block timecodes are relative to it within 0..32767, cluster "
    "timecodes never decrease, and no cluster is empty. A video key frame is preceded in its cluster by audio only, and (with a video track) the audio frame current at "
    "its start goes with it; a forced new cluster, the maximum cluster duration and the maximum cluster size each start a new cluster at the next frame that is not held back, and "
    "no cluster starts without one of these reasons or a gap a block cannot express.",
    ["histories", "configurations"],
    "every non-decreasing frame history over any tracks, cluster limits, forced clusters and gaps",
    "The tests use a few fixed histories, mostly one video track with default limits.",
    ["mkvmuxer/mkvmuxer.cc"],
    [("decision", "mkvmuxer.cc Segment::TestFrame, DoNewClusterProcessing, MakeNewCluster"),
     ("held-back audio", "mkvmuxer.cc Segment::QueueFrame, WriteFramesLessThan, WriteFramesAll")],
    "property testing: invariants over the decoded cluster layout of random histories",
    "exploration",
    "About 250,000 histories per quick run; the rules are stated over the decoded file and the input history. In accurate-duration mode only the timecode rules are checked.")

prop(
    "C06", "Every failed write or seek is reported, without crash or leak",
    "If any single operation of the writer (a write or a seek, at any point from the first header byte to the end of finalisation or of moving the cues) fails, or a read while "
    "the cues are moved fails, at least one muxer call returns failure, so a damaged file is never reported as finished. Neither that nor going on to use or destroying "
    "the segment afterwards crashes, touches freed memory or leaks.",
    ["fault_sequences", "histories"],
    "every position of a transient or persistent writer fault in any muxing history, including the moving of cues; any non-zero status counts as a fault",
    "No test injects writer faults; the error paths are unreachable with the file writer.",
    ["mkvmuxer/mkvmuxer.cc", "mkvmuxer/mkvmuxerutil.cc"],
    [("status propagation", "mkvmuxerutil.cc SerializeInt, WriteUInt, WriteEbmlElement*; mkvmuxer.cc Write/Finalize functions"),
     ("ownership on error", "mkvmuxer.cc Cluster::QueueOrWriteFrame, Segment::AddGenericFrame, WriteFramesAll, ChunkedCopy")],
    "fault enumeration over generated histories: a fault at each writer/reader operation in turn",
    "fault_enumeration",
    "For each of about 11,500 small random histories per quick run every operation (up to 200 per history) is made to fail in turn: about 1.6 million faulty runs under ASan/UBSan with a leak oracle.")

prop(
    "C07", "Streams and chunk files carry the same data as the plain file",
    "A writer that says it cannot seek is never asked to seek and receives a stream with the same clusters, blocks, tracks, chapters and tags as the seekable file, with unknown segment and cluster "
    "sizes. With chunking on, the header chunk, one chunk per cluster and the cues chunk put together are byte for byte the file that would have been written without chunking.",
    ["histories", "configurations"],
    "every muxing history and segment setting, in file and live mode",
    "The tests have one non-seekable and no chunked-versus-plain comparison; offsets and sizes in chunked mode are computed differently at several places.",
    ["mkvmuxer/mkvmuxer.cc", "mkvmuxer/mkvwriter.cc"],
    [("seek guards", "mkvmuxer.cc Cluster::Finalize, SegmentInfo::Finalize, SeekHead::Finalize, Segment::Finalize"),
     ("chunk files", "mkvmuxer.cc Segment::SetChunking, MakeNewCluster, UpdateChunkName, MaxOffset")],
    "differential property testing between output modes",
    "exploration",
    "About 120,000 stream and 30,000 chunked histories per quick run, each compared with the seekable single-file output of the same history.")

prop(
    "C08", "EBML encoding, size computation and decoding agree",
    "For every ID and value, the number of bytes a writing primitive emits equals what the matching size function predicts and is the canonical encoding, and mkvparser's reading primitives return "
    "the same ID, size and value from it; values that cannot be represented are refused with an error and no output. On arbitrary bytes the reading primitives accept exactly the well-formed "
    "encodings and return their value; a void element of any requested size of at least 2 bytes takes exactly that many bytes.",
    ["inputs"],
    "all IDs of 1 to 4 bytes, all integers, floats, strings, binaries and sizes, and all short byte strings",
    "Tests sample a handful of values; off-by-one errors sit at the length boundaries of 2^7k-1 and 2^8k.",
    ["mkvmuxer/mkvmuxerutil.cc", "mkvparser/mkvparser.cc"],
    [("writers and sizes", "mkvmuxerutil.cc GetUIntSize, GetIntSize, GetCodedUIntSize, EbmlElementSize, WriteUInt, WriteUIntSize, WriteEbmlElement, WriteVoidElement"),
     ("readers", "mkvparser.cc ReadID, ReadUInt, GetUIntLength, UnserializeUInt/Int/Float/String, ParseElementHeader")],
    "property testing against an independent EBML encoder/decoder",
    "exploration",
    "2.3 million edge-biased values and byte strings per quick run against an independent encoder and decoder.")

prop(
    "C09", "mkvparser reports every well-formed document exactly as it is written",
    "For every well-formed WebM/Matroska document within mkvparser's documented limits, however its elements are ordered, padded with Void/CRC/unknown elements, length-coded or left with unknown "
    "size, Segment::Load succeeds and the API reports exactly the EBML header, info, tracks, seek entries, cues, chapters, tags, clusters, blocks, lacing, timecodes, payload positions and payload bytes that the document holds.",
    ["inputs"],
    "all documents of a grammar covering every element mkvparser knows, with arbitrary values, orders, paddings and size encodings",
    "The tests parse a few files of one encoder; a parser's errors sit in combinations of unusual but legal encodings.",
    ["mkvparser/mkvparser.cc", "mkvparser/mkvparser.h"],
    [("header parsing", "mkvparser.cc EBMLHeader::Parse, Segment::ParseHeaders, SegmentInfo::Parse, Tracks::Parse, Cues, Chapters, Tags"),
     ("cluster and block parsing", "mkvparser.cc Segment::DoLoadCluster, Cluster::Parse, CreateBlockGroup, CreateSimpleBlock, Block::Parse, Block::GetTime")],
    "grammar-based document generation against an independent model of the document",
    "exploration",
    "About 80,000 generated documents (600 of them large) per quick run, each compared field by field with the generator's own tree.")

prop(
    "C10", "mkvparser on a growing file ends with the same result as on the whole",
    "When a document becomes available bit by bit, every mkvparser loading call either completes or reports that more data is needed (or the reader's own status) without ever reading beyond what is available, and "
    "repeating the call after more data arrives, at any sequence of cut points, leads to the same headers, clusters, blocks and cues as loading the whole file at once.",
    ["inputs", "schedules"],
    "all documents and all sequences of availability cut points",
    "Every byte of a document is a possible cut point; the parser keeps state in a dozen places when it stops for lack of data.",
    ["mkvparser/mkvparser.cc"],
    [("resumable parsing", "mkvparser.cc EBMLHeader::Parse, Segment::CreateInstance, ParseHeaders, DoLoadCluster, DoLoadClusterUnknownSize, Cluster::Parse, Cluster::Load, Cues::LoadCuePoint, Segment::ParseCues, ParseNext")],
    "schedule generation over availability, differential against whole-file parsing",
    "exploration",
    "About 120,000 documents with random growth schedules per quick run.")

prop(
    "C11", "mkvparser navigation and seeking find exactly the right blocks",
    "For every document with ordered times: iterating a track visits its blocks in file order from the first valid start (for video the first key frame); VideoTrack::Seek returns the last key frame at or before the time, "
    "Track::Seek of other tracks the first block of the track in the last cluster starting at or before it, each the first target for earlier times; FindCluster, Cluster::GetEntry and Cues::Find return the last "
    "candidate at or before the time; Cues::GetBlock resolves a cue to its block. Clusters reached early through cues, FindOrPreloadCluster, GetNext or ParseNext are the same objects that loading in order reports, none lost, doubled or reordered.",
    ["inputs", "histories"],
    "all documents with non-decreasing times, all query times, and all interleavings of loading, preloading and navigation calls",
    "Seek correctness is a statement over all times and layouts, and preloading reorders the loading history.",
    ["mkvparser/mkvparser.cc"],
    [("seek and iteration", "mkvparser.cc Track::GetFirst, GetNext, Track::Seek, VideoTrack::Seek, VetEntry, Segment::FindCluster, Cluster::GetEntry"),
     ("cues and preloading", "mkvparser.cc Cues::Find, Segment::GetBlock, FindOrPreloadCluster, PreloadCluster, AppendCluster, ParseNext, DoParseNext, GetNext")],
    "stateful model-based property testing against a model of the document",
    "exploration",
    "160,000 documents with sequences of navigation and loading calls per quick run, each call compared with the model.")


prop(
    "C13", "webm_parser gives the same events however the input arrives",
    "The sequence of callbacks a WebmParser makes, with their metadata and values, the frame and unknown-element bytes it hands out and the final status do not depend on how the input is delivered: short reads, kWouldBlock "
    "at any byte, and a callback that returns a non-OK status or throws at any call, followed by calling Feed again, give the events of one uninterrupted parse (an interrupted callback is repeated, no other is lost, repeated or changed), "
    "and the parser never reads past what it reports. This also holds after DidSeek and on damaged input.",
    ["inputs", "schedules", "faults"],
    "all documents valid or damaged, all splits of the input into chunks, all points where a callback interrupts",
    "The number of ways to split a stream and to interrupt the callbacks is exponential; unit tests sample a few splits per element parser.",
    ["webm_parser/src/webm_parser.cc", "webm_parser/src/master_parser.cc", "webm_parser/src/block_parser.cc", "webm_parser/src/id_parser.cc", "webm_parser/src/size_parser.cc"],
    [("resumable state machines", "webm_parser.cc DocumentParser::Feed, master_parser.cc MasterParser::Feed, block_parser.cc, block_header_parser.cc, ebml lacing in block_parser.cc"),
     ("leaf parsers", "id_parser.cc, size_parser.cc, var_int_parser.cc, int_parser.h, float_parser.cc, byte_parser.h, skip_parser.cc, unknown_parser.cc, void_parser.cc")],
    "metamorphic property testing: interrupted and chunked delivery against one-shot delivery",
    "exploration",
    "50,000 document and delivery pairs per quick run; readers that throw are out of scope.")

prop(
    "C14", "webm_parser is safe and consistent on arbitrary bytes",
    "For every byte sequence, from the start or after a seek: WebmParser terminates without crash, undefined behaviour, exception, leak or unbounded allocation, ends with kOkCompleted, kEndOfFile or a documented parsing "
    "error, and a final status stays final. Every element it reports is really present at that position with that header, lies within its parent and follows the previous element without gap or overlap; frames tile their block exactly.",
    ["inputs"],
    "all byte strings fed to WebmParser, all skip decisions and start offsets",
    "Hostile input is unbounded, and memory safety and progress must hold for all of it.",
    ["webm_parser/src/webm_parser.cc", "webm_parser/src/master_parser.h", "webm_parser/src/block_parser.cc", "webm_parser/src/byte_parser.h"],
    [("sizes and bounds", "master_parser.cc, master_value_parser.h, size_parser.cc, byte_parser.h Init/Feed"),
     ("block payload", "block_parser.cc ParseBasicBlockFlags, lacing; block_header_parser.cc"),
     ("recursion", "recursive_parser.h, webm_parser.cc")],
    "structured and mutational fuzzing under ASan/UBSan with structural invariants over the events",
    "exploration",
    "224,000 hostile inputs per quick run: mutated documents, blocks with arbitrary payloads, header soups and deep nesting.")

prop(
    "C15", "webm_parser reports every element exactly as the document states it",
    "For every valid WebM document the parser makes exactly the callbacks the document calls for, in document order: OnElementBegin for every element with its ID, position, header size and size, and for EBML header, Info, Tracks, Cues, "
    "Chapters, Tags, clusters, block groups and blocks the complete object with every value, presence flag and default, and each frame's bytes; unknown elements and Voids get their own callbacks. Answering kSkip suppresses exactly that element's contents, "
    "and after DidSeek to any element start the parser reports that element and everything after it the same way.",
    ["inputs"],
    "all valid documents over the supported element set incl. unknown sizes, all skip decisions, all seek targets",
    "Documents combine dozens of optional elements in any order with known or unknown sizes; each combination must be reported faithfully.",
    ["webm_parser/src/webm_parser.cc", "webm_parser/src/master_value_parser.h", "webm_parser/src/segment_parser.cc", "webm_parser/src/cluster_parser.h", "webm_parser/include/webm/dom_types.h"],
    [("value parsing", "master_value_parser.h, int_parser.h, float_parser.cc, bool_parser.h, date_parser.cc, byte_parser.h and the *_parser.h of each master"),
     ("unknown sizes and seeks", "master_parser.cc, unknown-size handling; ancestory.cc; webm_parser.cc DidSeek"),
     ("skipping", "master_parser.cc, cluster_parser.h, block_group_parser.h, skip_parser.cc, skip_callback.h")],
    "model-based property testing: generated documents against an independent model of the expected events",
    "exploration",
    "60,000 documents per quick run with full event-by-event comparison.")


prop(
    "C12", "Both parsers decode every block payload to exactly its frames",
    "For every byte string as the payload of a SimpleBlock or Block, mkvparser and webm_parser either report exactly the track, time, flags, lacing and frames (position, size, bytes, order) that the Matroska block format defines, "
    "for no, Xiph, fixed and EBML lacing with 1 to 256 frames and every vint length, or refuse the block without delivering any frame of it; frames always tile the payload and the following block is unaffected.",
    ["inputs"],
    "all block payloads in both kinds of block element",
    "The lacing formats are dense binary encodings whose boundary cases (run of 255, difference ranges, overflow, truncation) cannot be enumerated by hand.",
    ["mkvparser/mkvparser.cc", "webm_parser/src/block_parser.cc", "webm_parser/src/block_header_parser.cc"],
    [("mkvparser decoding", "mkvparser.cc Block::Parse, Cluster::ParseSimpleBlock, ParseBlockGroup, CreateBlock, Block::GetFrame"),
     ("webm_parser decoding", "block_parser.cc BasicBlockParser::Feed, block_header_parser.cc, var_int_parser.cc")],
    "differential property testing of two parsers against an independent decoder",
    "exploration",
    "200,000 payloads per quick run: valid, nearly valid and arbitrary.")


prop("C16", "mkvparser is memory safe and terminates on any file, through its whole API",
    "For every byte string offered as a file (well-formed, malformed, truncated, with absurd sizes, counts and times), opening it with mkvparser and, once the headers are parsed, calling any of its accessors in any order (tracks, chapters, tags, seek head, cues, clusters, blocks, frames, seeking) terminates, has no undefined behaviour, no out-of-bounds access, no leak and no failing assertion, needs no memory out of proportion to the file, and keeps its results within the file: frame positions and lengths lie inside their block, a frame that is cut off by the end of the file cannot be read successfully, indices out of range yield null, and time values that cannot be represented are reported as -1.",
    ["inputs", "histories"],
    "all byte strings and all sequences of API calls after opening",
    "mkvparser parses untrusted files inside browsers and players; the bugs are in rare combinations of malformed structure and later calls.",
    ["mkvparser/mkvparser.cc", "mkvparser/mkvparser.h"],
    [("header parsing", "mkvparser.cc Segment::ParseHeaders, SeekHead::Parse, SegmentInfo::Parse, Tracks::Parse, Chapters::Parse, Tags::Parse"),
     ("lazy loading", "mkvparser.cc Segment::Load, LoadCluster, ParseNext, Cues::LoadCuePoint, Cluster::Parse, Track::Seek, Block::Parse")],
    "structured mutation and random API-call sequences under sanitizers with in-bounds oracles",
    "exploration",
    "200,000 hostile files per quick run: mutated trees, byte mutations, boundary times, unstructured bytes; ASan, UBSan and leak checking.")

prop("C22", "mkvparser turns no failure of its reader into a silently wrong result",
    "For every well-formed file, every point during opening, loading, walking the blocks or loading the cue points at which IMkvReader::Read fails (with any negative or positive status, once or from then on, having written anything into the buffer) or IMkvReader::Length fails, and whichever of the two loading interfaces is used: the operation reports the failure, or what it delivers equals what it delivers without the failure. Blocks and cue points delivered before the failure are unchanged and in order, walking again after the failure yields the same blocks or an error, the loop 'while (!DoneParsing()) LoadCuePoint()' terminates, and no failure causes a crash, a failing assertion, a leak or a use of uninitialised data.",
    ["fault points", "inputs"],
    "all fault points while parsing all generated files",
    "Tests read complete local files, so the error paths of the parser are never executed by them.",
    ["mkvparser/mkvparser.cc", "mkvparser/mkvparser.h"],
    [("primitive readers", "mkvparser.cc ReadUInt, ReadID, UnserializeUInt, UnserializeFloat, UnserializeInt, UnserializeString, GetUIntLength"),
     ("propagation", "mkvparser.cc Tracks::ParseTrackEntry, ContentEncoding::Parse, VideoTrack::Parse, Cluster::CreateBlockGroup, CuePoint::Load")],
    "fault injection at generated read points with a differential oracle",
    "exploration",
    "200,000 injected faults per quick run; two recorded findings (seek entries and content encodings are dropped silently).")


prop("C17", "WebVTT is read for what it says and survives being carried in WebM",
    "For every WebVTT text (any of the three line endings, optional byte order mark, header text, blank lines, identifiers, the three time notations with up to three fractional digits, settings, several payload lines) the parser delivers exactly the cues the text states, with times exact to the millisecond; text that is malformed by its rules (time fields out of range, junk, missing payload or arrow, over-long lines, bytes FE/FF) is refused at the first malformed cue with everything before it delivered, and a failing reader is an error, never end of stream. Time arithmetic and comparison agree with integer milliseconds over the whole range. Cues loaded with SampleMuxerMetadata (subtitles, captions, descriptions, metadata, chapters), muxed among media frames and extracted again with vttdemux come out with the same identifiers, times, settings and payload, in order, in one file per track; files whose cues are out of order or end before they start are refused.",
    ["inputs", "fault points"],
    "all WebVTT texts, all cue lists carried through a WebM file",
    "No test of the repository parses WebVTT; times and line structure have many spellings, and carrying cues crosses parser, muxer, mkvparser and demuxer.",
    ["webvtt/webvttparser.cc", "webvtt/vttreader.cc", "sample_muxer_metadata.cc", "vttdemux.cc", "mkvmuxer/mkvmuxer.cc"],
    [("text parsing", "webvttparser.cc LineReader::GetLine, Parser::Init, Parse, ParseTimingsLine, ParseTime, ParseSettings"),
     ("time arithmetic", "webvttparser.cc Time::presentation and operators"),
     ("carrying", "sample_muxer_metadata.cc Load, Write, MakeFrame, AddChapter; vttdemux.cc WriteFiles, WriteCue, WriteChaptersFile")],
    "differential property testing against a reference parser; end-to-end round trip",
    "exploration",
    "450,000 cases per quick run over five suites (valid, mutated, reader faults, times, end-to-end).")


prop("C18", "VPx frames survive PES packetisation exactly",
    "For every VP8 or VP9 frame of at least one byte (any byte values and runs, any length, VP9 superframes) and time, Webm2Pes::WritePesPacket writes PES packets that a decoder of the documented format reads back as exactly that frame (each frame of a superframe on its own): legal headers, at most 32768 payload bytes per packet, no start code inside an escaped unit, 33-bit PTS within one 90 kHz tick. VpxPesParser delivers the same frames, lengths and times from the concatenated packets and nothing after the last. For every WebM file Webm2Pes converts exactly the frames of its first video track whatever the track numbers, lacing and timecode scale, identically to a file and to a receiver, counts the bytes written, stops and reports a failing receiver, an output that cannot be written or a cut input. No byte stream makes the parser or the superframe index reader read out of bounds, loop, or deliver a frame whose length differs from its header.",
    ["inputs", "fault points"],
    "all frame contents, sizes and times; all WebM inputs; all byte streams given to the parser",
    "The tests convert one file and one tiny frame; escaping, fragmentation and PTS bits only matter for particular bytes, lengths and times.",
    ["m2ts/webm2pes.cc", "m2ts/webm2pes.h", "m2ts/vpxpes_parser.cc", "common/libwebm_util.cc", "common/video_frame.cc"],
    [("writing", "webm2pes.cc WritePesPacket, CopyAndEscapeStartCodes, PesOptionalHeader::SetPtsBits, BCMVHeader::Write"),
     ("reading", "vpxpes_parser.cc ParseNextPacket, AccumulateFragmentedPayload, RemoveStartCodeEmulationPreventionBytes"),
     ("conversion", "webm2pes.cc ConvertToFile, ConvertToPacketReceiver, InitWebmParser")],
    "round trip and differential property testing against an independent PES decoder; mutation of streams under sanitizers",
    "exploration",
    "480,000 cases per quick run over four suites (frames, convert, hostile, superframe).")

prop("C19", "The transport stream carries the PES stream intact with unbroken continuity",
    "For every WebM file with a VP8 or VP9 track, VpxPes2Ts writes a file of 188-byte packets, each with sync byte, the one PID, payload flag, no error or scrambling bits; the 4-bit continuity counter increases by one from packet to packet over the whole file; padding is a legal adaptation field of stuffing bytes; the payload unit start flag is set exactly on the first packet of each frame, whose payload begins with a PES start code; and the payloads of each unit concatenate to exactly the PES packets Webm2Pes produces for that frame, so the frames are those of the file. An output that cannot be written is reported.",
    ["inputs", "fault points"],
    "all WebM files, in particular all remainders of the packet sizes modulo 184",
    "No test of the repository looks at the transport stream; padding depends on the length modulo 184 and continuity on the whole history of packets.",
    ["m2ts/vpxpes2ts.cc", "m2ts/vpxpes2ts.h", "m2ts/webm2pes.cc"],
    [("packetisation", "vpxpes2ts.cc VpxPes2Ts::ReceivePacket"), ("headers", "vpxpes2ts.cc TsHeader::Write"),
     ("conversion", "vpxpes2ts.cc VpxPes2Ts::ConvertToFile")],
    "differential property testing with an independent TS demultiplexer",
    "exploration",
    "120,000 files per quick run.")


prop("C20", "VP9 headers, level statistics and codec private data are read for what they say",
    "For every sequence of well-formed VP9 uncompressed headers (key, intra-only, inter, show-existing; all profiles, sizes, colour formats, loop filter and quantizer deltas, tile layouts) Vp9HeaderParser reports the profile, frame type, visibility, bit depth, colour space, frame size, display size, refresh flags, parallel mode and tile counts that the header codes; a wrong frame marker or sync code is refused, no frame however damaged or truncated causes a read outside it, and no reported field is ever uninitialised. For every sequence of frames and times Vp9LevelStats reports exactly the sample rate in any one-second window, largest picture and breadth, largest four-frame buffer, average bitrate, compression ratio, tile count, alternate reference distance and reference count of their definitions, and as level the lowest level whose limits the stream meets, or none. ParseVpxCodecPrivate accepts exactly the well-formed feature lists and reports their values.",
    ["inputs", "histories"],
    "all VP9 header sequences, frame/time histories and codec private byte strings",
    "The tests parse the headers of a few files; bit-level syntax, window arithmetic and level limits have many corners no sample reaches.",
    ["common/vp9_header_parser.cc", "common/vp9_header_parser.h", "common/vp9_level_stats.cc", "common/hdr_util.cc"],
    [("header syntax", "vp9_header_parser.cc ParseUncompressedHeader, ParseColorSpace, ParseFrameResolution, ParseTileInfo, SkipDeltaQ"),
     ("statistics", "vp9_level_stats.cc AddFrame, GetLevel, GetAverageBitRate"),
     ("codec private", "hdr_util.cc ParseVpxCodecPrivate")],
    "model-based property testing with a reference header encoder and recomputed statistics",
    "exploration",
    "700,000 cases per quick run over four suites (header, hostile, level, private).")


prop("C21", "Supplied readers and writers deliver exactly the file's bytes",
    "For every content and every history of operations: webm::BufferReader, FileReader (regular file at any position, or pipe) and IstreamReader (string, file or non-seekable stream) follow the Reader contract - kOkCompleted exactly when all requested bytes were read or skipped, kOkPartial for some, otherwise an error with a count of 0; the bytes are those of the file in order, end of file is reported at the end and only there, a skip never goes past the end, Position() counts what was consumed, Seek moves a regular file, fails on a pipe or empty reader, and a moved-from reader is empty - so parsing a document (whole or truncated, skipping anything) gives the same events and status through every reader. mkvparser::MkvReader reads exactly the requested range or fails, and reports the true length; mkvmuxer::MkvWriter leaves exactly the bytes written at the positions they were written to; both leave a borrowed FILE* open. The big-endian conversions, GetFileSize, GetFileContents and temporary files do what they say.",
    ["histories", "inputs"],
    "all file contents and all histories of reads, skips, seeks, moves, writes, opens and closes",
    "Tests read a few bytes in one order; ends of files, skips across them, pipes and moves combine in many ways.",
    ["webm_parser/src/file_reader.cc", "webm_parser/src/istream_reader.cc", "webm_parser/src/buffer_reader.cc", "mkvparser/mkvreader.cc", "mkvmuxer/mkvwriter.cc", "common/webm_endian.cc", "common/file_util.cc"],
    [("readers", "file_reader.cc, istream_reader.cc, buffer_reader.cc Read, Skip, Seek, move operations"),
     ("mkvparser file access", "mkvreader.cc Open, Read, Length, Close"),
     ("mkvmuxer file access", "mkvwriter.cc Write, Position, Open, Close"),
     ("helpers", "webm_endian.cc, file_util.cc")],
    "stateful model-based property testing against a byte-vector model, and a differential over all readers",
    "exploration",
    "320,000 histories per quick run over five suites (readers, parse, mkvreader, mkvwriter, util).")


prop(
    "C23", "Remuxing carries every selected frame and its metadata",
    "mkvmuxer_sample reads any file the parser accepts and writes a file that, read again, has exactly the "
    "selected tracks (audio, video, WebVTT) with every frame in order, its payload, timestamp, key flag and "
    "discard padding, and with each track's type, codec, private data, names, language, delays, sizes, "
    "colour, projection, audio settings and the tags - except for the values the command line replaces - and with "
    "the cues, live mode, chunks and cluster limits the options ask for.",
    ["inputs", "configurations"],
    "every muxable input file and every combination of the program's options",
    "The sample muxer has no tests of its own; each option interacts with the layout of the input and of the output.",
    ["mkvmuxer_sample.cc", "sample_muxer_metadata.cc", "mkvparser/mkvparser.cc", "mkvmuxer/mkvmuxer.cc"],
    [("frame copy loop", "mkvmuxer_sample.cc main"),
     ("track, colour and projection copy", "mkvmuxer_sample.cc CopyColour, CopyPrimaryChromaticity, main"),
     ("tags and WebVTT", "mkvmuxer_sample.cc, sample_muxer_metadata.cc")],
    "metamorphic property testing: the view mkvparser gives of the input and of the remuxed output must agree, with the options applied",
    "exploration",
    "About 40,000 generated files per quick run, structured documents and muxer output, each remuxed with random options.")


prop(
    "C24", "The command-line programs survive any file, and repeat themselves",
    "webm_info, mkvparser_sample, mkvmuxer_sample, dumpvtt, vttdemux, webm2pes, vpxpes2ts and the webm_parser demo end normally, "
    "without touching memory they do not own, overflowing a signed value or looping, on any input file - valid, cut "
    "short, or with any bytes changed - and any valid options; and the same file with the same options gives the "
    "same exit status and the same output again.",
    ["inputs", "configurations"],
    "all input files and all combinations of valid options of every program",
    "Files arrive damaged in ways no sample set contains, and each option opens other code.",
    ["webm_info.cc", "mkvparser_sample.cc", "mkvmuxer_sample.cc", "dumpvtt.cc", "vttdemux.cc", "m2ts/webm2pes_main.cc", "m2ts/vpxpes2ts_main.cc", "webm_parser/demo/demo.cc"],
    [("file report", "webm_info.cc main"), ("parser dump", "mkvparser_sample.cc main"),
     ("remuxer", "mkvmuxer_sample.cc main"), ("WebVTT tools", "dumpvtt.cc, vttdemux.cc"),
     ("PES conversion", "m2ts/webm2pes_main.cc, m2ts/vpxpes2ts_main.cc"), ("callback dump", "webm_parser/demo/demo.cc")],
    "structured fuzzing of the programs' mains in process under AddressSanitizer and UBSan, with a run-twice differential",
    "exploration",
    "About 190,000 program runs per quick run over documents, muxer output and mutated files.")


prop(
    "C25", "webm_info, mkvparser_sample and dumpvtt print what the file says",
    "The report of webm_info, whatever its options, and the dumps of mkvparser_sample and dumpvtt state exactly what "
    "the file holds: every header, track, setting, encoding, cluster, block, cue and tag, with its position, size, "
    "time, key and encryption state, the VP8 and VP9 frame headers, totals and statistics, in order and only once.",
    ["inputs", "configurations"],
    "all files the parser accepts and all combinations of the programs' options",
    "The programs have no tests; the rows printed depend on which elements are present, on the options and on codec data.",
    ["webm_info.cc", "mkvparser_sample.cc", "dumpvtt.cc", "common/vp9_header_parser.cc", "common/hdr_util.cc"],
    [("rows of the report", "webm_info.cc OutputSegment, OutputSeekHead, OutputSegmentInfo, OutputTracks, OutputCluster, OutputCues"),
     ("codec data", "webm_info.cc PrintVP8Info, PrintVP9Info, PrintSubSampleEncryption"),
     ("parser dump", "mkvparser_sample.cc main"), ("WebVTT dump", "dumpvtt.cc main")],
    "model-based property testing: the printed report is compared, line by line, with one made from a model of the generated file",
    "exploration",
    "120,000 reports per quick run over four suites (info, codec, sample, vtt).")


prop(
    "C26", "The webm_parser demo prints what the file holds",
    "For every file, whole or damaged, the webm_parser demo prints, in document order and indented by level, an entry "
    "with the right name and the byte ranges of header and body for every EBML header, segment, seek entry, info, "
    "cluster, block, track, cue point, edition and tag and every Void and unknown element, under it each child it "
    "holds with its value (mandatory ones it lacks marked implicit with the default, absent optional ones left out, "
    "enumerated values by number and name, binary ones by size, block flags, the byte range of each frame), and "
    "nothing else, up to the point where the file stops being readable; it exits with 0 exactly if the whole file was read.",
    ["inputs"],
    "all files",
    "The demo has no tests; a wrong row shows only when an element is present, absent or has a particular value.",
    ["webm_parser/demo/demo.cc"],
    [("rows", "webm_parser/demo/demo.cc DemoCallback"), ("names of values", "webm_parser/demo/demo.cc operator<<"),
     ("exit status", "webm_parser/demo/demo.cc main")],
    "model-based property testing: the printed text is compared, line by line, with one made from the callbacks of the parser",
    "exploration",
    "65,000 reports per quick run, 25,000 of them of damaged files.")


def emit():
    with open(os.path.join(ROOT, "checks.json")) as f:
        checks = json.load(f)
    lines, entries = [], []
    for p in P:
        if p["id"] not in checks:
            continue
        st = p["line"]["statement"]
        assert len(p["line"]["title"]) <= 80, p["id"]
        lines.append(json.dumps(p["line"]))
        entries.append(dict(
            property=p["id"], quick_cmd="python3 check.py %s" % p["id"],
            thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"],
            technique=p["technique"], level=p["level"], level_note=p["note"]))
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        f.write("\n".join(lines) + "\n")
    man = dict(version=1, setup_cmd="python3 check.py --build-all", checks=entries,
               not_applicable=[],
               notes="No hooks in /repo. known_findings.txt lists repaired and open defects; DESIGN.md explains each check.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    missing = set(checks) - set(p["id"] for p in P)
    assert not missing, missing


if __name__ == "__main__":
    emit()
