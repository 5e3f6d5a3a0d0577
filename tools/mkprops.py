#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))
L = "lib/src/"
p("C01", "A gzip file is rebuilt bit for bit from its data plus the metadata",
  "Take any gzip file this library parses completely: keep its header, the bytes after the DEFLATE stream, each block's kind, data length and code-table bits and, for each compressed block, the serialised trace; throw the block's codes away. From that and the uncompressed data alone, restoring every trace and re-serialising every block gives back exactly the original file, byte for byte, whichever preset (gzip level 1 to 9, or 'spicy') made the trace and however many blocks share the 32 KiB history.",
  ["inputs", "configurations"],
  "every gzip file (any encoder, block kinds, number of blocks, code choice) and every preset",
  "The only round-trip tests cover six files and never go through the trace; the trace tests cover twelve single-block-sized files at levels 1-3 with an empty history. Later blocks with history, stored blocks, levels 4-9 and codes that differ from the guesses are never driven end to end.",
  [L + f for f in ("trace.rs", "serialise_trace.rs", "technique.rs", "serialise.rs", "parse.rs", "bit.rs", "all_refs.rs", "circles.rs")],
  [("trace/restore run the same predictor with the same feedback", L + "trace.rs"), ("metadata records", L + "serialise_trace.rs"), ("block writer", L + "serialise.rs compressed_block")],
  [("Scanner.pos/obscured", "what predictor and restorer must agree on", L + "technique.rs")],
  ["lib public API", "guarded hook for the bit writer"], "compressed_block needs a BitWriter, which is not exported")
p("C02", "Parsing yields exactly the blocks a valid DEFLATE stream encodes",
  "For every valid DEFLATE stream (RFC 1951, padding bits zero, code tables complete or with a single distance code of length one, or no distance code), the parser yields exactly the encoded blocks in order: the stored bytes, or the exact sequence of literals and (distance, length) references, and the exact bits of a dynamic block's code tables. It then reports the end, having consumed exactly the bytes of the stream and none of the bytes that follow.",
  ["inputs"], "every valid DEFLATE stream, followed by any bytes",
  "Tests parse a handful of gzip(1) outputs; most code lengths, run-length symbols of the table description, extra-bit values, reserved corners, stored blocks in any bit position and streams of many blocks never occur in them.",
  [L + "parse.rs", L + "huffman.rs", L + "code_tree.rs", L + "bit.rs"],
  [("block iterator", L + "parse.rs BlockIter::next"), ("code table reader", L + "huffman.rs read_codes"), ("canonical prefix code", L + "code_tree.rs"), ("bit reader", L + "bit.rs BitReader")],
  [("bit position", "bits consumed so far", L + "bit.rs BitReader")], ["parse_deflate", "reader position"])
p("C03", "Malformed DEFLATE input is rejected, never misread, never a panic",
  "For every byte string that is not a valid DEFLATE stream (truncated anywhere, reserved block type, stored length not matching its complement, over- or under-full code table, repeat with nothing to repeat or past the end of the table, reserved length or distance symbol, a reference in a block without distance codes, non-zero padding bits), the parser returns exactly the complete blocks before the fault and then an error, and nothing after it. It never panics, never loops for ever and never reports a normal end.",
  ["inputs"], "every byte string that is not a valid DEFLATE stream",
  "No test feeds malformed input to the parser at all.",
  [L + "parse.rs", L + "huffman.rs", L + "code_tree.rs", L + "bit.rs"],
  [("ensure!/bail! checks", L + "parse.rs, huffman.rs read_codes, code_tree.rs CodeTree::new, bit.rs")],
  (), ["parse_deflate"])
p("C04", "Parsed blocks re-serialise to the identical bytes",
  "For every valid DEFLATE stream, writing the parsed blocks back (final-block bit, block, final alignment) reproduces exactly the stream's bytes: stored, fixed and dynamic blocks, at any bit offset, with any code tables.",
  ["inputs"], "every valid DEFLATE stream",
  "Six files are round-tripped; none contains a stored block, a table using all repeat symbols, maximal lengths/distances or an encoder other than gzip(1)/zlib.",
  [L + "serialise.rs", L + "huffman.rs", L + "bit.rs", L + "code_tree.rs"],
  [("block writer", L + "serialise.rs compressed_block/compressed_codes"), ("length and distance symbols", L + "huffman.rs encode_*"), ("bit writer", L + "bit.rs BitWriter")],
  (), ["compressed_block via guarded hook"], "BitWriter is not exported")
p("C05", "Serialising any block and parsing it back is the identity",
  "Any sequence of blocks, with any literals, any reference of length 3 to 258 and distance 1 to 32768 and any stored data of up to 65535 bytes, whose code tables contain the symbols it needs, serialises to a valid DEFLATE stream that decodes to exactly those blocks. Length 258 is written with its own symbol, and every other value with the unique symbol and extra bits RFC 1951 assigns.",
  ["inputs"], "every block sequence; all 256 lengths x 32768 distances",
  "Tests only ever serialise blocks that came out of the parser from six files.",
  [L + "serialise.rs", L + "huffman.rs", L + "bit.rs"],
  [("encode_run_length/extra_run_length/encode_distance", L + "huffman.rs"), ("stored block writer", L + "bit.rs write_length_prefixed")],
  (), ["compressed_block via guarded hook"], "BitWriter and Ref::new are not exported")
p("C06", "Decompression follows the references exactly, across blocks",
  "Decoding blocks in order against a history buffer writes exactly the bytes DEFLATE semantics define: literals and stored bytes as they are, and for a reference the byte 'distance' back for each of 'length' output bytes, overlapping copies included, reaching into earlier blocks of every kind. A reference that reaches back further than the bytes produced so far (or the buffer's capacity) is an error with nothing of it written, and never yields stale or zero bytes. It makes no difference whether codes are decoded a block or a few at a time, and afterwards the history holds the last bytes written, as many as it has room for.",
  ["inputs"], "every block sequence and every history capacity",
  "Tests decode six files and compare the length of the result, not its bytes; no test has an over-long distance, a stored block, or a copy across the buffer's wrap-around.",
  [L + "serialise.rs", L + "circles.rs"],
  [("history copy", L + "circles.rs copy"), ("block decoder", L + "serialise.rs decompressed_block/decompressed_codes")],
  [("CircularBuffer.data/idx/valid_cap", "last bytes written", L + "circles.rs")], ["decompressed_block", "decompressed_codes"])
p("C07", "The history buffer always holds exactly the last bytes written",
  "After any sequence of pushes, extends and copies, a history buffer of capacity N reports the last min(N, bytes so far) bytes in order, their number, and the byte at each distance, exactly as a plain list of everything written would. A copy with distance 0 or beyond that number fails and changes nothing.",
  ["histories", "configurations"], "every operation sequence, every capacity from 1 to 65535",
  "Three unit tests use two capacities and two short histories; the wrap-around, a completely full buffer, the largest capacity and copies are not sampled.",
  [L + "circles.rs"], [("ring index arithmetic", L + "circles.rs")],
  [("idx, valid_cap", "write cursor and fill level", L + "circles.rs")], ["CircularBuffer"])
p("C08", "Restoring a trace gives back exactly the codes it was made from",
  "For every data, every preceding history, every code sequence that decodes to that data and every preset, tracing never fails and restoring the trace with the same data, history and preset gives exactly the original codes.",
  ["inputs", "configurations"], "every (history, data, code sequence, preset)",
  "Tests trace only what gzip itself produced for ten small files at levels 1-3, where every guess is right; wrong guesses, literals after history, partially right look-ahead guesses and non-empty histories never occur.",
  [L + "trace.rs", L + "technique.rs", L + "tracer.rs", L + "all_refs.rs"],
  [("restore mirrors trace", L + "trace.rs"), ("feedback", L + "technique.rs Scanner::feedback"), ("literal lookup", L + "technique.rs byte_at")],
  [("Scanner.pos/obscured", "shared predictor state", L + "technique.rs")], ["trace::trace", "trace::restore", "tracer::try_gzip"])
p("C09", "A trace says 'correct' exactly where the prediction was right",
  "A trace has exactly one entry per code, in order: 'correct' if and only if the code equals the one predicted at that point given the codes before it, otherwise 'literal' for a literal and the exact reference for a reference. After a wrong prediction the rest of that prediction is dropped and a new one is made at the real position; so codes that follow the predictor throughout give a trace of nothing but 'correct'.",
  ["inputs", "configurations"], "every (history, data, code sequence, preset)",
  "The tests only look at traces that are 'correct' throughout; a trace that is needlessly pessimistic in other positions would still restore, so round-trip tests cannot see it.",
  [L + "trace.rs", L + "technique.rs"], [("shared_prefix", L + "trace.rs"), ("feedback", L + "technique.rs")],
  (), ["trace::trace", "Scanner::codes"])
p("C10", "Serialised metadata is lossless and has one fixed layout",
  "Every trace is written as one fixed layout: little-endian 16-bit words, 0 for 'literal', the distance followed by one byte (length minus 3) for a reference, 32768 + n for a run of n 'correct' entries, where a maximal run is split into full words of 32767 followed by the remainder. Reading it back gives the identical trace, of any length and mix.",
  ["inputs"], "every trace, including runs far longer than 32767",
  "One test uses traces of 'correct' and 'literal' only, with run lengths around 32767 but none above 65534 and no reference at all; the layout itself is not pinned.",
  [L + "serialise_trace.rs"], [("record writer", L + "serialise_trace.rs write"), ("record reader", L + "serialise_trace.rs read")],
  (), ["serialise_trace::write/read/verify"])
p("C11", "Reading metadata accounts for every byte or fails",
  "For every byte string, reading it as metadata either returns exactly the trace entries its records denote, all bytes accounted for, or reports an error. A record cut short anywhere, or a read error of the source, is an error: the entries read so far are never presented as the whole trace, and nothing panics.",
  ["inputs", "fault_sequences"], "every byte string, and every position of a read error",
  "Tests only read what was just written by the same code.",
  [L + "serialise_trace.rs"], [("end-of-input handling", L + "serialise_trace.rs read")], (), ["serialise_trace::read"])
p("C12", "Every prediction is a correct encoding of the data ahead",
  "Whatever the data, history, preset and codes already processed, every predicted code sequence is non-empty and valid at its position: literals equal the bytes there, and each reference has distance 1 to 32768 not reaching the first byte of the known data or beyond, length 3 to 258, stays inside the data, and copying it reproduces the data. Each referenced run is as long as it can be.",
  ["inputs", "configurations"], "every data, history, preset and code prefix",
  "Tests see predictions only for ten small files and three presets, where they coincide with gzip's output.",
  [L + "all_refs.rs", L + "lookahead.rs", L + "technique.rs", L + "back_map.rs"],
  [("byte comparison of candidates", L + "all_refs.rs at"), ("run length", L + "all_refs.rs possible_run_length_at")],
  (), ["Scanner::codes", "Looker::best_candidate"])
p("C13", "Gzip-level predictions follow the level's search rules exactly",
  "At gzip level l the prediction is decided by the known data (history and data of the block) and the codes so far: of the earlier positions whose three bytes have the same 15-bit hash, nearest first, levels 1-3 skip those strictly inside a processed reference longer than 4, 5, 6 and look only at the first 4, 5, 6 left; of these the ones within 32768 that really match are tried, at most 4, 8, 32, 16, 32, 128, 256, 1024, 4096 of them (levels 1 to 9). The first strictly longest run wins, the search ending at the first run of at least 8, 16, 32, 16, 32, 128, 128, 258, 258 bytes. The prediction is the one reference found, except that from level 4 on a best run of 3 more than 4096 back counts as none, and a literal if there is none.",
  ["inputs", "configurations"], "every data, history, code prefix and level 1 to 9",
  "Stored metadata is only meaningful while the predictor stays the same for every input; the tests pin it on ten small files at levels 1-3 and leave levels 4-9, hash collisions in long data, the window edge and every tie-break open.",
  [L + "technique.rs", L + "wams.rs", L + "picker.rs", L + "iters.rs", L + "obscure.rs", L + "back_map.rs", L + "all_refs.rs", L + "lookahead.rs"],
  [("level table", L + "wams.rs CONFIGURATIONS"), ("search", L + "all_refs.rs at, technique.rs best_candidate_better_than"), ("choice", L + "picker.rs, iters.rs")],
  [("obscured", "long references whose inside is not searched", L + "technique.rs Scanner")], ["Scanner::codes", "Looker::best_candidate"])
p("C14", "The candidate references at a position are complete and in order",
  "Asked for the back-references possible at a position, the index returns 'none' only when fewer than three bytes remain, and otherwise exactly the earlier positions other than the very first byte, nearest first, whose three bytes equal those ahead and that are at most 32768 back, each with its longest run (up to 258, within the data, overlapping itself if need be). Positions strictly inside a hidden range are left out, and the limit counts the same-hash positions considered, not the matches.",
  ["inputs"], "every history, data, position, sequence of hidden ranges in order (none over another) and limit",
  "No test calls the candidate search; the trace tests only reach it for small single-block files.",
  [L + "all_refs.rs", L + "back_map.rs", L + "obscure.rs"],
  [("hash chains", L + "back_map.rs"), ("hidden ranges", L + "obscure.rs"), ("run length", L + "all_refs.rs")],
  [("hash_to_pos/pos_to_pos", "chains of same-hash positions", L + "back_map.rs")], ["AllRefs::at", "Key::sixteen_hash_16"])
p("C15", "The gzip header is consumed exactly, and only valid ones accepted",
  "For every byte string that starts with a valid gzip header (any combination of text, header-CRC, extra-field, name and comment flags, any contents), the header reader returns exactly the header's bytes and leaves the input at the first DEFLATE byte. A wrong magic number, an unknown method, a reserved flag or a header cut short anywhere is an error, not a panic.",
  ["inputs"], "every byte string",
  "The test files only have no flags or a name; extra fields, comments and header CRCs, alone or combined, and every malformed header are untested.",
  [L + "gzip.rs"], [("field reader", L + "gzip.rs discard_header")], (), ["gzip::discard_header"])
p("C16", "'zero' rewrites a gzip file with stored blocks and identical content",
  "For every valid one-member gzip file, of any content length, 'rezippers zero' exits with success and prints a valid gzip file: the same header bytes, then only stored blocks, none longer than 65535 bytes and exactly the last marked final, that concatenate to the same content, then that content's CRC-32 and length. For input whose header is invalid or whose DEFLATE data is damaged or truncated it exits with an error.",
  ["inputs"], "every gzip file, valid or damaged; contents from empty to several chunks of the maximal size",
  "The binary has no tests at all.",
  ["rezippers/src/zero.rs", "rezippers/src/main.rs", L + "gzip.rs"],
  [("block writer", "rezippers/src/zero.rs run"), ("chunker", "rezippers/src/zero.rs take_rsync")], (), ["rezippers zero: stdout and exit status"])
p("C17", "'zero' cuts its blocks at content-defined places",
  "Each stored block of 'rezippers zero' is decided by the bytes from its own start alone: it ends after the first 8192 or more bytes at which the sum of the block's latest 8192 bytes is a multiple of 4096, or at the largest length a stored block can hold (65535), or at the end of the content. So two files that share content and a cut are cut identically from there on.",
  ["inputs"], "every content",
  "The binary has no tests; that a cut depends on a sliding sum over the last 8192 bytes only shows on particular contents.",
  ["rezippers/src/zero.rs"], [("rolling sum", "rezippers/src/zero.rs take_rsync")],
  [("sum", "sum of the latest 8192 bytes", "rezippers/src/zero.rs")], ["rezippers zero: stdout"])
p("C18", "'cat' prints exactly the content, and fails on damaged input",
  "For every valid one-member gzip file, read from a file or from standard input, 'rezippers cat' prints exactly the uncompressed content and exits with success. For an invalid header, a malformed or truncated DEFLATE stream or a reference before the start of the content it exits with an error (never a crash or a hang), having printed a prefix of the content that precedes the fault.",
  ["inputs"], "every byte string given as file or standard input",
  "The binary has no tests at all.",
  ["rezippers/src/cat.rs", "rezippers/src/main.rs", L + "parse.rs", L + "serialise.rs", L + "circles.rs"],
  [("decode loop", "rezippers/src/cat.rs")], (), ["rezippers cat: stdout and exit status"])
p("C19", "'dump' lists exactly the blocks and codes of the file",
  "For every valid one-member gzip file 'rezippers dump' prints, in order, each block with its number and kind, for a stored block its length, for a dynamic block the number and value of its code-table bits, and for each code one line: a literal with its value in hexadecimal and as a character, or a reference with its distance and length. For damaged input it exits with an error after listing the complete blocks before the fault.",
  ["inputs"], "every byte string given as input",
  "The binary has no tests at all.",
  ["rezippers/src/dump.rs", "rezippers/src/main.rs", L + "parse.rs", L + "bit.rs"],
  [("listing", "rezippers/src/dump.rs"), ("bit listing", L + "bit.rs Debug")], (), ["rezippers dump: stdout and exit status"])
p("C20", "I/O errors surface and short or interrupted I/O changes nothing",
  "However the source splits its reads or interrupts them, header reading, parsing and metadata reading give the same result as on the whole input at once, and however the sink splits or interrupts writes, decompression and serialisation deliver the same bytes. A read or write error at any byte is returned as an error, never swallowed or taken for the end, and what had been delivered before is a prefix of the fault-free result.",
  ["fault_sequences", "inputs"], "every input and every position and kind of read/write fault",
  "All tests use in-memory cursors that never split, interrupt or fail.",
  [L + "parse.rs", L + "bit.rs", L + "gzip.rs", L + "serialise.rs", L + "circles.rs", L + "serialise_trace.rs"],
  [("read_exact/write_all and ?", L + "bit.rs, gzip.rs, serialise.rs, circles.rs"), ("error kinds", L + "serialise_trace.rs read")], (), ["Read/Write stand-ins with planned faults"],
  "BitWriter is not exported")
p("C21", "Bits come back in the order they were put in",
  "A sequence of bits behaves as a stack under any mix of push, pop, pop-byte, indexing, iteration and comparison: pop returns the last bit pushed, pop-byte the last eight with the latest as the most significant, and two sequences are equal exactly when they hold the same bits. Writing any bits and values packs them least-significant bit first into bytes with zero padding on alignment, and reading those bytes returns the same bits and values.",
  ["histories"], "every operation sequence",
  "Five unit tests use one eight-bit pattern; push after pop, comparison after pop and values crossing bytes are not sampled.",
  [L + "bit.rs"], [("bit vector", L + "bit.rs BitVec"), ("bit writer and reader", L + "bit.rs BitWriter/BitReader")],
  [("bytes, len", "packed bits", L + "bit.rs BitVec")], ["BitVec/BitWriter/BitReader via guarded hook"], "the bit module is private")
p("C22", "The hashing filters pass data through and hash exactly what passed",
  "Through the hashing reader and writer every byte passes unchanged, with the inner reader's or writer's own counts and errors, whatever the sizes of the calls, short counts, interruptions and failures. The hash at the end is the SHA-512 of exactly the bytes that passed: not of bytes asked for but not transferred.",
  ["histories", "fault_sequences"], "every sequence of reads/writes, buffer sizes, short counts and errors",
  "The module has no tests.",
  [L + "filter.rs"], [("hash update with the returned length", L + "filter.rs")], (), ["filter::FilterRead/FilterWrite"])
p("C23", "The 'spicy' preset looks ahead by its fixed three-step rule",
  "With the 'spicy' preset each single-position choice follows the level-9 rule (nearest 4096 true matches, longest first found, a run of 3 more than 4096 back counts as none) and the prediction is: a literal if there is none; the reference if it is longer than 3; otherwise a reference of 3 is given up for one of at least 4 at the next position (after one literal) or of at least 5 at the one after (after two literals), the later one only if strictly longer than the one in between.",
  ["inputs"], "every data, history and code prefix",
  "No test uses the preset.",
  [L + "lookahead.rs", L + "technique.rs", L + "picker.rs"], [("three-step look-ahead", L + "lookahead.rs three_zip"), ("preset", L + "technique.rs Config::spicy")], (), ["Scanner::codes"])
p("C24", "The tools never report success when their files fail them",
  "'rezippers cat', 'dump' and 'zero' exit with a failing status, never with success, when the input cannot be opened or read, or when standard output cannot take everything they have to print, at whichever byte that happens, the last buffered ones included. What was delivered by then is a prefix of the complete output. This holds for a single call that fails too, even if those after it would succeed; and calls that are interrupted or take or give less than was asked make no difference to output or status.",
  ["inputs", "fault_sequences"], "every file, every byte of the output at which writing can fail",
  "No test runs the tools at all.",
  ["rezippers/src/" + f for f in ("main.rs", "cat.rs", "dump.rs", "zero.rs")], [("? on every write, final flush", "rezippers/src/cat.rs, zero.rs"), ("println! panics on a failed write", "rezippers/src/dump.rs")], (), ["exit status", "standard output"])
p("C25", "Searching with a match in hand keeps to the level's lazy-match limits",
  "Asked for a reference at a position while holding a match of some length (best_candidate_better_than), levels 4 to 9 and 'spicy' find nothing if that match has at least 4, 16, 16, 32, 128, 258 (spicy 258) bytes, try only a quarter of their usual number of true matches if it is longer than 4, 8, 8, 8, 32, 32 (spicy 32) bytes, and otherwise answer exactly as without one; levels 1 to 3 always answer as without one. The literal reported is the byte at the position. The internal lazy look-ahead ('Gzip') gives a reference up, after one literal, for a strictly longer one found so at the next position, and again from there.",
  ["inputs"], "every data, history, code prefix, position and length in hand",
  "No test searches with a match in hand.",
  [L + "technique.rs", L + "lookahead.rs", L + "wams.rs"], [("abort and apathetic lengths", L + "technique.rs best_candidate_better_than"), ("level table", L + "wams.rs"), ("lazy look-ahead", L + "lookahead.rs gzip")], (), ["Looker::best_candidate_better_than"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
