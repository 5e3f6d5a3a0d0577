from . import bits, deflate, faults, files, formats, predict, window

CHECKS = dict(C02=deflate.c02, C03=deflate.c03, C04=deflate.c04, C05=deflate.c05, C06=deflate.c06,
              C07=window.c07,
              C08=predict.c08, C09=predict.c09, C12=predict.c12, C13=predict.c13, C14=predict.c14, C23=predict.c23, C25=predict.c25,
              C10=formats.c10, C11=formats.c11, C15=formats.c15,
              C01=files.c01, C16=files.c16, C17=files.c17, C18=files.c18, C19=files.c19, C24=files.c24,
              C20=faults.c20,
              C21=bits.c21, C22=bits.c22)
NOT_YET = {}

TV = "TLA+ specification checked with TLC; recorded runs of the code validated as its behaviours"
NOTES = dict(
    C01=(TV, "RezipMC.tla model-checks the whole system (any encoder, decoder, any predictor, metadata, rebuilding) and prints each file, which the code then rebuilds. RebuildTrace.tla: the Gzip machine (header, then the DEFLATE decoder) decides whether a file is valid and what its data are; the recorded rebuild from header, data, tables and serialised traces must be the file, for every preset, TLC-enumerated and random streams of many blocks. One listed known finding (length 258 as symbol 284+31)."),
    C16=(TV, "ZeroTrace.tla: the Gzip machine decodes the input, then starts again on the output: same header, stored blocks only, same content, CRC-32 and length; damaged input must fail. One listed known finding (references before the start are accepted)."),
    C17=(TV, "ZeroTrace.tla states the cut rule as a function of the content from the block's start; each recorded block must have that length; content that cuts early, late, never, and around 65535."),
    C18=(TV, "CatTrace.tla: the Gzip machine decodes the file code by code against what was printed; valid, TLC-enumerated, malformed, mutated and cut files, from a file, a pipe and a dripping pipe."),
    C19=(TV, "DumpTrace.tla renders the line of each block and code as the Gzip machine decodes it; for damaged files exactly the complete blocks' lines, then failure."),
    C25=(TV, "Predict.tla: Better (nothing from the abort length on, a quarter of the tries beyond the apathetic length) and Lazy; every recorded answer, with runs in hand around each limit, must equal it."),
    C20=(TV, "The decoder, header and metadata machines with a fault at a chosen byte; recorded runs with sources and sinks that split, interrupt and fail, every byte of sample streams and random ones."),
    C24=(TV, "SinkTrace.tla: output delivered up to a chosen byte, then failure; recorded runs of the three tools writing to a file of limited size, at every byte of short outputs, and with unreadable input; the fault-free output is itself validated."),
    C02=(TV, "Decoder state machine (spec/Deflate.tla); TLC enumerates all streams of a small alphabet against the encoder specification and each is replayed in the code; recorded parses of random, zlib and boundary streams are validated step by step."),
    C03=(TV, "The decoder machine decides validity and the blocks before the fault; recorded parses of malformed input (targeted faults, cuts at every byte, mutations, noise) are validated against it; hangs and crashes are caught by a watchdog."),
    C04=(TV, "Each valid recorded stream's re-serialisation is compared with the bytes the decoder machine consumed. One listed known finding (length 258 as symbol 284+31)."),
    C05=(TV, "Blocks given to the serialiser must be exactly what the decoder machine reads from its output; every length and distance; block sequences enumerated by TLC."),
    C06=(TV, "The decoder machine defines each output byte; recorded decompressions (including bad distances, small buffers, several blocks) are validated code by code."),
    C07=(TV, "Window.tla is a plain list of everything written; TLC checks a ring of cells against it for all short call sequences and prints each, to be replayed in the real buffer with queries in between; random sequences up to capacity 65535."),
    C08=(TV, "TraceMachine.tla: tracing and restoring model-checked for every predictor over small data; recorded restores must equal the codes, for random and TLC-enumerated data, history, codes and presets."),
    C09=(TV, "Each recorded trace is followed entry by entry by TraceMachine, driven by the predictions recorded from the code."),
    C12=(TV, "Every recorded prediction is checked to be an encoding of the data ahead (Predict.tla: CorrectFrom, run maximal), at every code position."),
    C13=(TV, "Predict.tla states each level's rule over the chain of same-hash positions; every recorded prediction at every code position must equal it. The fast form is model-checked against the plain one."),
    C14=(TV, "Refs.tla: candidates as a filter of the positions of equal hash; recorded answers must equal them. Index witnesses are verified by the specification."),
    C23=(TV, "Predict.tla: the three-step rule over level-9 choices; recorded predictions must equal it."),
    C10=(TV, "TraceFormat.tla gives the layout and the reader; TLC checks losslessness for all short entry sequences and prints them; recorded writes must have exactly the layout's bytes; every run length, distance and length, and runs of several words."),
    C11=(TV, "TraceFormat's reader decides what every byte string denotes; every two-byte input, every cut of enumerated sequences, read errors at every byte."),
    C15=(TV, "GzipHeader.tla: a machine taking one field per step; TLC enumerates flag and field combinations and every cut, each replayed; random headers, mutations, all flag bytes."),
    C21=(TV, "BitStack.tla (a plain 0/1 sequence) with a packed representation model-checked against it for all call sequences, each replayed; BitIO.tla gives the bytes of every write and the values of every read."),
    C22=(TV, "Filter.tla: every call's result is the inner one's and the hash is that of what passed; SHA-512 is left abstract, its values at the lengths that matter supplied by the driver."),
)
