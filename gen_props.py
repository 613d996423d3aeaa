#!/usr/bin/env python3
# Writes properties.jsonl (kept as a generator so that the wording stays reviewable).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state,obs,hook):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":[{"faults":"fault_sequences","interleavings":"schedules","crash points":"crash_points","table entries":"configurations"}.get(o,o) for o in over],"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"state":[{"name":x,"meaning":x,"where":", ".join(files[:2])} for x in state],"observe_at":[obs],"hook_needed":("guarded observation of each ingested frame" if hook else None)}})

p("C01","Exit status 0 means the whole coded stream was delivered",
 "Whenever an encoding run of the command-line encoder exits with status 0, every byte of the coded stream that the same input and options give on a fault-free machine is in the output file (or has been accepted by standard output), exactly once, in order, with nothing before, between or after. This holds whatever short writes, interrupted calls, full disks, I/O errors, broken pipes or failed allocations the run meets.",
 ["faults","inputs"],
 "For every input and valid option set, and every sequence of short/interrupted/failing writes, full-disk points, broken pipes and failing allocations during the run.",
 "The tests never run the encoder binary, and a test cannot enumerate where in the output a disk fills up or a write is cut short.",
 ["src/main.rs","src/binary_writer.rs","src/obu_encoder.rs"],
 [("write and flush of coded bytes","src/binary_writer.rs BinaryWriter::write_bit/flush; final flush in src/main.rs main"),("temporal unit emission","src/obu_encoder.rs encode_temporal_unit")],
 ["bytes held in the bit accumulator","bytes held in the output buffer","bytes accepted by the operating system"],
 "exit status and the bytes accepted by write() on the output descriptor", False)
p("C02","Every failure is reported: non-zero exit and a diagnostic, never silence",
 "When the encoder cannot do what it was asked (malformed, missing or out-of-range options, input or output that cannot be opened, a read or write that fails, input that ends inside a frame that was asked for, an output device that fills up) it terminates with a non-zero exit status and prints a diagnostic on standard error. It never reports success for such a run, never hangs, and is never killed by a memory or stack fault.",
 ["faults","inputs"],
 "For every malformed argument vector of the documented option grammar and every open/read/write failure, at whichever call of the run it strikes.",
 "The tests do not run the binary at all; error paths depend on which call fails, and with which error, which needs fault injection.",
 ["src/main.rs","src/option.rs","src/binary_reader.rs","src/binary_writer.rs"],
 [("option parsing and validation","src/option.rs CommandOption::parse/validate_config"),("error exits","src/main.rs main")],
 ["parsed configuration","process exit status"],
 "exit status, standard error", False)
p("C03","The stream depends only on input bytes and options, not on how I/O is chunked",
 "Two runs over the same input bytes with the same option values produce byte-identical coded streams and the same verdict, however the reads are split or interrupted, whether the input is a file or standard input, whether the output is a file or standard output, whatever the order or spelling (long or short) of the options, whatever clocks, random numbers and environment variables say, whether the input may be written or only be read, and in both build profiles. Nothing but the coded stream is ever written to the output.",
 ["schedules","faults","inputs"],
 "For every partition of the input into reads and of the output into writes, every placement of interrupted calls, and every permutation and spelling of a valid option set.",
 "Read and write boundaries are chosen by the kernel and the peer process; tests see one schedule and never the binary.",
 ["src/main.rs","src/binary_reader.rs","src/binary_writer.rs","src/option.rs"],
 [("plane reads","src/binary_reader.rs read_to_vec"),("option dispatch","src/option.rs set_option_by_name/set_option_by_short_name"),("output selection","src/main.rs main")],
 ["position in the input stream","parsed configuration"],
 "output bytes and exit status of paired runs", False)
p("C04","A run consumes exactly its frames and then ends",
 "A run ends after coding the smaller of the requested frame count and the number of whole frames in the input, where a frame is one full-size luma plane and two chroma planes of half the width and height, rounded up. An input that ends on a frame boundary ends the run successfully, one that ends inside a frame that is still wanted makes the run fail, and on an input that never ends the run still stops after the requested number of frames.",
 ["inputs","schedules","faults"],
 "For every frame size, frame count, input length (including empty, truncated at every byte, and endless input) and read chunking.",
 "Termination and consumption have to hold for every length and chunking of the input; the tests never read input.",
 ["src/main.rs","src/binary_reader.rs","src/frame.rs"],
 [("frame loop and end-of-input handling","src/main.rs main"),("plane sizes","src/frame.rs Frame::new")],
 ["frames read","bytes consumed"],
 "exit status, bytes read from the input, number of I/O steps until the process ends", False)
p("C05","A run cut short leaves a prefix of the stream and the input untouched",
 "If the process dies at any instant (kill, crash, out of memory) or ends because of a failure, the output holds a prefix of the stream the same run would have produced undisturbed, never other bytes, holes or reordered bytes. The input file is never modified, by any run whose output is another file.",
 ["crash points","faults"],
 "For every crash point before, inside (torn write) or after every I/O call, and every failing call or allocation.",
 "Crash points lie between system calls; a unit test cannot stop the process at each of them.",
 ["src/main.rs","src/binary_writer.rs","src/obu_encoder.rs"],
 [("sequential output","src/binary_writer.rs BinaryWriter"),("input opened for reading","src/binary_reader.rs BinaryReader::file")],
 ["output file content","input file content"],
 "output and input file after the process is gone", False)
p("C06","A refused run does not touch an existing output file",
 "A run that is refused before coding can start, because an option is malformed, missing or out of range or because the input or the output cannot be opened, leaves a file that already exists under the output name byte-for-byte as it was, and creates none where there was none.",
 ["inputs","faults"],
 "For every invalid argument vector and every error of opening the input, with and without a file already at the output path.",
 "It is about which side effects precede which failures; no test runs the binary against an existing output.",
 ["src/main.rs","src/option.rs"],
 [("validate, then open the input, then create the output","src/main.rs main")],
 ["output path"],
 "output file before and after the run", False)
p("C07","The coded stream is well delimited and announces exactly the configured size",
 "The stream written for at least one frame is a sequence of length-delimited temporal units: each size field counts exactly the bytes that follow it, nested units fill their parent exactly, and walking the sizes ends exactly at the end of the stream. It starts with a sequence header whose width and height fields, read with the bit counts the header announces, give the configured width and height for every supported size from 1x1 to 8191x8191.",
 ["inputs","schedules"],
 "For every width and height from 1 to 8191, frame count and frame rate, over every I/O schedule.",
 "There are 67 million sizes and the header's layout depends on them; the tests do not encode a header.",
 ["src/obu_encoder.rs","src/sequence_header.rs","src/util.rs","src/main.rs"],
 [("sequence header coding","src/obu_encoder.rs encode_obu_payload"),("length nesting","src/obu_encoder.rs encode_obu/encode_temporal_unit")],
 ["bits of the header","unit sizes"],
 "bytes of the output, read by an independent parser", False)
p("C08","Symbol coding sessions decode to exactly what was encoded",
 "Whatever sequence of symbols, bits with a probability, and literals is coded in a session, with whatever alphabet sizes and adaptive probability tables, decoding the session's bits with the same starting tables returns the same sequence, and after each symbol the tables on both sides are identical; the same holds for any other decoder of the format that reads those bits. It holds for every earlier history of the coder objects: fresh, reused after complete sessions, or reused after sessions abandoned half way.",
 ["inputs","histories"],
 "For every sequence of coding operations, alphabet size from 2 to 16, strictly increasing starting table, session length, and history of the coder.",
 "Carry propagation over long runs of bits, table saturation and stale coder state need specific long sequences and histories, which a few random samples do not reach.",
 ["src/bool_coder.rs","src/util.rs"],
 [("range coder with carry","src/bool_coder.rs encode_symbol/decode_symbol/exit_encoder"),("table adaptation","src/bool_coder.rs encode_symbol/decode_symbol")],
 ["range coder state","probability tables"],
 "decoded symbols and tables, against the encoder's and against an independent reference decoder", False)
p("C09","A symbol coding session occupies exactly its own whole bytes",
 "A closed encoding session has appended a whole number of bytes to the stream, whatever the coder did before. A decoder told that size takes exactly those bytes from the queue once it is closed, after any number of symbols decoded, so that whatever precedes and follows the session in the same stream stays intact, even if the session's own content is damaged.",
 ["inputs","histories","faults"],
 "For every session content and length, earlier history of the coder, number of symbols decoded before closing, neighbouring data, and damage within the session.",
 "Off-by-some-bits consumption shows only when sessions are followed by other data or a coder is reused; the tests look at one session in a queue of its own.",
 ["src/bool_coder.rs"],
 [("padding to bytes","src/bool_coder.rs exit_encoder/init_encoder"),("remaining-bit accounting","src/bool_coder.rs init_decoder/decode_symbol/exit_decoder")],
 ["bit count of the session","remaining bits of the decoder","bit queue"],
 "length of the coded bits and of the queue before and after each session", False)
p("C10","Coders do not influence each other, and a snapshot restores one exactly",
 "Coding sessions that run interleaved on separate coder objects, in any order of steps and on any threads, produce exactly the bits and symbols each produces alone. Restoring a copy of a coder together with the output length and tables taken at any point of a session, and continuing, gives the same result as if the steps after the copy had never been made, and header fields coded in between with the same coder do not disturb an open session.",
 ["interleavings","histories"],
 "For every interleaving of steps of any number of sessions, every snapshot and rollback point, and every placement of header-field operations.",
 "It quantifies over interleavings and rollback points; tests run a single session from start to end.",
 ["src/bool_coder.rs"],
 [("all coder state lives in the copyable coder","src/bool_coder.rs BoolCoder")],
 ["coder state"],
 "bits and symbols of each session compared with its solo run", False)
p("C11","Damaged symbol streams never hang or yield out-of-range symbols",
 "Decoding a session whose bits were flipped returns only symbols of the alphabet asked for and always terminates. When bits are missing, every symbol returned before the loss is noticed is the one that was encoded, and the decoder stops loudly (panics) rather than looping or inventing symbols from bits it does not have; bits beyond the announced session size are never used.",
 ["faults","inputs"],
 "For every set of flipped bits, every truncation point and every announced size, over all session contents.",
 "The space of damaged streams is unbounded and the tests only decode intact ones.",
 ["src/bool_coder.rs"],
 [("bounded reads","src/bool_coder.rs init_decoder/decode_symbol/exit_decoder")],
 ["decoder state","bit queue"],
 "decoded symbols, panics and progress of the decoder on damaged input", False)
p("C12","Header fields come back exactly, and a cut stream fails at the first lost field",
 "Any sequence of header fields (variable-length unsigned, little-endian, LEB128, signed and non-symmetric values) written one after another is read back value for value and consumes exactly its own bits, over the whole value range of each kind. If the stream is cut anywhere, all fields before the cut are still returned exactly and the first incomplete field stops loudly (panics) instead of looping or returning a value.",
 ["inputs","faults"],
 "For every mixed sequence of fields over their full value ranges and every cut point.",
 "The tests sample small values of one kind at a time with an intact queue; extremes and cut points are not reached.",
 ["src/bool_coder.rs","src/util.rs"],
 [("field codecs","src/bool_coder.rs encode_/decode_ uvlc, le, leb128, su, ns")],
 ["bit queue"],
 "values returned, bits consumed, panics", False)
p("C13","Any history of units is written as a stream that parses back, faults included",
 "Any sequence of sequence headers, temporal delimiters, metadata and padding units given to the unit encoder is written as consecutive length-delimited temporal units that parse back to the same unit kinds and field values, and repeating a sequence header repeats its bytes. If writing fails at any point the failure is loud and what was written is a prefix of that stream; short or interrupted writes change nothing.",
 ["inputs","histories","faults"],
 "For every sequence of such units and field values, and every sequence of write faults and buffer boundaries.",
 "It depends on the order and history of units in one encoder and on write faults in the middle of a long stream; the tests never construct a unit.",
 ["src/obu_encoder.rs","src/obu.rs","src/binary_writer.rs","src/encoder.rs","src/sequence_header.rs"],
 [("unit coding","src/obu_encoder.rs encode_obu_header/encode_obu_payload/encode_obu/encode_temporal_unit"),("bit to byte packing","src/binary_writer.rs write_bit/write_bits/byte_align")],
 ["encoder context","bit accumulator"],
 "bytes written, read by an independent parser", False)
p("C14","The samples the encoder works on are exactly the input's, frame by frame",
 "For every frame of a run, the luma and the two chroma planes handed to the encoder are, sample for sample, the bytes of that frame in the input: planes in order, no byte lost, repeated, shifted or left over from another frame. This holds however the input is split into reads and wherever reads are interrupted.",
 ["schedules","faults","inputs"],
 "For every frame size (odd ones included), frame count, input content, and partition of the input into short and interrupted reads.",
 "Short reads depend on pipes and buffers at run time; the tests never read a frame.",
 ["src/main.rs","src/binary_reader.rs","src/frame.rs"],
 [("plane reads","src/binary_reader.rs read_to_vec"),("frame loop","src/main.rs main"),("plane sizes","src/frame.rs Frame::new")],
 ["frame planes","position in the input"],
 "planes of each frame as seen after ingestion (guarded hook), against the input bytes", True)
p("C17","Memory use is bounded by the frame size, not by the length of the input",
 "Coding a long or never-ending input takes no more memory than a fixed number of frames and fixed buffers need, however many frames are coded and however the input is split into reads: a machine that grants a run twice the memory that coding two frames takes, and four MiB, completes a run of any number of frames. The number of open files does not grow either.",
 ["faults","inputs","histories"],
 "For every frame size, number of frames, input channel and partition of the input into reads, with memory beyond the bound refused.",
 "It is about unbounded runs under a memory limit; the tests never run the encoder.",
 ["src/main.rs","src/binary_reader.rs","src/frame.rs"],
 [("frame loop","src/main.rs main"),("input buffering","src/binary_reader.rs BinaryReader"),("frame planes","src/frame.rs Frame::new")],
 ["live heap","open descriptors"],
 "verdict of a run whose allocations are refused beyond the bound", False)
p("C18","Runs do not influence each other, whether earlier or at the same time",
 "What a run does depends on nothing that another run leaves behind or does meanwhile: in one directory, after any history of completed, refused, failed and killed runs, and interleaved in any order with other runs on the same inputs and other outputs, each run gives the verdict and the stream it gives alone. Runs that end leave no file but their outputs, and no input is changed.",
 ["interleavings","histories","crash points"],
 "For every history of earlier runs, every interleaving of the I/O calls of concurrent runs, and every point at which one of them is killed or fails.",
 "It needs several processes stopped and resumed call by call, and processes killed half way; the tests start none.",
 ["src/main.rs","src/binary_writer.rs","src/binary_reader.rs","src/option.rs"],
 [("files a run opens","src/binary_reader.rs BinaryReader::file, src/binary_writer.rs BinaryWriter::file"),("process state only","src/main.rs main")],
 ["files in the working directory"],
 "verdict and output of each run compared with the same run alone; directory listing", False)
p("C19","Asking for help, or for nothing, does only that",
 "A command line that asks for help, alone or at any place among well-formed options, prints the option list (naming every option) on standard output and nothing else there, and a command line without arguments prints nothing there; neither opens, creates or changes any of the files that the options name. The run exits with status 0 exactly if the whole text was accepted by standard output; if printing fails, it fails loudly after a prefix of the text.",
 ["faults","inputs"],
 "For every place of the request among the options, every state of the files named, and every short, interrupted or failing write.",
 "It is about failing writes and untouched files; the tests never run the program.",
 ["src/option.rs","src/main.rs"],
 [("help","src/option.rs CommandOption::show_help_and_exit, help option"),("empty command line","src/main.rs main")],
 ["standard output","files named by options"],
 "printed text, exit status and file contents after the run", False)
p("C20","Reader and writer pass bytes and bits through unchanged, whatever mix of calls",
 "Whatever sequence of calls is made on one input reader (vectors of samples of any integer type, plain and exact reads, looks at the buffer of which part is consumed, reads up to a byte or to the end), each call yields the input's next bytes, none lost, repeated or altered, and the end of the input is reported only at its end. Whatever sequence of bits, bit strings, alignments, flushes and, at byte boundaries, whole bytes is given to one writer, the complete bytes come out in order, most significant bit first, alignment filling up with zero bits. This holds however the calls to the system are split or interrupted, and a failing one shows as an error or panic, never as a wrong result.",
 ["histories","faults","inputs"],
 "For every sequence of calls on a reader and a writer, every partition of the input and output into system calls, and every failing call.",
 "Only a few call sequences could be listed in tests, and short, interrupted and failing system calls do not happen there.",
 ["src/binary_reader.rs","src/binary_writer.rs"],
 [("reader","src/binary_reader.rs BinaryReader"),("bit writer","src/binary_writer.rs BinaryWriter")],
 ["read cursor","partial byte"],
 "result of every call and bytes in the output, in a driver process", True)
p("C21","Frame headers parse back to the frame they are written for, whatever came before",
 "In any history of sequence headers, frame headers (key, inter, intra-only and switch frames, shown or not, and requests to show an existing frame), repeats and temporal delimiters given to one unit encoder, each frame header reads back, with the rules of the AV1 format and the sequence header last written, as the frame and coding parameters it was written for: a field that the format infers is not written, one that it does not infer is written once with its bit count, and nothing is left over from earlier frames or sequences. Parameters are in the format's range, tiles uniformly spaced. If writing fails at any point the failure is loud and what was written is a prefix of that stream; short or interrupted writes change nothing.",
 ["histories","inputs","faults"],
 "For every history of such units, every combination of frame type, sequence flags, frame parameters and their values, and every sequence of write faults.",
 "Which fields are present depends on dozens of flags of the sequence, of the frame and of earlier frames; the tests never write a frame header.",
 ["src/obu_encoder.rs","src/frame.rs","src/encoder.rs","src/constants.rs","src/bool_coder.rs"],
 [("frame header coding","src/obu_encoder.rs encode_obu_payload, OBU_FRAME_HEADER"),("sequence state","src/obu_encoder.rs encode_obu_payload, OBU_SEQUENCE_HEADER"),("frame parameters","src/frame.rs Frame and its parameter structures")],
 ["encoder context","reference order hints","global motion parameters of the reference","film grain parameters"],
 "bytes written, read by an independent parser", True)
p("C22","After a frame header, encoder and decoder hold the same state for the frame",
 "In the same histories as for C21, what the encoder holds for the frame once its header is written (in the frame and in its own context) is what a decoder holds once it has read that header with the rules of the AV1 format: values that were written, values the format infers when they are not (sizes after super-resolution, defaults of a shown key frame, lossless segments and their quantizer matrix levels, segment features after clipping, tile positions, filter, restoration and transform settings, skip mode references, global motion, film grain taken from a reference or reset), and which reference slots are still valid. This is what the rest of the frame would be coded from, so nothing of the caller's wishes that the header did not transmit, and nothing of earlier frames, may survive in it. Write faults do not influence it.",
 ["histories","inputs","faults"],
 "For every history of such units, every combination of frame type, sequence flags, frame parameters and reference slot contents, and every sequence of write faults.",
 "The inferred values depend on dozens of flags of the sequence, of the frame and of earlier frames; the tests never write a frame header, and a wrong one is not visible in the header itself.",
 ["src/obu_encoder.rs","src/frame.rs","src/encoder.rs","src/constants.rs"],
 [("inference of values that are not coded","src/obu_encoder.rs encode_obu_payload, OBU_FRAME_HEADER"),("state used by tile coding","src/encoder.rs EncoderContext, src/frame.rs Frame")],
 ["encoder context","frame parameters","validity of reference slots","stored film grain parameters"],
 "the public fields of Frame and EncoderContext after each header, in a driver process", True)
p("C23","Block syntax elements are coded with the table the format selects for them",
 "For every history of block-level syntax elements (prediction modes, angles, partitions including the two-way choices at frame edges, transform sizes and splits, segment ids, skip and reference choices, compound and inter-intra choices, motion vector parts, interpolation filters, motion modes, palettes, quantizer and filter deltas, chroma from luma, restoration choices, literals) coded through the element coders, with any mode info in the blocks above and to the left, an AV1 decoder that selects the probability table for each element by the format's rules reads exactly the values that were coded, and afterwards its tables equal the encoder's: the selected table, and only that one, adapts. This holds from any tables (the default ones, those an earlier session left, or others), after sessions that were given up, and when coder, output and tables are restored to an earlier point (a trial taken back) any number of times. Coefficients and transform types are C24; intra block copy is not included (its coder is a stub).",
 ["histories","inputs","schedules"],
 "For every sequence of elements, values, neighbours, starting tables, and every pattern of trials kept or taken back and sessions given up.",
 "The table depends on block sizes and on what is around the block, and its content on everything coded with it before; the tests code a few symbols with the symbol coder only.",
 ["src/bool_coder.rs","src/cdf.rs","src/common.rs","src/constants.rs","src/frame.rs"],
 [("element coders","src/bool_coder.rs encode_intra_frame_y_mode to encode_restoration_type"),("tables","src/cdf.rs CDF"),("neighbours","src/frame.rs get_above_mi, get_left_mi; src/common.rs count_refs")],
 ["probability tables","mode info of neighbouring blocks","state of the arithmetic coder"],
 "coded bits and the public tables after each session, in a driver process", True)
p("C24","Coefficients and transform types come back from the tables the format selects",
 "For every history of transform blocks (all-zero flag, transform type, end position, coefficient levels and signs, in the order of the bitstream) coded through the coefficient coders, with any block and transform size, plane and subsampling, transform type, place in the frame (also over its edges), prediction mode, frame size, and any level and sign context in the blocks above and to the left (one each), an AV1 decoder that keeps its own coefficients and selects every probability table from them, from the transform and from the surroundings reads exactly the transform types and coefficients that were coded, finds for every block, luma or chroma, the transform type the encoder takes for it, and afterwards its tables equal the encoder's: the selected tables, and only those, adapt. This holds from any tables, after sessions that were given up, and when coder, output and tables are restored to an earlier point (a trial taken back) any number of times. The coefficient tables are those of the first quantizer class, the only ones the code uses so far.",
 ["histories","inputs","schedules"],
 "For every sequence of transform blocks with any coefficients and surroundings, starting tables, and every pattern of trials kept or taken back and sessions given up.",
 "The table of a coefficient depends on the coefficients around it, its transform and its place, and its content on everything coded with it before; no test codes a coefficient.",
 ["src/bool_coder.rs","src/common.rs","src/constants.rs","src/cdf.rs","src/frame.rs"],
 [("coefficient coders","src/bool_coder.rs encode_all_zero to encode_coeff_br, encode_intra_tx_type, encode_inter_tx_type"),("contexts","src/common.rs get_tx_set, compute_tx_type, get_tx_class, get_coeff_base_ctx"),("offsets and sets","src/constants.rs coeff_base_ctx_offset, sig_ref_diff_offset, mag_ref_offset_with_tx_class, tx_type_in_set_*")],
 ["probability tables","coefficients coded so far in the block","mode info of neighbouring blocks","state of the arithmetic coder"],
 "coded bits and the public tables after each session, in a driver process", True)
# not claimed (see DESIGN.md)
p("C15","Default probability and quantizer tables match the format's",
 "Every built-in probability table is strictly increasing, ends at full scale with a zero counter, and like the quantizer tables has the values the AV1 format prescribes.",
 ["table entries"],
 "For every entry of every built-in table.",
 "Tests do not look at the tables.",
 ["src/cdf.rs","src/quantizer.rs","src/constants.rs"],
 [("static tables","src/cdf.rs, src/quantizer.rs")],
 ["none: constants"],
 "the tables", False)
p("C16","Tiles are coded as the format prescribes",
 "For every frame given to the unit encoder, its tile data (block structure, prediction, coefficients) are coded so that an AV1 decoder reconstructs the intended frame. The coding of single block-level elements is C23, that of coefficients C24.",
 ["inputs"],
 "For every frame and coding decision.",
 "No test encodes a frame.",
 ["src/obu_encoder.rs","src/tile_encoder.rs","src/bool_coder.rs"],
 [("tile group coding","src/obu_encoder.rs OBU_TILE_GROUP, src/tile_encoder.rs")],
 ["encoder context"],
 "the coded tiles", False)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
