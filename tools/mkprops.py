#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))
DEC="src/reader/decoder.rs"; RD="src/reader/mod.rs"; CV="src/reader/converter.rs"; EN="src/encoder.rs"; CM="src/common.rs"

p("P01","Hostile input and call orders never panic",
  "For every byte stream, every combination of decoder options and every order of calls on the decoding API (including calls after an error or after the end), each call returns Ok or Err: nothing panics, overflows, aborts or touches memory it does not own. The same holds for every encoder call whose frame has a buffer of at least width*height bytes (and an empty one when the area is zero), whatever the other field values.",
  ["inputs","configurations","histories"],"all byte streams x decoder options x call sequences on Decoder, its iterator, StreamingDecoder (used as documented), FrameDecoder and Encoder",
  "The crash-regression tests replay three files through one call pattern with default options.",
  [DEC,RD,CV,EN],[("state machine with checked slicing",DEC+" next_state"),("checked row slicing",CV+" read_into_buffer"),("forbid(unsafe_code)","src/lib.rs")],
  [("state","parser state","src/reader/decoder.rs StreamingDecoder")],["return values and panics of every public call"])
p("P02","Decoding always makes bounded progress",
  "On any finite input every decoding call returns after work bounded by the bytes it was given and the pixels it was asked for, and the memory it allocates altogether is bounded the same way; it never loops for ever. Until the trailer, each streaming update on non-empty input consumes a byte, produces output bytes or reports an event, and only a small constant number of consecutive updates may do none of the first two; updates after the trailer return at once.",
  ["inputs","configurations","histories"],"all inputs, options and output-buffer sizes, at the streaming and the high-level API",
  "tests/stall.rs decodes one historical stall file and three fixed chunk sizes of one sample under a wall clock.",
  [DEC,RD,CV],[("transitions that consume nothing are finite",DEC+" next_state"),("skip when LZW cannot progress",DEC+" DecodeSubBlock")],(),["(consumed, event) of each StreamingDecoder::update","CPU time of each call"])
p("P03","Memory limit bounds decoder allocation",
  "With MemoryLimit::Bytes(n), a frame whose output (1 byte per pixel indexed, 4 per pixel RGBA, or the raw LZW bytes when frame decoding is skipped) exceeds n bytes is refused with an error by the calls that allocate it (read_next_frame, the iterator, FrameDecoder::decode_lzw_encoded_frame); one that fits, or that is read into a buffer the caller provides, is not refused for its size; without a limit set, n is 50,000,000, and MemoryLimit::Unlimited refuses none. Whatever the input declares (dimensions, extension sizes, compressed sizes), the heap the decoder holds stays within a small multiple of n, and of a buffer the caller passes in, plus a constant.",
  ["inputs","configurations"],"all inputs (declared sizes far above what the file contains) x limits x colour outputs x skip_frame_decoding x FrameDecoder",
  "No test sets a memory limit or looks at allocation.",
  [RD,DEC,CV],[("MemoryLimit::check_size / buffer_size",RD),("check_buffer_size before allocation",CV),("limit on extension and LZW bytes",DEC+" ExtensionDataBlock, OutputBuffer::append")],(),["global allocator: live bytes per thread","error returned"])
p("P04","Results do not depend on how input is chunked",
  "Decoding the same bytes gives the same header data, frames and final outcome (end or kind of error), and the same streaming events, however the reader splits them into reads or update calls, down to one byte at a time. Reads that fail with ErrorKind::Interrupted are retried and change nothing. (How much of an image cut off by the end of the input comes out, and hence whether that last frame is delivered before the error, is left open.)",
  ["inputs","schedules","fault_sequences"],"all inputs, valid or not, x all partitions of the input into reads x transient interruptions",
  "tests/stall.rs uses chunk sizes 1, 2 and 3 on one valid file and counts frames only.",
  [DEC,RD],[("internal_buffer collects short headers",DEC+" ensure_min_length_buffer"),("partial sub-block states carry the remaining length",DEC),("BufReader refill loop",RD+" ReadDecoder::decode_next")],
  [("internal_buffer","bytes of a fixed-size header seen so far",DEC)],["frames, errors and events per schedule"])
p("P05","Well-formed GIFs decode exactly as GIF89a says",
  "For every well-formed GIF (any palettes, block order, frame geometry, interlacing, minimum code size 2 to 11, sub-block sizes, LZW clear-code placement including consecutive or deferred clears), the decoder reports the canvas size, global palette, background index (when inside the global palette) and repeat count of the stream, and for each image in order its position, size, palette, delay, disposal, transparency and user-input flag and exactly the pixel indices the stream encodes, in display order. A frame without its own control extension has the Frame::default() values for delay, disposal, transparency and user input.",
  ["inputs"],"all well-formed GIF streams",
  "Ten sample files pin a checksum; they use few LZW and block layouts.",
  [DEC,RD,CV,CM],[("block parser",DEC),("LZW via weezl",DEC+" LzwReader"),("deinterlacing",CV)],
  [("current","metadata of the frame being read, seeded by the control extension",DEC)],["Decoder getters and frames compared with an independent reference decoder"])
p("P06","RGBA output is palette lookup of indexed output",
  "With ColorOutput::RGBA every pixel is the colour its index has in the frame's local palette, or in the global palette when there is no local one, with alpha 0 exactly when the index is the frame's transparent index and 255 otherwise; an index outside the palette gives transparent black. This holds on every decoding path and whatever the destination buffer contained before; all other frame data equal those of indexed decoding.",
  ["inputs","histories"],"all images x palettes x transparent indices x API paths and destination buffers",
  "render_images checksums ten files through read_next_frame; no test has indices outside the palette or reuses a buffer.",
  [CV,RD],[("palette expansion loop",CV+" fill_buffer"),("local before global palette",CV+" fill_buffer")],
  [("buffer","scratch buffer for indices, reused across frames",CV+" PixelConverter")],["RGBA frames vs indexed frames"])
p("P07","All decoding APIs deliver the same frames",
  "For any stream, read_next_frame, next_frame_info with read_into_buffer, next_frame_info with fill_buffer in pieces of any size, the iterator, the StreamingDecoder with output slices of any size, and skip_frame_decoding followed by a (new or reused) FrameDecoder all yield the same frames: metadata, palette and pixels (rows in stored order for the two that do not deinterlace). buffer_size and line_length always describe the delivered data, and a frame delivered deinterlaced says interlaced = false. (Whether a frame whose image data is cut off by the end of the input is still delivered is left open.)",
  ["inputs","histories","configurations"],"all streams x API paths x piece sizes x colour outputs",
  "Tests use read_next_frame almost exclusively; FrameDecoder and fill_buffer are not tested at all.",
  [RD,DEC,CV],[("one decode_next drives all paths",RD),("FrameDecoder",DEC),("DecoderIter",RD)],(),["frames from each path"])
p("P08","Skipping or abandoning a frame leaves later frames intact",
  "Whatever a caller does with a frame after next_frame_info (reads it all, reads part of it, fails because its buffer is too small, or never reads it), each later frame that is read completely has the same metadata, palette and pixels as in a straight decode, and the number and order of frames is the same. That includes frames that fail because there is no palette at all.",
  ["inputs","histories"],"all streams x per-frame choices of read, partial read, failed read or skip",
  "One test skips all frames of one file with frame decoding off and only counts them.",
  [RD,DEC,CV],[("next_frame_info discards the rest of the frame",RD),("LZW state reset at each frame",DEC+" LzwReader::reset"),("current cleared at DataEnd",DEC+" FrameDecoded")],
  [("lzw_reader","LZW decoder reused between frames",DEC)],["frames read after a skipped or partly read one"])
p("P09","Truncation and read errors are never hidden",
  "If the input ends before the trailer, or the reader returns an error, the decoder delivers every frame whose image data had fully arrived and none whose pixels had not, and then reports an error of kind UnexpectedEof or the reader's own kind; it never reports a clean end of the animation. A frame whose image data ends early is an error, not a partially filled frame.",
  ["inputs","fault_sequences","crash_points"],"every prefix of every stream and an I/O error of any kind at every read, on every API path",
  "test_truncated_file only checks that prefixes of one file do not panic.",
  [RD,DEC,CV],[("UnexpectedEof on empty fill_buf",RD+" decode_next"),("image truncated",CV+" read_into_buffer"),("end only at the trailer block",RD)],(),["frames and error kind per cut or fault point"])
p("P10","Encode then decode returns what was written",
  "Decoding what the encoder produced returns the canvas size, repeat count and, for each successfully written frame in order, the same position, size, delay, disposal, transparent index, user-input flag and the first width*height buffer bytes as pixels (rows put in display order if the frame was marked interlaced). A palette comes back as its whole colours followed by black padding up to the next power of two (at least two colours), local palettes stay local, and files with no frames or with zero-area frames are accepted too.",
  ["inputs","histories"],"all sequences of encoder calls with valid arguments and all field values",
  "The round-trip tests re-encode three sample files and 1x1 frames.",
  [EN,DEC,RD,CM],[("header, control extension, descriptor and LZW writers",EN),("decoder",DEC)],
  [("buffer","LZW scratch buffer reused between frames",EN+" Encoder")],["decoded frames vs written frames"])
p("P11","Encoder output is well-formed GIF89a",
  "The bytes an encoder has written when it finishes successfully are one complete GIF89a file: header, colour tables of the announced size, extensions and images framed in sub-blocks of 1 to 255 bytes closed by a terminator, no sort or reserved flag set, each frame's image data a valid LZW stream (minimum code size 2 to 8, starts with a clear code, codes of at most 12 bits, end code last, every code resolvable) that decodes to exactly the frame's buffer, each frame directly preceded by its own control extension, and exactly one trailer as the last byte.",
  ["inputs","histories"],"all sequences of successful encoder calls",
  "Tests only feed the output to this crate's own decoder, which is lenient; an encoder and decoder that err together pass.",
  [EN,"src/traits.rs"],[("write_encoded_image_block sub-block framing",EN),("lzw_encode minimum code size",EN),("check_color_table / flag_size",EN),("trailer in into_inner and Drop",EN)],(),["output bytes checked by an independent strict parser"])
p("P12","Pre-encoded frames are lossless and order independent",
  "Compressing frames with make_lzw_pre_encoded, in any order and on any threads, and writing them with write_lzw_pre_encoded_frame gives byte for byte the file that write_frame gives. Frames read with skip_frame_decoding and written with write_lzw_pre_encoded_frame decode to the same metadata and pixels as in the source file, and FrameDecoder restores a pre-encoded frame's pixels exactly.",
  ["inputs","schedules","histories"],"all frames x compression orders and thread interleavings x source files",
  "Two samples are rebuilt sequentially; make_lzw_pre_encoded is exercised on one frame; nothing runs it from threads.",
  [EN,DEC,RD],[("lzw_encode shared by both paths",EN),("min code size carried as first byte",EN+", "+RD+" copy_lzw_into_buffer"),("FrameDecoder",DEC)],(),["file bytes; decoded frames"])
p("P13","Writer faults are reported and never corrupt output",
  "However the writer behaves (short writes, interruptions, an error at any byte), the bytes it accepted before its first error are a prefix of the fault-free file, the call during which it failed returns that error, and short or interrupted writes alone change nothing. Finishing writes the trailer exactly once, by into_inner or by drop but never both, and neither finishing with into_inner nor (with the default features) dropping an encoder with a broken writer panics.",
  ["fault_sequences","crash_points","histories","configurations"],"a fault at every write and byte offset x call sequences x feature raii_no_panic on and off",
  "All tests write to a Vec, which never fails.",
  [EN,"src/traits.rs"],[("write_all everywhere",EN),("into_inner takes the writer",EN),("Drop writes the trailer when the writer is still owned",EN)],
  [("w","the writer; None once given back",EN+" Encoder")],["bytes and calls seen by the writer; results of each call"])
p("P14","Rejected encoder calls leave no trace",
  "A frame with a buffer smaller than width*height, with no palette at all (local or global), with more than 256 colours, or with an impossible LZW minimum code size is refused with the matching error. A refused frame writes nothing: the encoder stays usable and the finished file is the one the accepted calls alone give, each frame with its own metadata; an encoder that is refused at construction writes nothing.",
  ["inputs","histories"],"all interleavings of acceptable and unacceptable encoder calls",
  "palette_fail checks one error value and never looks at what is written afterwards.",
  [EN],[("size check before anything is written",EN+" write_frame"),("check_color_table",EN),("every frame writes its own control extension",EN)],(),["results of calls; decoded file"])
p("P15","True-colour frames keep exact colours and the alpha mask",
  "A frame built from RGB or RGBA pixels has width*height valid palette indices and at most 256 colours, and decoding it as RGBA makes a pixel transparent exactly when its input alpha is 0. When the opaque colours plus one slot for transparency (if used) fit in 256 entries every opaque pixel keeps its exact colour and the palette has one entry for each of them; otherwise the palette approximates them and pixels of the same colour keep the same colour; the result is the same every time for the same input, and wrong lengths or speeds panic as documented.",
  ["inputs","configurations"],"all pixel buffers, sizes and speeds 1 to 30",
  "One test checks a two-colour opaque image, another only that 256 greys do not panic.",
  [CM],[("exact palette path with sorted colours",CM+" from_rgba_speed"),("NeuQuant path",CM+" from_rgba_speed"),("transparent index",CM)],(),["palette, indices, transparent index of the frame; decoded RGBA"])
p("P16","Frame consistency check is exact",
  "With check_frame_consistency(true) a frame is refused exactly when left+width exceeds the canvas width or top+height exceeds the canvas height, computed without overflow, and everything before it is delivered normally. With the option off no frame is refused for its position or size.",
  ["inputs","configurations"],"all 16-bit frame and canvas geometries",
  "One geometry is tested.",
  [DEC],[("checked_sub comparison",DEC+" ImageBlockStart")],(),["Ok/Err of next_frame_info"])
p("P17","End-code check is exact",
  "With check_lzw_end_code(true) a file whose images all contain the LZW end code decodes completely, and one with an image lacking it gives an error no later than the call that moves past that image, whether frames are read, partly read or skipped (with skip_frame_decoding, which leaves the data alone, it is FrameDecoder that reports it), wherever sub-block and read boundaries fall and however many surplus pixels precede the end code. With it off, a missing end code changes neither pixels nor outcome.",
  ["inputs","configurations","schedules","histories"],"all images with and without end code x sub-block and read partitions x reading or skipping",
  "One sample file is decoded with and without the option, through one API path.",
  [DEC],[("NoProgress status mapped to an error",DEC+" LzwReader::decode_bytes"),("flush at the end of the image block",DEC+" DecodeSubBlock")],(),["frames and errors"])
p("P18","Unknown blocks are skipped or refused as configured",
  "With allow_unknown_blocks(true), blocks with an unknown introducer and extensions with an unknown label, framed as sub-blocks (any number, including none), are skipped wherever they occur and the frames, repeat count and end are the same as without them. With the option off such a block is an error, after all preceding frames have been delivered.",
  ["inputs","configurations"],"all unknown introducers and labels x payloads x positions in the stream",
  "No test uses the option.",
  [DEC],[("BlockStart dispatch",DEC),("sub-block skipping",DEC+" ExtensionDataBlock")],
  [("ext","id and data of the extension being read",DEC)],["frames and outcome; streaming events"])
p("P19","Extensions are framed and delivered exactly",
  "Every extension written with write_raw_extension or write_extension, or present in a stream, is reported by the streaming decoder (those with a label GIF89a does not define only if unknown blocks are allowed) with its label, all payload bytes in order and one event per sub-block, and never changes frames (a control extension only affects the next frame). Slices over 255 bytes are split, empty payloads are allowed, and the repeat count set before the first frame is returned for each value (Finite(0) by absence).",
  ["inputs","histories"],"all labels, payloads, sub-block divisions and repeat counts",
  "One five-byte comment is written in a round-trip test and never read back.",
  [EN,DEC,RD],[("write_raw_extension chunking",EN),("ExtensionDataBlock accumulation",DEC),("NETSCAPE2.0 parsing",DEC+" ApplicationExtension")],
  [("ext","id, data and end flag of the current extension",DEC)],["last_ext() at each event; Decoder::repeat"])
p("P20","No input byte is lost or over-consumed",
  "After the end of the animation the reader given back by into_inner yields exactly the bytes that follow the trailer, so concatenated GIFs can be decoded one after another. At any earlier point it yields a suffix of the input starting no earlier than the data of the last frame delivered and no later than needed to deliver it or its header, and the streaming decoder's consumed counts add up to that position.",
  ["inputs","histories","schedules"],"all streams with trailing data x stopping points x read partitions",
  "One test checks that nothing is left when nothing follows.",
  [RD,DEC],[("consume exactly what update reports",RD+" decode_next"),("trailer not consumed as a block header",DEC+" BlockEnd")],
  [("at_eof","trailer seen",RD+" ReadDecoder")],["bytes left in the reader; consumed counts"])
p("P21","Streaming events follow the documented grammar",
  "For every well-formed stream the StreamingDecoder reports background colour, global palette, extension events, exactly one HeaderEnd before the first image or trailer, then per image BlockStart, FrameMetadata, byte counts adding up to the data written (all of it copied when frame decoding is skipped), and DataEnd, each extension as BlockStart, sub-block events and one BlockFinished, and BlockStart(Trailer) as the very last event. Getters (version, width, height, current frame) agree with the stream from the documented event on.",
  ["inputs","schedules"],"all well-formed streams x update partitions x output-buffer kinds and sizes",
  "No test uses StreamingDecoder.",
  [DEC],[("emit in each state transition",DEC+" next_state"),("header_end_reached",DEC)],
  [("header_end_reached","HeaderEnd already emitted",DEC)],["event trace of StreamingDecoder::update"])
p("P22","The end is final and the iterator is fused",
  "Once the decoder has reported the end of the animation, every further request for a frame reports the end again. The iterator yields exactly the frames read_next_frame yields, at most one error as its last item, and then None for ever.",
  ["inputs","histories"],"all streams, valid, truncated or corrupt, x any number of further calls",
  "Two extra next() calls are made after the clean end of two samples.",
  [RD],[("at_eof",RD+" ReadDecoder"),("ended flag",RD+" DecoderIter")],
  [("ended","iterator has finished",RD+" DecoderIter")],["results of calls after the end or error"])
p("P23","Instances are independent and reusable",
  "What a decoder, FrameDecoder or encoder produces depends only on its own input and options: reusing a FrameDecoder or encoder for frames of other sizes and code sizes, also after a failed frame, interleaving several instances, or running them on several threads gives the same results as fresh instances used one at a time.",
  ["schedules","histories","inputs"],"all reuse sequences and interleavings of instances within a thread and across threads",
  "Nothing in the tests reuses a FrameDecoder or runs instances concurrently.",
  [DEC,CV,EN],[("LzwReader::reset",DEC),("scratch buffers cleared or overwritten",EN+" write_image_block, "+CV),("no global state","src/lib.rs")],
  [("lzw_reader, buffer","state kept between frames",DEC+", "+CV+", "+EN)],["results of reused or concurrent instances vs fresh ones"])
p("P24","Interlaced frames come out in display order at any height",
  "For every height from 1 to 65535, each stored row of an interlaced frame is delivered exactly once, at the row GIF's four-pass order assigns to it, on every deinterlacing path (read_next_frame, read_into_buffer, iterator, FrameDecoder) and for both colour outputs.",
  ["inputs"],"all frame heights x widths x paths",
  "A unit test checks the row iterator for heights 0 to 17 and its last row for 65535; pixels are checked on one sample.",
  [CV],[("InterlaceIterator",CV),("row offset computation",CV+" read_into_buffer")],(),["rows of delivered frames"])
p("P25","Frame constructors and control extensions are exact",
  "Frame::from_indexed_pixels and from_palette_pixels give a frame of the asked size with exactly the pixels, palette and transparent index passed in and default settings otherwise (Frame::default() is an empty frame at the origin without palette, transparency or delay, kept on disposal); they panic, as documented, if and only if the number of pixels is not width x height or the palette is longer than 256 colours. ExtensionData::new_control_ext encodes delay, disposal method, user-input flag and transparent index so that a decoder reads the same values back. DisposalMethod, Block, Extension and AnyExtension convert from and to exactly the codes of the format.",
  ["inputs"],"all sizes, pixel counts, palette lengths, transparent indices, delays, disposal methods",
  "No test calls from_indexed_pixels or from_palette_pixels with anything but one sample; doc tests show one call.",
  [CM,EN],[("Frame::from_palette_pixels, from_indexed_pixels",CM),("ExtensionData::new_control_ext",EN)],(),["fields of constructed frames, panics, decoded control extensions"])
p("P26","I/O errors come back as they were raised",
  "When the reader or the writer fails, the call in progress fails with the Io variant carrying that very error, with its kind and payload, also as source() of the error; it is never replaced by another error, reported as malformed data or swallowed, and its text is part of the error's text. Encoder::into_inner returns the writer's error. Interrupted reads are retried instead.",
  ["fault_sequences","inputs"],"all streams and call histories x byte offset of the failure x error kind",
  "No test makes a reader or writer fail with its own error.",
  [RD,EN,DEC],[("ReadDecoder::decode_next",RD),("From<io::Error>, Error::source",DEC+", "+EN),("into_inner",EN)],(),["error values returned by every call, their source chain"])
p("P27","Output is a complete file after every encoder call",
  "After Encoder::new and after every later call, successful or refused for its arguments, the bytes handed to the writer so far followed by a trailer byte are a valid GIF with exactly the frames and extensions written so far: nothing is kept back, nothing is written in part.",
  ["histories"],"all call histories of the encoder x every point between two calls",
  "Tests only look at finished files.",
  [EN],[("write_frame, write_lzw_pre_encoded_frame, write_extension, write_raw_extension",EN)],[("w","the writer",EN+" Encoder")],["bytes received by the writer after each call"])
p("P28","Decoder getters are stable and describe the current frame",
  "Once a decoder is open, width(), height(), global_palette(), bg_color() and repeat() keep their values through any calls, errors and the end of the stream. line_length() and buffer_size() always equal the current frame's width x bytes per pixel and that times its height; palette() is the current frame's palette or else the global one, and the global one before the first frame.",
  ["histories","inputs"],"all streams, valid or corrupt, x all call histories",
  "Getters are read once, right after opening.",
  [RD,CV],[("width, height, global_palette, bg_color, repeat, palette, line_length, buffer_size",RD)],[("current_frame, bg_color, repeat","what the getters report",RD+" Decoder")],["values of all getters after every call"])
p("P29","Stricter options never change what is delivered",
  "Turning on frame consistency checks, end-code checks, a lower memory limit, or refusal of unknown blocks never changes a frame that is delivered: the stricter decoder delivers a prefix of the frames the permissive one delivers, identical byte for byte, and where it delivers fewer or the permissive one fails, it reports an error rather than a clean end.",
  ["inputs","configurations"],"all streams, valid or corrupt, x all pairs of option sets, one stricter than the other, x decoding paths",
  "Options are tested one by one on one sample each.",
  [DEC,RD,CV],[("check_frame_consistency, check_for_end_code, allow_unknown_blocks",DEC),("MemoryLimit","src/reader/mod.rs")],(),["frames and errors under both option sets"])
p("P30","Damage behind a frame does not reach it",
  "Whatever follows a frame's image data (noise, other blocks, another stream, or nothing), the header, that frame and all frames before it are delivered exactly as from the intact stream.",
  ["inputs"],"all valid streams x position x damage x decoding paths x partitions",
  "No test damages a multi-frame stream behind a frame.",
  [DEC,RD,CV],[("Decoded::DataEnd",DEC),("read_into_buffer",CV)],(),["frames delivered before the damage"])
p("P31","A transient read error costs at most the frame being read",
  "If the reader fails once, or reports the end of its input too early (a file still being written), and then continues, asking again for the next frame continues behind the point reached: no byte is consumed twice or lost, every other frame is delivered intact, in order and once, and only the frame whose data was being read when the error occurred can be lost.",
  ["fault_sequences","histories"],"all valid streams x offsets of one to several transient errors x call histories",
  "No test's reader recovers from an error.",
  [RD,CV],[("ReadDecoder::decode_next",RD),("next_frame_info, read_next_frame",RD)],[("reader, decoder state","position reached before the error",RD+" ReadDecoder")],["frames delivered after the error"])

p("P32","Malformed streams are refused, not decoded",
  "A stream with a wrong signature, a control extension whose data is not 4 bytes, a minimum code size that is out of range, an LZW code that cannot be resolved before the last pixel, or image data that ends before the last pixel (with its block or with the stream) is reported as an error on every decoding path, in time: everything before the defect is delivered unchanged, then comes the error, and neither the defective frame nor a clean end of the stream.",
  ["inputs"],"all well-formed streams x kind and position of the defect x decoding paths x options x partitions",
  "Three corrupt samples check that an error comes at all; most kinds of defect and the frames before them are not tested.",
  [DEC,RD,CV],[("Version magic, read_control_extension",DEC),("check_code_size, LzwStatus, has_invalid_code",DEC+" LzwReader"),("frame with too few pixels",CV+" read_into_buffer")],(),["frames and error of each decoding path"])
p("P33","Decoded animations re-encode losslessly",
  "Writing what was decoded (header values and Frames as the decoder returned them: indexed, still compressed, or expanded to RGBA and converted with Frame::from_rgba) gives a file that decodes to the same canvas, loop count, global palette and frames with the same place, delay, disposal, user-input flag and pixels; indexed frames also keep palette and transparent index, and decoding and writing that file once more gives the same bytes.",
  ["inputs","histories"],"all well-formed streams x the three ways to carry pixels x decoding APIs",
  "One test re-encodes one sample; metadata, RGBA and pre-encoded frames are not compared.",
  [EN,RD,CM],[("Frame as returned by the decoder",RD),("write_frame, write_lzw_pre_encoded_frame",EN),("from_rgba_speed",CM)],(),["frames of first, second and third generation, bytes of the second and third"])
p("P34","Memory follows the largest frame, not the length",
  "Decoding or encoding an animation holds memory bounded by its largest single frame or extension (plus constant tables), however many frames, extensions and unknown blocks it has, and CPU time and total allocation grow at most linearly with the data.",
  ["inputs","histories"],"all animations of hundreds to thousands of items x decoding paths x options",
  "Tests decode short files and never look at memory.",
  [DEC,RD,CV,EN],[("ext.data cleared at each extension",DEC),("current frame replaced",RD),("buffer reused or cleared",EN+" write_image_block")],[("ext.data, current, buffer","memory kept from item to item",DEC+", "+CV+", "+EN)],["peak and total heap allocation, CPU time"])

p("P35","What a streaming caller does with one frame stays with that frame",
  "A caller of one StreamingDecoder may mix output slices of any size, discard the rest of a frame from any point on (with empty slices or None), make updates without input, and take or change anything in current_frame_mut(). Updates without input consume and change nothing; every event, every frame's metadata and the pixels of frames not discarded are the same as for a caller who does none of that, and discarded frames give a prefix of their pixels. While a frame's data is decoded or discarded, current_frame() stays as decoded or as the caller left it, and nothing of it reaches the next frame.",
  ["inputs","histories","schedules"],"all well-formed streams x destinations per update x points of discarding x changes to the current frame x input partitions",
  "No test uses StreamingDecoder.",
  [DEC],[("DecodeSubBlock, is_discarded",DEC+" next_state"),("current_frame_mut, add_frame",DEC),("LzwReader::reset",DEC)],[("current, lzw_reader","state of the frame in progress",DEC+" StreamingDecoder")],["event trace and pixels"])
p("P36","Frames are delivered without waiting for later bytes",
  "The decoder asks its reader for more only while the call in progress needs it: opening returns once the first image (its introducer and the byte behind it) or the trailer has arrived, next_frame_info once the frame's first data sub-block has begun, a complete frame once its block terminator has arrived at the latest, and the end once the trailer has arrived; after the end the reader is not asked again. So animations can be shown while they arrive and connections need not be closed.",
  ["schedules","inputs","histories"],"all well-formed streams x partitions into reads x call histories",
  "Tests read from memory, where waiting cannot be seen.",
  [RD,DEC],[("fill_buf only when nothing is buffered",RD+" decode_next"),("trailer recognised without another byte",DEC+" BlockEnd"),("DataEnd at the terminator",DEC+" FrameDecoded")],[("at_eof","trailer seen",RD+" ReadDecoder")],["how much had been handed out whenever the reader was asked"])
p("P37","Buffers are written only where something is delivered",
  "read_into_buffer, fill_buffer, FrameDecoder::decode_lzw_encoded_frame_into_buffer and StreamingDecoder::update leave every byte of the caller's buffer that receives no pixel as it was: the bytes behind the frame's size in a larger buffer, those behind the last pixel there is when fill_buffer returns false, those behind the count reported by BytesDecoded, and the whole buffer with any other event. When such a call fails, each byte is as it was or belongs to the pixel that has its place there.",
  ["inputs","histories"],"all streams, with complete and short and damaged frames, interlaced or not, x buffer sizes below, at and above what is needed x colour outputs x APIs",
  "Tests use fresh buffers of exactly the size of the frame.",
  [CV,DEC],[("row and buffer slicing",CV+" read_into_buffer"),("expansion of the pixels decoded",CV+" fill_buffer"),("OutputBuffer::Slice",DEC+" LzwReader::decode_bytes")],(),["contents of noise-filled buffers after each call"])
p("P38","Raw frames are the file's own bytes",
  "With skip_frame_decoding, read_next_frame and the iterator deliver every frame with its header as usual, the interlace flag kept, and as its buffer the minimum code size followed by the bytes of all its data sub-blocks, complete and unchanged whatever they hold: damaged or arbitrary data, nothing, or bytes behind the end code; other options and partitions of the input make no difference. Frames with code sizes from 2 on that are written with write_lzw_pre_encoded_frame read back with the same bytes.",
  ["inputs","schedules"],"all streams whose block structure is intact x image data of any content x partitions x options",
  "One sample is re-muxed; its data is valid and its bytes are not compared.",
  [DEC,RD,EN],[("CopySubBlock, OutputBuffer::append",DEC),("copy_lzw_into_buffer",RD),("write_lzw_pre_encoded_frame",EN)],(),["buffers of raw frames"])
p("P39","Encoded files are no larger than their content needs",
  "write_frame and make_lzw_pre_encoded compress: the image data they produce uses the smallest minimum code size that holds the buffer's largest index (at least 2) and is, up to a few percent and bytes, no longer than the plain greedy GIF coder (table cleared only when full) makes of the same pixels, whatever was encoded before. Image data is written in sub-blocks of 255 bytes up to the last one, raw extensions in as few sub-blocks as their slices allow, colour tables with the next power of two entries and no more, and no call writes anything beyond its blocks. The writer gets this in pieces of about a sub-block or table entry, not in a call per byte.",
  ["inputs","histories"],"all frames and palettes x sequences of encoder calls",
  "Tests decode what was encoded; a file twice as large decodes the same.",
  [EN],[("minimum code size, LzwEncoder",EN+" lzw_encode"),("write_encoded_image_block",EN),("check_color_table, flag_size",EN)],[("buffer","compressed data of the frame being written",EN+" Encoder")],["bytes and calls the writer gets"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,s)
except ImportError: pass
assert all(len(x["title"])<=80 for x in P)
print(len(P),"properties")
