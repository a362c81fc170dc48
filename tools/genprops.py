#!/usr/bin/env python3
"""Single source of properties.jsonl (run: python3 tools/genprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
        "mechanism": [dict(name=a, where=b) for a, b in mech],
        "observe_at": list(observe), "hook_needed": None}})

p("T01", "Transport packets decode to exactly what was coded",
  "For every sequence of well-formed 188-byte transport packets, reading packets one after another yields, in order, exactly the coded header values (error, unit-start and priority flags, PID, scrambling control, adaptation-field control, continuity counter), also when printed, and exactly the coded payload bytes. Each read consumes exactly one packet of 188 bytes whatever the adaptation field's layout, including packets without payload, packets whose payload is empty and packets with the reserved adaptation-field control.",
  ["inputs"], "all header values x all adaptation-field lengths and layouts x all payloads, alone and in sequence on one reused packet object, under any chunking of the source",
  "The suite parses four fixed packets and looks at the PID and one payload length; header bits, payload boundaries behind the other adaptation layouts, reuse of a packet and stream position are never checked.",
  ["ts/packet.go", "ts/adaptation_field.go"],
  [("Packet.Next reads the fixed header bit by bit and sizes the payload as 184-(length+1)", "ts/packet.go"),
   ("newAdaptationField reports how many bytes it used", "ts/adaptation_field.go")],
  [("Packet", "the parsed packet, reusable across reads", "ts/packet.go")], ["ts.NewPacket", "Packet.Next", "ts.Packet fields"])
p("T02", "Adaptation fields carry exactly the coded values",
  "For every well-formed adaptation field, the flags, 42-bit PCR and OPCR, splice countdown, private data and extension (legal time window, piecewise rate, seamless splice with its 33-bit time stamp) that are reported equal the coded values, in every combination and with any amount of stuffing or reserved bytes. What a packet does not carry is reported absent, even when the packet object held it from an earlier packet. Whatever the bytes of a field claim, a packet that is reported as read has used up exactly 188 bytes and its payload is exactly what the field's length leaves of them.",
  ["inputs", "histories"], "all flag combinations and values, all stuffing lengths, all orders of packets with and without adaptation field read into one packet object",
  "One fixed packet with a stuffing-only field is parsed by the suite; no PCR, splice, private data or extension is ever decoded in a test, nor a packet object reused across different layouts.",
  ["ts/adaptation_field.go", "ts/packet.go"],
  [("newAdaptationField, newAdaptationExt, newTransportPrivateData", "ts/adaptation_field.go"), ("Packet.Next installs the field", "ts/packet.go")],
  [("AdaptationField", "optional per-packet field", "ts/adaptation_field.go")], ["ts.Packet.AdaptationField"])
p("T03", "Transport parsing resynchronises on the next sync byte",
  "When the stream does not stand on a sync byte at a byte boundary, reading a packet moves forward to the next byte-aligned sync byte and parses the packet there, so every well-formed packet after sync-free junk is still delivered, in order. If 188 consecutive bytes hold no sync byte the read reports the no-sync error, and a later read carries on from there.",
  ["inputs", "fault_sequences"], "junk of any length and content without the sync byte, inserted before, between and after packets, starting at any bit offset",
  "No test feeds a stream that is out of sync.",
  ["ts/packet.go"], [("isAligned / realign", "ts/packet.go")], [], ["ts.Packet.Next result and error"])
p("T04", "Transport stream endings and source errors are told apart",
  "At the end of a transport stream a packet read reports end-of-file when the stream ends exactly between packets and unexpected end-of-file when it ends inside a packet, at every possible byte; no packet is ever reported successfully from a truncated packet. An error of the underlying source other than end-of-file is passed to the caller unchanged by the packet parser, the payload reader, the payload unit reader and the demultiplexer, after everything complete before it has been delivered.",
  ["inputs", "fault_sequences"], "all truncation points of all well-formed streams and all positions of a failing source",
  "The suite cuts one packet after 4 bytes and reads past one complete packet.",
  ["ts/packet.go", "ts/payload_reader.go", "ts/payload_unit_reader.go", "ts/demuxer.go", "ts/adaptation_field.go"],
  [("EOF mapping in Packet.Next and in the adaptation field readers", "ts/packet.go"), ("Demuxer.Err", "ts/demuxer.go")], [], ["errors returned"])
p("T05", "Packet testers combine as Boolean algebra",
  "A tester built from PID tests, the unit-start test and user functions with And, Or and Not accepts a packet exactly when the Boolean expression over its parts is true for that packet. Building a combination never changes the testers it was built from, and a tester gives the same answer however often and from however many goroutines it is asked.",
  ["inputs", "programs"], "all expressions over And/Or/Not, all PIDs and flag values",
  "The suite tests one PID test and one And on three packets; Or and Not alone are never asserted.",
  ["ts/packet_tester.go"], [("And, Or, Not, IsPID, IsPayloadUnitStart", "ts/packet_tester.go")], [], ["PacketTester results"])
p("T06", "The demultiplexer delivers each matching packet exactly once",
  "Every channel registered before start receives exactly the packets its tester accepts, each once and in stream order, from the first packet accepted by the skip-until test (which is delivered) up to but excluding the first later packet refused by the take-while test. After that every channel is closed and then the done channel signals true exactly once; the error is nil when take-while ended the stream and the source's error otherwise.",
  ["inputs", "schedules", "configurations"], "all streams, tester sets (overlapping, disjoint, empty), skip/take windows, consumer speeds and interleavings",
  "The suite counts packets in four tiny streams read by one selecting goroutine; identity, order, overlapping channels, closing order and slow consumers are not looked at.",
  ["ts/demuxer.go"], [("goroutine in Demuxer.Go; conditionalChannel loop", "ts/demuxer.go")],
  [("registeredChannels", "testers and channels", "ts/demuxer.go"), ("lastErr", "final error", "ts/demuxer.go")], ["channels returned by Where", "done channel", "Err"])
p("T07", "A demultiplexed packet belongs to its receiver",
  "A packet received from a demultiplexer channel keeps its header values, adaptation field and payload bytes for as long as the receiver holds it, whatever the demultiplexer reads afterwards. Receivers may read the packets and payloads they got at any time without data race.",
  ["schedules", "histories"], "all interleavings of demultiplexer and receivers, all delays between receiving and reading a packet, any number of packets retained",
  "A test would have to hold a packet while the demultiplexer moves on; the suite's reader only counts or reads the PID at once, and is not run under the race detector.",
  ["ts/demuxer.go", "ts/packet_channel.go"], [("per-packet hand-over in Demuxer.Go", "ts/demuxer.go")],
  [("Packet.Payload", "slice into the packet's own buffer", "ts/packet.go")], ["packets received from channels"])
p("T08", "The payload reader yields exactly the matching payload bytes",
  "Reading a transport stream through a payload reader yields exactly the concatenation, in order, of the payloads of the packets its tester accepts: no byte lost, repeated, reordered or taken from another packet, including when packets without payload occur. The bytes do not depend on the sizes of the read buffers or on how the source chunks its data, and the end of the stream is reported as end-of-file after the last byte.",
  ["inputs", "histories"], "all streams, testers, sequences of read sizes and source chunkings",
  "The suite reads all-0xFF payloads or checks only a total length, always with full-packet payloads.",
  ["ts/payload_reader.go", "ts/packet.go"], [("payloadReader.Read, remainder buffer", "ts/payload_reader.go")],
  [("remainder", "undelivered bytes of the current packet", "ts/payload_reader.go")], ["io.Reader returned by ts.NewPayloadReader"])
p("T09", "The payload reader honours its skip and take window",
  "With a skip-until test the payload reader starts at the first packet that test accepts (included); with a take-while test, set before reading or between two reads, it stops, reporting end-of-file, before the first later packet that test refuses. Inside the window it yields exactly the payloads of packets its own tester accepts, independent of read sizes, and a skip-until test that never accepts ends with the source's error instead of blocking.",
  ["inputs", "configurations"], "all streams, window tests and read sizes, windows that never open or never close",
  "No test sets a window on a payload reader.",
  ["ts/payload_reader.go", "ts/transport_stream_control.go"], [("SkipUntil/TakeWhile, realign", "ts/payload_reader.go")],
  [("closed", "window has ended", "ts/payload_reader.go")], ["io.Reader returned by ts.NewPayloadReader"])
p("T10", "The payload unit reader separates every payload unit",
  "Reading through a payload unit reader yields, for each unit (an accepted unit-start packet and the accepted packets up to the next one), exactly the unit's payload bytes followed by the end-of-packet signal, for every unit of the stream including the last; packets before the first unit start are dropped. After the last unit the reader reports the source's end or error, and neither bytes nor boundaries depend on read sizes or source chunking.",
  ["inputs", "histories"], "all streams, unit sizes, interleavings with other PIDs, read sizes and chunkings",
  "The payload unit reader has no test at all.",
  ["ts/payload_unit_reader.go"], [("fill / Read state machine", "ts/payload_unit_reader.go")],
  [("buffer", "the current unit", "ts/payload_unit_reader.go"), ("state", "ready or drained", "ts/payload_unit_reader.go")], ["io.Reader returned by ts.NewPayloadUnitReader", "ts.EOP"])
p("T11", "Channel adapters preserve content, order and completion",
  "Turning a channel of transport or PES packets into a channel of payloads delivers each packet's payload once, in order, and closes when the input closes. Turning a channel of transport packets into payload units delivers each unit (from one unit-start packet up to the next, or to the end of input) once, in order, with exactly its bytes, drops what precedes the first unit start, and closes; what was delivered is not changed later.",
  ["inputs", "schedules"], "all packet sequences, producer and consumer speeds",
  "No test uses any of the channel adapters.",
  ["ts/packet_channel.go", "pes/packet_channel.go"], [("PayloadOnly, PayloadUnit goroutines", "ts/packet_channel.go")], [], ["adapter output channels"])
p("P01", "PES packets decode to exactly what was coded",
  "For every sequence of well-formed PES packets, reading packets yields exactly the coded stream id, length, header flags, presentation and decoding time stamps, extension values and payload bytes, and consumes exactly the packet, whatever optional header fields, stuffing and stream type it carries, with bounded or unbounded length. Padding yields no payload, and nothing is carried over from an earlier packet; malformed markers, stuffing and start codes give the documented errors, and so do lengths that do not fit, without anything behind the packet being read.",
  ["inputs", "histories"], "all stream ids, header field combinations, time stamps, header stuffing, payload lengths, orders of packets on one reused object",
  "One fixed packet is parsed and only the presence of an extension is asserted.",
  ["pes/packet.go", "pes/header.go", "pes/extension.go", "pes/stream_assigments.go"],
  [("Packet.Next, readHeader, readTimeStamp, readExtension, hasPESHeader", "pes/packet.go")],
  [("Packet", "parsed packet, reusable", "pes/packet.go")], ["pes.NewPacket", "pes.Packet fields"])
p("P02", "The PES payload reader yields exactly the elementary stream",
  "Reading a PES stream through the payload reader yields exactly the concatenation of the packets' payloads, in order, with padding contributing nothing, whatever the read sizes and source chunking. A stream that stops being well-formed ends with an error after all complete packets' bytes were delivered.",
  ["inputs", "histories", "fault_sequences"], "all PES streams, read sizes, chunkings and truncation points",
  "The PES payload reader has no test.",
  ["pes/payload_reader.go", "pes/packet.go"], [("payloadReader.Read with remainder", "pes/payload_reader.go")],
  [("remainder", "undelivered payload bytes", "pes/payload_reader.go")], ["io.Reader returned by pes.NewPayloadReader"])
p("S01", "Pack and system headers decode to exactly the coded values",
  "For every well-formed pack header, with any stuffing and with or without a system header with any number of stream entries, the reported clock reference, mux rate, bounds, flags and stream entries equal the coded values and exactly the header is consumed. A missing start code or marker bit is reported as the documented error.",
  ["inputs"], "all field values, stuffing lengths, stream lists, and every single missing marker",
  "The program stream package has no tests.",
  ["ps/pack_header.go", "ps/system_header.go", "ps/start_code.go"], [("NewPackHeader, readSystemHeader", "ps/pack_header.go")], [], ["ps.NewPackHeader", "ps.PackHeader fields"])
p("S02", "The program stream reader yields exactly the packets' payloads",
  "Reading a program stream through the pack reader yields exactly the concatenation of its packets' payloads in stream order up to the program end code, then end-of-file, whatever the read sizes, pack sizes (including packs without packets) and source chunking. A stream that ends or breaks earlier yields all complete packets' bytes and then an error or end-of-file; a read never reports neither data nor error forever.",
  ["inputs", "histories", "fault_sequences"], "all program streams, read sizes, chunkings and truncation points",
  "The program stream package has no tests.",
  ["ps/pack_reader.go", "ps/pack_header.go", "pes/packet.go"], [("packreader.Read", "ps/pack_reader.go")],
  [("remainder", "undelivered payload bytes", "ps/pack_reader.go")], ["io.Reader returned by ps.NewPackReader"])
p("S03", "The program stream decoder hands out every pack and packet once",
  "The concurrent program stream decoder delivers every pack in order and, on each pack's packet channel, exactly that pack's packets in order, then closes the packet channel before the next pack, closes the pack channel at the end and signals done once. Done is true and the error nil exactly when the stream was well-formed up to its program end code; all of this holds without data race for any consumer speed.",
  ["inputs", "schedules", "fault_sequences"], "all program streams, truncations, and interleavings of the two internal goroutines with the consumers",
  "The program stream package has no tests.",
  ["ps/decoder.go", "ps/pack.go"], [("decoder.Go and readPack goroutines, packComplete handshake", "ps/decoder.go")],
  [("err", "final error", "ps/decoder.go")], ["Decoder.Packs", "Pack.Packets", "done channel", "Decoder.Err"])
p("V01", "Video headers are reported with exactly the coded values",
  "For every legal sequence header and extension, group-of-pictures header and picture header, the decoder reports exactly the coded picture size (including the size extensions), rate and buffer fields, time code, closed and broken flags, picture type and temporal reference, and leaves the stream at the next start code. Time codes print as HH:MM:SS:FF, with ';' before the pictures field for drop-frame.",
  ["inputs"], "all legal field values and combinations of optional matrices and extra information",
  "One sequence header is parsed; extensions, GOP and picture headers and time codes are not tested.",
  ["video/sequence_header.go", "video/sequence_extension.go", "video/group_of_pictures_header.go", "video/picture_header.go", "video/picture_coding_extension.go", "video/picture_coding_type.go", "video/video_sequence.go"],
  [("ReadSequenceHeader, ReadGOPHeader, picture_header, Size, TimeCode", "video/sequence_header.go")], [], ["Size", "TimeCode", "header structs promoted by VideoSequence"])
p("V02", "Start code search and assertion are exact",
  "Aligning to a start code leaves the stream exactly at the first byte-aligned occurrence of that code at or after the current position, consuming nothing beyond it, or ends with the source's error if there is none. Checking for a start code or extension id never consumes input; asserting one consumes exactly the code when present and nothing, with the documented error, when absent.",
  ["inputs"], "all byte strings, all start codes and extension ids, all starting bit offsets",
  "No test aligns, checks or asserts a code other than through one well-formed header.",
  ["video/video_sequence.go", "video/start_codes.go", "video/extension_id.go", "ps/start_code.go"], [("AlignTo, Check, Assert", "video/video_sequence.go")], [], ["stream position after the call", "errors"])
p("V03", "Intra pictures reconstruct as the MPEG-2 standard defines",
  "Every legal intra-coded 4:2:0 frame picture decodes to the picture the standard defines, within the permitted inverse-transform tolerance of one level per sample, for all coefficient codes, escape codes, DC sizes and precisions, both coefficient tables, both scans, both quantiser scale tables and all scale codes, saturation and mismatch control, and frame or field organised transform blocks.",
  ["inputs"], "all legal intra pictures: coefficient values, picture coding parameters, macroblock types and sizes",
  "No test decodes a picture.",
  ["video/block.go", "video/dtc_coefficients.go", "video/decode_block.go", "video/dc_dct_predictors.go", "video/macroblock.go", "video/macroblock_type.go", "video/quantiser_scale_table.go", "video/idct.go", "video/slice.go"],
  [("block.read, decode_block, idct, updateFrameSlice", "video/block.go")],
  [("dcDctPredictors", "DC prediction state", "video/dc_dct_predictors.go")], ["frames returned by VideoSequence.Next"])
p("V04", "The inverse transform meets the IEEE 1180 accuracy limits",
  "Over the IEEE 1180 test distributions, and over sparse, extreme and all-zero blocks, the reconstructed residuals differ from the exact inverse cosine transform by at most one level per sample, with mean and mean-square errors (per position and overall) within the limits of IEEE 1180-1990.",
  ["inputs"], "random coefficient blocks drawn as IEEE 1180 prescribes, sign-inverted, sparse and extreme blocks, observed through decoded pictures",
  "No test runs the inverse transform; accuracy is a statistical statement over many blocks.",
  ["video/idct.go", "video/decode_block.go", "video/block.go"], [("idct fixed-point butterfly", "video/idct.go")], [], ["frames returned by VideoSequence.Next"])
p("V05", "Motion-compensated pictures reconstruct as the standard defines",
  "Every legal P and B frame picture with frame-based or field-based prediction decodes to the picture the standard defines given its decoded reference frames: vector prediction, wrap-around and ranges, half-sample interpolation and its rounding, chrominance vector scaling, forward, backward and averaged prediction, coded and uncoded blocks, field-organised residuals and concealment vectors. Blocks without residual are exact; blocks with residual lie within the inverse-transform tolerance.",
  ["inputs", "histories"], "all legal sequences of macroblock types and vectors, f_codes, picture types and sizes",
  "No test decodes a picture; prediction state depends on the whole history of a slice.",
  ["video/motion_compensation.go", "video/motion_vectors.go", "video/motion_vector_info.go", "video/macroblock.go", "video/macroblock_type.go", "video/coding_block_pattern.go", "video/frame_store.go"],
  [("motion_compensation, update_actual, coded_block_pattern", "video/motion_compensation.go")],
  [("motionVectorData", "vector predictors of the slice", "video/motion_vectors.go")], ["frames returned by VideoSequence.Next"])
p("V06", "Slices and skipped macroblocks land where the standard puts them",
  "However a picture is divided into slices, whatever address increments (including escapes) and runs of skipped macroblocks it uses, and however tall it is (including the slice position extension above 2800 lines), every macroblock is reconstructed at its own place: skipped macroblocks of P pictures copy the reference unchanged and those of B pictures repeat the previous macroblock's prediction, and predictor resets at slices and skips follow the standard.",
  ["inputs", "histories"], "all slice divisions, skip runs, picture widths and heights",
  "No test decodes a picture.",
  ["video/slice.go", "video/macroblock.go", "video/macroblock_addressing.go", "video/copy_macroblocks.go"],
  [("slice, macroblock, pframe_copy_macroblocks, bframe_copy_macroblocks", "video/slice.go")], [], ["frames returned by VideoSequence.Next"])
p("V07", "Frames come out in display order, each exactly once",
  "Asking repeatedly for the next frame returns every coded picture of the sequence exactly once, in display order, for any arrangement of I, P and B pictures into open and closed groups of pictures, with or without group headers, repeated sequence headers and any number of pictures (including temporal-reference wrap-around), and each picture is predicted from the right references.",
  ["inputs", "histories"], "all legal coding orders and group structures, sequences of more than 1024 pictures",
  "No test asks for a frame; the order depends on the whole history.",
  ["video/video_sequence.go", "video/frame_provider.go", "video/frame_store.go"], [("Next, frameStore.set/add/tryGet/gop", "video/video_sequence.go")],
  [("frameStore", "the two reference frames", "video/frame_store.go"), ("frameCounter", "next temporal reference to show", "video/video_sequence.go")], ["frames returned by VideoSequence.Next", "PictureHeader"])
p("V08", "Quantisation matrices are applied as coded and stay in force",
  "Inverse quantisation always uses the matrices in force by the standard: the defaults after a sequence header that loads none, the values loaded (in zigzag order) by a sequence header or a later quant matrix extension, separately for intra and non-intra blocks, kept until replaced, and reset by the next sequence header.",
  ["inputs", "histories"], "all matrix contents and all orders of sequence headers, matrix extensions and pictures",
  "One test checks the raw transmitted values of one matrix; none checks their use or lifetime.",
  ["video/sequence_header.go", "video/quant_matrix_extension.go", "video/quantisation_matrix.go", "video/decode_block.go"],
  [("quantisationMatricies", "video/sequence_header.go")], [("quantisationMatricies", "matrices in force", "video/video_sequence.go")], ["frames returned by VideoSequence.Next"])
p("V09", "Optional syntax never changes the decoded pictures",
  "Inserting optional elements the standard allows (user data, sequence display, copyright, picture display and quant matrix extensions, extra picture and slice information, composite display fields, zero stuffing before start codes, repeated sequence headers) leaves the decoded frames exactly as they are without them.",
  ["inputs"], "all placements, lengths and contents of optional elements",
  "No test decodes a stream, with or without optional elements.",
  ["video/extension_and_user_data.go", "video/user_data.go", "video/sequence_display_extension.go", "video/picture_header.go", "video/slice.go", "video/next_start_code.go", "video/picture_coding_extension.go"],
  [("extension_and_user_data, next_start_code", "video/extension_and_user_data.go")], [], ["frames returned by VideoSequence.Next"])
p("V10", "A returned frame never changes afterwards",
  "The image returned for a frame keeps every sample value for as long as the caller holds it, while any number of further frames are decoded from the same or other decoders; distinct frames never share sample storage.",
  ["histories", "schedules"], "all sequences of I, P and B pictures, any number of retained frames",
  "A test would have to retain frames while decoding on; no test decodes a frame.",
  ["video/picture_data.go", "video/frame_store.go", "video/video_sequence.go", "video/copy_macroblocks.go"], [("createFrameBuffer per picture", "video/picture_data.go")],
  [("frameStore", "references shared with the caller", "video/frame_store.go")], ["image.YCbCr returned by Next"])
p("V11", "Independent decoders do not influence each other",
  "Decoders running at the same time in different goroutines, on the same or different streams, each produce exactly the frames they produce alone, without data races; the same stream always decodes to the same frames.",
  ["schedules", "inputs"], "all interleavings of any number of decoders, parsers and readers sharing no caller data",
  "No test runs two decoders or repeats a decode; the shared tables are package state.",
  ["video/dtc_coefficients.go", "video/macroblock_type.go", "video/quantisation_matrix.go", "video/video_sequence.go"], [("package-level decoding tables are read-only", "video/dtc_coefficients.go")],
  [("package-level tables", "shared by all decoders", "video/dtc_coefficients.go")], ["frames returned by concurrent decoders", "race detector reports"])
p("V12", "Decoding does not depend on how the source delivers its bytes",
  "For the video decoder and for the packet and header parsers of every container layer, the result (values, frames, errors and their order) is the same whether the source delivers one byte at a time, any random chunk sizes, occasional empty reads, or everything at once, and whether it reports its end or its failure separately or together with its last bytes (where the library is given the source itself and not a bit reader).",
  ["inputs", "schedules"], "all chunkings of all streams, ends and failures of the source behind or together with its last bytes",
  "Every test reads from memory in one chunking.",
  ["video/video_sequence.go", "video/next_start_code.go", "ts/packet.go", "pes/packet.go", "ps/pack_header.go"], [("all input goes through the bit reader", "video/video_sequence.go")], [], ["frames, packets and errors"])
p("V13", "Frame images have the geometry the headers declare",
  "Every frame returned for a sequence of any legal size is a 4:2:0 image whose bounds start at the origin and cover the coded picture: the width rounded up to 16, the height rounded up to 16 for progressive and to 32 for interlaced sequences, with sample planes large enough for those bounds.",
  ["inputs", "configurations"], "all sizes including those that are not multiples of 16 and those using the size extension bits",
  "No test decodes a frame.",
  ["video/picture_data.go", "video/video_sequence.go", "video/chroma_format.go"], [("createFrameBuffer, Size", "video/picture_data.go")], [], ["image.YCbCr bounds, strides and planes"])
p("V14", "Sequence ends and unsupported streams are reported as such",
  "After the last frame before a sequence end code the decoder reports end-of-sequence, exactly once per end code, and decoding then continues with a following sequence as if it stood alone; a group or picture that follows the end code without a sequence header is an error, not a frame; a stream that ends without one reports end-of-file. MPEG-1 video and coding tools outside the supported subset (4:2:2 and 4:4:4 sampling, field pictures, dual-prime prediction, scalable extensions, D and reserved picture types) are reported as errors, never as frames or crashes.",
  ["inputs", "histories"], "all concatenations of sequences, and streams using each unsupported tool",
  "No test reads to the end of a sequence.",
  ["video/frame_provider.go", "video/video_sequence.go", "video/coding_block_pattern.go", "video/motion_vectors.go", "video/extension_and_user_data.go", "video/sequence_scalable_extension.go"],
  [("step: EOS, ErrUnsupportedVideoStream_ISO_IEC_11172_2", "video/frame_provider.go")], [], ["errors returned by Next"])
p("X01", "Container layers compose without changing the video",
  "Video carried in PES packets (bounded or unbounded) inside a transport stream with any packetisation, adaptation fields and other programs interleaved, or inside a program stream, decodes through the documented chain of readers to exactly the frames and errors of the bare video stream, and the elementary stream bytes coming out of the chain are exactly those put in.",
  ["inputs", "configurations"], "all packetisations at both layers, unit sizes down to a few bytes, interleavings and padding",
  "No test connects two layers.",
  ["ts/payload_unit_reader.go", "ts/payload_reader.go", "pes/payload_reader.go", "pes/packet.go", "ps/pack_reader.go", "video/video_sequence.go"],
  [("EOP signalling between ts and pes", "pes/packet.go"), ("io.Reader contracts of each layer", "pes/payload_reader.go")], [], ["bytes from the reader chain", "frames"])
p("X02", "Truncated streams yield a correct prefix and then an error",
  "For every stream cut at any byte, every layer first delivers only results that the complete stream also delivers, in the same order, including everything that was complete (with look-ahead of at most one start code for video; the end of the stream also ends the payload unit being read), and then reports an error; it never crashes, blocks, invents data or reports success.",
  ["inputs", "fault_sequences"], "all truncation points of transport, PES, program and video streams",
  "One packet cut after four bytes is the only truncation tested.",
  ["video/frame_provider.go", "video/slice.go", "video/next_start_code.go", "ts/packet.go", "pes/packet.go", "ps/pack_reader.go", "ps/decoder.go"],
  [("error returns of every bit read", "video/slice.go")], [], ["results before the error, the error"])
p("X03", "Hostile input cannot crash, hang or exhaust any decoder",
  "For every byte string, however corrupt, each parser, reader and decoder in the library terminates with results or errors: it does not panic, deadlock or loop without consuming input, and it allocates no more memory than is proportionate to the bytes read and the declared picture size.",
  ["inputs", "fault_sequences"], "arbitrary bytes, mutated valid streams, and streams violating one syntax or range rule at a time, at every layer",
  "The suite feeds no malformed input except one truncated packet.",
  ["ts/adaptation_field.go", "ts/packet.go", "pes/packet.go", "pes/header.go", "pes/extension.go", "ps/pack_reader.go", "video/block.go", "video/macroblock.go", "video/slice.go", "video/motion_compensation.go", "video/copy_macroblocks.go", "video/extension_and_user_data.go"],
  [("length and range validation before use", "video/block.go")], [], ["panics, deadlocks, read counts, allocation volume"])
p("V15", "Decoding can start and go on at any entry point",
  "Aligning to a sequence header that is followed by a group of pictures, in a new decoder that starts anywhere in front of it or in one that has already returned frames or was stopped by damage in front of the entry point, or aligning to the header of a later group in the sequence that such a decoder is in (as long as no matrices changed in pictures), makes the decoder return from there on (after at most one picture it had already decoded ahead) the same frames, sequence ends and final error as decoding the whole stream does: every picture exactly once and in display order, and every picture that depends on nothing in front of the entry point with the same samples.",
  ["inputs", "histories"], "streams with any number of sequences, groups (open and closed) and repeated sequence headers, entered at any byte or bit offset, after any number of frames or after damage of any picture",
  "The suite decodes no video frame at all.",
  ["video/video_sequence.go", "video/frame_provider.go", "video/frame_store.go"],
  [("VideoSequence.AlignTo", "video/video_sequence.go"), ("reset at sequence and group headers", "video/frame_provider.go")], [], ["frames and errors of Next after AlignTo"])
p("V16", "An illegal code is reported and never decoded",
  "When a stream that is legal up to there contains a code that the standard does not have or forbids there (a string that is no code word of the table in force for address increments, macroblock types, motion codes, coded block patterns or coefficients; more coefficients than a block has; a macroblock or slice outside of the picture; a motion vector out of range or pointing outside of the reference picture; reserved motion types, vector range codes, picture types, picture structures and chroma formats; a zero marker bit of a sequence header, sequence extension, display extension or concealment vector; set reserved bits of a slice), Next returns an error that is not an end of input or sequence, after exactly the frames that the pictures in front of the damaged one complete, unaltered, and whatever follows the code.",
  ["inputs"], "every illegal code at any place of any stream, followed by anything: nothing, the codes that would follow a legal one, or arbitrary bits",
  "The suite decodes no video frame at all, let alone a damaged one.",
  ["video/macroblock.go", "video/macroblock_type.go", "video/macroblock_addressing.go", "video/motion_vectors.go", "video/motion_vector_info.go", "video/coding_block_pattern.go", "video/dtc_coefficients.go", "video/block.go", "video/slice.go", "video/motion_compensation.go", "video/sequence_header.go", "video/sequence_extension.go", "video/picture_data.go"],
  [("error results of every code decoder", "video/macroblock.go"), ("reserved values", "video/motion_vector_info.go"), ("bounds of slices, addresses and vectors", "video/slice.go"), ("marker_bit", "video/next_start_code.go")], [], ["frames and error of Next"])
p("X04", "A failure of the source reaches the caller unchanged",
  "When the underlying source fails with an error of its own at any byte, once or for good, every parser, reader and decoder, alone and composed, reports exactly that error (not a syntax error, an end of input or an end of packet), after delivering everything that was complete before it and nothing that the undamaged stream does not also deliver.",
  ["inputs", "fault_sequences"], "every position of a transient or lasting source failure in streams of every layer and of the documented compositions of layers",
  "The suite has no failing source.",
  ["pes/header.go", "pes/extension.go", "pes/payload_reader.go", "ts/payload_unit_reader.go", "ts/payload_reader.go", "ts/demuxer.go", "ps/pack_reader.go", "ps/decoder.go", "video/frame_provider.go", "video/macroblock.go"],
  [("error propagation in every read", "pes/header.go")], [], ["errors returned by Next, Read and Err"])
p("X05", "Endless streams run in bounded space and leave nothing behind",
  "Processing a stream of any length takes live memory that does not grow with its length, gives the same results for the same bytes however much came before, and leaves no goroutine of the library running once the end was signalled and everything was received.",
  ["inputs", "schedules"], "streams of every layer and composition repeated many times, with readers, channels and consumers of any speed, ending by end-of-file or by an error",
  "The suite processes a few packets per test and looks neither at memory nor at goroutines.",
  ["ts/demuxer.go", "ts/packet_channel.go", "ts/payload_reader.go", "ts/payload_unit_reader.go", "pes/packet_channel.go", "pes/payload_reader.go", "ps/decoder.go", "ps/pack_reader.go", "video/frame_store.go"],
  [("buffers and channels of the readers", "ts/payload_reader.go"), ("the two stored reference pictures", "video/frame_store.go")], [], ["live heap after collection at marks in the stream", "goroutine count and stacks after the end", "results per repetition"])
p("X06", "The end of a stream stays its end",
  "Once a parser, reader or decoder has reported the end of its input, or an error of a source that keeps failing, every further call reports an end of input or that same error again, and never a value, byte, unit end, sequence end or frame.",
  ["inputs"], "streams of every layer and of the documented compositions, complete, cut at any byte or with a source that fails for good at any byte, closed windows and ended programs with more data behind them, read again any number of times with any buffer size",
  "No test calls a reader or decoder again after it has reported the end.",
  ["ts/packet.go", "ts/payload_reader.go", "ts/payload_unit_reader.go", "pes/packet.go", "pes/payload_reader.go", "ps/pack_header.go", "ps/pack_reader.go", "video/frame_provider.go", "video/video_sequence.go"],
  [("pending errors of the readers", "ts/payload_reader.go"), ("the end of the program", "ps/pack_reader.go"), ("stored pictures at the end of the stream", "video/frame_provider.go")], [], ["values, bytes and errors of calls after the end"])
p("X07", "What a reader yields does not depend on how it is read",
  "The library's readers, alone and composed, keep the io.Reader contract: each yields the same bytes, unit ends and final error whatever buffers and standard consumers (io.ReadAll, io.Copy, io.ReadFull, io.LimitReader, bufio, empty reads, several consumers in turn) read it, never claims more bytes than the buffer holds, changes no byte outside the buffer it was given nor that buffer after returning, is not disturbed by what the caller or source leave in their buffers, and never goes on yielding neither data nor an error.",
  ["inputs", "histories"], "streams of every layer with a reader and their documented compositions, complete, cut, damaged or failing, read with any sequence of buffer sizes and by any standard consumer",
  "The tests read each stream one or two ways, with buffers of fixed size, and look at nothing but the bytes returned.",
  ["ts/payload_reader.go", "ts/payload_unit_reader.go", "pes/payload_reader.go", "ps/pack_reader.go"],
  [("what is left of a packet between two reads", "ts/payload_reader.go"), ("the buffered unit and its end", "ts/payload_unit_reader.go"), ("what is left of a packet between two reads", "pes/payload_reader.go"), ("what is left of a packet between two reads", "ps/pack_reader.go")], [], ["bytes, unit ends and final error per consumer", "guard bytes around every buffer, during and after the call"])
p("X08", "Objects used side by side do not disturb each other",
  "Parsers, readers, demultiplexers and decoders that are in use at the same time, of the same or of different kinds, each over its own source, deliver what each would deliver alone, however their calls interleave, without data races between them, and a result that the caller keeps does not change when other objects go on.",
  ["inputs", "schedules"], "two to five objects of any layers and compositions over complete, cut and damaged streams, switched between at any read of a source or run in parallel",
  "No test uses two objects at the same time.",
  ["ts/packet.go", "ts/payload_reader.go", "ts/demuxer.go", "pes/packet.go", "pes/header.go", "pes/extension.go", "ps/pack_header.go", "ps/pack_reader.go", "ps/decoder.go", "video/dtc_coefficients.go", "video/video_sequence.go", "video/frame_provider.go"],
  [("decoders of codes shared by all sequences", "video/dtc_coefficients.go"), ("default matrices", "video/quantisation_matrix.go"), ("state of a demultiplexer", "ts/demuxer.go")], [], ["event list of each object alone and among others", "hashes of kept results afterwards", "race reports"])
p("X09", "Results come as soon as their bytes are there",
  "No layer waits for input that a result does not need: when the source is asked for bytes beyond a point of a legal stream, every packet, pack, unit, picture and byte of data that the bytes up to there complete has been delivered (asking for no bytes at all counts too, for it blocks a pipe; for pictures: those that precede it in display order and one start code are needed as well; a composition may have a few bytes under way).",
  ["inputs", "histories"], "legal streams of every layer and of the compositions, from a source that stops at any byte, in particular exactly where a result is complete, and goes on after that",
  "The tests read from files and memory, where input that is asked for too early is always there.",
  ["ts/packet.go", "ts/payload_reader.go", "ts/payload_unit_reader.go", "ts/demuxer.go", "pes/packet.go", "pes/payload_reader.go", "ps/pack_header.go", "ps/pack_reader.go", "ps/decoder.go", "video/frame_provider.go", "video/video_sequence.go"],
  [("when data of a packet is handed out", "pes/payload_reader.go"), ("when a frame is handed out", "video/frame_provider.go"), ("end of a unit", "ts/payload_unit_reader.go")], [], ["results delivered at each request of the source for more"])
p("X10", "Results do not depend on the word size of the platform",
  "On a 32-bit platform the library delivers for every stream, legal, damaged or arbitrary, the same values, bytes, frames and errors as on a 64-bit one, and what the other properties promise of values, bytes, frames, errors and bounds holds there too.",
  ["inputs"], "legal, damaged and arbitrary streams of every layer, decoded by a build whose int, uint and uintptr have 32 bits and by one where they have 64",
  "The tests run on the platform of whoever runs them, which has had 64 bits for long; 33-bit clocks, 42-bit references and 38-bit rates do not fit a 32-bit int.",
  ["ts/adaptation_field.go", "ts/payload_unit_reader.go", "pes/timestamp.go", "pes/payload_reader.go", "ps/pack_header.go", "video/idct.go", "video/motion_compensation.go", "video/frame_provider.go", "util/util.go"],
  [("what a reader returns", "ts/packet.go"), ("clock references", "ts/adaptation_field.go"), ("when a frame is handed out", "video/frame_provider.go")], [], ["results and errors of both builds", "what the monitors of the other properties observe in the 32-bit build"])
p("X11", "Reading has no effects besides its results",
  "A source of bytes is only read, from where it stands: the library does not close it, does not change its bytes, and delivers the same results and errors whatever else it can do (close, be moved, tell a length, give back bytes, write itself out), so that files at any position, pipes, connections, buffers and limited or combined readers all do. Nothing is printed or logged, no files are left open, and nothing else of the process (environment, working directory) changes, whether the stream is legal, cut or damaged.",
  ["inputs", "histories"], "legal, cut and damaged streams of every layer that takes a source, from every kind of reader of the standard library and from readers with all optional methods, at any position",
  "The tests read from whole files and memory, and look at what comes out only.",
  ["ts/payload_reader.go", "ts/payload_unit_reader.go", "ts/demuxer.go", "pes/payload_reader.go", "ps/pack_reader.go", "ps/decoder.go", "video/video_sequence.go", "video/log.go", "internal/bits/reader.go"],
  [("what the library calls on a source", "internal/bits/reader.go"), ("end of a stream", "ts/demuxer.go")], [], ["calls on the source", "standard output, standard error and log", "open files"])
p("X12", "All routes through the library give the same data",
  "For every stream, legal, damaged or arbitrary, the routes to the same data agree in what they deliver, its order, and where and how it ends: transport packets parsed one by one, into a reused object, by the demultiplexer, its channel adapters and the payload reader; payload units by hand, by channel and by the unit reader; PES packets one by one, by reader and by channel; program streams by header and packet parsers, decoder and pack reader; video decoded behind container readers or from the bytes they yield, from a sequence header found by the caller or by the decoder; headers read by the header readers or kept by the decoder.",
  ["inputs"], "legal, damaged, spliced and arbitrary streams of every layer, read by all routes",
  "The tests look at one route at a time, on legal streams; on a damaged stream there is no expected output to compare with, but the routes can be compared with each other.",
  ["ts/packet.go", "ts/payload_reader.go", "ts/payload_unit_reader.go", "ts/demuxer.go", "ts/packet_channel.go", "pes/packet.go", "pes/payload_reader.go", "pes/packet_channel.go", "ps/pack_reader.go", "ps/decoder.go", "ps/pack.go", "video/video_sequence.go", "video/frame_provider.go"],
  [("error of a packet", "ts/packet.go"), ("end of a unit", "ts/payload_unit_reader.go"), ("end of a pack", "ps/pack.go")], [], ["results of each route", "how each route ends"])
p("X13", "Work grows no faster than the input",
  "For every stream of every layer, legal or not, the processor time and the memory allocated to read it grow at most in proportion to its size, whichever part of it is what is large: a unit, a packet without a length, a pack, user data, junk before a sync byte, zero bytes before a start code, foreign packets, the number of packets, units, packs or pictures, or the size of a picture. No part of the input is handled over and over again as more of it arrives.",
  ["inputs"], "streams of any size, in which any one element is large or frequent",
  "The tests read streams of one size each; a copy of what was gathered so far for every further packet costs nothing noticeable on them and makes a large stream unreadable.",
  ["ts/packet.go", "ts/payload_reader.go", "ts/payload_unit_reader.go", "ts/packet_channel.go", "ts/demuxer.go", "pes/packet.go", "pes/payload_reader.go", "ps/pack_reader.go", "ps/pack.go", "video/user_data.go", "video/video_sequence.go", "video/slice.go"],
  [("unit put together", "ts/payload_unit_reader.go"), ("payload without a length", "pes/packet.go"), ("user data", "video/user_data.go")], [], ["processor time", "memory allocated"])
p("X14", "Each fault is reported by the error that stands for it",
  "For every stream that is correct up to one fault, in whatever way it is read, the error reported is the exported one that stands for that fault: a lost sync byte, an adaptation field or a part of it that is longer than its space; a missing start code prefix, marker bit or stuffing byte of a PES packet, or lengths that do not fit; a missing start code, marker bit or program end in a program stream; in video bytes between the elements, a wrong start code, a missing marker bit, a string that is no code word, too many coefficients, a slice or macroblock outside of the picture, an illegal motion vector, non-zero reserved bits, and each kind of video that is not supported (MPEG-1, chroma formats, field pictures, picture types, dual prime, scalability).",
  ["inputs"], "correct streams of every layer with one fault at any place",
  "The tests read correct streams. A caller that skips damage, or tells its user that a stream is of an unsupported kind, depends on telling the errors apart.",
  ["ts/packet.go", "ts/adaptation_field.go", "ts/payload_reader.go", "ts/demuxer.go", "pes/packet.go", "pes/header.go", "pes/extension.go", "pes/payload_reader.go", "ps/errors.go", "ps/pack_header.go", "ps/system_header.go", "ps/pack_reader.go", "ps/decoder.go", "video/frame_provider.go", "video/next_start_code.go", "video/start_codes.go", "video/slice.go", "video/macroblock.go", "video/picture_data.go", "video/extension_and_user_data.go"],
  [("ErrNoSyncByte", "ts/packet.go"), ("ErrInvalidLength", "pes/packet.go"), ("ErrProgramEndCodeNotFound", "ps/errors.go"), ("ErrUnsupportedChromaFormat", "video/picture_data.go")], [], ["errors by identity"])
p("X15", "Any bit reader that keeps the contract will do",
  "The parsers that take a bit reader give the same results, errors and positions over every implementation of its interface as over the default one, whatever it reads ahead and however few bytes its Read returns; they use it within its contract: never for more bits at a time than a call may give, or none, nothing that only an aligned reader can do, by one goroutine at a time, and no more once they have reported the end.",
  ["inputs", "configurations"], "legal and damaged streams read over bit readers by another hand",
  "All tests use one implementation, by one pattern of use.",
  ["ts/packet.go", "ts/adaptation_field.go", "pes/packet.go", "pes/header.go", "pes/extension.go", "ps/pack_header.go", "ps/system_header.go", "ps/pack.go", "ps/decoder.go", "ps/start_code.go", "video/start_codes.go", "video/extension_id.go", "video/sequence_header.go", "video/group_of_pictures_header.go"],
  [("private data", "pes/extension.go"), ("shared by decoder and packs", "ps/decoder.go")], [], ["calls of the bit reader", "results over each bit reader"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for q in P:
    assert len(q["title"]) <= 80, q["id"]
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")
