#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the text is easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": x.strip()} for x in state.split(", ")]
    if observe: a["observe_at"] = [observe]
    a["hook_needed"] = hook or None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "Decoding is bit-exact VP8",
 "For every valid VP8 stream that stays within the supported feature set (normal loop filter, no scaling, constant size), every shown frame decoded by alfalfa is byte-identical, over the whole display area and all three planes, to what a conforming VP8 decoder produces, and exactly the frames marked as shown are output, in order. This covers every header option: segmentation, loop-filter deltas and levels, quantizer deltas, token partitions, probability updates and saving, golden/altref updates and sign bias, all intra and inter prediction modes, motion vectors far outside the picture, and picture sizes that are not multiples of 16.",
 ["inputs", "histories"], "all streams of VP8 frames in the supported feature set, any picture size",
 "The two stable tests exercise the bool coder and state serialisation only; no picture is ever decoded. The space of header/mode/coefficient combinations and their histories is unbounded.",
 ["src/decoder/frame.cc", "src/decoder/macroblock.cc", "src/decoder/prediction.cc", "src/decoder/loopfilter.cc", "src/decoder/tokens.cc", "src/decoder/transform.cc", "src/decoder/quantization.cc", "src/decoder/decoder_state.hh", "src/decoder/probability_tables.cc", "src/decoder/vp8_prob_data.cc"],
 [("frame parse and state update", "DecoderState::parse_and_apply in src/decoder/decoder_state.hh"),
  ("reconstruction and loop filter", "Frame::decode, Frame::loopfilter in src/decoder/frame.cc"),
  ("reference update", "Frame::copy_to in src/decoder/frame.cc")],
 "decoder state: probability tables, segmentation, filter deltas, three reference rasters", "y4m written by vp8decode and rasters returned by the decoder")

prop("P02", "Encoder and decoder never drift apart",
 "For every sequence of pictures and every mix of encoding calls (fixed quantizer, target size, minimum SSIM; real-time or best quality; one or two passes; starting fresh or from an arbitrary decoder state), a decoder that starts from the encoder's starting state and decodes the produced frames ends each frame in exactly the state the encoder reports for itself: same pictures in all references, same probability and filter state, same state hash. A conforming third-party VP8 decoder shows the same pictures for a stream started with a key frame.",
 ["inputs", "histories"], "all picture sequences, sizes, quality settings and call mixes",
 "No encoder test is in the stable suite; drift depends on the history of frames and on content-dependent mode decisions.",
 ["src/encoder/encoder.cc", "src/encoder/encode_inter.cc", "src/encoder/encode_intra.cc", "src/encoder/serializer.cc", "src/encoder/bool_encoder.hh"],
 [("frame commit", "Encoder::write_frame / update_decoder_state"), ("bitstream writer", "Frame::serialize in src/encoder/serializer.cc")],
 "encoder's own decoder state and references", "Encoder::export_decoder, Encoder::minihash, bytes returned by the encode calls")

prop("P03", "Saved decoder state restores exactly",
 "Writing a decoder's state to a file and reading it back yields a decoder whose entropy, segmentation and filter state and last picture are equal to the original's and whose golden and alternate pictures equal that last picture; when the original's three pictures coincide the restored decoder is equal to it, has the same hash, and decodes any further frames identically. Hence a video cut at any such point and resumed from the saved state decodes exactly as if it had never been cut.",
 ["inputs", "histories"], "all decoder states reachable by decoding or encoding any stream, all cut points",
 "serdes-test uses default-constructed and lightly randomised pieces at one size; real reachable states combine segmentation maps, deltas, probabilities and pictures of any size.",
 ["src/decoder/decoder.cc", "src/decoder/enc_state_serializer.hh", "src/decoder/probability_tables.cc", "src/decoder/player.cc", "src/frontend/vp8decode.cc"],
 [("state writer/reader", "EncoderStateSerializer / EncoderStateDeserializer"), ("per-part serialisation", "DecoderState, References, Segmentation, FilterAdjustments, ProbabilityTables ::serialize/deserialize")],
 "serialised decoder state file", "state files; decoders rebuilt from them")

prop("P04", "Decoding is a pure function of state and frame",
 "The picture and the new state produced by decoding a frame depend only on the decoder's state and the frame's bytes, never on what the process decoded before or on how buffers are recycled: repeating the decode from a copy of the state, in another order or another process, gives identical pictures, states and hashes. Decoding with one decoder never alters a copy of it, nor any picture handed out earlier and still held.",
 ["inputs", "histories", "schedules"], "all interleavings of copy, decode, hold and drop operations over any number of decoders and streams",
 "Aliasing through recycled buffers and cached hashes shows only in particular hold/drop/copy histories.",
 ["src/decoder/decoder.cc", "src/decoder/raster_handle.cc", "src/decoder/raster_handle.hh", "src/decoder/frame.cc", "src/util/optional.hh", "src/util/2d.hh"],
 [("raster recycling", "RasterPool in src/decoder/raster_handle.cc"), ("state copy", "Decoder copy, Segmentation copy constructor"), ("hash cache", "HashCachedRaster")],
 "raster pool free list, cached raster hashes, decoder copies", "contents and hashes of held rasters; decoder equality")

prop("P05", "State identity: equal states and only they match",
 "Two decoders compare equal, and have equal hashes, exactly when every component that can influence future output is the same: picture size, entropy tables, segmentation settings and map, loop-filter deltas and each of the three reference pictures. The hash is the same in every process and after copying or restoring, so a chunk tagged with the short hash of the state it expects is accepted by every decoder in that state (an untagged chunk by any decoder) and refused by decoders in other states.",
 ["inputs", "histories"], "all pairs of reachable decoder states, including pairs differing in a single component",
 "Equality and hash over a composite state must be injective in practice for every component; tests compare a handful of states.",
 ["src/decoder/decoder.cc", "src/decoder/probability_tables.cc", "src/decoder/raster_handle.cc", "src/util/raster.cc", "src/frontend/decode-bundle.cc", "src/frontend/xc-enc.cc"],
 [("state hash", "DecoderState::hash, DecoderHash::hash, Decoder::minihash"), ("equality", "operator== of Decoder, DecoderState, References")],
 "decoder state and reference pictures", "get_hash, minihash, operator==, IVF header expected hash")

prop("P06", "Parsing and re-serialising a frame loses nothing",
 "Parsing any valid frame and writing it back yields a frame that parses to the same content (headers, modes, motion vectors, coefficients) and decodes from the same state to the same picture and the same next state, by alfalfa and by any conforming decoder. Chunk termination only changes the last inter frame of a chunk to refresh all references: all pictures stay the same and the emitted state is the state a decoder of the rewritten chunk ends in; removing residues changes only the residues.",
 ["inputs", "histories"], "all parsable frames and streams",
 "Round trip must hold for every combination of syntax elements; encode-loopback only round-trips raw bools and trees.",
 ["src/encoder/serializer.cc", "src/encoder/bool_encoder.hh", "src/encoder/encode_tree.cc", "src/frontend/xc-terminate-chunk.cc", "src/frontend/xc-zero-out-residues.cc", "src/decoder/frame.cc"],
 [("frame serialisation", "Frame::serialize"), ("bool encoder", "BoolEncoder in src/encoder/bool_encoder.hh")],
 "frame object", "re-serialised IVF files decoded by alfalfa and by libvpx")

prop("P07", "Rebased chunks join into one continuous video",
 "Re-encoding a chunk against any given starting state yields frames with no key frame at the start that decode from exactly that state, in step with the state written out for the next chunk; so chunks processed independently and rebased one after another concatenate into a single stream that any conforming decoder plays through, showing the same pictures as decoding chunk by chunk from the saved states. The re-encoded pictures remain close to the originals, and merging keeps every frame, in order, unchanged.",
 ["inputs", "histories"], "all chunkings of all videos, all starting states, all key-frame weights and extra-frame settings",
 "The pipeline crosses four programs and state files; its guarantee concerns every chunk boundary and content.",
 ["src/encoder/reencode.cc", "src/frontend/xc-enc.cc", "src/frontend/xc-terminate-chunk.cc", "src/frontend/xc-merge.cc", "src/frontend/decode-bundle.cc", "src/frontend/vp8decode.cc"],
 [("rebase", "Encoder::reencode, reencode_as_interframe, update_residues"), ("merge", "src/frontend/xc-merge.cc")],
 "state files passed between chunks, expected-state hash in the IVF header", "IVF and state files written by the tools")

prop("P08", "Hostile bitstreams cannot corrupt or crash the decoder",
 "Feeding any byte string whatsoever as a compressed frame, in any order and from any decoder state, with or without error concealment, either decodes or is rejected with an ordinary exception: no out-of-bounds access, use of freed or uninitialised memory, undefined arithmetic, abort, hang or unbounded allocation.",
 ["inputs", "histories"], "all byte strings as frames, after any history of valid and invalid frames",
 "The input space is all byte strings; memory errors need not change any visible output.",
 ["src/decoder/uncompressed_chunk.cc", "src/decoder/bool_decoder.hh", "src/decoder/decoder_state.hh", "src/decoder/frame.cc", "src/decoder/macroblock.cc", "src/decoder/prediction.cc", "src/decoder/tokens.cc", "src/util/chunk.hh", "src/util/2d.hh"],
 [("frame tag parsing", "UncompressedChunk"), ("bounds-checked views", "Chunk"), ("far motion vectors", "predictors in src/decoder/prediction.cc")],
 "decoder heap", "AddressSanitizer/UBSan reports, exceptions, process exit status")

prop("P09", "Hostile files and packets are rejected, never dangerous",
 "Any file content given as an IVF video, a Y4M video, a saved decoder state or a JPEG picture, and any datagram given as a video packet or acknowledgement, is either read or rejected with an ordinary exception: no memory error, undefined behaviour, abort, hang, or memory use out of proportion to the input (beyond pictures of the size it declares).",
 ["inputs"], "all file contents and datagrams, including truncated and corrupted valid ones",
 "Input space is all byte strings; the damage (overreads, huge allocations) is invisible to example tests.",
 ["src/util/ivf.cc", "src/util/chunk.hh", "src/util/file.cc", "src/input/yuv4mpeg.cc", "src/input/jpeg.cc", "src/decoder/enc_state_serializer.hh", "src/net/packet.cc"],
 [("IVF index", "IVF::IVF"), ("Y4M header parse", "YUV4MPEGHeader/YUV4MPEGReader"), ("packet parse", "Packet and AckPacket constructors")],
 None, "AddressSanitizer/UBSan reports, exceptions, peak memory")

prop("P10", "Partial frames are concealed safely",
 "With error concealment enabled, complete frames decode exactly as without it, and any inter frame cut short at any byte yields a picture of full size without crashing; macroblocks whose modes and motion vectors did not arrive are taken from the last picture rather than from invented data, those whose data had arrived decode as in the complete frame, and missing coefficients count as bytes of zero exactly as in a complete frame whose token partitions end there, so what is shown and stored is a function of the received prefix and the state. A frame whose header did not arrive (for a key frame: its first ten bytes) shows the last picture again.",
 ["inputs", "fault_sequences"], "all frames, all cut points, all prior states",
 "Every cut point of every frame is a different fault; nothing in the test suite truncates a frame.",
 ["src/decoder/uncompressed_chunk.cc", "src/decoder/decoder_state.hh", "src/decoder/frame.cc", "src/decoder/bool_decoder.hh", "src/decoder/macroblock.cc", "src/salsify/salsify-receiver.cc"],
 [("corruption levels", "UncompressedChunk"), ("concealment", "Frame::parse_macroblock_headers / BoolDecoder::valid")],
 "decoder state after a partial frame", "rasters and hashes after decoding prefixes")

prop("P11", "IVF files round-trip and survive interruption",
 "Frames appended to an IVF file are read back unchanged, in number, order and content, with the header fields (format, size, time base, expected-state tag) that were written, for any number and size of frames. Once the file has been created, at every instant of writing, also if the writing process dies there or the disk is full, the file is readable and yields exactly the frames whose append had completed (or one more).",
 ["inputs", "crash_points"], "all frame sequences; all points between two writes of the writer",
 "Crash points between individual writes cannot be sampled by calling the API; the existing copy test needs downloaded vectors.",
 ["src/util/ivf.cc", "src/util/ivf_writer.cc", "src/util/file.cc", "src/util/mmap_region.cc", "src/input/ivf_reader.cc", "src/frontend/xc-merge.cc"],
 [("append protocol", "IVFWriter::append_frame"), ("index", "IVF::IVF")],
 "IVF header frame count and file tail", "bytes of the file after each write")

prop("P12", "Raw video input and output are faithful",
 "Reading a Y4M 4:2:0 video yields every frame, in order, with exactly the samples in the file for any width and height, odd ones included, whether read from a file or a pipe with arbitrary read sizes; samples beyond the picture edge replicate the edge. Frames already read stay unchanged; a video that ends early yields its complete frames only, and what is not 8-bit 4:2:0, or has something else where a frame should start, is refused. Writing the frames back as Y4M reproduces the frame data byte for byte. A camera picture in any supported format carries the samples of the buffer the driver has just filled, and a decoded JPEG picture those a standard JPEG decoder yields.",
 ["inputs", "schedules"], "all sizes, frame counts, contents and read fragmentations",
 "Off-by-one plane geometry shows only for particular sizes; short reads depend on scheduling of the producer.",
 ["src/input/yuv4mpeg.cc", "src/input/yuv4mpeg.hh", "src/input/jpeg.cc", "src/input/camera.cc", "src/input/ivf_reader.cc", "src/util/raster.cc", "src/util/file_descriptor.hh", "src/frontend/vp8decode.cc"],
 [("Y4M reader", "YUV4MPEGReader::get_next_frame"), ("Y4M writer", "YUV4MPEGFrameWriter")],
 None, "rasters returned by the reader and bytes written")

prop("P13", "Frames survive fragmentation, reordering and loss",
 "Splitting any frame into datagrams and reassembling them yields the original bytes and metadata once all fragments arrived, whatever the order, duplication or interleaving with other frames; before that the frame is never reported complete, and the partial frame offered is exactly the contiguous prefix received. Every fragment fits a datagram, and video packets and acknowledgements survive serialisation with every field intact.",
 ["inputs", "schedules", "fault_sequences"], "all frame sizes, arrival orders, losses and duplications, all field values",
 "Arrival orders are factorial in number; there is no test of the network code at all.",
 ["src/net/packet.cc", "src/net/packet.hh", "src/salsify/salsify-receiver.cc"],
 [("fragmentation", "FragmentedFrame constructor"), ("reassembly", "FragmentedFrame::add_packet, complete, frame, partial_frame"), ("wire format", "Packet/AckPacket to_string and constructors")],
 "fragments received so far", "frame(), partial_frame(), complete(), wire bytes")

prop("P14", "Pacing and event dispatch keep order and timing",
 "Packets handed to the pacer leave exactly once, in the order given, none earlier than its scheduled time to the millisecond, and a packet queued behind another is scheduled after it by the delay asked for; a pacer with nothing queued never reports anything due. The event loop runs a callback only for descriptors that are ready and whose action was interested when the round began, never again runs an action that was cancelled or has met the end of its input, ends with failure when a descriptor still in use hangs up, reports timeout and exit faithfully, and serves every action that is ready and interested in every round.",
 ["histories", "schedules"], "all sequences of push/pop with arbitrary delays and all descriptor readiness schedules",
 "Timing and readiness schedules; no test touches this code.",
 ["src/net/pacer.hh", "src/net/poller.cc", "src/net/poller.hh"],
 [("pacer queue", "Pacer"), ("event loop", "Poller::poll")],
 "pacer queue, poller action list", "pop order and times; callback log")

prop("P15", "Concurrent coding is race-free and changes nothing",
 "Any number of threads may decode, encode (from copies of the same encoder), copy, hash and release pictures at the same time: there is no data race or deadlock, and every thread obtains exactly the frames, pictures and states it would have obtained running alone.",
 ["schedules"], "all interleavings of threads over shared pictures, buffer pools and copied coders",
 "Races depend on interleavings; the test suite is single-threaded.",
 ["src/decoder/raster_handle.cc", "src/decoder/frame_pool.cc", "src/decoder/bool_decoder.hh", "src/encoder/encoder.cc", "src/salsify/salsify-sender.cc", "src/salsify/salsify-receiver.cc"],
 [("shared pools", "RasterPool, FramePool"), ("hash cache", "HashCachedRaster::hash")],
 "process-wide raster and frame pools, cached hashes", "ThreadSanitizer reports; per-thread results")

prop("P16", "Salsify keeps sender and receiver in step over any network",
 "Whatever datagrams are lost, duplicated, delayed or reordered, every frame the receiver decodes from complete data starts from a state it verifiably holds (the state named by the frame) and gives the picture and resulting state that the sender computed for that frame; frames whose starting state the receiver lacks are never recorded or acknowledged as complete. The sender bases new frames only on states it can justify (its own latest, or ones the receiver acknowledged), acknowledgements name the receiver's true states, every complete frame whose starting state is held is shown, datagrams that are malformed or of another session are ignored by both (as are acknowledgements of frames that were never sent), neither program ends because of what the network did, and after losses the stream recovers without a restart.",
 ["schedules", "fault_sequences", "histories"], "all loss, duplication, reordering and delay patterns, all encoder modes",
 "The guarantee is end to end across two processes and a faulty network; tests cover neither program.",
 ["src/salsify/salsify-sender.cc", "src/salsify/salsify-receiver.cc", "src/net/packet.cc", "src/net/socket.cc", "src/encoder/encoder.cc"],
 [("state selection", "encoder selection by acked state in salsify-sender.cc"), ("receiver state map", "salsify-receiver.cc")],
 "receiver's saved decoders, sender's saved encoders", "datagrams observed by the network proxy")

prop("P17", "Encoders are values; probing never changes them",
 "Estimating a frame's size, exporting or hashing the state, or copying an encoder leaves the encoder's state unchanged, and encoding with a copy never disturbs the original or pictures already produced. Encoding is deterministic: the same history of calls gives the same bytes in every run, whatever other encoders in the process did before, and copies of an encoder fed the same picture and setting produce the same bytes and end in the same state.",
 ["inputs", "histories"], "all encoder histories interleaved with probing and copying",
 "Hidden coupling through reused frames, pools and static data appears only in particular histories.",
 ["src/encoder/encoder.cc", "src/encoder/encoder.hh", "src/encoder/size_estimation.cc", "src/decoder/frame_pool.cc", "src/encoder/costs.cc"],
 [("size estimate", "Encoder::estimate_frame_size"), ("copy/move", "Encoder copy and move constructors"), ("frame recycling", "FramePool")],
 "encoder state, pooled frames", "export_decoder, minihash, produced bytes")

prop("P18", "Encoded quality tracks the request",
 "Encoding at a given quantizer reproduces every picture with an error bounded in proportion to that quantizer's step size, for any content and history, and the reported quality is the true SSIM of the decoded picture. A minimum-SSIM request is met whenever the finest quantizer can meet it and is not met by wasting the finest quantizer when a much coarser one suffices; with a size target the encoder picks the finest quantizer of its search range whose size estimate fits.",
 ["inputs", "histories"], "all pictures, quantizers, quality targets and size targets",
 "Depends on content and history; the SSIM test needs downloaded videos and only checks averages.",
 ["src/encoder/encoder.cc", "src/encoder/encode_inter.cc", "src/encoder/encode_intra.cc", "src/decoder/dct.cc", "src/util/ssim.cc", "src/encoder/size_estimation.cc"],
 [("rate control", "encode_with_quantizer_search, encode_with_target_size"), ("forward transform and quantisation", "src/decoder/dct.cc, src/decoder/quantization.cc")],
 "chosen quantizer, reconstruction", "decoded output versus source; Encoder::stats")

prop("P19", "Inspection tools report what decoding does",
 "For every valid stream, the command-line tools agree with the stream and with each other: frame sizes and counts equal those in the container, SSIM tools report 1 for identical videos and the true per-frame SSIM of the displayed area otherwise, state comparison tools report equality exactly when the saved states are equal, and stream dumps and differences name the frame types, headers and modes that are in the bitstream. Tools fail with an error, not with wrong output, on bad input.",
 ["inputs"], "all valid streams and pairs of streams",
 "No tool is exercised by the stable tests; correctness is over all streams.",
 ["src/frontend/xc-framesize.cc", "src/frontend/xc-ssim.cc", "src/frontend/xc-dump.cc", "src/frontend/xc-dissect.cc", "src/frontend/xc-diff.cc", "src/frontend/comp-states.cc", "src/util/ssim.cc", "src/util/raster.cc"],
 [("tools", "src/frontend/*.cc")], None, "tool output and exit status")

prop("P20", "Salsify sends what the network can take, and no more",
 "Of the encodings that salsify-sender makes of a picture it sends the largest that fits what the receiver's latest acknowledgement allows (100 ms divided by the reported delay between datagrams, less the datagrams not yet acknowledged, 1400 bytes each; no limit before the first report). A picture is dropped only when none fits, never more than three in a row, after which the lower-quality encoding is sent; in conventional mode no picture is dropped. Datagrams are spaced: none leaves before its turn, 0.5 to 2 ms after the one before it that is still waiting. Each frame tells the receiver how long the sender paused before it, and the delay the receiver reports is the running average (weight 1/10) of the gaps between arriving datagrams less those pauses.",
 ["schedules", "histories"], "all histories of acknowledgements, delays and picture contents, all operation modes",
 "Frame sizes that match the network's momentary capacity are what Salsify is for; no test runs the sender or receiver.",
 ["src/salsify/salsify-sender.cc", "src/salsify/salsify-receiver.cc", "src/net/pacer.hh", "src/net/packet.cc", "src/net/socket.cc"],
 [("capacity", "target_size and the choice of best_output_index in salsify-sender.cc"), ("delay estimate", "AverageInterPacketDelay in salsify-receiver.cc"), ("pacing", "Pacer")],
 "last_acked, avg_delay, cumulative_fpf, skipped_count", "encodings made, frames chosen, datagrams with their times")

prop("P21", "What is acquired is given back",
 "Decoding, playing, encoding, saving and loading state, reading and writing IVF, Y4M and JPEG, packets, sockets, polling, memory-mapped files and commands hold on to memory, descriptors, mappings and child processes only as long as the objects they belong to: repeating an operation, successful or refused, any number of times leaves the process with no more of them than before, whether its objects are copied, moved or thrown away half-way by an exception, and whichever system call fails in between. Each descriptor, mapping and command is released exactly once and whole. One decoder, player, encoder, reader, writer, pacer or poller used for any number of frames needs no more than it did after the first ones, and the peak memory of vp8decode, xc-dump, xc-framesize and xc-enc (coding from pictures) does not depend on the length of the video.",
 ["inputs", "histories", "fault_sequences"], "all inputs (damaged ones included), all lengths of use, all points of failure",
 "Tests decode short files once and exit; leaks show only in long use or after errors, and double releases only when the number has been handed out again.",
 ["src/util/file_descriptor.hh", "src/util/mmap_region.cc", "src/util/file.cc", "src/util/ivf.cc", "src/util/ivf_writer.cc", "src/util/subprocess.cc", "src/decoder/raster_handle.cc", "src/decoder/frame_pool.cc", "src/decoder/decoder.cc", "src/decoder/player.cc", "src/encoder/encoder.cc", "src/decoder/enc_state_serializer.hh", "src/input/jpeg.cc", "src/input/yuv4mpeg.cc", "src/net/socket.cc", "src/net/socketpair.cc", "src/net/poller.cc", "src/net/pacer.hh", "src/net/address.cc"],
 [("descriptors", "FileDescriptor"), ("mappings", "MMap_Region, File"), ("pictures and frames", "VP8RasterPool, FramePool")],
 "live heap, open descriptors, mappings, children", "the same, seen at link time and through /proc")

prop("P22", "Data passes through the building blocks unchanged",
 "A chunk gives exactly the bytes of the range asked for, read as little-endian fields of any number of bits, and refuses every range it does not wholly contain. Copying, moving and assigning optional objects, from themselves and from objects whose copy fails included, leaves each of them with a value its history explains, and builds and destroys every object once. What the boolean encoder writes the boolean decoder reads back, bit for bit, for every sequence of bits and probabilities, and a decoder whose data ends reads zeros after it. Whatever is written to a file, pipe or socket through a descriptor arrives whole and in order however the kernel splits it, by lines or by exact counts, and the end of the data is reported once it is reached. Each datagram arrives once, whole, with its sender's address and a time of arrival between sending and receiving, or is refused; none is cut. Addresses keep their host and port and are equal exactly when these are. Two-dimensional arrays give each cell its own neighbours, visit cells in raster order and compare by size and content.",
 ["inputs", "histories"], "all operands, sizes, splits of reads and writes, and sequences of operations",
 "Tests touch a few values of some of these; every other guarantee rests on all of them.",
 ["src/util/chunk.hh", "src/util/optional.hh", "src/decoder/bool_decoder.hh", "src/encoder/bool_encoder.hh", "src/util/file_descriptor.hh", "src/net/socket.cc", "src/net/address.cc", "src/util/2d.hh"],
 [("bytes", "Chunk, FileDescriptor"), ("bits", "BoolEncoder, BoolDecoder"), ("datagrams", "UDPSocket"), ("values", "Optional, TwoD, Address")],
 None, "values passed through each piece")

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
