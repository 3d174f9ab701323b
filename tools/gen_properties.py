#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
  a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
  if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
  if observe: a["observe_at"] = observe
  a["hook_needed"] = hook
  P.append({"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("D01", "Decoded audio does not depend on how the bitstream is delivered or pulled",
  "For every valid IAMF bitstream, requested mix, channel ordering, sample type and trimming setting, the concatenation of all PCM the decoder returns, and what it reports about the output (layout, channel count, sample rate, frame size, selected mix), are the same whether the bytes arrive in one call or split at arbitrary points, and whether finished temporal units are fetched at once, late, or only after end of stream. Extra status queries, empty deliveries and fetches when nothing is ready change nothing. The audio does not depend on the iteration order of the decoder's hash tables either.",
  ["schedules", "inputs", "configurations"],
  "all valid streams x all splits of their bytes into Decode calls x all interleavings with retrieval and query calls",
  "iamf_decoder_test.cc feeds a few fixed descriptors with two or three fixed split points; the number of (split, pull) schedules is exponential and the interesting ones cut inside an OBU header or between descriptors and data.",
  ["iamf/api/decoder/iamf_decoder.cc", "iamf/cli/obu_processor.cc", "iamf/cli/descriptor_obu_parser.cc", "iamf/common/read_bit_buffer.cc"],
  [("rewind to the start of an incomplete OBU / incomplete descriptors", "iamf/cli/obu_processor.cc"), ("stream based buffer with flush of consumed bytes", "iamf/common/read_bit_buffer.cc"), ("decode next temporal unit when the previous one was fetched", "IamfDecoder::GetOutputTemporalUnit")],
  ["Decode", "GetOutputTemporalUnit", "getters"])

p("D02", "Lossless streams decode to exactly the samples they carry",
  "For every valid stream whose substreams carry lossless audio (linear PCM of any sample size and byte order, FLAC) rendered to the element's own layout with unit gain, the decoder's PCM equals the carried samples in channel order and time order, with exactly the signalled start and end trims removed (or kept when trimming is disabled), no sample lost, repeated or invented. This holds in the presence of redundant descriptor copies, temporal delimiters, reserved OBU types, OBU extension bytes, parameter blocks and substreams or mixes that are not selected.",
  ["inputs", "configurations", "schedules"],
  "all streams produced by an independent bitstream writer over codec configuration, substream interleaving, trims and ignorable OBUs, under random delivery schedules",
  "Unit tests cover each parser on hand-written bytes and a handful of end-to-end clips; they do not relate arbitrary stream structure to exact output.",
  ["iamf/cli/obu_processor.cc", "iamf/cli/audio_frame_decoder.cc", "iamf/cli/codec/lpcm_decoder.cc", "iamf/cli/codec/flac_decoder.cc", "iamf/cli/demixing_manager.cc", "iamf/obu/obu_header.cc", "iamf/obu/audio_frame.cc", "iamf/cli/rendering_mix_presentation_finalizer.cc", "iamf/cli/renderer"],
  [("temporal unit assembly by timestamp", "iamf/cli/obu_processor.cc"), ("trimming before rendering", "iamf/cli/rendering_mix_presentation_finalizer.cc, renderer_utils"), ("LPCM de-serialisation", "iamf/cli/codec/lpcm_decoder.cc")],
  ["GetOutputTemporalUnit"])

p("D03", "No input bitstream can crash, hang or exhaust the decoder",
  "For every byte sequence delivered in any chunks - truncated, corrupted, reordered, duplicated or spliced from valid streams - and with codecs that fail at any call, every decoder call returns with success or an error: no abnormal termination, no memory error, no unbounded loop, no memory use out of proportion to the input, nothing leaked after destruction. The temporal units delivered before the first damaged byte are the same as for the undamaged stream; what is played for damaged data depends on that data alone, never on the audio of earlier units.",
  ["inputs", "fault_sequences", "schedules"],
  "all corruptions of valid streams x deliveries x codec-failure points",
  "Unit tests contain a few malformed examples each; fuzzers in the repository only feed random bytes and check for crashes.",
  ["iamf/api/decoder/iamf_decoder.cc", "iamf/cli/obu_processor.cc", "iamf/cli/descriptor_obu_parser.cc", "iamf/obu", "iamf/common/read_bit_buffer.cc", "iamf/cli/codec"],
  [("bounds and validation in every OBU parser", "iamf/obu/*.cc"), ("maximum OBU size and leb128 limits", "iamf/obu/obu_header.cc"), ("error propagation", "iamf/common/utils/macros.h")],
  ["process exit", "ASan", "allocation totals", "GetOutputTemporalUnit"])

p("D04", "Resetting a decoder is equivalent to creating a new one",
  "After any history of deliveries, retrievals, end-of-stream signals and errors, resetting a decoder that was created from descriptors leaves it indistinguishable from a decoder freshly created from the same descriptors: same output for the same later data, same reported parameters, same channel ordering, nothing left from before. Resetting with a new mix is equivalent to creating a decoder with that mix requested, and reports the mix that is then in effect; resetting a decoder that was not created from descriptors is refused without effect.",
  ["histories", "inputs", "configurations"],
  "all call histories before the reset, all reset points including mid-OBU and after an error, repeated resets, all later schedules",
  "Tests reset from two or three fixed states; state that leaks through a reset depends on the history.",
  ["iamf/api/decoder/iamf_decoder.cc", "iamf/cli/obu_processor.cc"],
  [("Reset rebuilds buffer and processor from the stored descriptors", "IamfDecoder::Reset")],
  ["Reset", "ResetWithNewMix", "GetOutputTemporalUnit"])

p("D05", "Every temporal unit is delivered exactly once, whole and in order",
  "Every decoded temporal unit of a stream is handed to the caller exactly once, whole and in order, for every interleaving of deliveries and retrievals: a retrieval with a buffer that is too small fails, writes nothing and loses nothing, and the same unit is returned by the next sufficient retrieval. A unit becomes available no later than when the data that follows it has been delivered, and after end of stream the documented loop - fetch until nothing is available - drains every remaining unit. The output for a prefix of a stream is a prefix of the output for the whole stream.",
  ["schedules", "histories", "inputs"],
  "all valid streams x interleavings of Decode / undersized / sufficient retrievals / end-of-stream; all prefixes",
  "Tests retrieve with ample buffers, immediately after each delivery.",
  ["iamf/api/decoder/iamf_decoder.cc", "iamf/cli/obu_processor.cc"],
  [("one rendered unit held until fetched", "IamfDecoder::DecoderState::rendered_samples"), ("final unit flushed at end of stream", "IamfDecoder::SignalEndOfDecoding")],
  ["GetOutputTemporalUnit", "IsTemporalUnitAvailable"])

p("D06", "Independent decoder and encoder instances never influence each other",
  "Any number of decoder and encoder instances used from different threads, each by one thread at a time, produce exactly the results each produces alone, for every interleaving of their calls and of the threads inside the calls.",
  ["schedules"],
  "interleavings of 2-4 instances over a controlled thread scheduler that preempts between basic blocks",
  "The documentation promises it; no test runs two instances together.",
  ["iamf/api/decoder/iamf_decoder.cc", "iamf/cli/iamf_encoder.cc", "iamf/cli/renderer", "iamf/cli/renderer/precomputed_gains.cc", "iamf/common/q_format_or_floating_point.cc"],
  [("no mutable global state; per instance state objects", "iamf/api/decoder/iamf_decoder.cc")],
  ["PCM per instance", "bytes per encoder"])

p("D08", "What is played is the mix the bitstream describes",
  "For every valid lossless stream, mix presentation, playback layout and delivery schedule, the decoder plays exactly the sound the bitstream describes: each element's channels reconstructed from its layers with the output gains of the layers and the demixing parameters in force for that frame (those of the parameter block, else the default, with the w index moving one step per block), rendered to the layout by passing through or by the published gains, multiplied with the element's mix gain, summed, multiplied with the output mix gain - both gains following their step, linear and Bezier animations tick by tick over the untrimmed frame - and trimmed. Nothing depends on how the stream is delivered or fetched, and damage-free parameter blocks are never ignored.",
  ["inputs", "schedules", "histories"],
  "all valid streams with lossless codecs x mixes x playback layouts with a defined rendering x delivery and retrieval schedules",
  "Tests check single stages with one frame and a default parameter; the end-to-end sound over many frames of animated parameters is never computed.",
  ["iamf/cli/obu_processor.cc", "iamf/cli/parameters_manager.cc", "iamf/cli/demixing_manager.cc", "iamf/cli/demixer.cc", "iamf/cli/renderer", "iamf/cli/rendering_mix_presentation_finalizer.cc", "iamf/cli/audio_frame_decoder.cc"],
  [("parameter blocks are in force for the frame they cover", "ObuProcessor::ProcessTemporalUnit, ParametersManager"), ("gains per tick of the untrimmed frame", "DefaultLayoutRenderer::Render")],
  ["GetOutputTemporalUnit"])

p("E01", "What the encoder accepts, the decoder gives back, streamed or written to file",
  "For every accepted encoder configuration and input, feeding the encoder under any legal order of calls yields temporal units that, together with the descriptors, decode to the input audio: sample-exact for lossless codecs, with the same number of samples for the others, with the trims that were asked for plus the codec delay and padding, and with each parameter block, requested arbitrary OBU and temporal delimiter in its temporal unit exactly once. A file-generating encoder leaves a file with the final descriptors followed by the same temporal units the streaming calls returned. Asking for descriptors any number of times at any moment changes nothing, and the final descriptors differ from the preliminary ones in measured loudness only.",
  ["schedules", "inputs", "configurations"],
  "accepted user metadata from a generator x audio content x frame counts x partial last frames x call orders",
  "Encoder tests check OK statuses and sizes for a few textprotos; the round trip needs the two halves together over many configurations.",
  ["iamf/cli/iamf_encoder.cc", "iamf/cli/obu_sequencer_base.cc", "iamf/cli/obu_sequencer_iamf.cc", "iamf/cli/obu_sequencer_streaming_iamf.cc", "iamf/cli/proto_conversion", "iamf/cli/codec"],
  [("frame generation, trimming and flush", "iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc"), ("temporal unit sequencing", "iamf/cli/obu_sequencer_base.cc")],
  ["OutputTemporalUnit", "GetDescriptorObus", ".iamf file"])

p("E02", "Encoder failures are reported, contained and never hidden",
  "When a codec call, a file operation, wrong metadata, wrong parameter blocks or samples, or a call out of order makes encoding fail, a call reports an error; metadata that the bitstream cannot express is refused rather than written as something else; no call crashes, hangs, leaks or asks for unbounded memory, whether the caller stops or goes on. As long as every call succeeded, the temporal units are the right ones, and once the encoder reports that it is done all of them and the requested trims are there. A file-generating encoder whose calls all succeeded leaves the complete file; when writing it failed, no file is left.",
  ["fault_sequences", "histories"],
  "failure of each codec / file call at each occurrence x legal and illegal call orders",
  "Codec libraries and the file system do not fail in unit tests.",
  ["iamf/cli/iamf_encoder.cc", "iamf/cli/obu_sequencer_base.cc", "iamf/cli/codec", "iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc"],
  [("status propagation", "iamf/cli/iamf_encoder.cc"), ("encoder wrappers check library return codes", "iamf/cli/codec/*_encoder.cc")],
  ["Encode", "OutputTemporalUnit", "FinalizeEncode", "output directory"])

p("D09", "The decoder program writes the complete WAV file or reports failure",
  "Given an IAMF file, a mix, an output layout, a sample type and a block size, the decoder program either reports success, and then the WAV file at the requested path has a header of the right channel count, rate, bit depth and size and holds exactly the samples of all temporal units of that mix and layout, whatever the block size and whatever was at that path before; or it reports failure. A file that is missing, cannot be read to its end, ends before its descriptors do or cannot be decoded, an impossible block size, and an output file that cannot be created, completely written or closed are reported as failure; no file and no flag makes the program crash or hang.",
  ["inputs", "fault_sequences"],
  "drawn streams x flags x block sizes x damage to the file x read, write, seek and close failures at any occurrence",
  "The program has no test at all; the tests of its helpers use one stream and a healthy disk.",
  ["iamf/cli/decoder_main.cc", "iamf/api/internal_utils/internal_utils.cc", "iamf/cli/wav_writer.cc", "iamf/api/decoder/iamf_decoder.cc"],
  [("loop over blocks of the file", "iamf/cli/decoder_main.cc"), ("WAV file set up and units written", "iamf/api/internal_utils/internal_utils.cc"), ("header and close", "iamf/cli/wav_writer.cc")],
  ["exit status", "WAV file"])

p("E03", "The encoder program turns WAV files into a complete IAMF file or reports failure",
  "Given encoder metadata and WAV files, the encoder program either reports success, and then the output directory holds a complete IAMF file whose audio frames carry exactly the samples of the WAV channels that the metadata assigns to each label - padded or trimmed as requested, whatever the bit depths, channel order, number of files or elements sharing a file - whose parameter blocks say what the metadata says after partitioning, and for every mix presentation and layout asked for a rendered WAV file of the right name, format, length and samples; or it reports failure. Missing, cut, mismatching or wrongly assigned input, an input that cannot be read to its end, a full disk and files that cannot be created are reported as failure; nothing is created outside the requested names, and no input makes the program crash, hang or leak.",
  ["inputs", "fault_sequences"],
  "drawn configurations x WAV files x damage to the inputs x read, write and open failures at any occurrence x codec delays",
  "Tests run fixed configurations on a healthy disk and look at the existence of the file, rarely at its content.",
  ["iamf/cli/encoder_main_lib.cc", "iamf/cli/wav_sample_provider.cc", "iamf/cli/parameter_block_partitioner.cc", "iamf/cli/wav_reader.cc", "iamf/cli/rendering_mix_presentation_finalizer.cc", "iamf/cli/wav_writer.cc"],
  [("loop over WAV frames", "iamf/cli/encoder_main_lib.cc"), ("channel to label assignment and read errors", "iamf/cli/wav_sample_provider.cc"), ("mix gain parameter blocks cut to frames", "iamf/cli/parameter_block_partitioner.cc")],
  ["returned status", "output file", "rendered WAV files", "output directory"])

p("S01", "An IAMF output file is either complete or absent",
  "Writing an IAMF file either succeeds, leaving a file with exactly the descriptors and the temporal units in order, or reports an error and leaves no file at the output path once it is aborted; a full disk, a failed, short or delayed write, or a failure to create the file is never reported as success. The descriptors may be rewritten after the data without damaging it. For the same sequence of calls the file holds the same bytes as the concatenation of the streamed output with its final descriptors.",
  ["fault_sequences", "histories", "inputs"],
  "call sequences on the sequencer x I/O failure at each write/open/close/seek",
  "No test injects an I/O error.",
  ["iamf/cli/obu_sequencer_base.cc", "iamf/cli/obu_sequencer_iamf.cc", "iamf/cli/obu_sequencer_streaming_iamf.cc", "iamf/common/write_bit_buffer.cc"],
  [("abort removes the file", "iamf/cli/obu_sequencer_iamf.cc"), ("write buffer flush status", "iamf/common/write_bit_buffer.cc")],
  ["file content", "returned status"])

p("W01", "WAV files round-trip exactly and I/O failures are never hidden",
  "Samples written in any sequence of block sizes to a WAV file with 16, 24 or 32 bits and any channel count are read back exactly, whatever block size the reader uses, with header fields that agree with the data actually present. A failed, short or delayed write or a full disk makes some write or the final flush report failure; an aborted file does not exist afterwards, and finishing or aborting twice is harmless. Floating point files are read as full-scale values, clamped, with silence for what is no number. A truncated or damaged file is rejected or read only up to its end, without crash or leak.",
  ["inputs", "fault_sequences", "histories"],
  "write/read block sequences x I/O faults x header corruption",
  "Tests write a few samples to a healthy disk.",
  ["iamf/cli/wav_writer.cc", "iamf/cli/wav_reader.cc"],
  [("header rewritten with the final size at flush", "iamf/cli/wav_writer.cc"), ("block reader bounds", "iamf/cli/wav_reader.cc")],
  ["file content", "returned status"])

p("B01", "All bit readers and writers agree with one bit-exact model",
  "Under any sequence of reads, seeks, tells and (for streams) pushes and flushes, the memory, file and stream readers return the same bits, positions and errors as one simple model of the byte string, and a failed read leaves a well-defined position; nothing is read past the available data. Whatever sequence of values is written through the bit writer reads back identically, including variable-length integers and strings of every representable length. Reading a file whose storage fails reports an error and never returns wrong data as if it were good.",
  ["histories", "inputs", "fault_sequences"],
  "random op sequences, capacities 1..N, chunked pushes, flushes at any point, I/O errors",
  "Tests check single operations; the buffer-refill logic depends on history (position, capacity, prior failure).",
  ["iamf/common/read_bit_buffer.cc", "iamf/common/write_bit_buffer.cc", "iamf/common/leb_generator.cc"],
  [("internal window refilled from the source", "iamf/common/read_bit_buffer.cc")],
  ["read values", "Tell", "status"])

p("A01", "BW64/ADM input is parsed from its bytes alone, and damage is detected",
  "Parsing a BW64 file - chunk map, format, axml, channel assignment, sizes - gives the same result for every way the input stream delivers its bytes, and agrees with what was written. A missing, truncated or unreadable mandatory chunk, including a read error in the middle of the file, is reported as an error rather than parsed as something else. Splitting an ADM file into per-object WAV files preserves every sample, leaves exactly the promised files on success and none of the temporary ones on failure.",
  ["inputs", "fault_sequences", "schedules"],
  "generated BW64 files x stream buffer behaviours x truncation and read errors x output I/O faults",
  "Tests use well-formed string streams.",
  ["iamf/cli/adm_to_user_metadata/adm/bw64_reader.cc", "iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc", "iamf/cli/adm_to_user_metadata/adm/panner.cc", "iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc"],
  [("chunk walk", "bw64_reader.cc"), ("abort of all writers on failure", "wav_file_splicer.cc")],
  ["reader accessors", "output directory"])

p("P01", "Probing reports the same facts however the file is read, and always valid JSON",
  "Probing a file gives the same result as probing its bytes in memory, whatever the size of the read blocks and short reads, and the reported facts agree with what the stream was built from. Damaged, truncated or unreadable input yields an error or a partial result, never a crash, hang or wrong fact, and the JSON text is always well formed and carries exactly the reported facts.",
  ["inputs", "fault_sequences"],
  "generated and corrupted streams x read behaviours",
  "Tests probe a few fixed streams.",
  ["iamf/cli/probe.cc", "iamf/cli/probe_json.cc", "iamf/cli/probe_main.cc"],
  [("incremental reading with growing prefix", "iamf/cli/probe.cc"), ("string escaping", "iamf/cli/probe_json.cc")],
  ["result struct", "JSON text"])

p("T01", "Sample processors accept and emit samples only in the legal order, once each",
  "For every sequence of push, output and flush calls with frames of any number of channels and samples, a sample processor accepts exactly the frames that fit its declared shape before the flush, refuses every push or second flush after it, and never emits a sample twice or keeps a stale one: what it outputs after each call is determined by the frames accepted so far, and in total as many samples come out as went in. A refused call has no effect on later ones.",
  ["histories", "inputs"],
  "all call sequences over frame shapes including illegal ones",
  "Tests drive a few fixed sequences with mock processors.",
  ["iamf/cli/sample_processor_base.cc", "iamf/cli/wav_writer.cc"],
  [("take-samples / flushed state machine", "iamf/cli/sample_processor_base.cc")],
  ["output spans", "status"])

p("R01", "Renderers hand over every rendered frame once, in order, across threads",
  "With one thread adding labelled frames and another collecting rendered samples, for every interleaving, each accepted frame is rendered exactly once, in order, with values equal to the single-threaded rendering, and once finalized and drained the renderer reports that it is finished. No interleaving deadlocks.",
  ["schedules", "inputs"],
  "producer/consumer interleavings under a controlled scheduler",
  "Renderer tests are single-threaded although the class locks for concurrent use.",
  ["iamf/cli/renderer/audio_element_renderer_base.cc", "iamf/cli/renderer/audio_element_renderer_base.h", "iamf/cli/renderer"],
  [("mutex around frames and rendered samples", "audio_element_renderer_base.cc")],
  ["Flush", "IsFinalized"])

p("G01", "Concurrent adding and collecting of audio frames loses and repeats nothing",
  "With audio samples being added by one thread and finished frames collected by another, for every interleaving, the collected frames of every substream are consecutive in time, gap-free and identical to those of a single-threaded run, the total number of samples and the trims are the same, and generation ends within a bounded number of collection calls after finalization. No interleaving deadlocks.",
  ["schedules", "inputs", "configurations"],
  "add/finalize/collect interleavings under a controlled scheduler x codecs with delay",
  "Tests run one fixed schedule.",
  ["iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc", "iamf/cli/codec/encoder_base.h", "iamf/cli/codec"],
  [("generator mutex and encoder mutexes", "audio_frame_generator.cc, encoder_base.h")],
  ["OutputFrames"])

p("C01", "A codec decoder returns the samples of the frame it was given, or an error",
  "For every sequence of well-formed and malformed coded frames, each decode call either yields exactly the samples of that frame or reports an error; an error never leaves samples of an earlier frame to be taken for the new one, never corrupts later good frames of a stateless codec, and never crashes, hangs or leaks. Encoding then decoding with a lossless codec is exact for every supported sample size and frame length. An encoder delivers every frame it accepted exactly once, in order and with the data it was given, reports what its library could not do, and accepts nothing malformed and nothing after it was finalized.",
  ["histories", "inputs", "fault_sequences"],
  "sequences of good/bad/empty/oversized frames x library failures",
  "Tests decode a good frame or a bad frame, not sequences of them.",
  ["iamf/cli/codec/lpcm_decoder.cc", "iamf/cli/codec/flac_decoder.cc", "iamf/cli/codec/opus_decoder.cc", "iamf/cli/codec/aac_decoder.cc", "iamf/cli/codec/decoder_base.h", "iamf/cli/codec/encoder_base.h", "iamf/cli/audio_frame_decoder.cc"],
  [("validation of frame size against the codec configuration", "iamf/cli/codec/*_decoder.cc")],
  ["ValidDecodedSamples", "status"])

p("V01", "The verifier passes a bitstream only if every required step really succeeded",
  "The bitstream verifier reports a pass only when every external tool it ran for a case succeeded, every output it was to compare exists and matches the reference within the stated tolerance, and at least one comparison took place; any tool crash, non-zero exit, missing, truncated, stale or mismatching output makes the case and the overall result fail. The report lists every case exactly once with its true outcome, agrees with the exit status, and temporary files are gone afterwards whatever happened.",
  ["fault_sequences", "inputs", "configurations"],
  "all combinations of cases and tool outcomes (exit codes, missing / short / stale outputs, exceptions)",
  "The tests of the verifier mock a healthy run and one or two failures.",
  ["validation/iamf_verifier/iamf_verifier.py", "validation/mlsd_comparator"],
  [("subprocess return codes and report parsing", "validation/iamf_verifier/iamf_verifier.py")],
  ["report", "exit status", "file system"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
  for x in P:
    assert len(x["title"]) <= 80, x["id"]
    f.write(json.dumps(x) + "\n")
print(len(P))
