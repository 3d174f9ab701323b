TRUST = " Sampled, not exhaustive; trusts the harness model, the simulated third-party libraries and ASan."
NOTE["B01"] = ("random operation histories over the three bit readers and the bit writer with injected read errors, against a bit-string model",
  "Every operation's value, status and position is compared with an executable model; file reads fail or come short at drawn points." + TRUST)
NOTE["W01"] = ("random block sequences with disk faults at drawn stdio calls, against an independent WAV parser",
  "Covers open, short and failed writes, seek, close and remove failures, truncated and corrupted input, abort/flush histories; file content compared with an independent parser." + TRUST)
NOTE["T01"] = ("random legal and illegal call sequences with failing processing steps, against a reference of each processor",
  "The base class is driven through harness processors and the real ambisonics mixer; every accepted call's output is compared with a model fed by the accepted frames only." + TRUST)
NOTE["V01"] = ("the real verifier against simulated tool processes that crash, stop midway, lie or fill the disk, with a truth model of every case",
  "subprocess.Popen, os.mkdir and open are the seams; the exit status, the printed and the written report and every listed case are compared with what really happened; the comparator is also checked alone against an independent restatement." + TRUST)
NOTE["A01"] = ("drawn ADM documents and BW64 files read, split, panned and converted while storage fails at drawn points, against an independent model of the file",
  "Real expat, reader, splitter, panner and metadata generator; chunk order, sizes to 4 GiB, XML form, defects and truncation drawn; every sample of every split file and the generated metadata compared with the document that was written." + TRUST)
NOTE["C01"] = ("drawn interleavings of good and damaged frames over several substreams with failing codec libraries, and drawn encoder histories with a concurrent collector, against independent frame models",
  "The four decoders, the four encoders and AudioFrameDecoder over simulated libopus, libFLAC and FDK-AAC; LPCM and FLAC compared with independently packed frames, the stateful codecs with a twin library instance fed the same packets." + TRUST)
NOTE["P01"] = ("drawn IAMF streams damaged, cut and read through failing and short reads, probed in drawn scan modes, against the facts of the stream as generated",
  "An independent bitstream writer (all OBU types, every layout, redundant and foreign OBUs, illegal headers) carries its own facts; report, counts, durations, errors and the JSON text (strict parser) are compared with it." + TRUST)
NOTE["D01"] = ("drawn splits of drawn streams and drawn retrieval schedules, every playback compared with the others and across hash orders",
  "The whole decoder over simulated codec libraries; 2-4 playbacks per stream with chunks of any size, stalled consumers, queries and empty calls in between, standalone and from descriptors; units, reports and status must be equal." + TRUST)
NOTE["D02"] = ("drawn lossless streams under drawn delivery schedules, every output byte compared with the samples the independent writer packed",
  "LPCM and FLAC (simulated library), every channel layout, expanded layouts, several elements, trims, redundant descriptors, reserved OBUs, foreign substreams; sample types, channel orders and trim settings drawn." + TRUST)
NOTE["D04"] = ("drawn histories with damage and errors, then a reset, then a drawn continuation compared with a fresh twin decoder",
  "Resets at any point including mid-OBU, after errors and after the end; with and without a new mix; twin gets the same later calls; refused resets must not change anything." + TRUST)
NOTE["D05"] = ("drawn interleavings of deliveries, undersized and sufficient retrievals and end of stream, against the list of units the stream carries",
  "Availability deadlines, prefix property and the documented drain loop are checked after each call; undersized buffers of every size must write nothing and lose nothing." + TRUST)
NOTE["D08"] = ("drawn streams with layers, gains and animated parameters played under drawn delivery schedules, every sample compared with an independent model of the mix",
  "Model of demixing, output gains, w index history, published gain matrices, mix gain animations and trims; 15 layouts, 1-28 elements; not modelled: reconstruction gains with derived channels, binaural filtering, lossy codecs." + TRUST)
NOTE["E01"] = ("drawn encoder configurations, audio and call schedules (elements and channels apart, ahead, late, repeated), units compared with an independent writer and played back",
  "Every unit is compared byte for byte with an independent packing of the samples, trims, parameter blocks and requested OBUs; descriptors, file and playback are compared too; the codecs are simulated ones that keep delay and hold frames back." + TRUST)
NOTE["E02"] = ("drawn failures of codec calls and file operations, altered metadata and parameter blocks, values too wide for their field, illegal calls, early destruction and callers that stop or go on, under the oracles of E01 as long as nothing failed",
  "Faults hit any codec call or file operation at any occurrence, once or lastingly; metadata is altered field by field through reflection; ASan, leaks, step budget and allocation sizes are watched." + TRUST)
NOTE["D09"] = ("the whole decoder program over drawn streams, flags and block sizes on a simulated disk with drawn read, write, seek and close faults, against the samples the stream was built from",
  "Damaged, cut and foreign files, all layouts and mixes, block sizes that end with the file; the WAV file is compared with the exact samples or with the same calls on the library." + TRUST)
NOTE["E03"] = ("the whole encoder program over drawn configurations and WAV files on a simulated disk with drawn read, write, open and codec faults, against an independent writer, renderer and partitioner",
  "Shared and separate WAV files with permuted and spare channels, nine kinds of damaged input, full disk, read errors, files that cannot be created, FLAC that holds frames back; the IAMF file and every rendered WAV are compared with the plan." + TRUST)
NOTE["D03"] = ("drawn damage to drawn streams under drawn delivery schedules with failing codec calls, compared with the undamaged stream and between different pasts",
  "Corrupt, lost, repeated, reordered, foreign, cut OBUs; codec failures at any call; callers that stop or go on after errors; ASan, allocation totals, step budget, undamaged twin, and a twin whose earlier audio differs." + TRUST)
NOTE["D06"] = ("the same calls alone and as preempted tasks of a seeded scheduler, from a pristine process image, every observation compared",
  "2-4 decoders and encoders (streaming and file) of drawn streams and configurations, some damaged or with failing codecs; preemption at basic blocks, locks and static initialisation; instances move between threads." + TRUST)
NOTE["S01"] = ("drawn call histories on the sequencers with failing storage at drawn operations, against a reference model of what is stored",
  "File, streaming and recording sequencers; delayed descriptors, rewritten descriptors, inconsistent units, calls out of place; open, write, close, seek and remove failures and refusing storage; bytes compared with an independent writer after every call." + TRUST)
NOTE["G01"] = ("drawn interleavings of a thread that adds samples and one that collects frames, preempted at locks and basic blocks by a seeded scheduler, compared with one thread and an independent writer",
  "Real generator, encoders, downmixing and timing over simulated codec libraries; pieces of any size, elements out of step, codec failures, queries from a third thread; every frame compared, deadlock and progress checked." + TRUST)
NOTE["R01"] = ("drawn interleavings of a thread that renders frames and one that collects samples, preempted at locks, basic blocks and static initialisation, against an independent statement of layouts and gains",
  "Every renderer and the factory over all layouts and Ambisonics orders; bad frames, trims, demixed labels and binaural library failures drawn; each accepted frame once, in order, with its value." + TRUST)
