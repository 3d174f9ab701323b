From 070f8efe69e508c97c3d53b4a253641219bbeae2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 01/58] fix: keep the file-based read buffer consistent when a
 file read fails part way

---
 iamf/common/read_bit_buffer.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/iamf/common/read_bit_buffer.cc b/iamf/common/read_bit_buffer.cc
index c8b3226..0aecd31 100644
--- a/iamf/common/read_bit_buffer.cc
+++ b/iamf/common/read_bit_buffer.cc
@@ -475,13 +475,17 @@ absl::Status FileBasedReadBitBuffer::LoadBytesToBuffer(int64_t starting_byte,
     return absl::InvalidArgumentError(
         "Invalid source position or destination buffer size");
   }
+  // Read into a temporary buffer. A failed read may be partial, and the data
+  // already in `bit_buffer_` must stay consistent with the current position.
+  std::vector<uint8_t> loaded_bytes(num_bytes);
   source_ifs_.seekg(starting_byte);
-  source_ifs_.read(reinterpret_cast<char*>(bit_buffer_.data()), num_bytes);
+  source_ifs_.read(reinterpret_cast<char*>(loaded_bytes.data()), num_bytes);
   if (!source_ifs_.good()) {
     return absl::InvalidArgumentError(
         absl::StrCat("File reading failed. State= ", source_ifs_.rdstate()));
   }
 
+  std::copy(loaded_bytes.begin(), loaded_bytes.end(), bit_buffer_.begin());
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 99a77238ebbdb2bae8add4ba3214e37c58cf4925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 02/58] fix: leave no file behind when the WAV header cannot be
 written

---
 iamf/cli/wav_writer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iamf/cli/wav_writer.cc b/iamf/cli/wav_writer.cc
index cbc90e2..a1a19a9 100644
--- a/iamf/cli/wav_writer.cc
+++ b/iamf/cli/wav_writer.cc
@@ -162,6 +162,8 @@ std::unique_ptr<WavWriter> WavWriter::Create(const std::string& wav_filename,
              kAudioToTactileResultFailure) {
     ABSL_LOG(ERROR) << "Error writing header of file \"" << wav_filename
                     << "\"";
+    std::fclose(file);
+    std::remove(wav_filename.c_str());
     return nullptr;
   }
 
-- 
2.43.0


From 9638e34ffb61e60ff12cf25719e51dfbac882980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 03/58] fix: make aborting a WAV writer without an open file
 harmless

---
 iamf/cli/wav_writer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/wav_writer.cc b/iamf/cli/wav_writer.cc
index a1a19a9..3a76012 100644
--- a/iamf/cli/wav_writer.cc
+++ b/iamf/cli/wav_writer.cc
@@ -226,7 +226,9 @@ absl::Status WavWriter::WritePcmSamples(absl::Span<const uint8_t> buffer) {
 }
 
 void WavWriter::Abort() {
-  std::fclose(file_);
+  if (file_ != nullptr) {
+    std::fclose(file_);
+  }
   std::remove(filename_to_remove_.c_str());
   file_ = nullptr;
 }
-- 
2.43.0


From 203273bf14785b7fdcdfc79d19f519bd4e63abdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 04/58] fix: report I/O failures when a WAV file is finalized

---
 iamf/cli/wav_writer.cc | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/iamf/cli/wav_writer.cc b/iamf/cli/wav_writer.cc
index 3a76012..243feff 100644
--- a/iamf/cli/wav_writer.cc
+++ b/iamf/cli/wav_writer.cc
@@ -100,22 +100,26 @@ absl::Status WriteSamplesInternal(FILE* absl_nullable file, size_t num_channels,
   return absl::OkStatus();
 }
 
-void MaybeFinalizeFile(size_t sample_rate_hz, size_t num_channels,
-                       auto& wav_header_writer, FILE*& file,
-                       size_t& total_samples_written) {
+absl::Status MaybeFinalizeFile(size_t sample_rate_hz, size_t num_channels,
+                               auto& wav_header_writer, FILE*& file,
+                               size_t& total_samples_written) {
   if (file == nullptr) {
-    return;
+    return absl::OkStatus();
   }
 
   // Finalize the temporary header based on the total number of samples written
-  // and close the file.
+  // and close the file. Buffered samples may only reach the disk here, so any
+  // failure means the file may be incomplete.
+  bool success = true;
   if (wav_header_writer) {
-    std::fseek(file, 0, SEEK_SET);
-    wav_header_writer(file, total_samples_written, sample_rate_hz,
-                      num_channels);
+    success = std::fseek(file, 0, SEEK_SET) == 0 &&
+              wav_header_writer(file, total_samples_written, sample_rate_hz,
+                                num_channels) != kAudioToTactileResultFailure;
   }
-  std::fclose(file);
+  success = (std::fclose(file) == 0) && success;
   file = nullptr;
+  return success ? absl::OkStatus()
+                 : absl::UnknownError("Error finalizing wav file.");
 }
 
 }  // namespace
@@ -174,8 +178,12 @@ std::unique_ptr<WavWriter> WavWriter::Create(const std::string& wav_filename,
 
 WavWriter::~WavWriter() {
   // Finalize the header, in case the user did not call `Flush()`.
-  MaybeFinalizeFile(sample_rate_hz_, num_channels_, wav_header_writer_, file_,
-                    total_samples_written_);
+  const auto status =
+      MaybeFinalizeFile(sample_rate_hz_, num_channels_, wav_header_writer_,
+                        file_, total_samples_written_);
+  if (!status.ok()) {
+    ABSL_LOG(ERROR) << status;
+  }
 }
 
 absl::Status WavWriter::PushFrameDerived(
@@ -214,9 +222,8 @@ absl::Status WavWriter::PushFrameDerived(
 
 absl::Status WavWriter::FlushDerived() {
   // No more samples are coming, finalize the header and close the file.
-  MaybeFinalizeFile(sample_rate_hz_, num_channels_, wav_header_writer_, file_,
-                    total_samples_written_);
-  return absl::OkStatus();
+  return MaybeFinalizeFile(sample_rate_hz_, num_channels_, wav_header_writer_,
+                           file_, total_samples_written_);
 }
 
 absl::Status WavWriter::WritePcmSamples(absl::Span<const uint8_t> buffer) {
-- 
2.43.0


From bbfc282b8056ecb070149e7fdda349c4416cdbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 05/58] fix: compare signals shorter than one MLSD hop

Squeezing the distances of a single frame gave a zero-dimensional array, on
which the detectors raised TypeError.
---
 validation/mlsd_comparator/mlsd_comparator.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/validation/mlsd_comparator/mlsd_comparator.py b/validation/mlsd_comparator/mlsd_comparator.py
index b23c684..a0f41f9 100644
--- a/validation/mlsd_comparator/mlsd_comparator.py
+++ b/validation/mlsd_comparator/mlsd_comparator.py
@@ -73,12 +73,10 @@ def calc_per_channel_mlsd_pcm(
 
     diff_squared = (log_mel_ref - log_mel_signal) ** 2
 
-    # Average across mel bins, which is the 0th dimension
+    # Average across mel bins, which is the 0th dimension. The result has shape
+    # (num_frames,), also when there is a single frame.
     mlsd_per_frame = np.sqrt(np.mean(diff_squared, axis=0))
 
-    # shape: (1, num_frames) -> (num_frames,)
-    mlsd_per_frame = np.squeeze(mlsd_per_frame)
-
     mlsd_list.append(mlsd_per_frame)
 
   return mlsd_list
-- 
2.43.0


From b14dcd6975b44eac941b7847314365906133f4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:26 +0000
Subject: [PATCH 06/58] fix: do not pass a step whose tool left no complete
 report

A tool that exits successfully without having written its whole report (for
example because the disk is full) was taken to have found nothing wrong.
---
 validation/iamf_verifier/iamf_verifier.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/validation/iamf_verifier/iamf_verifier.py b/validation/iamf_verifier/iamf_verifier.py
index 6b1eab3..503f7cf 100644
--- a/validation/iamf_verifier/iamf_verifier.py
+++ b/validation/iamf_verifier/iamf_verifier.py
@@ -157,10 +157,12 @@ def run_opus_hoa_verification(test_iamf: str, opus_hoa_cmd: str) -> CheckResult:
         if content := rf.read().strip():
           details = f"\n{content}"
 
-    if (
-        res.returncode != 0
-        or "Result: Non-Canonical Elements Detected" in details
-    ):
+    # The exit status only says whether the tool ran. The verdict is the last
+    # line of the report, which is absent when the report is incomplete.
+    if res.returncode != 0 or not details.endswith((
+        "Result: All Canonical",
+        "Result: No Opus Ambisonics Audio Elements found.",
+    )):
       return CheckResult(
           False,
           "[FAIL] Opus Ambisonics deviates from recommended practices in"
@@ -215,7 +217,11 @@ def run_loudness_comparison(
               )
           ]
 
-    if res.returncode == 0:
+    # An incomplete report may be missing Mix Presentations; it ends before the
+    # overall result.
+    if res.returncode == 0 and details.endswith(
+        "Overall Result: Within Tolerance"
+    ):
       return (
           CheckResult(
               True,
-- 
2.43.0


From c6f57588730369d315ffc7dac8390083ef545c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 07/58] fix: detect decoded WAV files that end before their
 last frame

Only the header was consulted, so two files truncated at the same place were
compared, and passed, on what was left of them.
---
 validation/iamf_verifier/iamf_verifier.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/validation/iamf_verifier/iamf_verifier.py b/validation/iamf_verifier/iamf_verifier.py
index 503f7cf..5e35c9e 100644
--- a/validation/iamf_verifier/iamf_verifier.py
+++ b/validation/iamf_verifier/iamf_verifier.py
@@ -248,9 +248,16 @@ def get_audio_frame_count(wav_path: str) -> int:
 
   Returns:
     The total frame count.
+
+  Raises:
+    EOFError: If the file ends before its last frame.
   """
   with wave.open(wav_path, "rb") as wf:
-    return wf.getnframes()
+    frame_count = wf.getnframes()
+    frame_size = wf.getnchannels() * wf.getsampwidth()
+    if len(wf.readframes(frame_count)) != frame_count * frame_size:
+      raise EOFError(f"{os.path.basename(wav_path)} is truncated")
+    return frame_count
 
 
 def _decode_and_evaluate_layout(
-- 
2.43.0


From 7b7da938ec8afc0bb85fd41568a30027fa6dbc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 08/58] fix: report decoded audio that cannot be read or
 compared as a failing case

A missing, damaged or differently formatted WAV file ended the verifier with an
exception, so that no report was written and the remaining cases were skipped.
---
 validation/iamf_verifier/iamf_verifier.py | 26 +++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/validation/iamf_verifier/iamf_verifier.py b/validation/iamf_verifier/iamf_verifier.py
index 5e35c9e..eb5b782 100644
--- a/validation/iamf_verifier/iamf_verifier.py
+++ b/validation/iamf_verifier/iamf_verifier.py
@@ -306,11 +306,18 @@ def _decode_and_evaluate_layout(
           f" ID={mix_id}):\n{res.stdout}",
       )
 
-  ref_frames = get_audio_frame_count(ref_wav)
-  test_frames = get_audio_frame_count(test_wav)
-
   mix_label = f" (Mix ID={mix_id})"
 
+  try:
+    ref_frames = get_audio_frame_count(ref_wav)
+    test_frames = get_audio_frame_count(test_wav)
+  except (OSError, EOFError, wave.Error) as err:
+    return CheckResult(
+        False,
+        f"[FAIL] Could not read decoded audio for layout {layout}{mix_label}:"
+        f" {err}",
+    )
+
   if ref_frames != test_frames:
     return CheckResult(
         False,
@@ -318,9 +325,16 @@ def _decode_and_evaluate_layout(
         f" Reference={ref_frames} vs Test={test_frames}",
     )
 
-  is_pass, anomalies, m_peak, m_sustained = (
-      mlsd_comparator.evaluate_audio_quality(ref_wav, test_wav)
-  )
+  try:
+    is_pass, anomalies, m_peak, m_sustained = (
+        mlsd_comparator.evaluate_audio_quality(ref_wav, test_wav)
+    )
+  except ValueError as err:
+    return CheckResult(
+        False,
+        f"[FAIL] Decoded audio for layout {layout}{mix_label} cannot be"
+        f" compared: {err}",
+    )
   if not is_pass:
     msg = f"[FAIL] MLSD verification failed for layout {layout}{mix_label}."
     if anomalies:
-- 
2.43.0


From 84f44d79e103b6614f5d81b9c7e10c77b3718072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 09/58] fix: show what gpac said when it fails

Its standard error is merged into the standard output, so 'None' was shown.
---
 validation/iamf_verifier/iamf_verifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validation/iamf_verifier/iamf_verifier.py b/validation/iamf_verifier/iamf_verifier.py
index eb5b782..6b2fae1 100644
--- a/validation/iamf_verifier/iamf_verifier.py
+++ b/validation/iamf_verifier/iamf_verifier.py
@@ -396,7 +396,7 @@ def _mp4_to_iamf(
   ])
   if res.returncode != 0 or not os.path.exists(extracted_iamf):
     raise RuntimeError(
-        f"Failed to transmux IAMF bitstream from {mp4_path}:\n{res.stderr}"
+        f"Failed to transmux IAMF bitstream from {mp4_path}:\n{res.stdout}"
     )
   return extracted_iamf
 
-- 
2.43.0


From 71661080c745d515352ea28e134d65c0ec8b2d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 10/58] fix: keep the text of ADM elements whole and in its own
 element

Text reported in several pieces (entities, line breaks) lost all but the first
piece, and text following an empty or ignored element was stored as the value
of that element.
---
 .../adm_to_user_metadata/adm/xml_to_adm.cc    | 55 ++++++++++++++++---
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc b/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
index 99bbfb3..7b7089c 100644
--- a/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
@@ -114,6 +114,10 @@ struct Handler {
   AdmChannelFormat audio_channel_tag = kChannelDefault;
   AdmBlockFormat audio_block_tag = kBlockDefault;
 
+  // Character data of the element being parsed. `expat` may report the text of
+  // one element in several pieces.
+  std::string text;
+
   absl::Status status = absl::OkStatus();
   XML_Parser parser = nullptr;
 
@@ -541,13 +545,9 @@ void ValidateAudioObjects(const ADM& adm, Handler& handler) {
   }
 }
 
-//  A function to use with `expat::XML_SetCharacterDataHandler`. This function
-//  is responsible for storing character data encountered while parsing an AXML
-//  chunk in their respective handler.adm class attributes.
-void XMLCharacterDataHandlerForExpat(void* parser_data, const XML_Char* text,
-                                     int32_t len) {
-  Handler& handler = *static_cast<Handler*>(parser_data);
-
+// Stores the text of an element in the `handler.adm` class attribute selected
+// by the handler's current tag.
+void StoreElementText(const XML_Char* text, size_t len, Handler& handler) {
   int32_t idx = 0;
   switch (handler.parent) {
     case kAudioProgramme: {
@@ -770,11 +770,49 @@ void XMLCharacterDataHandlerForExpat(void* parser_data, const XML_Char* text,
   }
 }
 
+// Stores the text collected so far and forgets the tag it belongs to.
+void FinishElementText(Handler& handler) {
+  if (!handler.text.empty()) {
+    StoreElementText(handler.text.data(), handler.text.size(), handler);
+    handler.text.clear();
+  }
+  handler.audio_programme_tag = kProgrammeDefault;
+  handler.audio_content_tag = kContentDefault;
+  handler.audio_object_tag = kObjectDefault;
+  handler.audio_pack_tag = kPackDefault;
+  handler.audio_channel_tag = kChannelDefault;
+  handler.audio_block_tag = kBlockDefault;
+}
+
+// A function to use with `expat::XML_SetCharacterDataHandler`. This function is
+// responsible for collecting character data encountered while parsing an AXML
+// chunk.
+void XMLCharacterDataHandlerForExpat(void* parser_data, const XML_Char* text,
+                                     int32_t len) {
+  static_cast<Handler*>(parser_data)->text.append(text, len);
+}
+
+// A function to use with `expat::XML_SetEndElementHandler`. It stores the text
+// of the element, and resets the handler's parent tag when the parent ends.
+void XMLEndTagHandlerForExpat(void* parser_data, const char* name) {
+  Handler& handler = *static_cast<Handler*>(parser_data);
+  FinishElementText(handler);
+  absl::string_view adm_element(name);
+  if (adm_element == "audioBlockFormat") {
+    handler.parent = kAudioChannel;
+  } else if (adm_element == "audioProgramme" || adm_element == "audioContent" ||
+             adm_element == "audioObject" || adm_element == "audioPackFormat" ||
+             adm_element == "audioChannelFormat") {
+    handler.parent = kElementDefault;
+  }
+}
+
 // A function to use with `expat::XML_SetStartElementHandler`. It sets the
 // handler's parent tag depending on the name attribute.
 void XMLStartTagHandlerForExpat(void* parser_data, const char* name,
                                 const char** atts) {
   Handler& handler = *static_cast<Handler*>(parser_data);
+  FinishElementText(handler);
   absl::string_view adm_element(name);
   if (adm_element == "audioProgramme") {
     // If the tag 'audioProgramme' is encountered while parsing the axml, create
@@ -917,7 +955,8 @@ absl::StatusOr<ADM> ParseXmlToAdm(absl::string_view xml_data,
   handler.parser = XML_ParserCreate(nullptr);
   XML_SetUserData(handler.parser, &handler);
   handler.adm.file_type = file_type;
-  XML_SetStartElementHandler(handler.parser, XMLStartTagHandlerForExpat);
+  XML_SetElementHandler(handler.parser, XMLStartTagHandlerForExpat,
+                        XMLEndTagHandlerForExpat);
   XML_SetCharacterDataHandler(handler.parser, XMLCharacterDataHandlerForExpat);
   XML_SetEntityDeclHandler(handler.parser, EntityDeclHandlerForExpat);
 
-- 
2.43.0


From de22b644e18983c073618766854ae670173232e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 11/58] fix: report read errors while indexing and reading BW64
 chunks

A read error in the middle of the file was taken for the end of the chunks, so
that a file could be accepted with chunks missing or with wrong axml bytes.
---
 .../adm_to_user_metadata/adm/bw64_reader.cc   | 37 ++++++++++++++-----
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/bw64_reader.cc b/iamf/cli/adm_to_user_metadata/adm/bw64_reader.cc
index 35c22d8..d2b4c83 100644
--- a/iamf/cli/adm_to_user_metadata/adm/bw64_reader.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/bw64_reader.cc
@@ -78,8 +78,11 @@ std::pair<std::vector<char>, int64_t> ReadChunkHeader(std::istream& buffer) {
 }
 
 // Constructs an index of chunk name to information about the chunk.
-Bw64Reader::ChunksOffsetMap CreateChunksOffsetMap(std::istream& buffer) {
+absl::StatusOr<Bw64Reader::ChunksOffsetMap> CreateChunksOffsetMap(
+    std::istream& buffer) {
   buffer.clear();
+  buffer.seekg(0, std::ios::end);
+  const std::streamoff file_size = buffer.tellg();
   buffer.seekg(kRiffHeaderLength);
 
   Bw64Reader::ChunksOffsetMap chunks_offset_map;
@@ -88,11 +91,22 @@ Bw64Reader::ChunksOffsetMap CreateChunksOffsetMap(std::istream& buffer) {
     if (chunk_size == -1) {
       break;
     }
-    size_t current_file_pointer = buffer.tellg();
+    const std::streamoff current_file_pointer = buffer.tellg();
+    if (current_file_pointer < kExtraOffset) {
+      return absl::DataLossError("Failed to locate a chunk.");
+    }
     chunks_offset_map[std::string(chunk_id.begin(), chunk_id.end())] = {
-        static_cast<size_t>(chunk_size), current_file_pointer - kExtraOffset};
+        static_cast<size_t>(chunk_size),
+        static_cast<size_t>(current_file_pointer - kExtraOffset)};
     const std::streamoff chunk_realtive_offset = chunk_size + (chunk_size & 1);
-    buffer.seekg(chunk_realtive_offset, std::ios::cur);
+    if (!buffer.seekg(chunk_realtive_offset, std::ios::cur) &&
+        current_file_pointer + chunk_realtive_offset < file_size) {
+      return absl::DataLossError("Failed to seek to the next chunk.");
+    }
+  }
+  // Distinguish the end of the file from a failure to read it.
+  if (buffer.bad() || file_size < 0) {
+    return absl::DataLossError("Failed to read the chunk headers.");
   }
   return chunks_offset_map;
 }
@@ -180,7 +194,9 @@ absl::StatusOr<std::string> ReadAxml(
   std::vector<char> axml_data(axml_size);
   buffer.clear();
   buffer.seekg(axml_data_position);
-  buffer.read(axml_data.data(), axml_size);
+  if (!buffer.read(axml_data.data(), axml_size)) {
+    return absl::DataLossError("Failed to read the `axml` chunk.");
+  }
 
   return std::string(axml_data.data(), axml_size);
 }
@@ -208,18 +224,21 @@ absl::StatusOr<Bw64Reader> Bw64Reader::BuildFromStream(
 
   // Index the chunks.
   const auto chunks_offset_map = CreateChunksOffsetMap(buffer);
+  if (!chunks_offset_map.ok()) {
+    return chunks_offset_map.status();
+  }
 
-  const auto format_info = ReadFmtChunk(chunks_offset_map, buffer);
+  const auto format_info = ReadFmtChunk(*chunks_offset_map, buffer);
   if (!format_info.ok()) {
     return format_info.status();
   }
 
-  const auto axml_data = ReadAxml(chunks_offset_map, buffer);
+  const auto axml_data = ReadAxml(*chunks_offset_map, buffer);
   if (!axml_data.ok()) {
     return axml_data.status();
   }
 
-  const auto dbmd_status = CheckDbmd(chunks_offset_map);
+  const auto dbmd_status = CheckDbmd(*chunks_offset_map);
   AdmFileType file_type = kAdmFileTypeDefault;
   if (dbmd_status.ok()) {
     file_type = kAdmFileTypeDolby;
@@ -246,7 +265,7 @@ absl::StatusOr<Bw64Reader> Bw64Reader::BuildFromStream(
     return adm.status();
   }
 
-  return Bw64Reader(*adm, *format_info, chunks_offset_map);
+  return Bw64Reader(*adm, *format_info, *chunks_offset_map);
 }
 
 }  // namespace adm_to_user_metadata
-- 
2.43.0


From 9d35b628cdbc3e48930bb8be1360f154426b4914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:01 +0000
Subject: [PATCH 12/58] fix: split ADM objects by their own channels and leave
 no partial files

Objects removed for low importance and channels without an object shifted the
channels of all later samples. Writers that could not be created, failed writes
and data that is no whole number of frames were ignored or crashed.
---
 .../adm_to_user_metadata/adm/adm_elements.h   |   5 +
 .../adm/wav_file_splicer.cc                   | 212 +++++++++++-------
 .../adm_to_user_metadata/adm/xml_to_adm.cc    |  11 +
 3 files changed, 152 insertions(+), 76 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/adm_elements.h b/iamf/cli/adm_to_user_metadata/adm/adm_elements.h
index da90e4a..e32126c 100644
--- a/iamf/cli/adm_to_user_metadata/adm/adm_elements.h
+++ b/iamf/cli/adm_to_user_metadata/adm/adm_elements.h
@@ -94,6 +94,11 @@ struct AudioObject {
   std::vector<std::string> audio_pack_format_id_refs;
   std::vector<std::string> audio_comple_object_id_ref;
   std::vector<std::string> audio_track_uid_ref;
+
+  // Index in the wav file of the first track of the object, counting the tracks
+  // of all objects that precede it. When not set the tracks follow those of the
+  // previous object.
+  std::optional<int32_t> first_audio_track_index;
 };
 
 // This structure holds the attributes of an audio pack format in ADM.
diff --git a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
index 742cd50..7825ed0 100644
--- a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
@@ -78,6 +78,10 @@ std::vector<std::vector<int32_t>> GetAudioTracksForAudioObjects(
   for (const auto& audio_object : audio_objects) {
     auto& audio_tracks_for_audio_object =
         audio_tracks_for_audio_objects[++audio_object_index];
+    // Tracks of objects that are not present in the list are skipped.
+    if (audio_object.first_audio_track_index.has_value()) {
+      audio_track_index = *audio_object.first_audio_track_index - 1;
+    }
     for (auto unused_audio_track : audio_object.audio_track_uid_ref) {
       audio_tracks_for_audio_object.push_back(++audio_track_index);
     }
@@ -88,8 +92,34 @@ std::vector<std::vector<int32_t>> GetAudioTracksForAudioObjects(
 void AbortAllWavWriters(
     std::vector<std::unique_ptr<WavWriter>>& audio_object_index_to_wav_writer) {
   for (auto& wav_writer : audio_object_index_to_wav_writer) {
-    wav_writer->Abort();
+    if (wav_writer != nullptr) {
+      wav_writer->Abort();
+    }
+  }
+}
+
+// Finishes all files, or reports why one of them may be incomplete.
+absl::Status FlushAllWavWriters(
+    std::vector<std::unique_ptr<WavWriter>>& wav_writers) {
+  for (auto& wav_writer : wav_writers) {
+    RETURN_IF_NOT_OK(wav_writer->Flush());
+  }
+  return absl::OkStatus();
+}
+
+// Creates a wav writer and appends it to the list.
+absl::Status AppendWavWriter(
+    const std::string& file_name, int num_channels, int samples_per_sec,
+    int bits_per_sample, std::vector<std::unique_ptr<WavWriter>>& wav_writers) {
+  auto wav_writer =
+      WavWriter::Create(file_name, num_channels, samples_per_sec,
+                        bits_per_sample, kMaxNumSamplesPerFrame);
+  if (wav_writer == nullptr) {
+    return absl::UnknownError(
+        absl::StrCat("Failed to create wav file= ", file_name));
   }
+  wav_writers.push_back(std::move(wav_writer));
+  return absl::OkStatus();
 }
 
 absl::Status FlushToWavWriter(std::vector<uint8_t>& samples_to_flush,
@@ -622,6 +652,104 @@ absl::Status SeparateLfeAndConvertTo3OA(
   return absl::OkStatus();
 }
 
+// Writes the audio tracks of each audio object to a wav file of its own.
+absl::Status SplitAudioObjects(
+    const std::filesystem::path& output_file_path,
+    absl::string_view file_prefix,
+    const std::vector<std::vector<int32_t>>& audio_tracks_for_audio_objects,
+    const FormatInfoChunk& wav_file_fmt,
+    const Bw64Reader::ChunkInfo& data_chunk_info, std::istream& input_stream,
+    std::vector<std::unique_ptr<WavWriter>>& audio_object_index_to_wav_writer) {
+  const size_t bytes_per_sample = wav_file_fmt.bits_per_sample / kBitsPerByte;
+  const int32_t channels = wav_file_fmt.num_channels;
+  for (const auto& audio_tracks : audio_tracks_for_audio_objects) {
+    if (!audio_tracks.empty() && audio_tracks.back() >= channels) {
+      return absl::InvalidArgumentError(
+          "The audioObject(s) refer to more tracks than the wav file has "
+          "channels.");
+    }
+  }
+  if (data_chunk_info.size % (bytes_per_sample * channels) != 0) {
+    return absl::InvalidArgumentError(
+        "Data chunk size is not a multiple of the total channel size.");
+  }
+
+  // Construct the wav writers to use a file name of the form 'converted'
+  // followed by the 1-indexed content.
+  audio_object_index_to_wav_writer.reserve(
+      audio_tracks_for_audio_objects.size());
+  for (size_t audio_object_index = 0;
+       audio_object_index < audio_tracks_for_audio_objects.size();
+       ++audio_object_index) {
+    RETURN_IF_NOT_OK(AppendWavWriter(
+        (output_file_path / absl::StrCat(file_prefix, "_converted",
+                                         audio_object_index + 1, ".wav"))
+            .string(),
+        audio_tracks_for_audio_objects[audio_object_index].size(),
+        wav_file_fmt.samples_per_sec, wav_file_fmt.bits_per_sample,
+        audio_object_index_to_wav_writer));
+  }
+
+  // Write audio samples into the corresponding output wav file(s).
+  const std::streamoff audio_data_position =
+      data_chunk_info.offset + Bw64Reader::kChunkHeaderOffset;
+  input_stream.clear();
+  input_stream.seekg(audio_data_position);
+
+  // Buffer to store samples per audio object. They will be flushed
+  // occasionally when the buffer is full. The buffer will expand, so it is OK
+  // if it goes over the target size to flush.
+  std::vector<std::vector<uint8_t>> interlaced_samples_for_audio_objects(
+      audio_tracks_for_audio_objects.size(), std::vector<uint8_t>());
+
+  // Read audio samples from the buffer and organize them into individual
+  // audio tracks, based on the mapping specified in
+  // 'audio_tracks_for_audio_objects'. Write the audio track data to
+  // corresponding `WavWriter`s.
+  std::vector<char> frame(bytes_per_sample * channels);
+  for (size_t data_chunk_pos = 0; data_chunk_pos < data_chunk_info.size;
+       data_chunk_pos += frame.size()) {
+    // Read in one sample for each channel.
+    if (!input_stream.read(frame.data(), frame.size())) {
+      return absl::OutOfRangeError(
+          "Reached end of stream before the implied end of the `data` "
+          "chunk.");
+    }
+
+    for (size_t audio_object_index = 0;
+         audio_object_index < audio_tracks_for_audio_objects.size();
+         ++audio_object_index) {
+      // Store the samples in the buffer.
+      auto& samples_for_audio_object =
+          interlaced_samples_for_audio_objects[audio_object_index];
+      for (const auto audio_track :
+           audio_tracks_for_audio_objects[audio_object_index]) {
+        const auto sample = frame.begin() + audio_track * bytes_per_sample;
+        std::transform(sample, sample + bytes_per_sample,
+                       std::back_inserter(samples_for_audio_object),
+                       [](char c) { return static_cast<uint8_t>(c); });
+      }
+
+      // Occasionally flush the buffer to the corresponding wav writer.
+      if (samples_for_audio_object.size() >= kSizeToFlush) {
+        RETURN_IF_NOT_OK(FlushToWavWriter(
+            samples_for_audio_object,
+            *audio_object_index_to_wav_writer[audio_object_index]));
+      }
+    }
+  }
+
+  // Flush the remaining buffers.
+  for (size_t audio_object_index = 0;
+       audio_object_index < audio_tracks_for_audio_objects.size();
+       ++audio_object_index) {
+    RETURN_IF_NOT_OK(FlushToWavWriter(
+        interlaced_samples_for_audio_objects[audio_object_index],
+        *audio_object_index_to_wav_writer[audio_object_index]));
+  }
+  return FlushAllWavWriters(audio_object_index_to_wav_writer);
+}
+
 }  // namespace
 
 // Splices the input wav file depending on the ADM file type.
@@ -646,82 +774,14 @@ absl::Status SpliceWavFilesFromAdm(
       return absl::NotFoundError("No audioObject present.");
     };
 
-    // Construct the wav writers to use a file name of the form 'converted'
-    // followed by the 1-indexed content.
     std::vector<std::unique_ptr<WavWriter>> audio_object_index_to_wav_writer;
-    audio_object_index_to_wav_writer.reserve(
-        audio_tracks_for_audio_objects.size());
-    const FormatInfoChunk& wav_file_fmt = reader.format_info_;
-    for (size_t audio_object_index = 0;
-         audio_object_index < audio_tracks_for_audio_objects.size();
-         ++audio_object_index) {
-      audio_object_index_to_wav_writer.emplace_back(WavWriter::Create(
-          (output_file_path / absl::StrCat(file_prefix, "_converted",
-                                           audio_object_index + 1, ".wav"))
-              .string(),
-          audio_tracks_for_audio_objects[audio_object_index].size(),
-          wav_file_fmt.samples_per_sec, wav_file_fmt.bits_per_sample,
-          kMaxNumSamplesPerFrame));
-    }
-
-    // Write audio samples into the corresponding output wav file(s).
-    const std::streamoff audio_data_position =
-        data_chunk_info->offset + Bw64Reader::kChunkHeaderOffset;
-    input_stream.seekg(audio_data_position);
-
-    // Buffer to store samples per audio object. They will be flushed
-    // occasionally when the buffer is full. The buffer will expand, so it is OK
-    // if it goes over the target size to flush.
-    std::vector<std::vector<uint8_t>> interlaced_samples_for_audio_objects(
-        audio_tracks_for_audio_objects.size(), std::vector<uint8_t>());
-
-    // Read audio samples from the buffer and organize them into individual
-    // audio tracks, based on the mapping specified in
-    // 'audio_tracks_for_audio_objects'. Write the audio track data to
-    // corresponding `WavWriter`s.
-    const int32_t bytes_per_sample =
-        static_cast<int32_t>(wav_file_fmt.bits_per_sample) / kBitsPerByte;
-    const int32_t channels = wav_file_fmt.num_channels;
-    for (size_t data_chunk_pos = 0; data_chunk_pos < data_chunk_info->size;
-         data_chunk_pos += static_cast<size_t>(bytes_per_sample) * channels) {
-      for (size_t audio_object_index = 0;
-           audio_object_index < audio_tracks_for_audio_objects.size();
-           ++audio_object_index) {
-        // Read in the samples for the current audio object.
-        std::vector<char> sample(
-            static_cast<size_t>(bytes_per_sample) *
-            audio_tracks_for_audio_objects[audio_object_index].size());
-
-        if (!input_stream.read(sample.data(), sample.size())) {
-          AbortAllWavWriters(audio_object_index_to_wav_writer);
-          return absl::OutOfRangeError(
-              "Reached end of stream before the implied end of the `data` "
-              "chunk.");
-        }
-
-        // Store the samples in the buffer.
-        auto& samples_for_audio_object =
-            interlaced_samples_for_audio_objects[audio_object_index];
-        std::transform(sample.begin(), sample.end(),
-                       std::back_inserter(samples_for_audio_object),
-                       [](char c) { return static_cast<uint8_t>(c); });
-
-        // Occasionally flush the buffer to the corresponding wav writer.
-        if (samples_for_audio_object.size() >= kSizeToFlush) {
-          RETURN_IF_NOT_OK(FlushToWavWriter(
-              samples_for_audio_object,
-              *audio_object_index_to_wav_writer[audio_object_index]));
-        }
-      }
-    }
-
-    // Flush the remaining buffers.
-    for (size_t audio_object_index = 0;
-         audio_object_index < audio_tracks_for_audio_objects.size();
-         ++audio_object_index) {
-      RETURN_IF_NOT_OK(FlushToWavWriter(
-          interlaced_samples_for_audio_objects[audio_object_index],
-          *audio_object_index_to_wav_writer[audio_object_index]));
+    const auto status = SplitAudioObjects(
+        output_file_path, file_prefix, audio_tracks_for_audio_objects,
+        reader.format_info_, *data_chunk_info, input_stream,
+        audio_object_index_to_wav_writer);
+    if (!status.ok()) {
+      AbortAllWavWriters(audio_object_index_to_wav_writer);
+      return status;
     }
   } else {
     ABSL_CHECK_EQ(adm_file_type, kAdmFileTypeDolby);
diff --git a/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc b/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
index 7b7089c..b9fc019 100644
--- a/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
@@ -279,6 +279,16 @@ absl::Status SetAudioBlockValue(absl::string_view key, absl::string_view value,
   return absl::OkStatus();
 }
 
+// Sets the position of the tracks of all objects in the wav file. Objects which
+// are removed later still occupy their tracks.
+void SetFirstAudioTrackIndices(ADM& adm) {
+  int32_t audio_track_index = 0;
+  for (auto& audio_object : adm.audio_objects) {
+    audio_object.first_audio_track_index = audio_track_index;
+    audio_track_index += audio_object.audio_track_uid_ref.size();
+  }
+}
+
 // Removes objects from the ADM structure based on the given importance
 // threshold. Also, removes audio objects with IDs found in the set of invalid
 // audio objects.
@@ -965,6 +975,7 @@ absl::StatusOr<ADM> ParseXmlToAdm(absl::string_view xml_data,
     case XML_STATUS_OK:
       SetChannelIndices(handler.adm);
       ValidateAudioObjects(handler.adm, handler);
+      SetFirstAudioTrackIndices(handler.adm);
       RemoveLowImportanceAndInvalidAudioObjects(importance_threshold, handler);
       if (!handler.status.ok()) {
         return handler.status;
-- 
2.43.0


From ffaf83488da27e0c5f6f509bc9a9f841c0a8b752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 13/58] fix: report failures while converting ADM channels to
 ambisonics

Missing blocks or channel formats, LFE channels removed from the wrong position,
failing reads and writes and incomplete temporary files crashed, were ignored or
left temporary and partial files behind.
---
 iamf/cli/adm_to_user_metadata/adm/panner.cc   |  27 +-
 .../adm/wav_file_splicer.cc                   | 264 +++++++++++-------
 2 files changed, 185 insertions(+), 106 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/panner.cc b/iamf/cli/adm_to_user_metadata/adm/panner.cc
index e07e84d..e483430 100644
--- a/iamf/cli/adm_to_user_metadata/adm/panner.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/panner.cc
@@ -19,6 +19,7 @@
 #include <cstdint>
 #include <cstdio>
 #include <cstring>
+#include <memory>
 #include <numbers>
 #include <string>
 #include <vector>
@@ -63,7 +64,11 @@ absl::Status PanObjectsToAmbisonics(const std::string& input_filename,
                                     const std::vector<size_t>& block_indices,
                                     WavWriter& wav_writer) {
   // Read input wav file.
-  FILE* input_file = std::fopen(input_filename.c_str(), "rb");
+  const std::unique_ptr<FILE, int (*)(FILE*)> input_file_closer(
+      std::fopen(input_filename.c_str(), "rb"), [](FILE* file) {
+        return file == nullptr ? 0 : std::fclose(file);
+      });
+  FILE* input_file = input_file_closer.get();
   if (input_file == nullptr) {
     return absl::FailedPreconditionError(
         absl::StrCat("Failed to open file: \"", input_filename,
@@ -72,8 +77,10 @@ absl::Status PanObjectsToAmbisonics(const std::string& input_filename,
 
   // Read header of input wav file.
   ReadWavInfo info;
-  ABSL_CHECK_NE(ReadWavHeader(input_file, &info), 0)
-      << "Error reading header of file \"" << input_file << "\"";
+  if (ReadWavHeader(input_file, &info) == 0) {
+    return absl::DataLossError(absl::StrCat(
+        "Error reading header of file \"", input_filename, "\"."));
+  }
 
   const int ip_wav_bits_per_sample = info.bit_depth;
   const int ip_wav_nch = info.num_channels;
@@ -117,6 +124,13 @@ absl::Status PanObjectsToAmbisonics(const std::string& input_filename,
   AmbisonicEncoder encoder(samples_per_frame, info.num_channels,
                            kAmbisonicOrder);
 
+  if (input_adm.audio_channels.size() < static_cast<size_t>(ip_wav_nch) ||
+      block_indices.size() < static_cast<size_t>(ip_wav_nch)) {
+    return absl::InvalidArgumentError(
+        "There are fewer audioChannelFormat(s) than channels in the wav "
+        "file.");
+  }
+
   // Assign sources to the encoder at all available input channels.
   for (int i = 0; i < ip_wav_nch; ++i) {
     auto& audio_block =
@@ -151,7 +165,10 @@ absl::Status PanObjectsToAmbisonics(const std::string& input_filename,
     // Read from the input file.
     const size_t samples_read = ReadWavSamples(
         input_file, &info, ip_buffer_int32.data(), ip_buffer_alloc_size);
-    ABSL_CHECK_EQ(samples_read, num_samples_to_read * ip_wav_nch);
+    if (samples_read != num_samples_to_read * ip_wav_nch) {
+      return absl::DataLossError(absl::StrCat(
+          "Error reading samples of file \"", input_filename, "\"."));
+    }
 
     // Convert int32 interleaved to float planar.
     for (size_t smp = 0; smp < samples_per_frame; ++smp) {
@@ -214,8 +231,6 @@ absl::Status PanObjectsToAmbisonics(const std::string& input_filename,
         max_value_db);
   }
 
-  std::fclose(input_file);
-
   return absl::OkStatus();
 }
 
diff --git a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
index 7825ed0..e2d762a 100644
--- a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
@@ -22,6 +22,7 @@
 #include <iterator>
 #include <memory>
 #include <string>
+#include <system_error>
 #include <utility>
 #include <vector>
 
@@ -60,8 +61,6 @@ constexpr double kErrorTolerance = 1e-5;
 constexpr int64_t kMaxSpliceRoundingDriftSamples = 1;
 // Offset for data chunk within the extensible format wav file.
 constexpr int32_t kExtensibleOffset = 72;
-// Standard size for a wav header.
-constexpr int32_t kHeaderSize = 8;
 // Total number of channels allowed per mix for the IAMF base enhanced profile.
 constexpr int kMaxChannelsPerMixBaseEnhanced = 28;
 // Max LFE channels allowed per mix for the IAMF base enhanced profile.
@@ -220,7 +219,6 @@ absl::Status SpliceWavSegment(std::istream& input_stream,
        data_chunk_pos += total_channel_size) {
     std::vector<char> sample(total_channel_size);
     if (!input_stream.read(sample.data(), sample.size())) {
-      wav_writer.Abort();
       return absl::OutOfRangeError(
           "Reached end of stream before the implied end of the `data` "
           "chunk.");
@@ -237,6 +235,26 @@ absl::Status SpliceWavSegment(std::istream& input_stream,
   return absl::OkStatus();
 }
 
+// Splices the wav to obtain the wav segment in a file of its own.
+absl::Status SpliceWavSegmentToFile(const std::string& file_name,
+                                    const FormatInfoChunk& wav_file_fmt,
+                                    std::istream& input_stream,
+                                    const size_t& sample_length,
+                                    const size_t& total_channel_size,
+                                    std::vector<uint8_t>& samples_buffer) {
+  auto wav_writer = WavWriter::Create(
+      file_name, wav_file_fmt.num_channels, wav_file_fmt.samples_per_sec,
+      wav_file_fmt.bits_per_sample, kMaxNumSamplesPerFrame);
+  if (wav_writer == nullptr) {
+    return absl::UnknownError(
+        absl::StrCat("Failed to create wav file= ", file_name));
+  }
+  RETURN_IF_NOT_OK(SpliceWavSegment(input_stream, sample_length,
+                                    total_channel_size, samples_buffer,
+                                    *wav_writer));
+  return wav_writer->Flush();
+}
+
 absl::StatusOr<size_t> CalculateTotalSamplesPerChannel(
     size_t data_chunk_size, size_t total_channel_size) {
   if (data_chunk_size % total_channel_size != 0) {
@@ -278,9 +296,11 @@ double CalculateBlockDuration(const std::vector<AudioBlockFormat>& audio_block,
 // Retrieves LFE channel IDs from the audio channels list, adds them to
 // "lfe_ids" vector, and checks if the count exceeds the allowed limit.
 std::vector<int> GetLfeChannelIDs(
-    const std::vector<AudioChannelFormat>& audio_channels) {
+    const std::vector<AudioChannelFormat>& audio_channels,
+    size_t num_channels) {
   std::vector<int> lfe_ids;
-  for (size_t index = 0; index < audio_channels.size(); ++index) {
+  for (size_t index = 0; index < std::min(audio_channels.size(), num_channels);
+       ++index) {
     if (audio_channels[index].name == "RoomCentricLFE") {
       if (lfe_ids.size() < kMaxLfeChannelsAllowed) {
         lfe_ids.push_back(index + 1);
@@ -306,7 +326,7 @@ void UpdateWavSplicingParams(
     const std::vector<AudioChannelFormat>& audio_channels,
     std::vector<double>& seg_duration,
     std::vector<size_t>& audio_block_indices) {
-  for (size_t ch = 0; ch < audio_channels.size(); ++ch) {
+  for (size_t ch = 0; ch < seg_duration.size(); ++ch) {
     if (seg_duration[ch] > kErrorTolerance)
       seg_duration[ch] -= this_seg_duration;
     if (seg_duration[ch] <= kErrorTolerance) {
@@ -327,32 +347,21 @@ void UpdateWavSplicingParams(
 // positional metadata defined by audioBlockFormat and invokes the panner to
 // obtain 3OA. The panned wav for each segment is appended to obtain the final
 // output wav.
-absl::Status ConvertFromObjectsTo3OA(
-    const std::filesystem::path& output_file_path,
-    absl::string_view file_prefix, const ADM& input_adm,
+absl::Status PanSegmentsTo3OA(
+    const std::filesystem::path& input_file, const ADM& input_adm,
     const FormatInfoChunk& wav_file_fmt, std::istream& input_stream,
     const iamf_tools::adm_to_user_metadata::Bw64Reader::ChunkInfo&
-        data_chunk_info) {
+        data_chunk_info,
+    WavWriter& output_wav_writer) {
   const std::streamoff audio_data_position =
       data_chunk_info.offset + Bw64Reader::kChunkHeaderOffset;
+  input_stream.clear();
   input_stream.seekg(audio_data_position);
 
   // Buffer to temporarily store audio samples before writing to file.
   std::vector<uint8_t> samples_buffer;
   samples_buffer.reserve(kSizeToFlush);
 
-  // Prepare the file paths and initialize necessary file handling.
-  const auto temp_file_dir = std::filesystem::temp_directory_path();
-  std::filesystem::path input_file =
-      temp_file_dir / absl::StrCat(file_prefix, "_adm_segment.wav");
-  std::filesystem::path output_file =
-      output_file_path / absl::StrCat(file_prefix, "_converted1.wav");
-
-  // Output channels set to 16 as objects get panned to 3OA.
-  auto output_wav_writer = WavWriter::Create(
-      output_file.string(), kOutputWavChannels, wav_file_fmt.samples_per_sec,
-      wav_file_fmt.bits_per_sample, kMaxNumSamplesPerFrame);
-
   // Calculate number of bytes per sample based on bits per sample.
   const int32_t bytes_per_sample =
       static_cast<int32_t>(wav_file_fmt.bits_per_sample) / kBitsPerByte;
@@ -382,7 +391,16 @@ absl::Status ConvertFromObjectsTo3OA(
   // Initialize segment duration for all channels with the corresponding first
   // audio block duration.
   auto& audio_channels = input_adm.audio_channels;
+  if (audio_channels.size() < static_cast<size_t>(total_channels)) {
+    return absl::InvalidArgumentError(
+        "There are fewer audioChannelFormat(s) than channels in the wav "
+        "file.");
+  }
   for (int ch = 0; ch < total_channels; ++ch) {
+    if (audio_channels[ch].audio_blocks.empty()) {
+      return absl::InvalidArgumentError(
+          "An audioChannelFormat has no audioBlockFormat.");
+    }
     seg_duration[ch] =
         CalculateBlockDuration(audio_channels[ch].audio_blocks, 0);
     if (seg_duration[ch] <= kErrorTolerance) {
@@ -428,43 +446,36 @@ absl::Status ConvertFromObjectsTo3OA(
     // Read audio samples corresponding to the minimum segment duration
     // and write to an intermediate wav file which will be input to the
     // panner.
-    {
-      auto wav_writer = WavWriter::Create(
-          input_file.string(), wav_file_fmt.num_channels,
-          wav_file_fmt.samples_per_sec, wav_file_fmt.bits_per_sample,
-          kMaxNumSamplesPerFrame);
-      // Compute the length of audio samples corresponding to the current
-      // segment duration. The samples excluded due the rounding error at each
-      // segment is accounted in the next segment.
-      const double this_seg_length =
-          (this_seg_duration * wav_file_fmt.samples_per_sec) +
-          leftover_sample_duration;
-      // Length of the processed audio segment. Samples are rounded off for the
-      // current segment.
-      const auto processed_seg_length =
-          static_cast<int64_t>(std::floor(this_seg_length));
-      leftover_sample_duration =
-          this_seg_length - static_cast<double>(processed_seg_length);
-
-      num_samples_count += processed_seg_length;
-
-      if (processed_seg_length >
-          static_cast<int64_t>(*total_samples_per_channel)) {
-        return absl::InvalidArgumentError(absl::StrCat(
-            "Segment length (", processed_seg_length,
-            ") should not be greater than the actual samples per channel (",
-            *total_samples_per_channel, ") in the wav file."));
-      }
-
-      RETURN_IF_NOT_OK(SpliceWavSegment(input_stream, processed_seg_length,
-                                        total_channel_size, samples_buffer,
-                                        *wav_writer));
+    // Compute the length of audio samples corresponding to the current
+    // segment duration. The samples excluded due the rounding error at each
+    // segment is accounted in the next segment.
+    const double this_seg_length =
+        (this_seg_duration * wav_file_fmt.samples_per_sec) +
+        leftover_sample_duration;
+    // Length of the processed audio segment. Samples are rounded off for the
+    // current segment.
+    if (std::floor(this_seg_length) >
+        static_cast<double>(*total_samples_per_channel)) {
+      return absl::InvalidArgumentError(absl::StrCat(
+          "Segment length (", this_seg_length,
+          ") should not be greater than the actual samples per channel (",
+          *total_samples_per_channel, ") in the wav file."));
     }
+    const auto processed_seg_length =
+        static_cast<int64_t>(std::floor(this_seg_length));
+    leftover_sample_duration =
+        this_seg_length - static_cast<double>(processed_seg_length);
+
+    num_samples_count += processed_seg_length;
+
+    RETURN_IF_NOT_OK(SpliceWavSegmentToFile(
+        input_file.string(), wav_file_fmt, input_stream, processed_seg_length,
+        total_channel_size, samples_buffer));
 
     // Pan the current wav segment to 3OA and append the output wav.
     RETURN_IF_NOT_OK(PanObjectsToAmbisonics(input_file.string(), input_adm,
                                             audio_block_indices,
-                                            *output_wav_writer));
+                                            output_wav_writer));
 
     UpdateWavSplicingParams(this_seg_duration, audio_channels, seg_duration,
                             audio_block_indices);
@@ -490,36 +501,68 @@ absl::Status ConvertFromObjectsTo3OA(
         *total_samples_per_channel, ")."));
   }
   if (sample_count_drift > 0) {
-    {
-      auto wav_writer = WavWriter::Create(
-          input_file.string(), wav_file_fmt.num_channels,
-          wav_file_fmt.samples_per_sec, wav_file_fmt.bits_per_sample,
-          kMaxNumSamplesPerFrame);
-      RETURN_IF_NOT_OK(SpliceWavSegment(input_stream, sample_count_drift,
-                                        total_channel_size, samples_buffer,
-                                        *wav_writer));
-    }
+    RETURN_IF_NOT_OK(SpliceWavSegmentToFile(
+        input_file.string(), wav_file_fmt, input_stream, sample_count_drift,
+        total_channel_size, samples_buffer));
     RETURN_IF_NOT_OK(PanObjectsToAmbisonics(input_file.string(), input_adm,
                                             audio_block_indices,
-                                            *output_wav_writer));
+                                            output_wav_writer));
+  }
+
+  return absl::OkStatus();
+}
+
+// Pans all the channels to obtain 3OA in the first output wav file.
+absl::Status ConvertFromObjectsTo3OA(
+    const std::filesystem::path& output_file_path,
+    absl::string_view file_prefix, const ADM& input_adm,
+    const FormatInfoChunk& wav_file_fmt, std::istream& input_stream,
+    const iamf_tools::adm_to_user_metadata::Bw64Reader::ChunkInfo&
+        data_chunk_info) {
+  // Prepare the file paths and initialize necessary file handling.
+  const auto temp_file_dir = std::filesystem::temp_directory_path();
+  std::filesystem::path input_file =
+      temp_file_dir / absl::StrCat(file_prefix, "_adm_segment.wav");
+  std::filesystem::path output_file =
+      output_file_path / absl::StrCat(file_prefix, "_converted1.wav");
+
+  // Output channels set to 16 as objects get panned to 3OA.
+  auto output_wav_writer = WavWriter::Create(
+      output_file.string(), kOutputWavChannels, wav_file_fmt.samples_per_sec,
+      wav_file_fmt.bits_per_sample, kMaxNumSamplesPerFrame);
+  if (output_wav_writer == nullptr) {
+    return absl::UnknownError(
+        absl::StrCat("Failed to create wav file= ", output_file.string()));
+  }
+
+  auto status = PanSegmentsTo3OA(input_file, input_adm, wav_file_fmt,
+                                 input_stream, data_chunk_info,
+                                 *output_wav_writer);
+  if (status.ok()) {
+    status = output_wav_writer->Flush();
   }
 
   // Delete the temporary files.
-  if (!std::filesystem::remove(input_file)) {
-    return absl::InternalError("Error while removing temporary file.");
+  std::error_code error_code;
+  std::filesystem::remove(input_file, error_code);
+  if (status.ok() && error_code) {
+    status = absl::InternalError("Error while removing temporary file.");
   }
-  return absl::OkStatus();
+  if (!status.ok()) {
+    output_wav_writer->Abort();
+  }
+  return status;
 }
 
 // Separates each LFE channel present in the channel bed to individual wav
-// file(s).
-absl::Status SeparateLfeChannels(const std::filesystem::path& output_file_path,
-                                 absl::string_view file_prefix,
-                                 const std::string& non_lfe_file_path,
-                                 std::istream& input_stream,
-                                 const FormatInfoChunk& wav_file_fmt,
-                                 const Bw64Reader::ChunkInfo& data_chunk_info,
-                                 const std::vector<int>& lfe_ids) {
+// file(s). The wav writers are appended to `nonlfe_lfe_wav_writer`.
+absl::Status SeparateLfeChannels(
+    const std::filesystem::path& output_file_path,
+    absl::string_view file_prefix, const std::string& non_lfe_file_path,
+    std::istream& input_stream, const FormatInfoChunk& wav_file_fmt,
+    const Bw64Reader::ChunkInfo& data_chunk_info,
+    const std::vector<int>& lfe_ids,
+    std::vector<std::unique_ptr<WavWriter>>& nonlfe_lfe_wav_writer) {
   const size_t bits_per_sample = wav_file_fmt.bits_per_sample;
   const int32_t bytes_per_sample = bits_per_sample / kBitsPerByte;
   const int num_channels = wav_file_fmt.num_channels;
@@ -530,16 +573,15 @@ absl::Status SeparateLfeChannels(const std::filesystem::path& output_file_path,
   // Create wav writers to separate LFE and non-LFE channels. Index 0 holds
   // the wav writer corresponding to non-LFE channels and subsequent indices
   // correspond to each LFE channel present.
-  std::vector<std::unique_ptr<WavWriter>> nonlfe_lfe_wav_writer;
-  nonlfe_lfe_wav_writer.emplace_back(
-      WavWriter::Create(non_lfe_file_path, non_lfe_count, samples_per_sec,
-                        bits_per_sample, kMaxNumSamplesPerFrame));
+  RETURN_IF_NOT_OK(AppendWavWriter(non_lfe_file_path, non_lfe_count,
+                                   samples_per_sec, bits_per_sample,
+                                   nonlfe_lfe_wav_writer));
   for (size_t lfe_index = 1; lfe_index <= lfe_ids.size(); ++lfe_index) {
-    nonlfe_lfe_wav_writer.emplace_back(WavWriter::Create(
+    RETURN_IF_NOT_OK(AppendWavWriter(
         (output_file_path /
          absl::StrCat(file_prefix, "_converted", lfe_index + 1, ".wav"))
             .string(),
-        1, samples_per_sec, bits_per_sample, kMaxNumSamplesPerFrame));
+        1, samples_per_sec, bits_per_sample, nonlfe_lfe_wav_writer));
   }
 
   // The samples in the input wav are packed in a channel-interleaved fashion.
@@ -554,8 +596,15 @@ absl::Status SeparateLfeChannels(const std::filesystem::path& output_file_path,
   std::vector<std::pair<int, int>> segment_layout =
       GenerateSegmentLayout(lfe_ids, num_channels);
 
+  const auto total_samples_per_channel = CalculateTotalSamplesPerChannel(
+      data_chunk_info.size,
+      static_cast<size_t>(bytes_per_sample) * num_channels);
+  if (!total_samples_per_channel.ok()) {
+    return total_samples_per_channel.status();
+  }
   const std::streamoff audio_data_position =
       data_chunk_info.offset + Bw64Reader::kChunkHeaderOffset;
+  input_stream.clear();
   input_stream.seekg(audio_data_position);
 
   size_t num_samples_to_read = kSizeToFlush;
@@ -565,11 +614,10 @@ absl::Status SeparateLfeChannels(const std::filesystem::path& output_file_path,
   // Perform the file read in chunks and use the temporary buffer for further
   // processing.
   for (size_t data_chunk_pos = 0; data_chunk_pos < data_chunk_info.size;
-       data_chunk_pos += temp_buffer.capacity()) {
+       data_chunk_pos += temp_buffer.size()) {
     const size_t bytes_to_read =
-        std::min(temp_buffer.capacity(), data_chunk_info.size - data_chunk_pos);
+        std::min(temp_buffer.size(), data_chunk_info.size - data_chunk_pos);
     if (!input_stream.read(temp_buffer.data(), bytes_to_read)) {
-      AbortAllWavWriters(nonlfe_lfe_wav_writer);
       return absl::OutOfRangeError(
           "Reached end of stream before the implied end of the `data` "
           "chunk.");
@@ -578,9 +626,8 @@ absl::Status SeparateLfeChannels(const std::filesystem::path& output_file_path,
     RETURN_IF_NOT_OK(FlushLfeNonLfeWavs(temp_buffer, bytes_to_read,
                                         num_channels, bytes_per_sample,
                                         segment_layout, nonlfe_lfe_wav_writer));
-    temp_buffer.clear();
   }
-  return absl::OkStatus();
+  return FlushAllWavWriters(nonlfe_lfe_wav_writer);
 }
 
 // Separates each LFE channel present in the channel bed to individual wav
@@ -596,7 +643,8 @@ absl::Status SeparateLfeAndConvertTo3OA(
   const int num_channels = wav_file_fmt.num_channels;
 
   // Holds the track position corresponding to LFE channels.
-  std::vector<int> lfe_ids = GetLfeChannelIDs(reader.adm_.audio_channels);
+  std::vector<int> lfe_ids = 
+      GetLfeChannelIDs(reader.adm_.audio_channels, num_channels);
   lfe_count = lfe_ids.size();
 
   if (lfe_count == 0) {
@@ -606,15 +654,23 @@ absl::Status SeparateLfeAndConvertTo3OA(
                                    data_chunk_info);
   }
 
-  ABSL_CHECK_LT(lfe_count, num_channels);
+  if (lfe_count >= num_channels) {
+    return absl::InvalidArgumentError(
+        "There are no channels other than LFE channels.");
+  }
   const int non_lfe_count = num_channels - lfe_count;
   const auto& non_lfe_file_path =
       (output_file_path / non_lfe_file_name).string();
 
   // Separate LFE channels to individual wavs
-  RETURN_IF_NOT_OK(SeparateLfeChannels(output_file_path, file_prefix,
-                                       non_lfe_file_path, input_stream,
-                                       wav_file_fmt, data_chunk_info, lfe_ids));
+  std::vector<std::unique_ptr<WavWriter>> nonlfe_lfe_wav_writer;
+  auto status = SeparateLfeChannels(
+      output_file_path, file_prefix, non_lfe_file_path, input_stream,
+      wav_file_fmt, data_chunk_info, lfe_ids, nonlfe_lfe_wav_writer);
+  if (!status.ok()) {
+    AbortAllWavWriters(nonlfe_lfe_wav_writer);
+    return status;
+  }
 
   std::ifstream non_lfe_file(non_lfe_file_path,
                              std::ios::binary | std::ios::in);
@@ -626,7 +682,7 @@ absl::Status SeparateLfeAndConvertTo3OA(
   ADM non_lfe_adm = reader.adm_;
   for (int index = lfe_count - 1; index >= 0; --index) {
     non_lfe_adm.audio_channels.erase(non_lfe_adm.audio_channels.begin() +
-                                     lfe_ids[index]);
+                                     lfe_ids[index] - 1);
   }
 
   // Modify FormatInfoChunk with non-LFE channel count before invoking the
@@ -636,20 +692,28 @@ absl::Status SeparateLfeAndConvertTo3OA(
 
   // Calculate data chunk size and set data chunk info for the generated non-LFE
   // file and invoke the panner for the non-LFE file.
-  const size_t file_size = std::filesystem::file_size(non_lfe_file_path);
-  const size_t data_chunk_size = file_size - kExtensibleOffset - kHeaderSize;
+  const size_t data_chunk_size =
+      data_chunk_info.size / num_channels * non_lfe_count;
   Bw64Reader::ChunkInfo non_lfe_data_chunk_info = {data_chunk_size,
                                                    kExtensibleOffset};
-  RETURN_IF_NOT_OK(ConvertFromObjectsTo3OA(
-      output_file_path, file_prefix, non_lfe_adm, non_lfe_format_info,
-      non_lfe_file, non_lfe_data_chunk_info));
+  status = ConvertFromObjectsTo3OA(output_file_path, file_prefix, non_lfe_adm,
+                                   non_lfe_format_info, non_lfe_file,
+                                   non_lfe_data_chunk_info);
   non_lfe_file.close();
 
   // Delete the temporary file.
-  if (!std::filesystem::remove(non_lfe_file_path)) {
-    return absl::InternalError("Error while removing temporary file.");
+  std::error_code error_code;
+  std::filesystem::remove(non_lfe_file_path, error_code);
+  if (status.ok() && error_code) {
+    std::filesystem::remove(
+        output_file_path / absl::StrCat(file_prefix, "_converted1.wav"),
+        error_code);
+    status = absl::InternalError("Error while removing temporary file.");
   }
-  return absl::OkStatus();
+  if (!status.ok()) {
+    AbortAllWavWriters(nonlfe_lfe_wav_writer);
+  }
+  return status;
 }
 
 // Writes the audio tracks of each audio object to a wav file of its own.
-- 
2.43.0


From a642f3f9c4386cdaffff04b03b7cfe83bc81b1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 14/58] fix: reject impossible ADM times and unknown Dolby pack
 references

---
 iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc b/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
index b9fc019..1aee96c 100644
--- a/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
@@ -13,6 +13,7 @@
 #include "iamf/cli/adm_to_user_metadata/adm/xml_to_adm.h"
 
 #include <algorithm>
+#include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <ios>
@@ -263,6 +264,10 @@ absl::Status ParseTimingInfo(absl::string_view time_string, BlockTime& time) {
   if (!absl::SimpleAtod(time_string.substr(6), &time.second)) {
     return absl::InvalidArgumentError("Failed to parse second");
   }
+  if (time.hour < 0 || time.minute < 0 || !std::isfinite(time.second) ||
+      time.second < 0.0) {
+    return absl::InvalidArgumentError("Time must be finite and not negative");
+  }
   return absl::OkStatus();
 }
 
@@ -459,9 +464,12 @@ absl::Status ValidateAdmObjectForDolbyAdm(const ADM& adm,
                               [&audio_pack_id](const AudioPackFormat& pack) {
                                 return pack.id == audio_pack_id;
                               });
-  size_t pack_index = (pack_id != adm.audio_packs.end())
-                          ? std::distance(adm.audio_packs.begin(), pack_id)
-                          : 0;
+  if (pack_id == adm.audio_packs.end()) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("audioPackFormatIDRef= ", audio_pack_id,
+                     " does not resolve to a known audioPackFormat."));
+  }
+  const size_t pack_index = std::distance(adm.audio_packs.begin(), pack_id);
 
   auto num_channels_in_pack =
       adm.audio_packs[pack_index].audio_channel_format_id_refs_map.size();
-- 
2.43.0


From 4d6e5b6c874fb48deada7f30f756a03441d9422e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 15/58] fix: give each ADM object its own WAV file and layout
 in the user metadata

Also reject objects without a pack format, keep the other objects of a
programme with complementary objects, do not skip the programmes after an
unsupported one and report failures to write the metadata file.
---
 .../app/adm_to_user_metadata_main_lib.cc      | 24 +++++----
 iamf/cli/adm_to_user_metadata/iamf/iamf.cc    | 10 ++--
 .../iamf/user_metadata_generator.cc           | 50 ++++++++++++++-----
 3 files changed, 59 insertions(+), 25 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/app/adm_to_user_metadata_main_lib.cc b/iamf/cli/adm_to_user_metadata/app/adm_to_user_metadata_main_lib.cc
index 18b3653..4aa903a 100644
--- a/iamf/cli/adm_to_user_metadata/app/adm_to_user_metadata_main_lib.cc
+++ b/iamf/cli/adm_to_user_metadata/app/adm_to_user_metadata_main_lib.cc
@@ -37,17 +37,22 @@ constexpr char kAudioPackFormatIdFor3OA[] = "AP_00040003";
 // DirectSpeakers (0001) and layout as LFE (1FFF).
 constexpr char kAudioPackFormatIdForLfe[] = "AP_00011FFF";
 
-void ModifyAdmToPanObjectsTo3OAAndSeparateLfe(
+absl::Status ModifyAdmToPanObjectsTo3OAAndSeparateLfe(
     const ProfileVersion profile_version, const int lfe_count,
     ADM& adm_metadata) {
   using enum ProfileVersion;
+  // One audio object represents the 3OA and one each LFE channel.
+  if (adm_metadata.audio_objects.size() < 1 + static_cast<size_t>(lfe_count)) {
+    return absl::InvalidArgumentError(
+        "There are fewer audioObject(s) than wav files.");
+  }
   if (profile_version == kIamfBaseProfile) {
     // For IA Base Profile, max channels allowed per mix is 18, hence pan all
     // audio objects(both channel beds and objects) to 3OA (16 channels).
     adm_metadata.audio_objects.erase(adm_metadata.audio_objects.begin() + 1,
                                      adm_metadata.audio_objects.end());
-    adm_metadata.audio_objects[0].audio_pack_format_id_refs[0] =
-        kAudioPackFormatIdFor3OA;
+    adm_metadata.audio_objects[0].audio_pack_format_id_refs = {
+        kAudioPackFormatIdFor3OA};
   } else if (profile_version == kIamfBaseEnhancedProfile) {
     // For IA Base Enhanced Profile, max channels allowed per mix is 28, hence
     // pan all non-LFE channels(both channel beds and objects) in the to 3OA (16
@@ -55,13 +60,14 @@ void ModifyAdmToPanObjectsTo3OAAndSeparateLfe(
     adm_metadata.audio_objects.erase(
         adm_metadata.audio_objects.begin() + 1 + lfe_count,
         adm_metadata.audio_objects.end());
-    adm_metadata.audio_objects[0].audio_pack_format_id_refs[0] =
-        kAudioPackFormatIdFor3OA;
+    adm_metadata.audio_objects[0].audio_pack_format_id_refs = {
+        kAudioPackFormatIdFor3OA};
     for (int lfe_index = 1; lfe_index <= lfe_count; ++lfe_index) {
-      adm_metadata.audio_objects[lfe_index].audio_pack_format_id_refs[0] =
-          kAudioPackFormatIdForLfe;
+      adm_metadata.audio_objects[lfe_index].audio_pack_format_id_refs = {
+          kAudioPackFormatIdForLfe};
     }
   }
+  return absl::OkStatus();
 }
 
 }  // namespace
@@ -88,8 +94,8 @@ GenerateUserMetadataAndSpliceWavFiles(
   ADM adm_metadata = reader->adm_;
 
   if (reader->adm_.file_type == kAdmFileTypeDolby) {
-    ModifyAdmToPanObjectsTo3OAAndSeparateLfe(profile_version, lfe_count,
-                                             adm_metadata);
+    RETURN_IF_NOT_OK(ModifyAdmToPanObjectsTo3OAAndSeparateLfe(
+        profile_version, lfe_count, adm_metadata));
   }
 
   // Generate the user metadata.
diff --git a/iamf/cli/adm_to_user_metadata/iamf/iamf.cc b/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
index 857e781..a6f62f9 100644
--- a/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
+++ b/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
@@ -43,7 +43,7 @@ struct HasComplementaryObjectIdAndAudioObjectGroup {
 // mix. This function returns a 2D vector, where the first dimension represents
 // the audio object group.
 std::vector<std::vector<std::string>> GenerateAudioObjectGroups(
-    std::vector<HasComplementaryObjectIdAndAudioObjectGroup>&
+    std::vector<HasComplementaryObjectIdAndAudioObjectGroup>
         audio_object_groups) {
   std::vector<std::vector<std::string>> output = {};
 
@@ -162,12 +162,12 @@ void GenerateAudioObjectsMap(
 
     // Remove the unsupported audio programme.
     if (audio_object_groups.size() > kMaxAudioElementPerMix) {
-      // TODO(b/331198492): Fix a bug where all subsequent programmes are
-      //                    skipped - even if they would otherwise be valid.
       std::cout << "Skipping the audioProgramme" << audio_programme.id
                 << "as the number of audioObjects is greater than "
                    "kMaxAudioElementPerMix"
                 << std::endl;
+      audio_object_ids_to_ignore.clear();
+      audio_object_groups.clear();
       continue;
     }
     // Generate the audio object groups for the given audio programme.
@@ -246,6 +246,10 @@ absl::StatusOr<IAMF> IAMF::Create(const ADM& adm, int32_t max_frame_duration_ms,
   std::vector<IamfInputLayout> input_layouts;
   input_layouts.reserve(adm.audio_objects.size());
   for (auto audio_object : adm.audio_objects) {
+    if (audio_object.audio_pack_format_id_refs.empty()) {
+      return absl::InvalidArgumentError(
+          "An audioObject has no audioPackFormatIDRef.");
+    }
     const auto input_layout = LookupInputLayoutFromAudioPackFormatId(
         audio_object.audio_pack_format_id_refs[0]);
     if (!input_layout.ok()) {
diff --git a/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc b/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc
index 7bf3d6a..a462179 100644
--- a/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc
+++ b/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc
@@ -12,6 +12,7 @@
 
 #include "iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.h"
 
+#include <cstddef>
 #include <cstdint>
 #include <filesystem>
 #include <fstream>
@@ -39,8 +40,22 @@ namespace adm_to_user_metadata {
 
 namespace {
 constexpr DecodedUleb128 kCodecConfigId = 0;
+
+// Finds the position of an audio object. The WAV files and the input layouts
+// are in the same order as the audio objects.
+absl::StatusOr<size_t> FindAudioObject(const ADM& adm,
+                                       absl::string_view audio_object_id) {
+  for (size_t i = 0; i < adm.audio_objects.size(); ++i) {
+    if (adm.audio_objects[i].id == audio_object_id) {
+      return i;
+    }
+  }
+  return absl::InvalidArgumentError(
+      absl::StrCat("Unknown audioObject id= ", audio_object_id));
 }
 
+}  // namespace
+
 absl::Status UserMetadataGenerator::WriteUserMetadataToFile(
     bool write_binary_proto, const std::filesystem::path& file_path,
     const iamf_tools_cli_proto::UserMetadata& user_metadata) {
@@ -62,6 +77,10 @@ absl::Status UserMetadataGenerator::WriteUserMetadataToFile(
   }
 
   output_file.close();
+  if (!output_file) {
+    return absl::UnknownError(
+        absl::StrCat("Failed to write file_name= ", file_name.string()));
+  }
   ABSL_LOG(INFO) << file_name.string() << " generated successfully.";
 
   return absl::OkStatus();
@@ -71,12 +90,9 @@ absl::StatusOr<iamf_tools_cli_proto::UserMetadata>
 UserMetadataGenerator::GenerateUserMetadata(
     iamf_tools_cli_proto::ProfileVersion profile_version,
     absl::string_view file_prefix) const {
-  std::vector<std::string> audio_pack_format_ids;
-  audio_pack_format_ids.reserve(adm_.audio_objects.size());
-  for (auto audio_object : adm_.audio_objects) {
-    audio_pack_format_ids.push_back(audio_object.audio_pack_format_id_refs[0]);
+  if (adm_.audio_objects.empty()) {
+    return absl::InvalidArgumentError("No audioObject present.");
   }
-
   auto iamf =
       IAMF::Create(adm_, max_frame_duration_, format_info_.samples_per_sec);
   if (!iamf.ok()) {
@@ -109,13 +125,17 @@ UserMetadataGenerator::GenerateUserMetadata(
       return status;
     };
   } else {
-    for (const auto& [unused_audio_object_id, audio_element_id] :
+    for (const auto& [audio_object_id, audio_element_id] :
          iamf->audio_object_to_audio_element_) {
+      const auto audio_object_index = FindAudioObject(adm_, audio_object_id);
+      if (!audio_object_index.ok()) {
+        return audio_object_index.status();
+      }
       if (const auto status =
               iamf->audio_element_metadata_builder_
                   .PopulateAudioElementMetadata(
                       audio_element_id, kCodecConfigId,
-                      iamf->input_layouts_[audio_element_id],
+                      iamf->input_layouts_[*audio_object_index],
                       *user_metadata.add_audio_element_metadata());
           !status.ok()) {
         return status;
@@ -169,16 +189,20 @@ UserMetadataGenerator::GenerateUserMetadata(
       return status;
     }
   } else {
-    int32_t audio_pack_index = 0;
-    for (const auto& [unused_audio_object_id, audio_element_id] :
+    for (const auto& [audio_object_id, audio_element_id] :
          iamf->audio_object_to_audio_element_) {
-      // The output files have suffixes starting from 1.
-      const std::string wav_file_name =
-          absl::StrCat(file_prefix, "_converted", audio_pack_index + 1, ".wav");
+      const auto audio_object_index = FindAudioObject(adm_, audio_object_id);
+      if (!audio_object_index.ok()) {
+        return audio_object_index.status();
+      }
+      // The output files are numbered after the order of the audio objects,
+      // starting from 1.
+      const std::string wav_file_name = absl::StrCat(
+          file_prefix, "_converted", *audio_object_index + 1, ".wav");
       if (const auto& status =
               AudioFrameMetadataBuilder::PopulateAudioFrameMetadata(
                   wav_file_name, audio_element_id,
-                  iamf->input_layouts_[audio_pack_index++],
+                  iamf->input_layouts_[*audio_object_index],
                   *user_metadata.add_audio_frame_metadata());
           !status.ok()) {
         return status;
-- 
2.43.0


From eaab079ec282c75a9cc2f535edfafec8c7c30d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 16/58] fix: skip complementary ADM objects which do not exist

A complementary object reference to an object that was never defined, or was
removed as low importance, made the group refer to an object without any data.
---
 iamf/cli/adm_to_user_metadata/iamf/iamf.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/iamf/cli/adm_to_user_metadata/iamf/iamf.cc b/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
index a6f62f9..ddae9e9 100644
--- a/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
+++ b/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
@@ -12,6 +12,7 @@
 
 #include "iamf/cli/adm_to_user_metadata/iamf/iamf.h"
 
+#include <algorithm>
 #include <cstdint>
 #include <iostream>
 #include <map>
@@ -148,6 +149,15 @@ void GenerateAudioObjectsMap(
 
               for (const auto& complementary_audio_object_id :
                    audio_object.audio_comple_object_id_ref) {
+                // Skip objects which do not exist or were removed.
+                if (std::none_of(
+                        adm.audio_objects.begin(), adm.audio_objects.end(),
+                        [&](const AudioObject& complementary_audio_object) {
+                          return complementary_audio_object.id ==
+                                 complementary_audio_object_id;
+                        })) {
+                  continue;
+                }
                 audio_object_group.audio_objects_ref_ids.push_back(
                     complementary_audio_object_id);
                 audio_object_ids_to_ignore.insert(
-- 
2.43.0


From ab9864f08bf38df1437a85857dd6d05fb03e7555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 17/58] fix: give the ADM position coordinates a defined value

A block without every coordinate left the missing ones uninitialized, so the
panned output depended on stack contents.
---
 iamf/cli/adm_to_user_metadata/adm/adm_elements.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/adm_elements.h b/iamf/cli/adm_to_user_metadata/adm/adm_elements.h
index e32126c..7626b06 100644
--- a/iamf/cli/adm_to_user_metadata/adm/adm_elements.h
+++ b/iamf/cli/adm_to_user_metadata/adm/adm_elements.h
@@ -113,9 +113,9 @@ struct AudioPackFormat {
 
 // This structure holds cartesian position associated with an audio block.
 struct CartesianPosition {
-  float x;
-  float y;
-  float z;
+  float x = 0.0f;
+  float y = 0.0f;
+  float z = 0.0f;
 };
 
 struct BlockTime {
-- 
2.43.0


From b5c3d3e1c510a9b94f1dc7df7d32cffabaef788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 18/58] fix: check every channel of the frames given to the
 encoders

---
 iamf/cli/codec/encoder_base.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/iamf/cli/codec/encoder_base.cc b/iamf/cli/codec/encoder_base.cc
index 307d34c..f26adb2 100644
--- a/iamf/cli/codec/encoder_base.cc
+++ b/iamf/cli/codec/encoder_base.cc
@@ -41,11 +41,13 @@ absl::Status EncoderBase::ValidateInputSamples(
     return absl::InvalidArgumentError("samples cannot be empty.");
   }
 
-  if (samples[0].size() != num_samples_per_frame_) {
-    auto error_message = absl::StrCat("Found ", samples[0].size(),
-                                      " samples per channels. Expected ",
-                                      num_samples_per_frame_, ".");
-    return absl::InvalidArgumentError(error_message);
+  for (const auto& channel : samples) {
+    if (channel.size() != num_samples_per_frame_) {
+      auto error_message = absl::StrCat("Found ", channel.size(),
+                                        " samples per channels. Expected ",
+                                        num_samples_per_frame_, ".");
+      return absl::InvalidArgumentError(error_message);
+    }
   }
 
   return absl::OkStatus();
-- 
2.43.0


From a6645c3277c4205870c2dbefb5d97da4b1eb5d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 19/58] fix: refuse frames once an encoder has been finalized

---
 iamf/cli/codec/encoder_base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/codec/encoder_base.h b/iamf/cli/codec/encoder_base.h
index be14cda..a0e4cd5 100644
--- a/iamf/cli/codec/encoder_base.h
+++ b/iamf/cli/codec/encoder_base.h
@@ -169,7 +169,8 @@ class EncoderBase {
    * \return `absl::OkStatus()` on success. A specific status on failure.
    */
   absl::Status ValidateNotFinalized() {
-    if (Finished()) {
+    absl::MutexLock lock(mutex_);
+    if (finished_) {
       return absl::InvalidArgumentError(
           "Encoding is disallowed after `Finalize()` has been called");
     }
-- 
2.43.0


From 3d13f3e8b8ec08aaded61563dcffe627d702d719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 20/58] fix: report FLAC frames which libFLAC could not decode
 instead of returning stale samples

---
 iamf/cli/codec/flac_decoder.cc                  | 14 ++++++++++++--
 iamf/cli/codec/flac_decoder_stream_callbacks.cc | 10 ++++++++--
 iamf/cli/codec/flac_decoder_stream_callbacks.h  |  6 ++++++
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/iamf/cli/codec/flac_decoder.cc b/iamf/cli/codec/flac_decoder.cc
index 7984a4f..5d9164a 100644
--- a/iamf/cli/codec/flac_decoder.cc
+++ b/iamf/cli/codec/flac_decoder.cc
@@ -37,12 +37,15 @@ absl::StatusOr<std::unique_ptr<DecoderBase>> FlacDecoder::Create(
   auto flac_decoder = absl::WrapUnique(
       new FlacDecoder(channel_count, num_samples_per_frame, decoder));
 
-  FLAC__stream_decoder_init_stream(
+  const auto init_status = FLAC__stream_decoder_init_stream(
       decoder, flac_callbacks::LibFlacReadCallback, /*seek_callback=*/nullptr,
       /*tell_callback=*/nullptr, /*length_callback=*/nullptr,
       /*eof_callback=*/nullptr, flac_callbacks::LibFlacWriteCallback,
       /*metadata_callback=*/nullptr, flac_callbacks::LibFlacErrorCallback,
       static_cast<void*>(flac_decoder->callback_data_.get()));
+  if (init_status != FLAC__STREAM_DECODER_INIT_STATUS_OK) {
+    return absl::InternalError("Failed to initialize FLAC stream decoder.");
+  }
 
   return flac_decoder;
 }
@@ -66,7 +69,14 @@ absl::Status FlacDecoder::DecodeAudioFrame(
   // Set the encoded frame to be decoded; the libflac decoder will copy the
   // data using LibFlacReadCallback.
   callback_data_->SetEncodedFrame(encoded_frame);
-  if (!FLAC__stream_decoder_process_single(decoder_)) {
+  const bool processed = FLAC__stream_decoder_process_single(decoder_);
+
+  // Frames are decoded independently. Ensure that neither unused input nor an
+  // error state carries over to the next frame.
+  const bool flushed = FLAC__stream_decoder_flush(decoder_);
+
+  if (!processed || !flushed || !callback_data_->frame_written_ ||
+      callback_data_->error_reported_) {
     // More specific error information is logged in LibFlacErrorCallback.
     return absl::InternalError("Failed to decode FLAC frame.");
   }
diff --git a/iamf/cli/codec/flac_decoder_stream_callbacks.cc b/iamf/cli/codec/flac_decoder_stream_callbacks.cc
index 271b126..c349c2c 100644
--- a/iamf/cli/codec/flac_decoder_stream_callbacks.cc
+++ b/iamf/cli/codec/flac_decoder_stream_callbacks.cc
@@ -90,7 +90,7 @@ FLAC__StreamDecoderWriteStatus LibFlacWriteCallback(
 
     // Zero-initialize a vector of the maximum number of samples per channel.
     // But only fill in based on the actual number of samples in the frame.
-    decoded_samples_for_channel.resize(
+    decoded_samples_for_channel.assign(
         libflac_callback_data->num_samples_per_channel_, 0);
     auto status = ValidateInRange<uint32_t>(
         frame->header.bits_per_sample,
@@ -108,12 +108,16 @@ FLAC__StreamDecoderWriteStatus LibFlacWriteCallback(
               channel_buffer[t] << (32 - frame->header.bits_per_sample));
     }
   }
+  libflac_callback_data->frame_written_ = true;
   return FLAC__STREAM_DECODER_WRITE_STATUS_CONTINUE;
 }
 
 void LibFlacErrorCallback(const FLAC__StreamDecoder* /*decoder*/,
                           FLAC__StreamDecoderErrorStatus status,
-                          void* /*client_data*/) {
+                          void* client_data) {
+  if (client_data != nullptr) {
+    static_cast<LibFlacCallbackData*>(client_data)->error_reported_ = true;
+  }
   switch (status) {
     case FLAC__STREAM_DECODER_ERROR_STATUS_LOST_SYNC:
       ABSL_LOG(ERROR) << "FLAC__STREAM_DECODER_ERROR_STATUS_LOST_SYNC";
@@ -139,6 +143,8 @@ void LibFlacCallbackData::SetEncodedFrame(
   encoded_frame_ =
       std::vector<uint8_t>(raw_encoded_frame.begin(), raw_encoded_frame.end());
   next_byte_index_ = 0;
+  frame_written_ = false;
+  error_reported_ = false;
 }
 
 absl::Span<const uint8_t> LibFlacCallbackData::GetNextSlice(size_t chunk_size) {
diff --git a/iamf/cli/codec/flac_decoder_stream_callbacks.h b/iamf/cli/codec/flac_decoder_stream_callbacks.h
index b9cec1a..9c722ca 100644
--- a/iamf/cli/codec/flac_decoder_stream_callbacks.h
+++ b/iamf/cli/codec/flac_decoder_stream_callbacks.h
@@ -72,6 +72,12 @@ class LibFlacCallbackData {
   // Reference to the backing data for the decoded frame.
   std::vector<std::vector<InternalSampleType>>& decoded_frame_;
 
+  // Whether a frame was written since the last call to `SetEncodedFrame`.
+  bool frame_written_ = false;
+
+  // Whether an error was reported since the last call to `SetEncodedFrame`.
+  bool error_reported_ = false;
+
  private:
   // Backing data for the next frame to be decoded.
   std::vector<uint8_t> encoded_frame_;
-- 
2.43.0


From 3df70b3d6102121511c484b41fb4df43455487a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 21/58] fix: return only the samples the AAC library decoded

---
 iamf/cli/codec/aac_decoder.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/codec/aac_decoder.cc b/iamf/cli/codec/aac_decoder.cc
index 24f3020..750a669 100644
--- a/iamf/cli/codec/aac_decoder.cc
+++ b/iamf/cli/codec/aac_decoder.cc
@@ -214,6 +214,22 @@ absl::Status AacDecoder::DecodeAudioFrame(
                              /*flags=*/0),
       "Failed on `aacDecoder_DecodeFrame`: "));
 
+  // Only the samples the library reports are valid.
+  const auto* stream_info = aacDecoder_GetStreamInfo(decoder_);
+  if (stream_info == nullptr ||
+      stream_info->numChannels !=
+          static_cast<INT>(channel_count_.num_channels()) ||
+      stream_info->frameSize < 0 ||
+      static_cast<uint32_t>(stream_info->frameSize) >
+          num_samples_per_channel_) {
+    return absl::InvalidArgumentError(
+        "The decoded AAC frame has an unexpected number of channels or "
+        "samples.");
+  }
+  const size_t num_valid_samples =
+      static_cast<size_t>(stream_info->frameSize) *
+      channel_count_.num_channels();
+
   // Arrange the interleaved data in (channel, time) axes with samples stored in
   // the upper bytes of an `int32_t`.
   const auto fdk_aac_bit_depth = GetFdkAacBitDepth();
@@ -225,7 +241,8 @@ absl::Status AacDecoder::DecodeAudioFrame(
             return absl::OkStatus();
           };
   return ConvertInterleavedToChannelTime(
-      MakeConstSpan(interleaved_pcm_from_libfdk_aac_),
+      MakeConstSpan(interleaved_pcm_from_libfdk_aac_)
+          .first(num_valid_samples),
       channel_count_.num_channels(), decoded_samples_,
       kAacInternalTypeToSampleType);
 }
-- 
2.43.0


From e8914537612d17efe74bb066b2de08d642bcb33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:49 +0000
Subject: [PATCH 22/58] fix: probe derives the duration from the rate of the
 longest substream

---
 iamf/cli/probe.cc | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/iamf/cli/probe.cc b/iamf/cli/probe.cc
index 5dd8e41..a88187e 100644
--- a/iamf/cli/probe.cc
+++ b/iamf/cli/probe.cc
@@ -1283,22 +1283,28 @@ void ScanTemporalUnits(
   std::sort(substream_ids.begin(), substream_ids.end());
   out.audio_frames_by_substream.reserve(substream_ids.size());
   uint64_t max_samples = 0;
+  uint32_t longest_substream_sample_rate = 0;
   for (auto id : substream_ids) {
-    out.audio_frames_by_substream.push_back(per_substream[id]);
-    max_samples = std::max(max_samples, per_substream[id].total_samples);
+    const auto& summary = per_substream[id];
+    out.audio_frames_by_substream.push_back(summary);
+    if (summary.total_samples > max_samples) {
+      max_samples = summary.total_samples;
+      const auto codec_config_it =
+          descriptors.codec_config_obus.find(summary.codec_config_id);
+      longest_substream_sample_rate =
+          codec_config_it != descriptors.codec_config_obus.end()
+              ? codec_config_it->second.GetOutputSampleRate()
+              : 0;
+    }
   }
   if (max_samples > 0) {
     out.total_samples = max_samples;
-    // Pick an output sample rate from the first codec config.
-    if (!descriptors.codec_config_obus.empty()) {
-      const auto& [unused_id, codec_cfg] =
-          *descriptors.codec_config_obus.begin();
-      const uint32_t rate = codec_cfg.GetOutputSampleRate();
-      if (rate > 0) {
-        out.output_sample_rate = rate;
-        out.duration_seconds =
-            static_cast<double>(max_samples) / static_cast<double>(rate);
-      }
+    // The duration is measured in samples of the longest substream, so use the
+    // output sample rate of its codec config.
+    if (longest_substream_sample_rate > 0) {
+      out.output_sample_rate = longest_substream_sample_rate;
+      out.duration_seconds = static_cast<double>(max_samples) /
+                             static_cast<double>(longest_substream_sample_rate);
     }
   }
 
-- 
2.43.0


From 8d0b4cec99e5f159ba1692f56b8d8cf1583e1c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:11 +0000
Subject: [PATCH 23/58] fix: redundant Mix Presentation OBUs are not listed
 twice

---
 iamf/cli/descriptor_obu_parser.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/iamf/cli/descriptor_obu_parser.cc b/iamf/cli/descriptor_obu_parser.cc
index 71ede59..30d0e13 100644
--- a/iamf/cli/descriptor_obu_parser.cc
+++ b/iamf/cli/descriptor_obu_parser.cc
@@ -12,6 +12,7 @@
 
 #include "iamf/cli/descriptor_obu_parser.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <utility>
@@ -111,6 +112,15 @@ absl::Status GetAndStoreMixPresentationObu(
   if (!mix_presentation_obu.ok()) {
     return mix_presentation_obu.status();
   }
+  if (header.obu_redundant_copy &&
+      std::any_of(mix_presentation_obus.begin(), mix_presentation_obus.end(),
+                  [&](const MixPresentationObu& stored_obu) {
+                    return stored_obu.GetMixPresentationId() ==
+                           mix_presentation_obu->GetMixPresentationId();
+                  })) {
+    // The original was already stored, the redundant copy adds nothing.
+    return absl::OkStatus();
+  }
   for (const auto& submix : mix_presentation_obu->sub_mixes_) {
     for (const auto& sub_mix_audio_element : submix.audio_elements) {
       if (!audio_elements_with_data.contains(
-- 
2.43.0


From c370baf971b6e0ac224a297accd5193b5beee32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 24/58] fix: OBU sizes are computed without wraparound

total_obu_size and the extension header size were combined in 32-bit
arithmetic, so a header with sizes near 2^32 gave a small (even zero)
total: the probe scanned the same OBU forever, and a tiny OBU could ask
for a 4 GB allocation.
---
 iamf/obu/obu_header.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/iamf/obu/obu_header.cc b/iamf/obu/obu_header.cc
index e2444f2..0ecba45 100644
--- a/iamf/obu/obu_header.cc
+++ b/iamf/obu/obu_header.cc
@@ -194,7 +194,8 @@ int64_t GetObuPayloadSize(DecodedUleb128 obu_size,
                           DecodedUleb128 extension_header_bytes_size) {
   return static_cast<int64_t>(obu_size) -
          (num_samples_to_trim_at_end_size + num_samples_to_trim_at_start_size +
-          extension_header_size_size + extension_header_bytes_size);
+          extension_header_size_size +
+          static_cast<int64_t>(extension_header_bytes_size));
 }
 
 absl::Status FillHeaderMetadata(ReadBitBuffer& rb,
@@ -211,7 +212,8 @@ absl::Status FillHeaderMetadata(ReadBitBuffer& rb,
   int8_t size_of_obu_size = 0;
   RETURN_IF_NOT_OK(rb.ReadULeb128(obu_size, size_of_obu_size));
   // The extra byte is for the `obu_type` field + the three boolean fields.
-  output_header_metadata.total_obu_size = obu_size + size_of_obu_size + 1;
+  output_header_metadata.total_obu_size =
+      static_cast<int64_t>(obu_size) + size_of_obu_size + 1;
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 20ffdc6a2a23de8f8e53d73cae95820944afa9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:41 +0000
Subject: [PATCH 25/58] fix: the channel order applies to units decoded at the
 end of the stream

The channel reorderer was only created by a Decode() call made after the
descriptors were complete. When the whole stream arrived in one call, or
after a Reset(), units came out in IAMF order regardless of the setting.
---
 iamf/api/decoder/iamf_decoder.cc | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/iamf/api/decoder/iamf_decoder.cc b/iamf/api/decoder/iamf_decoder.cc
index 4c4d980..531df30 100644
--- a/iamf/api/decoder/iamf_decoder.cc
+++ b/iamf/api/decoder/iamf_decoder.cc
@@ -173,6 +173,16 @@ absl::Status IamfDecoder::DecoderState::CreateObuProcessor() {
   }
   actual_layout = *new_layout;
 
+  // The layout is final. Configure the channel order for it.
+  channel_reorderer = std::nullopt;
+  if (const auto* loudspeaker_layout =
+          std::get_if<LoudspeakersSsConventionLayout>(
+              &actual_layout.specific_layout);
+      loudspeaker_layout != nullptr) {
+    channel_reorderer = ChannelReorderer::Create(
+        loudspeaker_layout->sound_system, channel_rearrangement_scheme);
+  }
+
   // Copy over fields at the end, now that everything is successful.
   obu_processor = std::move(temp_obu_processor);
 
@@ -417,14 +427,6 @@ IamfStatus IamfDecoder::Decode(const uint8_t* input_buffer,
   }
 
   // At this stage, we know that we've processed all descriptor OBUs.
-  if (std::holds_alternative<LoudspeakersSsConventionLayout>(
-          state_->actual_layout.specific_layout)) {
-    auto sound_system = std::get<LoudspeakersSsConventionLayout>(
-                            state_->actual_layout.specific_layout)
-                            .sound_system;
-    state_->channel_reorderer = ChannelReorderer::Create(
-        sound_system, state_->channel_rearrangement_scheme);
-  }
   if (state_->rendered_samples.empty()) {
     // We only try to actually decode a temporal unit if we have no currently
     // decoded temporal units. If we do, we'll decode the next temporal unit in
@@ -545,9 +547,6 @@ IamfStatus IamfDecoder::Reset() {
   // Clear the rendered samples.
   state_->rendered_samples = {};
 
-  // Clear the channel reorderer.
-  state_->channel_reorderer = std::nullopt;
-
   // Set state.
   state_->status = DecoderStatus::kAcceptingData;
   // Create a new read bit buffer.
-- 
2.43.0


From 755d53d7b098c88e2b66bc7507b9181a7db352f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:41 +0000
Subject: [PATCH 26/58] fix: a retrieval with a buffer too small does not lose
 the temporal unit

The decoder went on to decode the next unit into the slot which still held
the unit that was not retrieved.
---
 iamf/api/decoder/iamf_decoder.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/iamf/api/decoder/iamf_decoder.cc b/iamf/api/decoder/iamf_decoder.cc
index 531df30..78321b6 100644
--- a/iamf/api/decoder/iamf_decoder.cc
+++ b/iamf/api/decoder/iamf_decoder.cc
@@ -299,15 +299,11 @@ IamfStatus ValidateWriteFrameToSpan(
   return IamfStatus::OkStatus();
 }
 
+// Requires that the arguments passed `ValidateWriteFrameToSpan`.
 IamfStatus WriteFrameToSpan(
     const std::vector<absl::Span<const InternalSampleType>>& frame,
     OutputSampleType sample_type, absl::Span<uint8_t> output_bytes,
     size_t& bytes_written) {
-  if (const auto status =
-          ValidateWriteFrameToSpan(frame, sample_type, output_bytes);
-      !status.ok()) {
-    return status;
-  }
   const size_t bytes_per_sample = BytesPerSample(sample_type);
   const size_t bits_per_sample = bytes_per_sample * 8;
   const size_t num_ticks = frame[0].size();
@@ -448,12 +444,16 @@ IamfStatus IamfDecoder::GetOutputTemporalUnit(uint8_t* output_buffer,
   }
   // Write decoded temporal unit to output buffer.
   OutputSampleType output_sample_type = GetOutputSampleType();
-  IamfStatus status = WriteFrameToSpan(
-      state_->rendered_samples, output_sample_type,
-      absl::MakeSpan(output_buffer, output_buffer_size), bytes_written);
-  if (status.ok()) {
-    state_->rendered_samples.clear();
+  const auto output_bytes = absl::MakeSpan(output_buffer, output_buffer_size);
+  if (const auto status = ValidateWriteFrameToSpan(
+          state_->rendered_samples, output_sample_type, output_bytes);
+      !status.ok()) {
+    // Keep the temporal unit, so it can be retrieved by a later call.
+    return status;
   }
+  IamfStatus status = WriteFrameToSpan(
+      state_->rendered_samples, output_sample_type, output_bytes, bytes_written);
+  state_->rendered_samples.clear();
 
   // Refill the rendered samples with the next temporal unit.
   auto decode_status = DecodeOneTemporalUnit(
-- 
2.43.0


From b196ed186f5a6d4209675812e84b8add05c315d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:19 +0000
Subject: [PATCH 27/58] fix: temporal units without samples do not look like
 the end of the output

A unit whose samples are all trimmed, a unit with only parameter blocks, or
repeated temporal delimiters made the decoder report that nothing was left
to retrieve (or a retrieval of zero bytes), although later units had been
received.
---
 iamf/api/decoder/iamf_decoder.cc | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/iamf/api/decoder/iamf_decoder.cc b/iamf/api/decoder/iamf_decoder.cc
index 78321b6..8d0a921 100644
--- a/iamf/api/decoder/iamf_decoder.cc
+++ b/iamf/api/decoder/iamf_decoder.cc
@@ -223,15 +223,21 @@ IamfStatus DecodeOneTemporalUnit(
   if (obu_processor == nullptr) {
     return IamfStatus::ErrorStatus("Internal Error: Obu processor is null.");
   }
-  std::optional<ObuProcessor::OutputTemporalUnit> output_temporal_unit;
-  bool unused_continue_processing = true;
-  absl::Status absl_status = obu_processor->ProcessTemporalUnit(
-      eos_is_end_of_sequence, output_temporal_unit, unused_continue_processing);
-  if (!absl_status.ok()) {
-    return AbslToIamfStatus(absl_status);
-  }
-  // We may have processed bytes but not a full temporal unit.
-  if (output_temporal_unit.has_value()) {
+  // Some temporal units result in no samples, e.g. when all of them are trimmed.
+  // Skip over them, so the caller is not led to believe that there is no further
+  // output.
+  bool continue_processing = true;
+  while (rendered_samples.empty() && continue_processing) {
+    std::optional<ObuProcessor::OutputTemporalUnit> output_temporal_unit;
+    absl::Status absl_status = obu_processor->ProcessTemporalUnit(
+        eos_is_end_of_sequence, output_temporal_unit, continue_processing);
+    if (!absl_status.ok()) {
+      return AbslToIamfStatus(absl_status);
+    }
+    if (!output_temporal_unit.has_value()) {
+      // We may have processed bytes but not a full temporal unit.
+      continue;
+    }
     absl::StatusOr<absl::Span<const absl::Span<const InternalSampleType>>>
         rendered_samples_for_temporal_unit =
             obu_processor->RenderTemporalUnitAndMeasureLoudness(
@@ -241,6 +247,10 @@ IamfStatus DecodeOneTemporalUnit(
     if (!rendered_samples_for_temporal_unit.ok()) {
       return AbslToIamfStatus(rendered_samples_for_temporal_unit.status());
     }
+    if (rendered_samples_for_temporal_unit->empty() ||
+        rendered_samples_for_temporal_unit->front().empty()) {
+      continue;
+    }
     rendered_samples = std::vector(rendered_samples_for_temporal_unit->begin(),
                                    rendered_samples_for_temporal_unit->end());
     if (channel_reorderer.has_value()) {
-- 
2.43.0


From a36785c576d2185ce5a4fb05bdce2bc7185fdf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:30 +0000
Subject: [PATCH 28/58] fix: a failed reset leaves the decoder as it was

The read buffer was replaced before a new processor had been created. When
that failed, for example because the requested mix cannot be rendered, the
previous processor was left with a dangling pointer to the buffer.
---
 iamf/api/decoder/iamf_decoder.cc | 64 ++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/iamf/api/decoder/iamf_decoder.cc b/iamf/api/decoder/iamf_decoder.cc
index 8d0a921..65f213a 100644
--- a/iamf/api/decoder/iamf_decoder.cc
+++ b/iamf/api/decoder/iamf_decoder.cc
@@ -47,6 +47,8 @@ namespace api {
 enum class DecoderStatus { kAcceptingData, kEndOfStream };
 
 namespace {
+constexpr int kInitialBufferSize = 1024;
+
 iamf_tools::TrimmingSettings TranslateTrimmingSettings(
     api::TrimmingSettings api_settings) {
   return iamf_tools::TrimmingSettings{
@@ -81,6 +83,12 @@ struct IamfDecoder::DecoderState {
   /*!\brief Creates an ObuProcessor and maintains related bookkeeping. */
   absl::Status CreateObuProcessor();
 
+  /*!\brief Starts again after the descriptors, with the requested mix.
+   *
+   * On failure, the decoder is left as it was.
+   */
+  absl::Status ResetForMix(const RequestedMix& new_requested_mix);
+
   // Current status of the decoder.
   DecoderStatus status = DecoderStatus::kAcceptingData;
 
@@ -189,9 +197,33 @@ absl::Status IamfDecoder::DecoderState::CreateObuProcessor() {
   return absl::OkStatus();
 }
 
-namespace {
-constexpr int kInitialBufferSize = 1024;
+absl::Status IamfDecoder::DecoderState::ResetForMix(
+    const RequestedMix& new_requested_mix) {
+  // Create a new read bit buffer with the original descriptor OBUs.
+  std::unique_ptr<StreamBasedReadBitBuffer> new_read_bit_buffer =
+      StreamBasedReadBitBuffer::Create(kInitialBufferSize);
+  if (new_read_bit_buffer == nullptr) {
+    return absl::InternalError("Failed to create read bit buffer.");
+  }
+  RETURN_IF_NOT_OK(new_read_bit_buffer->PushBytes(descriptor_obus));
+
+  // Create a new ObuProcessor. The previous one refers to the previous buffer;
+  // keep both if the new one cannot be created.
+  RequestedMix previous_requested_mix = requested_mix;
+  requested_mix = new_requested_mix;
+  std::swap(read_bit_buffer, new_read_bit_buffer);
+  if (const auto status = CreateObuProcessor(); !status.ok()) {
+    requested_mix = previous_requested_mix;
+    std::swap(read_bit_buffer, new_read_bit_buffer);
+    return status;
+  }
 
+  rendered_samples.clear();
+  this->status = DecoderStatus::kAcceptingData;
+  return absl::OkStatus();
+}
+
+namespace {
 IamfStatus AbslToIamfStatus(const absl::Status& absl_status) {
   if (absl_status.ok()) {
     return IamfStatus::OkStatus();
@@ -554,27 +586,7 @@ IamfStatus IamfDecoder::Reset() {
         "mode.");
   }
 
-  // Clear the rendered samples.
-  state_->rendered_samples = {};
-
-  // Set state.
-  state_->status = DecoderStatus::kAcceptingData;
-  // Create a new read bit buffer.
-  std::unique_ptr<StreamBasedReadBitBuffer> read_bit_buffer =
-      StreamBasedReadBitBuffer::Create(kInitialBufferSize);
-  if (read_bit_buffer == nullptr) {
-    return IamfStatus::ErrorStatus(
-        "Internal Error: Failed to create read bit buffer.");
-  }
-  state_->read_bit_buffer = std::move(read_bit_buffer);
-
-  // Create a new ObuProcessor with the original descriptor OBUs.
-  absl::Status absl_status =
-      state_->read_bit_buffer->PushBytes(state_->descriptor_obus);
-  if (!absl_status.ok()) {
-    return AbslToIamfStatus(absl_status);
-  }
-  return AbslToIamfStatus(state_->CreateObuProcessor());
+  return AbslToIamfStatus(state_->ResetForMix(state_->requested_mix));
 }
 
 IamfStatus IamfDecoder::ResetWithNewMix(const RequestedMix& requested_mix,
@@ -584,10 +596,8 @@ IamfStatus IamfDecoder::ResetWithNewMix(const RequestedMix& requested_mix,
         "Failed Precondition: ResetWithNewMix() cannot be called in "
         "standalone decoding mode.");
   }
-  state_->requested_mix = requested_mix;
-  IamfStatus status = Reset();
-  if (!status.ok()) {
-    return status;
+  if (const auto status = state_->ResetForMix(requested_mix); !status.ok()) {
+    return AbslToIamfStatus(status);
   }
   auto output_layout = InternalToApiType(state_->actual_layout);
   if (!output_layout.ok()) {
-- 
2.43.0


From d531668868ca87501a8d430e79c8877aff2c5ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:31 +0000
Subject: [PATCH 29/58] fix: a temporal unit without audio for an element does
 not repeat the previous one

The samples of the previous temporal unit were rendered again, with the
element mix gain applied once more.
---
 iamf/cli/renderer/default_layout_renderer.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/iamf/cli/renderer/default_layout_renderer.cc b/iamf/cli/renderer/default_layout_renderer.cc
index 91471bd..9f7db35 100644
--- a/iamf/cli/renderer/default_layout_renderer.cc
+++ b/iamf/cli/renderer/default_layout_renderer.cc
@@ -255,15 +255,17 @@ absl::Status DefaultLayoutRenderer::Render(
   for (size_t i = 0; i < num_audio_elements; i++) {
     const auto& audio_element_id = audio_element_ids_[i];
     const auto& element_mix_gain = element_mix_gains_[i];
-    if (id_to_labeled_frame.find(audio_element_id) !=
-        id_to_labeled_frame.end()) {
-      const auto& labeled_frame = id_to_labeled_frame.at(audio_element_id);
-      // Render the frame to the specified `loudness_layout` and apply element
-      // mix gain.
-      RETURN_IF_NOT_OK(RenderLabeledFrameToLayout(
-          labeled_frame, common_num_samples_per_frame_, *renderers_[i],
-          rendered_audio_elements_[i]));
+    const auto labeled_frame_iter = id_to_labeled_frame.find(audio_element_id);
+    if (labeled_frame_iter == id_to_labeled_frame.end()) {
+      // `rendered_audio_elements_` still holds the previous frame.
+      return absl::InvalidArgumentError(absl::StrCat(
+          "Missing audio for audio element ID= ", audio_element_id));
     }
+    // Render the frame to the specified `loudness_layout` and apply element
+    // mix gain.
+    RETURN_IF_NOT_OK(RenderLabeledFrameToLayout(
+        labeled_frame_iter->second, common_num_samples_per_frame_,
+        *renderers_[i], rendered_audio_elements_[i]));
 
     RETURN_IF_NOT_OK(GetAndApplyMixGain(
         common_sample_rate_, id_to_parameter_block, element_mix_gain,
-- 
2.43.0


From 4c0cf37a6ea30a0a4744eff017fdf93f29dbe355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:51 +0000
Subject: [PATCH 30/58] fix: a round without output does not leave the previous
 temporal unit in the caller's buffer

---
 iamf/cli/iamf_encoder.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iamf/cli/iamf_encoder.cc b/iamf/cli/iamf_encoder.cc
index 2b7895b..5195917 100644
--- a/iamf/cli/iamf_encoder.cc
+++ b/iamf/cli/iamf_encoder.cc
@@ -534,6 +534,10 @@ absl::Status IamfEncoder::Encode(
 
 absl::Status IamfEncoder::OutputTemporalUnit(
     std::vector<uint8_t>& temporal_unit_obus) {
+  // Some rounds do not output any OBUs, avoid leaving stale data from a previous
+  // temporal unit.
+  temporal_unit_obus.clear();
+
   std::list<AudioFrameWithData> audio_frames;
   std::list<ParameterBlockWithData> parameter_blocks;
   std::list<ArbitraryObu> temporal_unit_arbitrary_obus;
-- 
2.43.0


From 1fa725d2b267e8ce8717a4ce4f1cc1080c77cf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:49 +0000
Subject: [PATCH 31/58] fix: project trimmed Ambisonics frames for the binaural
 renderer

---
 iamf/cli/renderer/audio_element_renderer_binaural.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/iamf/cli/renderer/audio_element_renderer_binaural.cc b/iamf/cli/renderer/audio_element_renderer_binaural.cc
index 278b06a..8282fab 100644
--- a/iamf/cli/renderer/audio_element_renderer_binaural.cc
+++ b/iamf/cli/renderer/audio_element_renderer_binaural.cc
@@ -307,6 +307,13 @@ absl::Status AudioElementRendererBinaural::RenderSamples(
   // Copy samples to the input audio buffer; optionally project the input
   // samples first.
   if (demixing_matrix_.has_value()) {
+    // Match the number of samples to render; the frame may be trimmed.
+    const size_t num_ticks =
+        samples_to_render.empty() ? 0 : samples_to_render[0].size();
+    for (size_t c = 0; c < projected_samples_.size(); ++c) {
+      projected_samples_[c].resize(num_ticks);
+      projected_samples_spans_[c] = absl::MakeSpan(projected_samples_[c]);
+    }
     RETURN_IF_NOT_OK(
         ProjectSamplesToRender(samples_to_render, *demixing_matrix_,
                                absl::MakeSpan(projected_samples_spans_)));
-- 
2.43.0


From 70768678875949aec18792f24da892ff72fa9cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:01 +0000
Subject: [PATCH 32/58] fix: arbitrary OBUs wait for the audio frames of their
 temporal unit

---
 iamf/cli/iamf_encoder.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/iamf/cli/iamf_encoder.cc b/iamf/cli/iamf_encoder.cc
index 5195917..571b13b 100644
--- a/iamf/cli/iamf_encoder.cc
+++ b/iamf/cli/iamf_encoder.cc
@@ -580,10 +580,13 @@ absl::Status IamfEncoder::OutputTemporalUnit(
 
     if (finalize_encode_called_) {
       // At the end of the sequence, there could be some extraneous arbitrary
-      // OBUs that are not associated with any audio frames. Pop the next set.
-      SpliceArbitraryObus(timestamp_to_arbitrary_obus_.begin(),
-                          timestamp_to_arbitrary_obus_,
-                          temporal_unit_arbitrary_obus);
+      // OBUs that are not associated with any audio frames. Pop the next set,
+      // unless there are frames to come, which they could be associated with.
+      if (!audio_frame_generator_->GeneratingFrames()) {
+        SpliceArbitraryObus(timestamp_to_arbitrary_obus_.begin(),
+                            timestamp_to_arbitrary_obus_,
+                            temporal_unit_arbitrary_obus);
+      }
 
       // There will be no further audio frames. Descriptors can be closed.
       // Carefully close them before writing out Arbitrary OBUs, which may
-- 
2.43.0


From 5ef5b8a473fee4061b16e4caa3e2c4799dbd99bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:39 +0000
Subject: [PATCH 33/58] fix: report IAMF data that never reached the file

---
 iamf/common/write_bit_buffer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iamf/common/write_bit_buffer.cc b/iamf/common/write_bit_buffer.cc
index 553a389..19e452c 100644
--- a/iamf/common/write_bit_buffer.cc
+++ b/iamf/common/write_bit_buffer.cc
@@ -132,8 +132,10 @@ absl::Status WriteBufferToFile(const std::vector<uint8_t>& buffer,
   }
   output_file.write(reinterpret_cast<const char*>(buffer.data()),
                     buffer.size());
+  // Data which is only buffered by the stream could be lost later.
+  output_file.flush();
 
-  if (output_file.bad()) {
+  if (output_file.fail()) {
     return absl::UnknownError("Writing to file failed.");
   }
 
-- 
2.43.0


From 7f0464b064388ebe4f5da200f4b1d5670e4132cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:58 +0000
Subject: [PATCH 34/58] fix: reject recon gains for channels that do not exist

---
 .../proto_to_obu/parameter_block_generator.cc                 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
index 1708be4..339ecdb 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
@@ -343,6 +343,10 @@ absl::Status GenerateReconGainSubblock(
     DecodedUleb128 user_recon_gain_flag = 0;
     for (const auto& [bit_position, user_recon_gain] :
          user_recon_gains_layers[layer_index].recon_gain()) {
+      if (bit_position >= user_recon_gains.size()) {
+        return absl::InvalidArgumentError(absl::StrCat(
+            "Recon gain bit position out of range: ", bit_position));
+      }
       user_recon_gain_flag |= 1 << bit_position;
       user_recon_gains[bit_position] = user_recon_gain;
     }
-- 
2.43.0


From 9ebe3d7074f8b186740b8a987ef540ba2f5cab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:20 +0000
Subject: [PATCH 35/58] fix: encoding after a failed call reports an error
 instead of aborting

---
 iamf/cli/iamf_encoder.cc                        |  8 ++++++--
 .../proto_to_obu/audio_frame_generator.cc       | 17 +++++++++++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/iamf/cli/iamf_encoder.cc b/iamf/cli/iamf_encoder.cc
index 571b13b..085e036 100644
--- a/iamf/cli/iamf_encoder.cc
+++ b/iamf/cli/iamf_encoder.cc
@@ -626,8 +626,12 @@ absl::Status IamfEncoder::OutputTemporalUnit(
   // determine the demixed frames.
   for (auto& audio_frame : audio_frames) {
     RETURN_IF_NOT_OK(audio_frame_decoder_.Decode(audio_frame));
-    ABSL_CHECK_EQ(output_start_timestamp, audio_frame.start_timestamp);
-    ABSL_CHECK_EQ(output_end_timestamp, audio_frame.end_timestamp);
+    if (audio_frame.start_timestamp != output_start_timestamp ||
+        audio_frame.end_timestamp != output_end_timestamp) {
+      // They may have diverged if an earlier frame failed to be encoded.
+      return absl::FailedPreconditionError(
+          "The audio frames of a temporal unit have different timestamps.");
+    }
   }
 
   // Demix the original and decoded audio frames, differences between them are
diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
index 91ad44c..76ca045 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
@@ -476,7 +476,12 @@ absl::Status MaybeEncodeFramesForAudioElement(
                        << frame_to_encode.front().size();
 
         // All frames corresponding to the same Audio Element should be skipped.
-        ABSL_CHECK(!encoded_timestamp.has_value());
+        // They may have diverged if an earlier frame failed to be encoded.
+        if (encoded_timestamp.has_value()) {
+          return absl::FailedPreconditionError(absl::StrCat(
+              "Within Audio Element ID= ", audio_element_id, ", substream #",
+              substream_id, " is not aligned with the other substreams"));
+        }
         continue;
       }
 
@@ -493,10 +498,14 @@ absl::Status MaybeEncodeFramesForAudioElement(
       RETURN_IF_NOT_OK(global_timing_module.GetNextAudioFrameTimestamps(
           substream_id, num_samples_per_frame, start_timestamp, end_timestamp));
 
-      if (encoded_timestamp.has_value()) {
+      if (encoded_timestamp.has_value() &&
+          *encoded_timestamp != start_timestamp) {
         // All frames corresponding to the same Audio Element should have
-        // the same start timestamp.
-        ABSL_CHECK_EQ(*encoded_timestamp, start_timestamp);
+        // the same start timestamp. They may have diverged if an earlier frame
+        // failed to be encoded.
+        return absl::FailedPreconditionError(absl::StrCat(
+            "Within Audio Element ID= ", audio_element_id, ", substream #",
+            substream_id, " is not aligned with the other substreams"));
       }
 
       auto partial_audio_frame_with_data =
-- 
2.43.0


From e9d54d508411734df82e75f21c89fe3223554d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:37 +0000
Subject: [PATCH 36/58] fix: flush sequences where an audio element has no
 audio frame metadata

---
 .../proto_to_obu/audio_frame_generator.cc              | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
index 76ca045..4b4456b 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
@@ -886,9 +886,15 @@ absl::Status AudioFrameGenerator::OutputFrames(
     // time.
     for (const auto& [audio_element_id, audio_element_with_data] :
          audio_elements_) {
+      const auto labels_iter =
+          audio_element_id_to_labels_.find(audio_element_id);
+      if (labels_iter == audio_element_id_to_labels_.end()) {
+        // Without audio frame metadata, there are no samples to encode.
+        continue;
+      }
       RETURN_IF_NOT_OK(MaybeEncodeFramesForAudioElement(
-          audio_element_id, audio_element_with_data,
-          audio_element_id_to_labels_.at(audio_element_id), *downmixer_manager_,
+          audio_element_id, audio_element_with_data, labels_iter->second,
+          *downmixer_manager_,
           id_to_labeled_samples_[audio_element_id],
           substream_id_to_trimming_state_, parameters_manager_,
           substream_id_to_encoder_, substream_id_to_substream_data_,
-- 
2.43.0


From 7e84eae77d57cdcc4d884a9faad2b9729f9fc48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:45 +0000
Subject: [PATCH 37/58] fix: frame generator of a trivial sequence referred to
 destroyed audio elements

---
 iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
index 4b4456b..77f5f64 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
@@ -661,7 +661,7 @@ AudioFrameGenerator::Create(
     // Ok, nothing will be generated. This state helps clients handle trivial IA
     // Sequences.
     return absl::WrapUnique(new AudioFrameGenerator(
-        {}, {}, std::move(downmixer_manager), parameters_manager,
+        {}, audio_elements, std::move(downmixer_manager), parameters_manager,
         global_timing_module, {}, {}, {},
         /*max_codec_delay=*/0));
   }
-- 
2.43.0


From 443bc0958369df985633068c23778e12dffba5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:05 +0000
Subject: [PATCH 38/58] fix: a failing downmix does not leave the channels of a
 substream uneven

---
 iamf/cli/downmixer_manager.cc | 45 +++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/iamf/cli/downmixer_manager.cc b/iamf/cli/downmixer_manager.cc
index 1e6d5ba..284eb2a 100644
--- a/iamf/cli/downmixer_manager.cc
+++ b/iamf/cli/downmixer_manager.cc
@@ -17,6 +17,7 @@
 #include <list>
 #include <memory>
 #include <utility>
+#include <vector>
 
 #include "absl/base/nullability.h"
 #include "absl/container/flat_hash_map.h"
@@ -81,6 +82,15 @@ absl::Status DownmixerManager::DownMixSamplesToSubstreams(
     RETURN_IF_NOT_OK(down_mixer(down_mixing_params, input_label_to_samples));
   }
 
+  // Convert the samples of all channels before any of them is pushed. A failure
+  // must not leave the channels with different numbers of samples.
+  struct ConvertedChannel {
+    SubstreamData& substream_data;
+    int channel_index;
+    const std::vector<InternalSampleType>& samples;
+    std::vector<int32_t> attenuated_samples;
+  };
+  std::vector<ConvertedChannel> converted_channels;
   for (const auto& [substream_id, output_channel_labels] :
        downmixer_metadata.substream_id_to_labels) {
     // Find the `SubstreamData` with this `substream_id`.
@@ -108,22 +118,43 @@ absl::Status DownmixerManager::DownMixSamplesToSubstreams(
       }
       const auto& input_samples = samples_iter->second;
 
-      // Add all down mixed samples to both substream frames.
-      for (const auto input_sample : input_samples) {
-        substream_data.frames_in_obu.PushSample(channel_index, input_sample);
+      if (!converted_channels.empty() &&
+          converted_channels.front().samples.size() != input_samples.size()) {
+        return absl::InvalidArgumentError(absl::StrCat(
+            "Expected all channels to have the same number of samples: (",
+            converted_channels.front().samples.size(), " vs ",
+            input_samples.size(), ")"));
+      }
 
-        // Apply output gains to the samples going to the encoder and also
-        // convert the samples to 32-bit integers.
+      // Apply output gains to the samples going to the encoder and also convert
+      // the samples to 32-bit integers.
+      std::vector<int32_t> attenuated_samples;
+      attenuated_samples.reserve(input_samples.size());
+      for (const auto input_sample : input_samples) {
         int32_t attenuated_sample_int32 = 0;
         RETURN_IF_NOT_OK(NormalizedFloatingPointToInt32(
             input_sample / output_gain_linear, attenuated_sample_int32));
-        substream_data.frames_to_encode.PushSample(channel_index,
-                                                   attenuated_sample_int32);
+        attenuated_samples.push_back(attenuated_sample_int32);
       }
+      converted_channels.push_back({substream_data, channel_index,
+                                    input_samples,
+                                    std::move(attenuated_samples)});
       channel_index++;
     }
   }
 
+  // Add all down mixed samples to both substream frames.
+  for (const auto& channel : converted_channels) {
+    for (const auto input_sample : channel.samples) {
+      channel.substream_data.frames_in_obu.PushSample(channel.channel_index,
+                                                      input_sample);
+    }
+    for (const auto attenuated_sample : channel.attenuated_samples) {
+      channel.substream_data.frames_to_encode.PushSample(channel.channel_index,
+                                                         attenuated_sample);
+    }
+  }
+
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 2dddb8eecf90950c81a77f8b7f3c37f3156dcc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:22 +0000
Subject: [PATCH 39/58] fix: trimming at the end that comes too late is an
 error, not silently dropped

---
 .../proto_to_obu/audio_frame_generator.cc     | 29 +++++++++++++++++--
 .../proto_to_obu/audio_frame_generator.h      |  5 ++++
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
index 77f5f64..f51c2f3 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
@@ -928,17 +928,40 @@ absl::Status AudioFrameGenerator::OutputFrames(
   if (can_pop_frames) {
     for (const auto& [substream_id, encoder] : substream_id_to_encoder_) {
       RETURN_IF_NOT_OK(encoder->Pop(audio_frames));
+      auto& trimming_state = substream_id_to_trimming_state_.at(substream_id);
+      const bool is_last_frame = encoder->Finished();
       RETURN_IF_NOT_OK(ValidateAndApplyUserTrimming(
-          /*is_last_frame=*/encoder->Finished(),
-          substream_id_to_trimming_state_.at(substream_id),
-          audio_frames.back()));
+          is_last_frame, trimming_state, audio_frames.back()));
+      trimming_state.samples_trimmed_from_last_output_frame =
+          is_last_frame
+              ? 0
+              : audio_frames.back().obu.header_.num_samples_to_trim_at_end;
     }
   }
 
+  // The last frame could have been output before the user signalled it was the
+  // last one. Then it is too late to trim samples from it.
+  const bool end_trimming_was_missed = absl::c_any_of(
+      substream_id_to_encoder_, [this](const auto& pair) {
+        const auto& trimming_state =
+            substream_id_to_trimming_state_.at(pair.first);
+        return pair.second->Finished() &&
+               trimming_state.samples_trimmed_from_last_output_frame
+                   .has_value() &&
+               trimming_state.user_samples_left_to_trim_at_end >
+                   *trimming_state.samples_trimmed_from_last_output_frame;
+      });
+
   // Clean up any finished encoders.
   absl::erase_if(substream_id_to_encoder_,
                  [](const auto& pair) { return pair.second->Finished(); });
 
+  if (end_trimming_was_missed) {
+    return absl::FailedPreconditionError(
+        "Samples to trim at the end were requested, but the last frame was "
+        "output before `Finalize()` was called.");
+  }
+
   return absl::OkStatus();
 }
 
diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.h b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.h
index 6eac332..138fa63 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.h
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.h
@@ -16,6 +16,7 @@
 #include <cstdint>
 #include <list>
 #include <memory>
+#include <optional>
 #include <utility>
 
 #include "absl/base/nullability.h"
@@ -84,6 +85,10 @@ class AudioFrameGenerator {
 
     int64_t user_samples_left_to_trim_at_end;
     int64_t user_samples_left_to_trim_at_start;
+
+    // Samples trimmed from the end of the most recently output frame, if any.
+    std::optional<int64_t> samples_trimmed_from_last_output_frame =
+        std::nullopt;
   };
 
   /*!\brief Factory function to create an `AudioFrameGenerator`.
-- 
2.43.0


From 6ec46d6af97f8f325d48a5b14ae0271e3d18d8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:00 +0000
Subject: [PATCH 40/58] fix: sequencers that delay the descriptors do not lose
 fully trimmed temporal units

---
 iamf/cli/obu_sequencer_base.cc | 26 +++++++++++---------------
 iamf/cli/obu_sequencer_base.h  |  6 ++++++
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/iamf/cli/obu_sequencer_base.cc b/iamf/cli/obu_sequencer_base.cc
index 6dd37e0..284c311 100644
--- a/iamf/cli/obu_sequencer_base.cc
+++ b/iamf/cli/obu_sequencer_base.cc
@@ -532,21 +532,12 @@ absl::Status ObuSequencerBase::Close() {
   switch (state_) {
     case kInitialized:
       break;
-    case kPushDescriptorObusCalled: {
+    case kPushDescriptorObusCalled:
       // Ok, trivial IA sequences don't have a first untrimmed timestamp. So
       // we will simply push the descriptors with a fallback PTS of 0.
       descriptor_statistics_->first_untrimmed_timestamp = kFallbackFirstPts;
-
-      RETURN_IF_NOT_OK(PushSerializedDescriptorObus(
-          descriptor_statistics_->common_samples_per_frame,
-          descriptor_statistics_->common_sample_rate,
-          descriptor_statistics_->common_bit_depth,
-          descriptor_statistics_->first_untrimmed_timestamp,
-          descriptor_statistics_->num_channels,
-          descriptor_statistics_->descriptor_obus));
-      state_ = kPushSerializedDescriptorsCalled;
+      RETURN_IF_NOT_OK(PushDelayedObus());
       break;
-    }
     case kPushSerializedDescriptorsCalled:
       break;
     case kClosed:
@@ -595,6 +586,14 @@ absl::Status ObuSequencerBase::HandleInitialTemporalUnits(
   }
 
   // Found the first untrimmed sample. Push out all delayed OBUs.
+  RETURN_IF_NOT_OK(PushDelayedObus());
+  // Then finally, flush the current temporal unit.
+  return PushSerializedTemporalUnit(temporal_unit.start_timestamp_,
+                                    temporal_unit.num_untrimmed_samples_,
+                                    is_key_frame, serialized_temporal_unit);
+}
+
+absl::Status ObuSequencerBase::PushDelayedObus() {
   RETURN_IF_NOT_OK(PushSerializedDescriptorObus(
       descriptor_statistics_->common_samples_per_frame,
       descriptor_statistics_->common_sample_rate,
@@ -613,10 +612,7 @@ absl::Status ObuSequencerBase::HandleInitialTemporalUnits(
         absl::MakeConstSpan(delayed_temporal_unit.data)));
   }
   delayed_temporal_units_.clear();
-  // Then finally, flush the current temporal unit.
-  return PushSerializedTemporalUnit(temporal_unit.start_timestamp_,
-                                    temporal_unit.num_untrimmed_samples_,
-                                    is_key_frame, serialized_temporal_unit);
+  return absl::OkStatus();
 }
 
 }  // namespace iamf_tools
diff --git a/iamf/cli/obu_sequencer_base.h b/iamf/cli/obu_sequencer_base.h
index f49d72e..3a8b306 100644
--- a/iamf/cli/obu_sequencer_base.h
+++ b/iamf/cli/obu_sequencer_base.h
@@ -215,6 +215,12 @@ class ObuSequencerBase {
       const TemporalUnitView& temporal_unit,
       absl::Span<const uint8_t> serialized_temporal_unit, bool is_key_frame);
 
+  /*!\brief Pushes the descriptors and the temporal units which were delayed.
+   *
+   * \return `absl::OkStatus()` on success. A specific status on failure.
+   */
+  absl::Status PushDelayedObus();
+
   enum State {
     // Initial state.
     kInitialized,
-- 
2.43.0


From 3a2ed147690fae9e15d91c86f12b3a612db91e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:00 +0000
Subject: [PATCH 41/58] fix: temporal units whose trims wrap around are refused

---
 iamf/cli/temporal_unit_view.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/iamf/cli/temporal_unit_view.cc b/iamf/cli/temporal_unit_view.cc
index b9922a1..5cb0a3b 100644
--- a/iamf/cli/temporal_unit_view.cc
+++ b/iamf/cli/temporal_unit_view.cc
@@ -69,13 +69,15 @@ ComputeTemporalUnitStatisticsFromAudioFrame(
 
   // Check the trim in the first frame is plausible. I.e. there are not at least
   // 0 samples. This also prevents underflow when subtracting later.
-  const uint32_t cumulative_trim = statistics.num_samples_to_trim_at_start +
-                                   statistics.num_samples_to_trim_at_end;
-  RETURN_IF_NOT_OK(Validate(cumulative_trim, std::less_equal<uint32_t>(),
-                            statistics.num_samples_per_frame,
+  const uint64_t cumulative_trim =
+      static_cast<uint64_t>(statistics.num_samples_to_trim_at_start) +
+      statistics.num_samples_to_trim_at_end;
+  RETURN_IF_NOT_OK(Validate(cumulative_trim, std::less_equal<uint64_t>(),
+                            static_cast<uint64_t>(
+                                statistics.num_samples_per_frame),
                             "cumulative trim is <= `num_samples_per_frame`"));
   statistics.num_untrimmed_samples =
-      statistics.num_samples_per_frame - cumulative_trim;
+      statistics.num_samples_per_frame - static_cast<uint32_t>(cumulative_trim);
 
   return statistics;
 }
-- 
2.43.0


From ad2d1e2af58678bbb3882ef2d0e79b50c24137f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:24 +0000
Subject: [PATCH 42/58] fix: finalizing a sequencer with delayed descriptors
 hands them over first

---
 iamf/cli/obu_sequencer_base.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/obu_sequencer_base.cc b/iamf/cli/obu_sequencer_base.cc
index 284c311..1e272af 100644
--- a/iamf/cli/obu_sequencer_base.cc
+++ b/iamf/cli/obu_sequencer_base.cc
@@ -516,8 +516,13 @@ absl::Status ObuSequencerBase::UpdateDescriptorObusAndClose(
           "Descriptor OBUs have changed size between finalizing and closing.");
     }
 
+    if (state_ == kPushDescriptorObusCalled) {
+      // The original descriptors are still delayed. The concrete class needs
+      // them, before they can be finalized.
+      descriptor_statistics_->first_untrimmed_timestamp = kFallbackFirstPts;
+      RETURN_IF_NOT_OK(PushDelayedObus());
+    }
     RETURN_IF_NOT_OK(PushFinalizedDescriptorObus(updated_descriptor_obus));
-    state_ = kPushSerializedDescriptorsCalled;
   }
   // OK, regardless of whether the descriptors actually changed, obey the
   // request to close.
-- 
2.43.0


From afc1d64f16e022c38e22e2ddc8c1d4652e5d4b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:58 +0000
Subject: [PATCH 43/58] fix: frames of one audio element could not be flushed
 once another element had no samples left

The test for "no samples left" looked at the substreams of all audio
elements, so a drained element was asked for frames it did not have.
---
 .../proto_to_obu/audio_frame_generator.cc            | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
index f51c2f3..1f36337 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
@@ -317,12 +317,14 @@ absl::Status GetNextFrameSubstreamData(
       (label_to_samples.empty() ||
        std::all_of(label_to_samples.begin(), label_to_samples.end(),
                    [](const auto& entry) { return entry.second.empty(); }));
+  // The substreams of other audio elements may still have samples to flush.
   if (no_sample_added &&
-      (substream_id_to_substream_data.empty() ||
-       std::all_of(substream_id_to_substream_data.begin(),
-                   substream_id_to_substream_data.end(), [](const auto& entry) {
-                     return entry.second.frames_in_obu.Empty();
-                   }))) {
+      absl::c_all_of(substream_id_to_labels, [&](const auto& entry) {
+        const auto substream_data_iter =
+            substream_id_to_substream_data.find(entry.first);
+        return substream_data_iter == substream_id_to_substream_data.end() ||
+               substream_data_iter->second.frames_in_obu.Empty();
+      })) {
     return absl::OkStatus();
   }
 
-- 
2.43.0


From 70858ea08ad285ff19096dbf4e385c13639d1f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:31 +0000
Subject: [PATCH 44/58] fix: rendered frames were lost when several were added
 before a flush

Only the pass-through renderer appended to the rendered samples, the others
replaced what had not been flushed yet.
---
 iamf/cli/renderer/audio_element_renderer_binaural.cc | 11 +++++++----
 iamf/cli/renderer/loudspeakers_renderer.cc           |  6 ++++--
 iamf/cli/renderer/loudspeakers_renderer.h            |  3 ++-
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/iamf/cli/renderer/audio_element_renderer_binaural.cc b/iamf/cli/renderer/audio_element_renderer_binaural.cc
index 8282fab..c9f65e1 100644
--- a/iamf/cli/renderer/audio_element_renderer_binaural.cc
+++ b/iamf/cli/renderer/audio_element_renderer_binaural.cc
@@ -131,14 +131,17 @@ void CopySamples(size_t num_channels, const SourceBufferType& source_buffer,
     const auto& source_samples_for_channel = source_buffer[c];
     auto& destination_buffer_for_channel = destination_buffer[c];
 
-    // Resize destination channels. This step may be skipped if the
-    // destination buffer is already pre-allocated.
+    // Resize destination channels, to append after previous samples. This step
+    // may be skipped if the destination buffer is already pre-allocated.
+    size_t offset = 0;
     if constexpr (ResizeDestinationChannels) {
-      destination_buffer_for_channel.resize(num_destination_channels_samples);
+      offset = destination_buffer_for_channel.size();
+      destination_buffer_for_channel.resize(offset +
+                                            num_destination_channels_samples);
     }
 
     for (size_t t = 0; t < num_destination_channels_samples; t++) {
-      destination_buffer_for_channel[t] =
+      destination_buffer_for_channel[offset + t] =
           static_cast<DestinationValueType>(source_samples_for_channel[t]);
     }
   }
diff --git a/iamf/cli/renderer/loudspeakers_renderer.cc b/iamf/cli/renderer/loudspeakers_renderer.cc
index c4c83c5..e1ba55f 100644
--- a/iamf/cli/renderer/loudspeakers_renderer.cc
+++ b/iamf/cli/renderer/loudspeakers_renderer.cc
@@ -131,12 +131,14 @@ absl::Status RenderSamplesUsingGains(
   rendered_samples.resize(num_out_channels);
   for (size_t out_channel = 0; out_channel < num_out_channels; out_channel++) {
     auto& rendered_samples_for_channel = rendered_samples[out_channel];
-    rendered_samples_for_channel.assign(num_ticks, 0.0);
+    // Append, previously rendered frames may not have been flushed yet.
+    const size_t offset = rendered_samples_for_channel.size();
+    rendered_samples_for_channel.resize(offset + num_ticks, 0.0);
     for (size_t in_channel = 0; in_channel < num_in_channels; in_channel++) {
       const auto& samples_to_render_for_channel = input_samples[in_channel];
       const auto gain_value = gains[in_channel][out_channel];
       for (size_t t = 0; t < num_ticks; t++) {
-        rendered_samples_for_channel[t] +=
+        rendered_samples_for_channel[offset + t] +=
             samples_to_render_for_channel[t] * gain_value;
       }
     }
diff --git a/iamf/cli/renderer/loudspeakers_renderer.h b/iamf/cli/renderer/loudspeakers_renderer.h
index 10b9a0c..5337ded 100644
--- a/iamf/cli/renderer/loudspeakers_renderer.h
+++ b/iamf/cli/renderer/loudspeakers_renderer.h
@@ -55,7 +55,8 @@ std::optional<std::vector<std::vector<double>>> MaybeComputeDynamicGains(
  *
  * \param input_samples Input samples to render arranged in (channel, time).
  * \param gains Gains matrix to apply to the output.
- * \param rendered_samples Output rendered samples.
+ * \param rendered_samples Vector to append rendered samples to, arranged in
+ *        (channel, time).
  * \return `absl::OkStatus()` on success. A specific status on failure.
  */
 absl::Status RenderChannelLayoutToLoudspeakers(
-- 
2.43.0


From 09470e5882de6ede11fb2cdda8f9cf52dfeefb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:34 +0000
Subject: [PATCH 45/58] fix: align the mix gain with the untrimmed frame

The mix gain parameter block covers the whole frame, but the gains were
applied from the first rendered sample. A frame with samples trimmed at its
start was rendered with the gain animation too early.
---
 .../renderer/audio_element_renderer_base.h    | 11 +++++++++++
 iamf/cli/renderer/default_layout_renderer.cc  | 19 +++++++++++++------
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/iamf/cli/renderer/audio_element_renderer_base.h b/iamf/cli/renderer/audio_element_renderer_base.h
index b2dc2ef..e65668e 100644
--- a/iamf/cli/renderer/audio_element_renderer_base.h
+++ b/iamf/cli/renderer/audio_element_renderer_base.h
@@ -61,6 +61,17 @@ class AudioElementRendererBase {
    */
   void Flush(std::vector<std::vector<InternalSampleType>>& rendered_samples);
 
+  /*!\brief Gets the number of samples dropped from the start of a frame.
+   *
+   * \param labeled_frame Labeled frame to query.
+   * \return Number of samples at the start of the frame which are not rendered.
+   */
+  size_t GetNumSamplesTrimmedAtStart(const LabeledFrame& labeled_frame) const {
+    return trimming_settings_.trim_beginning
+               ? labeled_frame.samples_to_trim_at_start
+               : 0;
+  }
+
   /*!\brief Finalizes the renderer. Waits for it to finish any remaining frames.
    *
    * \return `absl::OkStatus()` on success. A specific status on failure.
diff --git a/iamf/cli/renderer/default_layout_renderer.cc b/iamf/cli/renderer/default_layout_renderer.cc
index 9f7db35..ee0530a 100644
--- a/iamf/cli/renderer/default_layout_renderer.cc
+++ b/iamf/cli/renderer/default_layout_renderer.cc
@@ -124,7 +124,7 @@ absl::Status GetAndApplyMixGain(
     const absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>&
         id_to_parameter_block,
     const MixGainParamDefinition& mix_gain, int32_t num_channels,
-    std::vector<float>& linear_mix_gain_per_tick,
+    size_t num_trimmed_at_start, std::vector<float>& linear_mix_gain_per_tick,
     std::vector<std::vector<InternalSampleType>>& rendered_samples) {
   RETURN_IF_NOT_OK(ValidateContainerSizeEqual("rendered_samples",
                                               rendered_samples, num_channels));
@@ -132,8 +132,9 @@ absl::Status GetAndApplyMixGain(
   const auto num_ticks =
       rendered_samples.empty() ? 0 : rendered_samples[0].size();
 
-  // Get the mix gain on a per tick basis from the parameter block.
-  linear_mix_gain_per_tick.resize(num_ticks);
+  // Get the mix gain on a per tick basis from the parameter block. The parameter
+  // block covers the whole frame, including any samples which were trimmed.
+  linear_mix_gain_per_tick.resize(num_trimmed_at_start + num_ticks);
   RETURN_IF_NOT_OK(GetParameterBlockLinearMixGainsPerTick(
       common_sample_rate, id_to_parameter_block, mix_gain,
       linear_mix_gain_per_tick));
@@ -146,7 +147,8 @@ absl::Status GetAndApplyMixGain(
   for (auto& rendered_samples_for_channel : rendered_samples) {
     for (size_t tick = 0; tick < num_ticks; tick++) {
       // Apply the mix gain per tick to all channels.
-      rendered_samples_for_channel[tick] *= linear_mix_gain_per_tick[tick];
+      rendered_samples_for_channel[tick] *=
+          linear_mix_gain_per_tick[num_trimmed_at_start + tick];
     }
   }
 
@@ -252,6 +254,7 @@ absl::Status DefaultLayoutRenderer::Render(
     std::vector<absl::Span<const InternalSampleType>>& valid_rendered_samples) {
   // Each audio element rendered individually with `element_mix_gain` applied.
   const size_t num_audio_elements = audio_element_ids_.size();
+  size_t num_trimmed_at_start = 0;
   for (size_t i = 0; i < num_audio_elements; i++) {
     const auto& audio_element_id = audio_element_ids_[i];
     const auto& element_mix_gain = element_mix_gains_[i];
@@ -267,9 +270,12 @@ absl::Status DefaultLayoutRenderer::Render(
         labeled_frame_iter->second, common_num_samples_per_frame_,
         *renderers_[i], rendered_audio_elements_[i]));
 
+    num_trimmed_at_start = renderers_[i]->GetNumSamplesTrimmedAtStart(
+        labeled_frame_iter->second);
     RETURN_IF_NOT_OK(GetAndApplyMixGain(
         common_sample_rate_, id_to_parameter_block, element_mix_gain,
-        num_channels_, linear_mix_gain_per_tick_, rendered_audio_elements_[i]));
+        num_channels_, num_trimmed_at_start, linear_mix_gain_per_tick_,
+        rendered_audio_elements_[i]));
   }
 
   // Mix the audio elements.
@@ -281,7 +287,8 @@ absl::Status DefaultLayoutRenderer::Render(
 
   RETURN_IF_NOT_OK(GetAndApplyMixGain(
       common_sample_rate_, id_to_parameter_block, output_mix_gain_,
-      num_channels_, linear_mix_gain_per_tick_, rendered_samples));
+      num_channels_, num_trimmed_at_start, linear_mix_gain_per_tick_,
+      rendered_samples));
 
   // TODO(b/542068876): Clip audio sample values to [-1, 1] here.
 
-- 
2.43.0


From dce419218b6899c034c9e18e82ddf6e411c1d17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:34 +0000
Subject: [PATCH 46/58] fix: apply the output gain to decoded samples

The output gain of a layer was parsed and stored, and the encoder divides the
samples it encodes by it, but nothing multiplied the decoded samples with it.
---
 iamf/cli/demixing_manager.cc | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/iamf/cli/demixing_manager.cc b/iamf/cli/demixing_manager.cc
index 20353b5..51314de 100644
--- a/iamf/cli/demixing_manager.cc
+++ b/iamf/cli/demixing_manager.cc
@@ -13,6 +13,7 @@
 
 #include <algorithm>
 #include <climits>
+#include <cmath>
 #include <cstddef>
 #include <list>
 #include <optional>
@@ -232,7 +233,7 @@ absl::Status StoreSamplesForAudioElementId(
     bool use_decoded_samples,
     const std::list<AudioFrameWithData>& audio_frames_or_decoded_audio_frames,
     const SubstreamIdLabelsMap& substream_id_to_labels,
-    LabeledFrame& labeled_frame) {
+    const LabelGainMap& label_to_output_gain, LabeledFrame& labeled_frame) {
   if (audio_frames_or_decoded_audio_frames.empty()) {
     return absl::OkStatus();
   }
@@ -285,7 +286,18 @@ absl::Status StoreSamplesForAudioElementId(
 
     int channel_index = 0;
     for (const auto& label : labels) {
-      labeled_frame.label_to_samples[label] = input_samples[channel_index];
+      auto& samples = labeled_frame.label_to_samples[label];
+      samples = input_samples[channel_index];
+      // The decoded samples were attenuated before they were encoded; apply the
+      // output gain to get back to the original level.
+      const auto gain_iter = label_to_output_gain.find(label);
+      if (use_decoded_samples && gain_iter != label_to_output_gain.end()) {
+        const double output_gain_linear =
+            std::pow(10.0, gain_iter->second / 20.0);
+        for (auto& sample : samples) {
+          sample *= output_gain_linear;
+        }
+      }
       channel_index++;
     }
     if (use_decoded_samples) {
@@ -421,7 +433,8 @@ absl::StatusOr<IdLabeledFrameMap> DemixingManager::DemixOriginalAudioSamples(
     LabeledFrame labeled_frame;
     RETURN_IF_NOT_OK(StoreSamplesForAudioElementId(
         /*use_decoded_samples=*/false, audio_frames,
-        demixing_metadata.substream_id_to_labels, labeled_frame));
+        demixing_metadata.substream_id_to_labels,
+        demixing_metadata.label_to_output_gain, labeled_frame));
     if (!labeled_frame.label_to_samples.empty()) {
       RETURN_IF_NOT_OK(
           ApplyDemixers(demixing_metadata.demixers, labeled_frame));
@@ -443,7 +456,8 @@ absl::StatusOr<IdLabeledFrameMap> DemixingManager::DemixDecodedAudioSamples(
     LabeledFrame labeled_decoded_frame;
     RETURN_IF_NOT_OK(StoreSamplesForAudioElementId(
         /*use_decoded_samples=*/true, decoded_audio_frames,
-        demixing_metadata.substream_id_to_labels, labeled_decoded_frame));
+        demixing_metadata.substream_id_to_labels,
+        demixing_metadata.label_to_output_gain, labeled_decoded_frame));
     if (!labeled_decoded_frame.label_to_samples.empty()) {
       RETURN_IF_NOT_OK(
           ApplyDemixers(demixing_metadata.demixers, labeled_decoded_frame));
-- 
2.43.0


From 913556dfef85b362be7d78dcd2eda3118aa33911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:03 +0000
Subject: [PATCH 47/58] fix: use the demixing and recon gain parameter blocks
 when decoding

The processor never handed the parameter blocks it parsed to its parameters
manager, so every frame was demixed with the default of the parameter
definition. The manager keeps the blocks by audio element, so that a parameter
ID shared by several elements works, follows the time of frames which are not
covered by a block, and forgets blocks which are handed to the caller.
---
 iamf/cli/obu_processor.cc      | 46 ++++++++++++++----
 iamf/cli/obu_processor.h       | 13 +++--
 iamf/cli/parameters_manager.cc | 88 +++++++++++++++++++++-------------
 iamf/cli/parameters_manager.h  | 22 ++++++---
 4 files changed, 118 insertions(+), 51 deletions(-)

diff --git a/iamf/cli/obu_processor.cc b/iamf/cli/obu_processor.cc
index 85cf99a..340260b 100644
--- a/iamf/cli/obu_processor.cc
+++ b/iamf/cli/obu_processor.cc
@@ -78,14 +78,37 @@ absl::Status UpdateParameterStatesIfNeeded(
 
   // The audio frames for all audio elements are finished; update the
   // parameters manager.
+  absl::Status status;
   for (const auto& [audio_element_id, unused_element] :
        audio_elements_with_data) {
-    RETURN_IF_NOT_OK(parameters_manager.UpdateDemixingState(audio_element_id,
-                                                            *global_timestamp));
-    RETURN_IF_NOT_OK(parameters_manager.UpdateReconGainState(
-        audio_element_id, *global_timestamp));
+    status.Update(parameters_manager.UpdateDemixingState(audio_element_id,
+                                                         *global_timestamp));
+    status.Update(parameters_manager.UpdateReconGainState(audio_element_id,
+                                                          *global_timestamp));
+  }
+  return status;
+}
+
+// Lets later audio frames use the parameters in a parameter block.
+void AddParameterBlockToParametersManager(
+    const ParameterBlockWithData& parameter_block,
+    const absl::flat_hash_map<DecodedUleb128, ParamDefinitionVariant>&
+        param_definition_variants,
+    ParametersManager& parameters_manager) {
+  const auto param_definition_iter =
+      param_definition_variants.find(parameter_block.obu->parameter_id_);
+  if (param_definition_iter == param_definition_variants.end()) {
+    return;
+  }
+  const auto param_definition_type = std::visit(
+      [](const auto& param_definition) { return param_definition.GetType(); },
+      param_definition_iter->second);
+  if (param_definition_type == ParamDefinition::kParameterDefinitionDemixing) {
+    parameters_manager.AddDemixingParameterBlock(&parameter_block);
+  } else if (param_definition_type ==
+             ParamDefinition::kParameterDefinitionReconGain) {
+    parameters_manager.AddReconGainParameterBlock(&parameter_block);
   }
-  return absl::OkStatus();
 }
 
 absl::Status GetAndStoreAudioFrameWithData(
@@ -606,9 +629,11 @@ absl::Status ObuProcessor::ProcessTemporalUnit(
           current_temporal_unit_, next_temporal_unit_,
           *std::move(audio_frame_with_data));
     } else if (parameter_block_with_data.has_value()) {
-      TemporalUnitData::AddDataToCorrectTemporalUnit(
-          current_temporal_unit_, next_temporal_unit_,
-          *std::move(parameter_block_with_data));
+      AddParameterBlockToParametersManager(
+          TemporalUnitData::AddDataToCorrectTemporalUnit(
+              current_temporal_unit_, next_temporal_unit_,
+              *std::move(parameter_block_with_data)),
+          param_definition_variants_, *parameters_manager_);
     } else if (temporal_delimiter.has_value()) {
       if (current_temporal_unit_.temporal_delimiter.has_value()) {
         delimiter_end_condition = true;
@@ -628,6 +653,11 @@ absl::Status ObuProcessor::ProcessTemporalUnit(
           current_temporal_unit_.parameter_blocks.empty()) {
         break;
       }
+      // The parameter blocks are about to be handed to the caller.
+      for (const auto& parameter_block :
+           current_temporal_unit_.parameter_blocks) {
+        parameters_manager_->RemoveParameterBlock(&parameter_block);
+      }
       output_temporal_unit = OutputTemporalUnit();
       output_temporal_unit->output_audio_frames =
           std::move(current_temporal_unit_.audio_frames);
diff --git a/iamf/cli/obu_processor.h b/iamf/cli/obu_processor.h
index c7cf7f7..73216f2 100644
--- a/iamf/cli/obu_processor.h
+++ b/iamf/cli/obu_processor.h
@@ -307,8 +307,13 @@ class ObuProcessor {
       timestamp.reset();
     }
 
+    /*!\brief Moves the data to the temporal unit with the same timestamp.
+     *
+     * \return The stored data, which keeps its address until it is removed from
+     *         the list, even when the list is moved.
+     */
     template <class T>
-    static void AddDataToCorrectTemporalUnit(
+    static const T& AddDataToCorrectTemporalUnit(
         TemporalUnitData& current_temporal_unit,
         TemporalUnitData& next_temporal_unit, T&& obu_with_data) {
       const InternalTimestamp new_timestamp = obu_with_data.start_timestamp;
@@ -316,12 +321,12 @@ class ObuProcessor {
         current_temporal_unit.timestamp = new_timestamp;
       }
       if (*current_temporal_unit.timestamp == new_timestamp) {
-        current_temporal_unit.GetList<T>().push_back(
+        return current_temporal_unit.GetList<T>().emplace_back(
             std::forward<T>(obu_with_data));
       } else {
-        next_temporal_unit.GetList<T>().push_back(
-            std::forward<T>(obu_with_data));
         next_temporal_unit.timestamp = new_timestamp;
+        return next_temporal_unit.GetList<T>().emplace_back(
+            std::forward<T>(obu_with_data));
       }
     }
 
diff --git a/iamf/cli/parameters_manager.cc b/iamf/cli/parameters_manager.cc
index eeded8b..5d19d57 100644
--- a/iamf/cli/parameters_manager.cc
+++ b/iamf/cli/parameters_manager.cc
@@ -62,32 +62,45 @@ absl::Status UpdateParameterState(
   // Validate the timestamps before updating.
   parameter_state = &parameter_states_iter->second;
 
+  // The next frame starts here, whether or not this frame was covered by a
+  // parameter block.
+  (*parameter_state)->next_timestamp = expected_next_timestamp;
+
   // Using `.at()` here is safe because if the parameter state exists for the
-  // `audio_element_id`, an entry in `parameter_blocks` with the key
-  // `parameter_state->param_definition->GetParameterId()` has already been
-  // created during `Initialize()`.
-  auto& parameter_block = parameter_blocks.at(
-      (*parameter_state)->param_definition->GetParameterId());
+  // `audio_element_id`, an entry in `parameter_blocks` with the same key has
+  // already been created during `Create()`.
+  auto& parameter_block = parameter_blocks.at(audio_element_id);
   if (parameter_block == nullptr) {
-    // No parameter block found for this ID. Do not validate the timestamp
-    // or update anything else. Setting `parameter_state` to `std::nullopt`
-    // prevents the state being updated later.
+    // No parameter block found for this audio element. Do not validate the
+    // timestamp or update anything else. Setting `parameter_state` to
+    // `std::nullopt` prevents the state being updated later.
     parameter_state = std::nullopt;
     return absl::OkStatus();
   }
 
-  // Update the next timestamp for the next frame.
-  (*parameter_state)->next_timestamp = parameter_block->end_timestamp;
-  RETURN_IF_NOT_OK(CompareTimestamps(
-      expected_next_timestamp, (*parameter_state)->next_timestamp,
-      absl::StrCat("When updating states for ", parameter_name,
-                   " parameters: ")));
-
   // Clear out the parameter block, which should not be used before a new
   // one is added via `Add*ParameterBlock()`.
+  const InternalTimestamp end_timestamp = parameter_block->end_timestamp;
   parameter_block = nullptr;
 
-  return absl::OkStatus();
+  return CompareTimestamps(expected_next_timestamp, end_timestamp,
+                           absl::StrCat("When updating states for ",
+                                        parameter_name, " parameters: "));
+}
+
+// Stores a parameter block for all audio elements which use its parameter ID.
+template <typename StateType>
+void StoreParameterBlock(
+    const ParameterBlockWithData& parameter_block,
+    const absl::flat_hash_map<DecodedUleb128, StateType>& parameter_states,
+    absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>&
+        parameter_blocks) {
+  for (const auto& [audio_element_id, parameter_state] : parameter_states) {
+    if (parameter_state.param_definition->GetParameterId() ==
+        parameter_block.obu->parameter_id_) {
+      parameter_blocks[audio_element_id] = &parameter_block;
+    }
+  }
 }
 
 }  // namespace
@@ -98,10 +111,10 @@ ParametersManager::Create(
   // Collect all `DemixingParamDefinition`s and all `ReconGainParamDefinitions`
   // in all Audio Elements. Validate there is no more than one per Audio
   // Element.
-  // Mapping from Parameter ID to demixing parameter blocks.
+  // Mapping from Audio Element ID to demixing parameter blocks.
   absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>
       demixing_parameter_blocks;
-  // Mapping from Parameter ID to recon gain parameter blocks.
+  // Mapping from Audio Element ID to recon gain parameter blocks.
   absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>
       recon_gain_parameter_blocks;
   // Mapping from Audio Element ID to the demixing state.
@@ -140,11 +153,10 @@ ParametersManager::Create(
     }
 
     if (demixing_param_definition != nullptr) {
-      // Insert a `nullptr` for a parameter ID. If no parameter blocks have
-      // this parameter ID, then it will remain null and default values will
+      // Insert a `nullptr` for an audio element. If no parameter blocks have
+      // its parameter ID, then it will remain null and default values will
       // be used.
-      demixing_parameter_blocks.insert(
-          {demixing_param_definition->GetParameterId(), nullptr});
+      demixing_parameter_blocks.insert({audio_element_id, nullptr});
       demixing_states[audio_element_id] = {
           .param_definition = demixing_param_definition,
           .previous_w_idx = 0,
@@ -153,11 +165,10 @@ ParametersManager::Create(
       };
     }
     if (recon_gain_param_definition != nullptr) {
-      // Insert a `nullptr` for a parameter ID. If no parameter blocks have
-      // this parameter ID, then it will remain null and default values will
+      // Insert a `nullptr` for an audio element. If no parameter blocks have
+      // its parameter ID, then it will remain null and default values will
       // be used.
-      recon_gain_parameter_blocks.insert(
-          {recon_gain_param_definition->GetParameterId(), nullptr});
+      recon_gain_parameter_blocks.insert({audio_element_id, nullptr});
       recon_gain_states[audio_element_id] = {
           .param_definition = recon_gain_param_definition,
           .next_timestamp = 0,
@@ -201,7 +212,7 @@ absl::Status ParametersManager::GetDownMixingParameters(
   auto& demixing_state = demixing_states_iter->second;
   const auto* param_definition = demixing_state.param_definition;
   const auto* demixing_parameter_block =
-      demixing_parameter_blocks_.at(param_definition->GetParameterId());
+      demixing_parameter_blocks_.at(audio_element_id);
   if (demixing_parameter_block == nullptr) {
     // Failed to find a parameter block that overlaps this frame. Use the
     // default value from the parameter definition. This is OK when there are
@@ -254,9 +265,8 @@ absl::Status ParametersManager::GetReconGainInfoParameterData(
   }
 
   auto& recon_gain_state = recon_gain_states_iter->second;
-  const auto* param_definition = recon_gain_state.param_definition;
   const auto* recon_gain_parameter_block =
-      recon_gain_parameter_blocks_.at(param_definition->GetParameterId());
+      recon_gain_parameter_blocks_.at(audio_element_id);
   if (recon_gain_parameter_block == nullptr) {
     // Failed to find a parameter block that overlaps this frame. A default
     // recon gain value of 0 dB is implied when there are no Parameter Block
@@ -311,14 +321,26 @@ absl::Status ParametersManager::GetReconGainInfoParameterData(
 
 void ParametersManager::AddDemixingParameterBlock(
     const ParameterBlockWithData* absl_nonnull parameter_block) {
-  demixing_parameter_blocks_[parameter_block->obu->parameter_id_] =
-      parameter_block;
+  StoreParameterBlock(*parameter_block, demixing_states_,
+                      demixing_parameter_blocks_);
 }
 
 void ParametersManager::AddReconGainParameterBlock(
     const ParameterBlockWithData* absl_nonnull parameter_block) {
-  recon_gain_parameter_blocks_[parameter_block->obu->parameter_id_] =
-      parameter_block;
+  StoreParameterBlock(*parameter_block, recon_gain_states_,
+                      recon_gain_parameter_blocks_);
+}
+
+void ParametersManager::RemoveParameterBlock(
+    const ParameterBlockWithData* absl_nonnull parameter_block) {
+  for (auto* parameter_blocks :
+       {&demixing_parameter_blocks_, &recon_gain_parameter_blocks_}) {
+    for (auto& [unused_audio_element_id, stored_block] : *parameter_blocks) {
+      if (stored_block == parameter_block) {
+        stored_block = nullptr;
+      }
+    }
+  }
 }
 
 absl::Status ParametersManager::UpdateDemixingState(
diff --git a/iamf/cli/parameters_manager.h b/iamf/cli/parameters_manager.h
index bdfbfa7..9e842a6 100644
--- a/iamf/cli/parameters_manager.h
+++ b/iamf/cli/parameters_manager.h
@@ -100,6 +100,16 @@ class ParametersManager {
   void AddReconGainParameterBlock(
       const ParameterBlockWithData* absl_nonnull parameter_block);
 
+  /*!\brief Removes a parameter block.
+   *
+   * Must be called before a parameter block which has been added is moved or
+   * destroyed, unless the state has been updated since.
+   *
+   * \param parameter_block Pointer to the parameter block to remove.
+   */
+  void RemoveParameterBlock(
+      const ParameterBlockWithData* absl_nonnull parameter_block);
+
   /*!\brief Updates the state of demixing parameters for an audio element.
    *
    * Also validates the timestamp is as expected.
@@ -156,10 +166,10 @@ class ParametersManager {
    *
    * Used only by factory function.
    *
-   * \param demixing_parameter_blocks Mapping from Parameter ID to demixing
-   *        parameter blocks.
-   * \param recon_gain_parameter_blocks Mapping from Parameter ID to recon gain
-   *        parameter blocks.
+   * \param demixing_parameter_blocks Mapping from Audio Element ID to
+   *        demixing parameter blocks.
+   * \param recon_gain_parameter_blocks Mapping from Audio Element ID to
+   *        recon gain parameter blocks.
    * \param demixing_states Mapping from Audio Element ID to the demixing
    *        state.
    * \param recon_gain_states Mapping from Audio Element ID to the recon gain
@@ -177,11 +187,11 @@ class ParametersManager {
         demixing_states_(demixing_states),
         recon_gain_states_(recon_gain_states) {}
 
-  // Mapping from Parameter ID to demixing parameter blocks.
+  // Mapping from Audio Element ID to demixing parameter blocks.
   absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>
       demixing_parameter_blocks_;
 
-  // Mapping from Parameter ID to recon gain parameter blocks.
+  // Mapping from Audio Element ID to recon gain parameter blocks.
   absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>
       recon_gain_parameter_blocks_;
 
-- 
2.43.0


From 7012828d64d497918d7d55e3aeaa99f37f75fcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:50 +0000
Subject: [PATCH 48/58] fix: the encoder writes the reserved bits of a scalable
 channel layout

---
 .../proto_conversion/proto_to_obu/audio_element_generator.cc   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc
index 252f7c0..2fea00f 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc
@@ -351,6 +351,9 @@ absl::StatusOr<AudioElementWithData> CreateChannelBasedAudioElementWithData(
       audio_element_metadata.scalable_channel_layout_config();
 
   auto config = ScalableChannelLayoutConfig();
+  RETURN_IF_NOT_OK(StaticCastIfInRange<uint32_t, uint8_t>(
+      "ScalableChannelLayoutConfig.reserved", input_config.reserved(),
+      config.reserved));
   config.channel_audio_layer_configs.reserve(
       input_config.channel_audio_layer_configs_size());
   for (const auto& input_layer_config :
-- 
2.43.0


From 8a6e47d5440386502833ddd293aaf74c3d260f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:32 +0000
Subject: [PATCH 49/58] fix: default positions that do not fit are clipped or
 refused, not wrapped

---
 .../mix_presentation_generator.cc             | 108 ++++++++++++------
 1 file changed, 72 insertions(+), 36 deletions(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/mix_presentation_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/mix_presentation_generator.cc
index ec06f29..f3a1290 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/mix_presentation_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/mix_presentation_generator.cc
@@ -11,6 +11,7 @@
  */
 #include "iamf/cli/proto_conversion/proto_to_obu/mix_presentation_generator.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <optional>
@@ -89,11 +90,13 @@ absl::StatusOr<PolarParamDefinition> CreatePolarParamDefinition(
     return base_args.status();
   }
   PolarParamDefinition param_definition(*base_args);
-  param_definition.default_azimuth_ = input_param_definition.default_azimuth();
+  param_definition.default_azimuth_ =
+      std::clamp(input_param_definition.default_azimuth(), -180, 180);
   param_definition.default_elevation_ =
-      input_param_definition.default_elevation();
-  param_definition.default_distance_ =
-      input_param_definition.default_distance();
+      std::clamp(input_param_definition.default_elevation(), -90, 90);
+  RETURN_IF_NOT_OK(StaticCastIfInRange(
+      "default_distance", input_param_definition.default_distance(),
+      param_definition.default_distance_));
   return param_definition;
 }
 
@@ -105,9 +108,15 @@ absl::StatusOr<Cart8ParamDefinition> CreateCart8ParamDefinition(
     return base_args.status();
   }
   Cart8ParamDefinition param_definition(*base_args);
-  param_definition.default_x_ = input_param_definition.default_x();
-  param_definition.default_y_ = input_param_definition.default_y();
-  param_definition.default_z_ = input_param_definition.default_z();
+  RETURN_IF_NOT_OK(StaticCastIfInRange("default_x",
+                                       input_param_definition.default_x(),
+                                       param_definition.default_x_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("default_y",
+                                       input_param_definition.default_y(),
+                                       param_definition.default_y_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("default_z",
+                                       input_param_definition.default_z(),
+                                       param_definition.default_z_));
   return param_definition;
 }
 
@@ -119,9 +128,15 @@ absl::StatusOr<Cart16ParamDefinition> CreateCart16ParamDefinition(
     return base_args.status();
   }
   Cart16ParamDefinition param_definition(*base_args);
-  param_definition.default_x_ = input_param_definition.default_x();
-  param_definition.default_y_ = input_param_definition.default_y();
-  param_definition.default_z_ = input_param_definition.default_z();
+  RETURN_IF_NOT_OK(StaticCastIfInRange("default_x",
+                                       input_param_definition.default_x(),
+                                       param_definition.default_x_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("default_y",
+                                       input_param_definition.default_y(),
+                                       param_definition.default_y_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("default_z",
+                                       input_param_definition.default_z(),
+                                       param_definition.default_z_));
   return param_definition;
 }
 
@@ -135,17 +150,20 @@ absl::StatusOr<DualPolarParamDefinition> CreateDualPolarParamDefinition(
   }
   DualPolarParamDefinition param_definition(*base_args);
   param_definition.default_first_azimuth_ =
-      input_param_definition.default_first_azimuth();
+      std::clamp(input_param_definition.default_first_azimuth(), -180, 180);
   param_definition.default_first_elevation_ =
-      input_param_definition.default_first_elevation();
-  param_definition.default_first_distance_ =
-      input_param_definition.default_first_distance();
+      std::clamp(input_param_definition.default_first_elevation(), -90, 90);
+  RETURN_IF_NOT_OK(StaticCastIfInRange(
+      "default_first_distance", input_param_definition.default_first_distance(),
+      param_definition.default_first_distance_));
   param_definition.default_second_azimuth_ =
-      input_param_definition.default_second_azimuth();
+      std::clamp(input_param_definition.default_second_azimuth(), -180, 180);
   param_definition.default_second_elevation_ =
-      input_param_definition.default_second_elevation();
-  param_definition.default_second_distance_ =
-      input_param_definition.default_second_distance();
+      std::clamp(input_param_definition.default_second_elevation(), -90, 90);
+  RETURN_IF_NOT_OK(
+      StaticCastIfInRange("default_second_distance",
+                          input_param_definition.default_second_distance(),
+                          param_definition.default_second_distance_));
   return param_definition;
 }
 
@@ -158,15 +176,24 @@ absl::StatusOr<DualCart8ParamDefinition> CreateDualCart8ParamDefinition(
     return base_args.status();
   }
   DualCart8ParamDefinition param_definition(*base_args);
-  param_definition.default_first_x_ = input_param_definition.default_first_x();
-  param_definition.default_first_y_ = input_param_definition.default_first_y();
-  param_definition.default_first_z_ = input_param_definition.default_first_z();
-  param_definition.default_second_x_ =
-      input_param_definition.default_second_x();
-  param_definition.default_second_y_ =
-      input_param_definition.default_second_y();
-  param_definition.default_second_z_ =
-      input_param_definition.default_second_z();
+  RETURN_IF_NOT_OK(StaticCastIfInRange("default_first_x",
+                                       input_param_definition.default_first_x(),
+                                       param_definition.default_first_x_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("default_first_y",
+                                       input_param_definition.default_first_y(),
+                                       param_definition.default_first_y_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("default_first_z",
+                                       input_param_definition.default_first_z(),
+                                       param_definition.default_first_z_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange(
+      "default_second_x", input_param_definition.default_second_x(),
+      param_definition.default_second_x_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange(
+      "default_second_y", input_param_definition.default_second_y(),
+      param_definition.default_second_y_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange(
+      "default_second_z", input_param_definition.default_second_z(),
+      param_definition.default_second_z_));
   return param_definition;
 }
 
@@ -179,15 +206,24 @@ absl::StatusOr<DualCart16ParamDefinition> CreateDualCart16ParamDefinition(
     return base_args.status();
   }
   DualCart16ParamDefinition param_definition(*base_args);
-  param_definition.default_first_x_ = input_param_definition.default_first_x();
-  param_definition.default_first_y_ = input_param_definition.default_first_y();
-  param_definition.default_first_z_ = input_param_definition.default_first_z();
-  param_definition.default_second_x_ =
-      input_param_definition.default_second_x();
-  param_definition.default_second_y_ =
-      input_param_definition.default_second_y();
-  param_definition.default_second_z_ =
-      input_param_definition.default_second_z();
+  RETURN_IF_NOT_OK(StaticCastIfInRange("default_first_x",
+                                       input_param_definition.default_first_x(),
+                                       param_definition.default_first_x_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("default_first_y",
+                                       input_param_definition.default_first_y(),
+                                       param_definition.default_first_y_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("default_first_z",
+                                       input_param_definition.default_first_z(),
+                                       param_definition.default_first_z_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange(
+      "default_second_x", input_param_definition.default_second_x(),
+      param_definition.default_second_x_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange(
+      "default_second_y", input_param_definition.default_second_y(),
+      param_definition.default_second_y_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange(
+      "default_second_z", input_param_definition.default_second_z(),
+      param_definition.default_second_z_));
   return param_definition;
 }
 
-- 
2.43.0


From 24473033ee43c0dd29e4e6024ba3ceaa0a1ad185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:32 +0000
Subject: [PATCH 50/58] fix: reserved bits of an audio element that do not fit
 are refused

---
 .../proto_to_obu/audio_element_generator.cc                 | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc
index 2fea00f..bbbcbc8 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc
@@ -629,6 +629,12 @@ absl::StatusOr<AudioElementWithData> CreateObjectsAudioElementWithData(
 absl::StatusOr<AudioElementWithData> CreateAudioElementWithData(
     const iamf_tools_cli_proto::AudioElementObuMetadata& audio_element_metadata,
     const CodecConfigObu& codec_config_obu) {
+  // `AudioElementObu` holds `reserved` as a `uint8_t`.
+  uint8_t unused_reserved;
+  RETURN_IF_NOT_OK(StaticCastIfInRange<uint32_t, uint8_t>(
+      "AudioElementObuMetadata.reserved", audio_element_metadata.reserved(),
+      unused_reserved));
+
   // Dispatch to specific functions, depending on the type (or sub-type) of the
   // Audio Element OBU.
   switch (audio_element_metadata.audio_element_type()) {
-- 
2.43.0


From e305754b79ad081780d2564032596e24422f50e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:06 +0000
Subject: [PATCH 51/58] fix: recon gains that do not fit are refused

---
 .../proto_conversion/proto_to_obu/parameter_block_generator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
index 339ecdb..c44e0a2 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
@@ -348,7 +348,8 @@ absl::Status GenerateReconGainSubblock(
             "Recon gain bit position out of range: ", bit_position));
       }
       user_recon_gain_flag |= 1 << bit_position;
-      user_recon_gains[bit_position] = user_recon_gain;
+      RETURN_IF_NOT_OK(StaticCastIfInRange<uint32_t, uint8_t>(
+          "recon_gain", user_recon_gain, user_recon_gains[bit_position]));
     }
     for (const auto& [bit_position, user_recon_gain] :
          user_recon_gains_layers[layer_index].recon_gain()) {
-- 
2.43.0


From be0c66f7b5860694f646f33245478a5eb12980f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:36 +0000
Subject: [PATCH 52/58] fix: report a rendered WAV file that cannot be created

---
 iamf/cli/encoder_main_lib.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/iamf/cli/encoder_main_lib.cc b/iamf/cli/encoder_main_lib.cc
index 7e0b7ef..e6c132e 100644
--- a/iamf/cli/encoder_main_lib.cc
+++ b/iamf/cli/encoder_main_lib.cc
@@ -264,20 +264,26 @@ absl::Status TestMain(const UserMetadata& input_user_metadata,
        user_metadata.test_vector_metadata().file_name_prefix())
           .string();
   ABSL_LOG(INFO) << "output_wav_file_prefix = " << output_wav_file_prefix;
+  bool created_all_wav_writers = true;
   RenderingMixPresentationFinalizer::SampleProcessorFactory
       sample_processor_factory =
-          [output_wav_file_prefix](DecodedUleb128 mix_presentation_id,
-                                   size_t sub_mix_index, size_t layout_index,
-                                   const Layout&, int num_channels,
-                                   int sample_rate, int bit_depth,
-                                   size_t max_input_samples_per_frame)
+          [output_wav_file_prefix, &created_all_wav_writers](
+              DecodedUleb128 mix_presentation_id, size_t sub_mix_index,
+              size_t layout_index, const Layout&, int num_channels,
+              int sample_rate, int bit_depth,
+              size_t max_input_samples_per_frame)
       -> std::unique_ptr<SampleProcessorBase> {
     // Generate a unique filename for each layout of each mix presentation.
     const auto wav_path = absl::StrCat(
         output_wav_file_prefix, "_rendered_id_", mix_presentation_id,
         "_sub_mix_", sub_mix_index, "_layout_", layout_index, ".wav");
-    return WavWriter::Create(wav_path, num_channels, sample_rate, bit_depth,
-                             max_input_samples_per_frame);
+    auto wav_writer =
+        WavWriter::Create(wav_path, num_channels, sample_rate, bit_depth,
+                          max_input_samples_per_frame);
+    if (wav_writer == nullptr) {
+      created_all_wav_writers = false;
+    }
+    return wav_writer;
   };
 
   // Apply the bit depth override.
@@ -300,6 +306,9 @@ absl::Status TestMain(const UserMetadata& input_user_metadata,
   if (!iamf_encoder.ok()) {
     return iamf_encoder.status();
   }
+  if (!created_all_wav_writers) {
+    return absl::UnavailableError("Failed to create an output WAV file.");
+  }
 
   // In a streaming based application we would query `GetDescriptorObus()`
   // and broadcast them. Here we rely on the `ObuSequencer`s to manage the
-- 
2.43.0


From 2a1bc6b9b990917b149f8ca74b7a6d3bc1728360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:54 +0000
Subject: [PATCH 53/58] fix: report errors while reading input WAV files

---
 iamf/cli/wav_reader.h           | 8 ++++++++
 iamf/cli/wav_sample_provider.cc | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/iamf/cli/wav_reader.h b/iamf/cli/wav_reader.h
index f6152fd..4741726 100644
--- a/iamf/cli/wav_reader.h
+++ b/iamf/cli/wav_reader.h
@@ -70,6 +70,14 @@ class WavReader {
    */
   int remaining_samples() const { return info_.remaining_samples; }
 
+  /*!\brief Gets whether reading from the file failed.
+   *
+   * \return `true` if the samples read so far ended because of an error.
+   */
+  bool has_read_error() const {
+    return file_ != nullptr && std::ferror(file_) != 0;
+  }
+
   /*!\brief Read up to one frame worth of samples.
    *
    * Typically this function reads up to `(num_channels() *
diff --git a/iamf/cli/wav_sample_provider.cc b/iamf/cli/wav_sample_provider.cc
index 7fc683f..4ce7318 100644
--- a/iamf/cli/wav_sample_provider.cc
+++ b/iamf/cli/wav_sample_provider.cc
@@ -208,6 +208,11 @@ absl::Status WavSampleProvider::ReadFrames(
   auto& wav_reader = wav_reader_iter->second;
   const size_t samples_read = wav_reader.ReadFrame();
   ABSL_LOG_FIRST_N(INFO, 1) << samples_read << " samples read";
+  if (wav_reader.has_read_error()) {
+    return absl::DataLossError(
+        absl::StrCat("Failed to read the WAV file of Audio Element ID= ",
+                     audio_element_id));
+  }
 
   // Note if the WAV reader is found for the Audio Element ID, then it's
   // guaranteed to have the other corresponding metadata (otherwise the
-- 
2.43.0


From ae9522be53a36d3b144db5e1f1be3cff62f07aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:41 +0000
Subject: [PATCH 54/58] fix: refuse WAV files that end at different times

---
 iamf/cli/encoder_main_lib.cc | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/iamf/cli/encoder_main_lib.cc b/iamf/cli/encoder_main_lib.cc
index e6c132e..80ed474 100644
--- a/iamf/cli/encoder_main_lib.cc
+++ b/iamf/cli/encoder_main_lib.cc
@@ -16,6 +16,7 @@
 #include <filesystem>
 #include <list>
 #include <memory>
+#include <optional>
 #include <string>
 #include <system_error>
 #include <type_traits>
@@ -104,11 +105,26 @@ absl::Status CollectLabeledSamplesForAudioElements(
     WavSampleProvider& wav_sample_provider,
     absl::flat_hash_map<DecodedUleb128, LabelSamplesMap>& id_to_labeled_samples,
     bool& no_more_real_samples) {
+  std::optional<bool> all_finished;
+  std::optional<size_t> common_num_samples;
   for (const auto& [audio_element_id, unused_audio_element] : audio_elements) {
-    RETURN_IF_NOT_OK(wav_sample_provider.ReadFrames(
-        audio_element_id, id_to_labeled_samples[audio_element_id],
-        no_more_real_samples));
+    auto& labeled_samples = id_to_labeled_samples[audio_element_id];
+    bool finished = false;
+    RETURN_IF_NOT_OK(wav_sample_provider.ReadFrames(audio_element_id,
+                                                    labeled_samples, finished));
+    // There is only one end of the sequence, the audio of all audio elements
+    // must reach it together.
+    const size_t num_samples =
+        labeled_samples.empty() ? 0 : labeled_samples.begin()->second.size();
+    if (all_finished.value_or(finished) != finished ||
+        common_num_samples.value_or(num_samples) != num_samples) {
+      return absl::InvalidArgumentError(
+          "The WAV files of all audio elements must have the same duration.");
+    }
+    all_finished = finished;
+    common_num_samples = num_samples;
   }
+  no_more_real_samples = all_finished.value_or(no_more_real_samples);
   return absl::OkStatus();
 }
 
-- 
2.43.0


From d643bc7fa8208febdaa165732ce771e20073a79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:46 +0000
Subject: [PATCH 55/58] fix: the decoder program refuses a block size that is
 not positive

---
 iamf/cli/decoder_main.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iamf/cli/decoder_main.cc b/iamf/cli/decoder_main.cc
index e0953c1..f8b6123 100644
--- a/iamf/cli/decoder_main.cc
+++ b/iamf/cli/decoder_main.cc
@@ -200,6 +200,10 @@ int main(int argc, char** argv) {
         << "--input_filename and --output_filename must be specified.";
     return EXIT_FAILURE;
   }
+  if (block_size <= 0) {
+    ABSL_LOG(ERROR) << "--block_size must be positive.";
+    return EXIT_FAILURE;
+  }
 
   IamfDecoderFactory::Settings settings = {
       .requested_mix = {.mix_presentation_id = requested_mix_presentation_id,
-- 
2.43.0


From add5777272d8514e2bd2d24ba830b53cbfd4b896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:46 +0000
Subject: [PATCH 56/58] fix: the decoder program reports errors while reading
 its input

---
 iamf/cli/decoder_main.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iamf/cli/decoder_main.cc b/iamf/cli/decoder_main.cc
index f8b6123..e558234 100644
--- a/iamf/cli/decoder_main.cc
+++ b/iamf/cli/decoder_main.cc
@@ -290,6 +290,9 @@ int main(int argc, char** argv) {
       num_temporal_units_processed_for_logging += num_temporal_units_processed;
     }
   }
+  if (!input_stream.eof()) {
+    ABSL_LOG(FATAL) << "Failed to read input file: " << input_filename;
+  }
 
   ABSL_LOG(INFO) << "Decoded " << num_temporal_units_processed_for_logging
                  << " temporal units.";
-- 
2.43.0


From 30da28179b7b64c8d5c540584d93083ab0c618e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:46 +0000
Subject: [PATCH 57/58] fix: the decoder program reports an input without
 complete descriptors

---
 iamf/cli/decoder_main.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iamf/cli/decoder_main.cc b/iamf/cli/decoder_main.cc
index e558234..ae7c562 100644
--- a/iamf/cli/decoder_main.cc
+++ b/iamf/cli/decoder_main.cc
@@ -293,6 +293,9 @@ int main(int argc, char** argv) {
   if (!input_stream.eof()) {
     ABSL_LOG(FATAL) << "Failed to read input file: " << input_filename;
   }
+  if (wav_writer == nullptr) {
+    ABSL_LOG(FATAL) << "The input file ended before the end of the descriptors.";
+  }
 
   ABSL_LOG(INFO) << "Decoded " << num_temporal_units_processed_for_logging
                  << " temporal units.";
-- 
2.43.0


From 65331975110a93873e83908d54986ed42d545a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:46 +0000
Subject: [PATCH 58/58] fix: the decoder program reports an output file that
 cannot be finalized

---
 iamf/cli/decoder_main.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/iamf/cli/decoder_main.cc b/iamf/cli/decoder_main.cc
index ae7c562..f9a6f98 100644
--- a/iamf/cli/decoder_main.cc
+++ b/iamf/cli/decoder_main.cc
@@ -296,6 +296,11 @@ int main(int argc, char** argv) {
   if (wav_writer == nullptr) {
     ABSL_LOG(FATAL) << "The input file ended before the end of the descriptors.";
   }
+  // Samples may only reach the disk when the file is finalized.
+  const auto flush_status = wav_writer->Flush();
+  if (!flush_status.ok()) {
+    ABSL_LOG(FATAL) << "Failed to finalize the output file: " << flush_status;
+  }
 
   ABSL_LOG(INFO) << "Decoded " << num_temporal_units_processed_for_logging
                  << " temporal units.";
-- 
2.43.0

