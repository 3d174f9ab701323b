// W01: WAV files round-trip exactly and I/O failures are never hidden.
#include <cmath>
#include <filesystem>
#include <limits>

#include "core.h"
#include "iamf/cli/wav_reader.h"
#include "iamf/cli/wav_writer.h"
#include "wav_model.h"

namespace dst {
namespace {
using iamf_tools::WavReader;
using iamf_tools::WavWriter;

int32_t Sample(uint64_t& s) {
  s = Ctx::Mix(s);
  switch (s & 7) {
    case 0: return 0;
    case 1: return INT32_MAX;
    case 2: return INT32_MIN;
    case 3: return -1;
    default: return static_cast<int32_t>(s >> 16);
  }
}

void ReadBack(Ctx& c, const std::string& path, const WavModel& want, size_t block) {
  auto r = WavReader::CreateFromFile(path, block);
  c.Check(r.ok(), "reader-refuses", "a complete file is refused by the reader");
  c.Check(r->num_channels() == want.channels && r->sample_rate_hz() == want.rate && r->bit_depth() == want.bits,
          "reader-header", "header fields differ from what was written");
  std::vector<int32_t> got;
  c.Check(r->remaining_samples() == (int)want.samples.size(), "reader-remaining",
          Fmt("%d samples remaining of %zu", r->remaining_samples(), want.samples.size()));
  for (size_t i = 0; i <= want.samples.size() + 2; ++i) {
    const size_t n = r->ReadFrame();
    c.Check(n % want.channels == 0 && n <= block * want.channels, "reader-count", Fmt("a block of %zu samples", n));
    if (n == 0) break;
    for (size_t t = 0; t < n / want.channels; ++t)
      for (int ch = 0; ch < want.channels; ++ch) got.push_back(r->buffers_[ch][t]);
    c.Check(r->remaining_samples() == (int)(want.samples.size() - got.size()), "reader-remaining", "remaining count does not follow the reads");
    if (n < block * want.channels) c.Check(got.size() == want.samples.size(), "reader-short", "a short block before the end");
  }
  c.Check(got == want.samples, "reader-samples",
          Fmt("read %zu samples with block %zu, wrote %zu, or values differ", got.size(), block, want.samples.size()));
}

void WriterRun(Ctx& c) {
  const std::string path = ScratchDir() + "/w.wav";
  const int channels = 1 + (c.Pick(4) == 3 ? c.Pick(24) : c.Pick(3));
  const int bits = c.OneOf<int>({16, 24, 32});
  const int rate = c.OneOf<int>({48000, 44100, 8000, 96000, 1});
  const size_t frame = 1 + c.Pick(c.Pick(2) ? 40 : 4);
  const bool header = c.Pick(5) != 4;
  const bool faults = c.Pick(3) == 2;
  bool write_fault = false, remove_fault = false, close_fault = false;
  const uint32_t rate_f = faults ? 1 + c.Pick(12) : 0;
  auto io = [&](IoOp op, size_t len) {
    IoDecision d;
    if (!faults || c.Pick(rate_f + 1) != rate_f) return d;
    switch (op) {
      case IoOp::kOpen: d.err = 28; c.Fault("open-fails"); write_fault = true; break;
      case IoOp::kWrite:
        if (c.Pick(2) && len > 1) { d.allow = c.Pick(len - 1); c.Fault("short-write-disk-full"); }
        else { d.err = 28; c.Fault("write-fails"); }
        write_fault = true;
        break;
      case IoOp::kSeek: d.err = 5; c.Fault("seek-fails"); write_fault = true; break;
      case IoOp::kClose: d.err = 5; c.Fault("delayed-write-error-at-close"); close_fault = true; break;
      case IoOp::kRemove: d.err = 13; c.Fault("remove-fails"); remove_fault = true; break;
      default: break;
    }
    return d;
  };
  std::vector<int32_t> want;
  bool all_ok = true;
  std::unique_ptr<WavWriter> w;
  {
    IoFaults f(io);
    w = WavWriter::Create(path, channels, rate, bits, frame, header);
  }
  if (w == nullptr) {
    c.Check(write_fault, "create-refused", "no writer although nothing failed");
    c.Check(remove_fault || !std::filesystem::exists(path), "partial-file-left", "a writer that was not created leaves a file behind");
    c.Note("create-failed");
    c.nontrivial = true;
    return;
  }
  c.Check(!write_fault, "failure-hidden", "a failed open or header write is reported as success");
  c.Check(w->bit_depth() == bits, "bit-depth", "wrong bit depth reported");
  const int pushes = c.Pick(12);
  bool aborted = false;
  for (int i = 0; i < pushes && !aborted; ++i) {
    const uint32_t kind = c.Weighted({8, 2, 1, 1, 1});
    size_t n = c.Pick(frame + 1);
    uint64_t s = c.Bits();
    std::vector<std::vector<double>> chan(channels);
    std::vector<int32_t> inter;
    if (kind == 2) n = frame + 1 + c.Pick(3);
    for (size_t t = 0; t < n; ++t)
      for (auto& ch : chan) {
        const int32_t v = Sample(s);
        ch.push_back(v == INT32_MAX && (s & 256) ? 1.5 : v / 2147483648.0);
        inter.push_back(v);
      }
    bool legal = true;
    if (kind == 2) legal = false;  // too many samples for the declared frame
    if (kind == 3) { chan.push_back(std::vector<double>(n, 0.0)); legal = false; }
    if (kind == 4 && channels > 1) { chan.back().push_back(0.5); legal = n + 1 <= 0; }
    const bool fault_before = write_fault;
    bool ok;
    IoFaults f(io);
    if (kind == 1) {
      Bytes raw;
      for (int32_t v : inter) PutLe(raw, static_cast<uint32_t>(v) >> (32 - bits), bits / 8);
      if (c.Pick(4) == 3) {  // part of one tick
        raw.resize(raw.size() + 1 + c.Pick(bits / 8 * channels - 1), 0x31);
        legal = false;
      }
      ok = w->WritePcmSamples(raw).ok();
    } else {
      std::vector<absl::Span<const double>> spans;
      for (auto& ch : chan) spans.push_back(absl::MakeConstSpan(ch));
      ok = w->PushFrame(absl::MakeConstSpan(spans)).ok();
      if (ok)
        for (const auto& o : w->GetOutputSamplesAsSpan()) c.Check(o.empty(), "writer-output", "a writer emits samples");
    }
    if (!legal) {
      c.Check(!ok, "illegal-accepted", Fmt("push kind %u accepted", kind));
    } else if (write_fault && !fault_before) {
      c.Check(!ok, "failure-hidden", "a failed write of samples is reported as success");
      all_ok = false;
    } else if (!write_fault) {
      c.Check(ok, "legal-refused", Fmt("push kind %u of %zu ticks refused", kind, n));
    }
    all_ok &= ok || !legal;
    if (ok && legal) want.insert(want.end(), inter.begin(), inter.end());
    c.Note("push", kind * 2 + ok, n);
    if (write_fault || c.Pick(14) == 13) aborted = c.Pick(2);
    c.State(kind | (ok << 4) | (write_fault << 5) | (uint64_t(n == 0) << 6) | (uint64_t(n == frame) << 7));
  }
  bool finished = false, finish_ok = false;
  const int ends = 1 + c.Pick(3);
  for (int i = 0; i < ends; ++i) {
    const bool abort_now = aborted || c.Pick(5) == 4;
    IoFaults f(io);
    if (abort_now) {
      aborted = true;
      remove_fault = false;
      w->Abort();
      c.Check(remove_fault || !std::filesystem::exists(path), "abort-leaves-file", "the file exists after an abort");
      c.Note("abort");
    } else if (!finished) {
      finished = true;
      finish_ok = w->Flush().ok();
      if (write_fault || close_fault)
        c.Check(!finish_ok || !all_ok || !(write_fault || close_fault), "failure-hidden", "an I/O failure is not reported by any write nor by the final flush");
      else
        c.Check(finish_ok, "flush-refused", "flush fails although nothing failed");
      c.Note("flush", finish_ok);
    } else {
      c.Check(!w->Flush().ok(), "second-flush", "a second flush is accepted");
      if (c.Pick(2)) {
        std::vector<double> one(1, 0.25);
        std::vector<absl::Span<const double>> spans(channels, absl::MakeConstSpan(one));
        c.Check(!w->PushFrame(absl::MakeConstSpan(spans)).ok(), "push-after-flush", "samples are accepted after the flush");
      }
    }
  }
  const bool by_destructor = !finished && !aborted;
  if (aborted) {
    std::vector<double> one(1, 0.25);
    std::vector<absl::Span<const double>> spans(channels, absl::MakeConstSpan(one));
    c.Check(!w->PushFrame(absl::MakeConstSpan(spans)).ok(), "push-after-abort", "samples are accepted after an abort");
  }
  {
    IoFaults f(io);
    w.reset();
  }
  c.nontrivial = !want.empty();
  if (aborted) {
    c.Check(remove_fault || !std::filesystem::exists(path), "abort-leaves-file", "the file exists after an abort");
    return;
  }
  if (write_fault || close_fault) return;
  c.Check(by_destructor || finish_ok, "flush-refused", "flush failed");
  Bytes bytes;
  c.Check(ReadWholeFile(path, &bytes), "file-missing", "the finished file does not exist");
  WavModel m;
  for (int32_t& v : want) v = static_cast<int32_t>((static_cast<uint32_t>(v) >> (32 - bits)) << (32 - bits));
  if (!header) {
    Bytes raw;
    for (int32_t v : want) PutLe(raw, static_cast<uint32_t>(v) >> (32 - bits), bits / 8);
    c.Check(raw == bytes, "raw-bytes", "headerless file differs from the samples written");
    return;
  }
  std::string why;
  c.Check(ParseWav(bytes, &m, &why), "file-malformed", why);
  c.Check(m.channels == channels && m.rate == rate && m.bits == bits && (m.format == 1 || m.format == 0xfffe), "file-header", "wrong format fields");
  c.Check(m.data_size == m.data.size() && m.data_size == want.size() * bits / 8, "file-size",
          Fmt("data size field %u, present %zu, written %zu", m.data_size, m.data.size(), want.size() * bits / 8));
  c.Check(m.riff_size + 8 == bytes.size(), "file-size", "RIFF size field disagrees with the file");
  c.Check(m.samples == want, "file-samples", "samples in the file differ from those written");
  c.SimTime(double(want.size()) / channels / rate);
  c.NoteBytes("file", bytes.data(), bytes.size());
  ReadBack(c, path, m, 1 + c.Pick(c.Pick(2) ? 100 : 5));
}

void ReaderRun(Ctx& c) {
  const std::string path = ScratchDir() + "/r.wav";
  const int channels = 1 + c.Pick(5);
  const int real = c.Pick(4) == 3 ? 1 + c.Pick(2) : 0;  // floating point samples
  const int bits = real ? 32 * real : c.OneOf<int>({16, 24, 32});
  uint64_t s = c.Bits();
  std::vector<int32_t> v(c.Pick(60) * channels);
  Bytes b;
  if (real) {
    Bytes data;
    for (auto& x : v) {
      double d;
      const uint64_t k = Sample(s) & 15;
      s = Ctx::Mix(s);
      if (k == 0) d = std::numeric_limits<double>::quiet_NaN();
      else if (k == 1) d = (s & 1 ? -1 : 1) * std::numeric_limits<double>::infinity();
      else if (k == 2) d = (s & 1 ? -1 : 1) * (1 + double(s >> 40) / 65536);
      else if (k == 3) d = s & 1 ? 1 : -1;
      else if (k == 4) d = (s & 1 ? -1 : 1) * 1e-30;
      else if (k == 5) d = std::nextafter(1.0f, 0.0f) * (s & 1 ? -1 : 1);
      else d = static_cast<int32_t>(s) / 2147483648.0;
      const float f = static_cast<float>(d);
      uint64_t raw = 0;
      if (real == 1) memcpy(&raw, &f, 4); else memcpy(&raw, &d, 8);
      PutLe(data, raw, bits / 8);
      // Full scale is 1, what lies beyond is clamped, what is no number is silent.
      const long double w = std::isnan(f) ? 0 : truncl(2147483648.0L * f);
      x = w >= 2147483647 ? INT32_MAX : w <= -2147483648.0L ? INT32_MIN : static_cast<int32_t>(w);
    }
    b = MakeWav(channels, 48000, bits, {});
    b[20] = 3;
    for (int at : {4, 40}) {
      Bytes size;
      PutLe(size, GetLe(&b[at], 4) + data.size(), 4);
      std::copy(size.begin(), size.end(), b.begin() + at);
    }
    b.insert(b.end(), data.begin(), data.end());
    c.Count("float_files");
  } else {
    for (auto& x : v) x = static_cast<int32_t>((static_cast<uint32_t>(Sample(s)) >> (32 - bits)) << (32 - bits));
    b = MakeWav(channels, 48000, bits, v);
  }
  const uint32_t damage = c.Pick(4);
  size_t first = b.size();
  if (damage == 1) {
    b.resize(first = c.Pick(b.size() + 1));
    c.Fault("file-truncated");
  } else if (damage == 2) {
    const int k = 1 + c.Pick(4);
    for (int i = 0; i < k; ++i) {
      const size_t at = c.Pick(3) ? c.Pick(44) : c.Pick(b.size());
      b[at] = c.Pick(3) ? c.Pick(256) : b[at] ^ (1 << c.Pick(8));
      first = std::min(first, at);
    }
    c.Fault("file-corrupted");
  }
  WriteWholeFile(path, b);
  bool hard = false;
  auto io = [&](IoOp op, size_t len) {
    IoDecision d;
    if (damage != 3 || c.Pick(20) != 19) return d;
    if (op == IoOp::kRead) { if (c.Pick(2)) d.err = 5; else d.allow = len ? c.Pick(len) : 0; hard = true; c.Fault("read-fails"); }
    if (op == IoOp::kOpen) { d.err = 13; hard = true; c.Fault("open-fails"); }
    return d;
  };
  const size_t block = c.Pick(12) == 11 ? 0 : 1 + c.Pick(30);
  IoFaults f(io);
  auto r = WavReader::CreateFromFile(path, block);
  c.Note("open", r.ok());
  c.nontrivial = true;
  if (block == 0) { c.Check(!r.ok(), "zero-block", "a block size of zero is accepted"); return; }
  if (damage == 0) c.Check(r.ok(), "reader-refuses", "a good file is refused");
  if (damage == 1 && first < 44) c.Check(!r.ok(), "truncated-header", "a file without a complete header is accepted");
  if (!r.ok()) return;
  WavReader reader(std::move(*r));
  if (damage != 2) {
    c.Check(reader.num_channels() == channels && reader.bit_depth() == bits && reader.sample_rate_hz() == 48000, "reader-header", "wrong header fields");
  }
  c.Check(reader.num_channels() >= 1, "reader-header", "no channels");
  const size_t nc = reader.num_channels();
  std::vector<int32_t> got;
  for (size_t calls = 0;; ++calls) {
    const size_t n = reader.ReadFrame();
    c.Check(n <= nc * block, "reader-count", Fmt("%zu samples in one block", n));
    if (n == 0) break;
    c.Check(calls <= b.size() + 2, "reader-endless", "the reader yields more blocks than the file has bytes");
    for (size_t t = 0; t < n / nc; ++t)
      for (size_t ch = 0; ch < nc; ++ch) got.push_back(reader.buffers_[ch][t]);
  }
  c.Check(got.size() <= b.size(), "reader-past-end", "more samples than the file can hold");
  if (damage != 2) {
    c.Check(got.size() <= v.size(), "reader-past-end", Fmt("%zu samples from a file of %zu", got.size(), v.size()));
    for (size_t i = 0; i < got.size(); ++i) c.Check(got[i] == v[i], "reader-samples", Fmt("sample %zu differs", i));
    if (damage == 1 && !hard) {
      const size_t whole = first < 44 ? 0 : (first - 44) / (nc * bits / 8) * nc;
      c.Check(got.size() == whole, "reader-samples", Fmt("%zu samples read of %zu complete ones", got.size(), whole));
    }
    if (damage == 0) c.Check(got == v, "reader-samples", "not all samples are read");
  }
  c.NoteBytes("got", got.data(), got.size() * 4);
  c.State(damage | (uint64_t(got.empty()) << 3) | (uint64_t(hard) << 4));
}

void Run(Ctx& c) {
  if (c.Pick(3) == 0) ReaderRun(c);
  else WriterRun(c);
}
DST_PROPERTY(W01)({"W01", "", Run, 200000, 4000000,
  "each run writes a drawn sequence of legal and illegal blocks to a WAV file (format, frame size and fault points drawn) and reads it back with another block size, or reads a good, truncated, corrupted or failing file; non-trivial: samples were written, a failure was met, or a file was read",
  {"iamf/cli/wav_writer.cc", "iamf/cli/wav_reader.cc", "iamf/cli/sample_processor_base.cc", "iamf/cli/sample_processing_utils.cc", "glibc stdio"},
  {"audio_to_tactile WAV header/sample functions", "disk: stdio calls intercepted"}});
}  // namespace
}  // namespace dst
