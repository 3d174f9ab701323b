// D09: the decoder program turns an IAMF file into a complete WAV file or fails.
// link: iamf/cli/decoder_main.cc
#include <cerrno>
#include <filesystem>

#include "absl/log/absl_log.h"
#include "decode_common.h"
#include "wav_model.h"

int verif_decoder_main(int argc, char** argv);

namespace dst {
namespace {
namespace g = dst::gen;

struct Aborted {};
void ThrowAborted(const char*, int, const char*) { throw Aborted(); }

const char* const kLayouts[] = {"2.0", "5.1", "5.1.2", "5.1.4", "5+4+1", "3+7+0", "9.1.4", "22.0", "7.1", "7.1.4", "7.1.2", "3.1.2", "1.0", "9.1.6", "Binaural"};

// Runs the program. An abort with a message is a reported failure.
bool Program(const std::vector<std::string>& args) {
  std::vector<std::string> own{"decoder"};
  own.insert(own.end(), args.begin(), args.end());
  std::vector<char*> argv;
  for (auto& a : own) argv.push_back(a.data());
  auto* const old = verif_log::fatal_hook;
  verif_log::fatal_hook = ThrowAborted;
  bool ok = false;
  try {
    ok = verif_decoder_main(static_cast<int>(argv.size()), argv.data()) == 0;
  } catch (const Aborted&) {
  } catch (...) {
    // Flags that cannot be parsed end the real program with a message.
  }
  verif_log::fatal_hook = old;
  return ok;
}

// The calls a caller of the library makes for a file that arrives in blocks.
dec::Outcome Twin(Ctx& c, const dec::Settings& set, const Bytes& file, size_t block, uint64_t salt) {
  dec::Player p(c, set, nullptr, salt);
  for (size_t at = 0;; at += block) {
    const size_t n = at < file.size() ? std::min(block, file.size() - at) : 0;
    if (!p.Feed(file.data() + (n ? at : 0), n)) break;
    const bool last = n < block;
    if (last && !p.End()) break;
    if (p.d_->IsDescriptorProcessingComplete()) p.Drain();
    if (p.out.error || last) break;
  }
  return p.Finish();
}

void Run(Ctx& c) {
  const std::string in = ScratchDir() + "/in.iamf", out = ScratchDir() + "/out.wav";
  g::Stream s;
  const bool lossless = c.Pick(3) != 2;
  g::Generator(c, {.decodable = true, .lossless = lossless, .unity = lossless, .plain_first = c.Pick(3) != 2, .junk = c.Pick(3) != 0, .max_tus = 5}).Run(s);
  dec::Settings set;
  std::vector<std::string> args;
  set.requested_mix.output_layout = static_cast<dec::api::OutputLayout>(0);
  const auto exact = lossless ? dec::ExactMixes(s) : std::vector<std::pair<size_t, dec::Exact>>{};
  const dec::Exact* x = nullptr;
  if (!exact.empty() && c.Pick(3)) {
    const auto& e = c.OneOf(exact);
    x = &e.second;
    set.requested_mix.mix_presentation_id = s.mixes[e.first].id;
    set.requested_mix.output_layout = static_cast<dec::api::OutputLayout>(x->ss);
    args.push_back(Fmt("--mix_id=%u", s.mixes[e.first].id));
    if (x->ss != 0 || c.Pick(2)) args.push_back(Fmt("--output_layout=%s", kLayouts[x->ss]));
  } else {
    if (c.Pick(2)) {
      const uint32_t id = c.Pick(3) ? c.OneOf(s.mixes).id : c.Pick(1000);
      set.requested_mix.mix_presentation_id = id;
      args.push_back(Fmt("--mix_id=%u", id));
    }
    if (c.Pick(2)) {
      const int l = c.Pick(15);
      set.requested_mix.output_layout = static_cast<dec::api::OutputLayout>(l);
      args.push_back(Fmt("--output_layout=%s", kLayouts[l]));
    }
  }
  if (c.Pick(2)) {
    const bool s16 = c.Pick(2);
    if (s16) set.requested_output_sample_type = dec::api::OutputSampleType::kInt16LittleEndian;
    args.push_back(s16 ? "--output_sample_type=sle16" : "--output_sample_type=sle32");
  }
  Bytes file = s.All();
  bool damaged = false;
  switch (c.Weighted({12, 2, 2, 1})) {
    case 1: file.resize(c.Pick(file.size() + 1)); damaged = true; c.Fault("file_cut"); break;
    case 2:
      for (uint32_t n = 1 + c.Pick(3); n; --n) file[c.Pick(file.size())] ^= 1 << c.Pick(8);
      damaged = true;
      c.Fault("file_corrupted");
      break;
    case 3: {
      const uint32_t size = c.Pick(40);
      uint64_t v = c.Bits();
      file.clear();
      for (uint32_t i = 0; i < size; ++i) { file.push_back(v); v = Ctx::Mix(v); }
      damaged = true;
      c.Fault("file_is_something_else");
      break;
    }
    default: break;
  }
  int64_t block = 1024;
  switch (c.Pick(5)) {
    case 1: block = 1 + c.Pick(64); break;
    case 2: {  // ends with a block
      std::vector<int64_t> d;
      for (int64_t k = 1; k <= 64; ++k) if (!file.empty() && file.size() % k == 0) d.push_back(file.size() / k);
      if (!d.empty()) block = c.OneOf(d);
      break;
    }
    case 3: block = int64_t{1} << (4 + c.Pick(16)); break;
    case 4: if (c.Pick(6) == 5) { block = -static_cast<int64_t>(c.Pick(3)); c.Fault("impossible_block_size"); } break;
    default: break;
  }
  if (block > 0 && file.size() / block > 4000) block = file.size() / 4000 + 1;
  if (block != 1024 || c.Pick(2)) args.push_back(Fmt("--block_size=%ld", static_cast<long>(block)));
  const uint64_t salt = c.Bits();
  dec::Outcome want;
  if (block > 0) want = Twin(c, set, file, block, salt);

  // What the disk does.
  bool wrong = false;  // must be refused
  std::string in_name = in, out_name = out;
  switch (c.Weighted({20, 1, 1, 1, 1, 1})) {
    case 1: in_name = ScratchDir() + "/missing.iamf"; wrong = true; c.Fault("input_missing"); break;
    case 2: out_name = ScratchDir() + "/none/out.wav"; wrong = want.report.complete || want.error || !block; c.Fault("output_directory_missing"); break;
    case 3: in_name.clear(); wrong = true; break;
    case 4: out_name.clear(); wrong = true; break;
    case 5: in_name = ScratchDir(); wrong = true; c.Fault("input_is_a_directory"); break;
    default: break;
  }
  WriteWholeFile(in, file);
  if (c.Pick(4) == 3) { WriteWholeFile(out, Bytes(1 + c.Pick(3000), 0x77)); c.Fault("older_output"); }
  if (!in_name.empty() || c.Pick(2)) args.push_back("--input_filename=" + in_name);
  if (!out_name.empty() || c.Pick(2)) args.push_back("--output_filename=" + out_name);
  for (size_t i = args.size(); i > 1; --i) std::swap(args[i - 1], args[c.Pick(i)]);
  const int how = c.Pick(3) == 2 ? 1 + c.Pick(6) : 0;
  int left = how ? c.Pick(c.Pick(2) ? 30 : 4) : 0;
  bool hit = false;
  c.Log("%s block=%ld file=%zu units=%zu error=%d at %s fault %d/%d", dec::Str(set).c_str(), static_cast<long>(block), file.size(), want.units.size(), want.error, want.at.c_str(), how, left);
  bool ok;
  {
    IoFaults io([&](IoOp op, size_t len) {
      IoDecision d;
      if (how == 1 && op == IoOp::kRead && !hit && left-- == 0) { d.err = EIO; hit = true; c.Fault("read_error"); }
      if (how == 2 && op == IoOp::kWrite && (hit || left-- == 0)) { if (!hit) c.Fault("disk_full"); d.err = ENOSPC; hit = true; }
      if (how == 3 && op == IoOp::kWrite && !hit && left-- == 0) { d.err = ENOSPC; hit = true; c.Fault("disk_full_once"); }
      if (how == 4 && op == IoOp::kClose && !hit && left-- % 2 == 0) { d.err = EIO; hit = true; c.Fault("delayed_write_error_at_close"); }
      if (how == 5 && op == IoOp::kSeek && !hit && left-- % 4 == 0) { d.err = EIO; hit = true; c.Fault("seek_fails"); }
      if (how == 6 && op == IoOp::kClose) { if (!hit) c.Fault("every_close_fails"); d.err = EIO; hit = true; }
      return d;
    });
    dec::SaltScope sc(salt);
    ok = Program(args);
  }
  c.Note("program", ok);
  c.nontrivial = true;
  c.State(Ctx::Mix(dec::ShapeOf(s) ^ (how * 64 + hit * 32 + ok * 16 + damaged * 8 + want.error * 4 + wrong)));
  if (block <= 0 || wrong) { c.Check(!ok, "wrong-call-refused", "the program reports success"); return; }
  if (hit && how <= 3) { c.Check(!ok, "failure-reported", "a failed read or write is reported as success"); return; }
  if (how == 6) { c.Check(!ok, "failure-reported", "a WAV file that could not be closed is reported as success"); return; }
  // One failing close may be the one of the input.
  if (hit && !ok) return;
  if (want.error) { c.Check(!ok, "failure-reported", "the library fails at " + want.at + ", the program reports success"); return; }
  if (!want.report.complete) { c.Check(!ok, "failure-reported", "there is no audio in the file, the program reports success"); return; }
  // A damaged file may not say what a header would need.
  const auto& r = want.report;
  if (damaged && !ok && !(r.channels_ok && r.rate_ok && r.frame_ok && r.mix_ok)) return;
  c.Check(ok, "file-decodes", "the library decodes the file, the program fails");
  Bytes b;
  c.Check(ReadWholeFile(out, &b), "output-complete", "success, but there is no WAV file");
  WavModel m;
  std::string why;
  c.Check(ParseWav(b, &m, &why), "output-complete", why);
  Bytes pcm;
  const auto units = x && !damaged ? dec::ExpectedUnits(s, *x, set) : want.units;
  for (auto& u : units) pcm.insert(pcm.end(), u.begin(), u.end());
  const int bits = set.requested_output_sample_type == dec::api::OutputSampleType::kInt16LittleEndian ? 16 : 32;
  c.Check(m.channels == want.report.channels && m.bits == bits && m.rate == static_cast<int>(want.report.rate), "output-format", Fmt("%d channels %d bits %d Hz, expected %d %d %u", m.channels, m.bits, m.rate, want.report.channels, bits, want.report.rate));
  c.Check(m.data_size == m.data.size(), "output-complete", Fmt("the header says %u bytes, there are %zu", m.data_size, m.data.size()));
  size_t k = 0;
  while (k < pcm.size() && k < m.data.size() && pcm[k] == m.data[k]) ++k;
  c.Check(m.data == pcm, "output-samples", Fmt("%zu bytes expected, %zu written, first difference at %zu", pcm.size(), m.data.size(), k));
  c.Count("files");
  if (x && !damaged) c.Count("exact_files");
  c.SimTime(double(pcm.size()) / (m.channels * bits / 8) / m.rate);
}

DST_PROPERTY(D09)({"D09", "", Run, 24000, 800000, "the program ended with a WAV file or with a failure",
                   {"iamf/cli/decoder_main.cc", "iamf/api/internal_utils", "iamf/cli/wav_writer.cc", "iamf/api/decoder", "iamf/cli/obu_processor.cc", "iamf/cli/descriptor_obu_parser.cc", "iamf/cli/audio_frame_decoder.cc", "iamf/cli/codec", "iamf/cli/rendering_mix_presentation_finalizer.cc", "iamf/cli/renderer", "iamf/obu", "iamf/common", "libstdc++ streams"},
                   {"Abseil flags (private per run)", "codec libraries (simulated)", "audio_to_tactile WAV writer (simulated)", "file system calls (fault injection)", "Abseil hash order (salted per run)"}});
}  // namespace
}  // namespace dst
