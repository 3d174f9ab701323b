// E03: the encoder program turns WAV files into a complete IAMF file, or says
// that it failed.
#include <filesystem>

#include "decode_common.h"
#include "enc_check.h"
#include "iamf/cli/encoder_main_lib.h"
#include "iamf/cli/iamf_components.h"
#include "iamf/cli/iamf_encoder.h"
#include "sim_tp.h"
#include "wav_model.h"

namespace dst {
namespace {
namespace g = dst::gen;
namespace api = ::iamf_tools::api;
namespace pb = ::iamf_tools_cli_proto;
using enc::ReadFile;
using g::Bytes;

struct Wav {
  std::string name;
  int channels = 0, bits = 16;
  bool floats = false;
  std::vector<int32_t> samples;  // interleaved
};

// A long block of one parameter that the program has to cut into frames.
struct Long {
  const g::ParamDef* def = nullptr;
  uint32_t csd = 0;
  std::vector<g::Sub> subs;
};

class Session : enc::Checked {
 public:
  using Checked::Checked;
  void Run();

 private:
  void Inputs();
  void Blocks();
  void Damage();
  bool Legal() const { return !fault_ && !damaged_; }
  absl::Status Encode();
  void File();
  void Cut(const std::vector<enc::ParsedObu>& obus, size_t from, uint32_t t);
  void Rendered();
  int BitsOf(size_t i) const { const auto& k = p_.s.CodecOf(p_.s.elements[i]); return k.Lossless() ? k.bits : 16; }

  std::string in_, out_, prefix_;
  std::vector<Wav> wavs_;
  std::vector<Long> longs_;
  bool damaged_ = false, fault_ = false, write_fault_ = false, read_fault_ = false;
  int format_ = 1;
};

Bytes FileOf(const Wav& w, int rate) {
  if (!w.floats) return MakeWav(w.channels, rate, w.bits, w.samples);
  Bytes b = MakeWav(w.channels, rate, 32, w.samples);
  b[20] = 3;  // IEEE float
  for (size_t i = 0; i < w.samples.size(); ++i) {
    const float f = w.samples[i] / 2147483648.0f;
    memcpy(&b[44 + 4 * i], &f, 4);
  }
  return b;
}

// Which channel of which file feeds which label.
void Session::Inputs() {
  const auto& s = p_.s;
  // One file for everything, or one for each element.
  const bool shared = s.elements.size() > 1 && s.codecs.size() == 1 && c_.Pick(4) == 3;
  for (size_t i = 0; i < s.elements.size(); ++i) {
    if (!shared || wavs_.empty()) {
      Wav w;
      w.name = Fmt("in%zu.wav", wavs_.size());
      const int need = BitsOf(i);
      w.bits = need <= 16 ? 16 : need <= 24 ? 24 : 32;
      wavs_.push_back(w);
    }
    Wav& w = wavs_.back();
    auto* f = p_.md.mutable_audio_frame_metadata(i);
    f->set_wav_filename(w.name);
    std::vector<int> order(p_.labels[i].inputs.size());
    for (size_t x = 0; x < order.size(); ++x) order[x] = x;
    if (c_.Pick(2)) for (size_t x = order.size(); x > 1; --x) std::swap(order[x - 1], order[c_.Pick(x)]);
    const int spare = c_.Pick(4) == 3 ? 1 + c_.Pick(2) : 0;
    const int first = w.channels, total = first + order.size() + spare;
    std::vector<int32_t> next(size_t{p_.n} * total, 0x11223344 & (w.bits == 32 ? -1 : w.bits == 24 ? ~0xff : ~0xffff));
    for (uint32_t t = 0; t < p_.n; ++t) for (int ch = 0; ch < first; ++ch) next[t * total + ch] = w.samples[t * first + ch];
    for (size_t x = 0; x < order.size(); ++x) {
      const auto& v = p_.inputs[i].at(p_.labels[i].inputs[x]);
      const int ch = first + order[x];
      f->mutable_channel_metadatas(x)->set_channel_id(ch);
      for (uint32_t t = 0; t < p_.n; ++t) next[t * total + ch] = static_cast<int32_t>(v[t] * 2147483648.0);
    }
    // The order in which the channels are listed carries no meaning.
    if (c_.Pick(2)) {
      auto* m = f->mutable_channel_metadatas();
      for (int x = m->size(); x > 1; --x) m->SwapElements(x - 1, c_.Pick(x));
    }
    w.samples = next;
    w.channels = total;
  }
  // Floating point input, where it loses nothing.
  for (size_t i = 0; i < s.elements.size(); ++i) {
    auto& k = s.CodecOf(s.elements[i]);
    for (auto& w : wavs_) {
      if (w.name != p_.md.audio_frame_metadata(i).wav_filename() || !(k.kind == g::kOpus || (k.Lossless() && k.bits == 32)) || w.floats) continue;
      bool same = true;
      for (int32_t v : w.samples) same &= std::fabs(double(static_cast<float>(v)) - v) <= (v == INT32_MAX);
      if (!same || c_.Pick(2)) continue;
      w.floats = true;
      w.bits = 32;
      c_.Count("float_inputs");
    }
  }
  for (auto& w : wavs_) c_.Log("%s: %d channels, %d bits", w.name.c_str(), w.channels, w.bits);
}

void Session::Blocks() {
  auto& s = p_.s;
  const uint32_t spf = s.codecs[0].spf;
  bool can = c_.Pick(2) && !s.blocks.empty();
  for (auto& b : s.blocks) can &= b.def->mode == 1 && b.duration == spf;
  std::set<const g::ParamDef*> longs;
  p_.md.mutable_test_vector_metadata()->set_partition_mix_gain_parameter_blocks(can);
  if (can) {
    c_.Count("partitioned");
    for (auto& b : s.blocks) if (b.def->type == 0 && c_.Pick(4)) longs.insert(b.def);
  }
  std::vector<const g::ParamDef*> order;
  for (auto& b : s.blocks) if (longs.count(b.def) && std::find(order.begin(), order.end(), b.def) == order.end()) order.push_back(b.def);
  const uint32_t total = spf * p_.frames;
  for (auto* d : order) {
    Long l;
    l.def = d;
    std::vector<uint32_t> lengths;
    if (c_.Pick(3) == 2) {
      l.csd = 1 + c_.Pick(total);
      while ((total + l.csd - 1) / l.csd > 40) l.csd *= 2;
      for (uint32_t at = 0; at < total; at += l.csd) lengths.push_back(std::min(l.csd, total - at));
    } else {
      std::set<uint32_t> cuts{total};
      for (int k = c_.Pick(8); k; --k) cuts.insert(c_.Pick(2) ? 1 + c_.Pick(total) : spf * (1 + c_.Pick(p_.frames)));
      uint32_t at = 0;
      for (uint32_t x : cuts) { lengths.push_back(x - at); at = x; }
    }
    uint32_t at = 0;
    for (uint32_t n : lengths) {
      g::Sub q;
      q.duration = n;
      q.anim = c_.Pick(2);
      // A Bezier curve cannot be cut.
      if (at / spf == (at + n - 1) / spf && c_.Pick(3) == 2) q.anim = 2;
      q.start = static_cast<int16_t>(g::DrawGain(c_));
      q.end = static_cast<int16_t>(g::DrawGain(c_));
      q.control = static_cast<int16_t>(g::DrawGain(c_));
      q.rel = c_.Pick(256);
      l.subs.push_back(q);
      at += n;
    }
    // The pieces.
    uint32_t frame = 0;
    for (auto& b : s.blocks) {
      if (b.def != d) continue;
      const uint32_t from = frame * spf, to = from + spf;
      ++frame;
      b.subs.clear();
      b.csd = 0;
      uint32_t t = 0;
      for (auto& q : l.subs) {
        const uint32_t x = std::max(t, from), y = std::min(t + q.duration, to);
        if (x < y) {
          g::Sub r = q;
          r.duration = y - x;
          b.subs.push_back(r);
        }
        t += q.duration;
      }
    }
    longs_.push_back(l);
  }
  for (auto& l : longs_) {
    g::Block b;
    b.def = l.def;
    b.duration = total;
    b.csd = l.csd;
    b.subs = l.subs;
    *p_.md.add_parameter_block_metadata() = enc::BlockMetadata(b, 0);
  }
  for (uint32_t t = 0; t < p_.frames; ++t)
    for (int x : p_.blocks[t]) {
      const auto& b = s.blocks[x];
      if (longs.count(b.def)) { p_.ext.erase({4, x}); continue; }
      auto m = enc::BlockMetadata(b, int64_t{t} * spf);
      if (auto it = p_.ext.find({4, x}); it != p_.ext.end()) enc::PutHeader({.ext = it->second}, m.mutable_obu_header());
      *p_.md.add_parameter_block_metadata() = m;
    }
  auto* all = p_.md.mutable_parameter_block_metadata();
  if (c_.Pick(2)) for (int x = all->size(); x > 1; --x) all->SwapElements(x - 1, c_.Pick(x));
}

// A constant duration may be spelled out. The values at the places where curves
// were cut may be rounded either way.
void Session::Cut(const std::vector<enc::ParsedObu>& obus, size_t from, uint32_t t) {
  const uint32_t spf = p_.s.codecs[0].spf;
  if (p_.md.test_vector_metadata().partition_mix_gain_parameter_blocks())
    for (int x : p_.blocks[t]) {
      auto& b = p_.s.blocks[x];
      if (b.csd != 0) continue;
      for (size_t i = from; i < obus.size() && i < from + p_.blocks[t].size() + 1 + p_.arbs.size(); ++i) {
        size_t at = 0;
        uint64_t id = 0, dur = 0, csd = 0;
        const Bytes& w = obus[i].payload;
        if (obus[i].type != g::kParam || !enc::ReadUleb(w, at, id) || id != b.def->id || !enc::ReadUleb(w, at, dur) || !enc::ReadUleb(w, at, csd)) continue;
        bool constant = csd != 0;
        for (size_t k = 0; constant && k < b.subs.size(); ++k)
          constant &= k + 1 < b.subs.size() ? b.subs[k].duration == csd : b.subs[k].duration <= csd;
        if (constant) b.csd = csd;
        break;
      }
    }
  for (auto& l : longs_) {
    g::Block* b = nullptr;
    for (int x : p_.blocks[t]) if (p_.s.blocks[x].def == l.def) b = &p_.s.blocks[x];
    for (size_t i = from; i < obus.size() && i < from + p_.blocks[t].size() + 1 + p_.arbs.size(); ++i) {
      if (obus[i].type != g::kParam) continue;
      const Bytes& w = obus[i].payload;
      size_t at = 0;
      uint64_t id = 0, dur = 0, csd = 0, n = 0, v = 0;
      if (!enc::ReadUleb(w, at, id) || id != l.def->id) continue;
      if (!enc::ReadUleb(w, at, dur) || !enc::ReadUleb(w, at, csd)) return;
      if (csd == 0 && !enc::ReadUleb(w, at, n)) return;
      uint32_t start = t * spf;
      for (auto& q : b->subs) {
        if (csd == 0 && !enc::ReadUleb(w, at, v)) return;
        if (!enc::ReadUleb(w, at, v) || static_cast<int>(v) != q.anim) return;
        if (at + 2 + 2 * (q.anim > 0) > w.size()) return;
        auto value = [&] { const int16_t x = static_cast<int16_t>(w[at] << 8 | w[at + 1]); at += 2; return x; };
        if (q.anim == 1) {
          uint32_t s0 = 0;
          const g::Sub* whole = nullptr;
          for (auto& r : l.subs) { if (start < s0 + r.duration) { whole = &r; break; } s0 += r.duration; }
          auto ideal = [&](uint32_t x) { return whole->start + (double(whole->end) - whole->start) * (x - s0) / whole->duration; };
          const double a = ideal(start), z = ideal(start + q.duration);
          q.start = std::lround(a);
          q.end = std::lround(z);
          const int16_t x = value(), y = value();
          c_.Log("cut at %u+%u of %u+%u: %d..%d, ideal %f..%f, written %d..%d", start, q.duration, s0, whole->duration, whole->start, whole->end, a, z, x, y);
          if (std::fabs(x - a) <= 1.01 && (start != s0 || x == q.start)) q.start = x;
          if (std::fabs(y - z) <= 1.01 && (start + q.duration != s0 + whole->duration || y == q.end)) q.end = y;
        } else {
          at += 2 + (q.anim == 2 ? 5 : 0);
        }
        start += q.duration;
      }
      break;
    }
  }
}

void Session::Damage() {
  switch (c_.Pick(9)) {
    case 0: std::filesystem::remove(in_ + "/" + wavs_[c_.Pick(wavs_.size())].name); c_.Fault("input_file_missing"); break;
    case 1: {
      auto& w = wavs_[c_.Pick(wavs_.size())];
      WriteWholeFile(in_ + "/" + w.name, FileOf(w, p_.s.codecs[0].rate == 48000 ? 44100 : 48000));
      c_.Fault("input_with_another_rate");
      break;
    }
    case 2: {
      const size_t i = c_.Pick(p_.s.elements.size());
      auto* f = p_.md.mutable_audio_frame_metadata(i);
      uint32_t channels = 64;
      for (auto& w : wavs_) if (w.name == f->wav_filename()) channels = w.channels;
      f->mutable_channel_metadatas(c_.Pick(f->channel_metadatas_size()))->set_channel_id(c_.Pick(2) ? channels + c_.Pick(2) : 64 + c_.Pick(3) * 1000000000u);
      c_.Fault("channel_not_in_the_file");
      break;
    }
    case 3: {
      auto& w = wavs_[c_.Pick(wavs_.size())];
      if (w.bits == 32) { damaged_ = false; return; }
      Wav v = w;
      v.bits = 32;
      bool wide = false;
      for (size_t i = 0; i < p_.s.elements.size(); ++i) wide |= p_.md.audio_frame_metadata(i).wav_filename() == w.name && p_.s.CodecOf(p_.s.elements[i]).Lossless();
      if (!wide) { damaged_ = false; return; }
      WriteWholeFile(in_ + "/" + w.name, FileOf(v, p_.s.codecs[0].rate));
      c_.Fault("input_with_more_bits");
      break;
    }
    case 4: {
      auto& w = wavs_[c_.Pick(wavs_.size())];
      Bytes b = FileOf(w, p_.s.codecs[0].rate);
      b.resize(c_.Pick(44));
      WriteWholeFile(in_ + "/" + w.name, b);
      c_.Fault("input_header_cut");
      break;
    }
    case 5:
      if (p_.s.elements.size() < 2) { damaged_ = false; return; }
      p_.md.mutable_audio_frame_metadata()->RemoveLast(); c_.Fault("element_without_input"); break;
    case 6: *p_.md.add_audio_frame_metadata() = p_.md.audio_frame_metadata(0); c_.Fault("element_with_two_inputs"); break;
    case 7: {
      // The inputs of two elements do not end together.
      if (wavs_.size() < 2) { damaged_ = false; return; }
      Wav v = wavs_[c_.Pick(wavs_.size())];
      if (c_.Pick(2) && p_.n > 1) v.samples.resize(size_t{1 + c_.Pick(p_.n - 1)} * v.channels);
      else v.samples.resize(v.samples.size() + v.channels * (1 + c_.Pick(2 * p_.s.codecs[0].spf)));
      c_.Log("%s has %zu ticks, not %u", v.name.c_str(), v.samples.size() / v.channels, p_.n);
      WriteWholeFile(in_ + "/" + v.name, FileOf(v, p_.s.codecs[0].rate));
      c_.Fault("inputs_of_different_length");
      break;
    }
    default: {
      // The output directory cannot be made.
      std::filesystem::create_directories(out_);
      std::filesystem::remove(out_);
      WriteWholeFile(out_, {1, 2, 3});
      c_.Fault("output_directory_is_a_file");
      break;
    }
  }
}

absl::Status Session::Encode() {
  uint32_t left = c_.Pick(60);
  const int how = fault_ ? c_.Pick(4) : 4;
  bool done = false;
  IoFaults io([&](IoOp op, size_t len) {
    IoDecision d;
    if (done && how != 1) return d;
    if (how == 0 && op == IoOp::kWrite && left-- == 0) { d.err = ENOSPC; done = true; write_fault_ = true; c_.Fault("disk_full_once"); }
    if (how == 1 && op == IoOp::kWrite && (done || left-- == 0)) { if (!done) c_.Fault("disk_full"); d.err = ENOSPC; done = true; write_fault_ = true; }
    if (how == 2 && op == IoOp::kOpen && left-- % 16 == 0) { d.err = EMFILE; done = true; write_fault_ = true; c_.Fault("open_fails"); }
    if (how == 3 && op == IoOp::kRead && left-- == 0) { d.err = EIO; done = true; read_fault_ = true; c_.Fault("read_error"); }
    return d;
  });
  auto s = iamf_tools::TestMain(p_.md, in_, out_);
  c_.Note("encode", s.ok());
  c_.Log("%s", std::string(s.message()).c_str());
  return s;
}

void Session::File() {
  const std::string path = out_ + "/" + prefix_ + ".iamf";
  c_.Check(std::filesystem::exists(path), "output-complete", "success, but there is no IAMF file");
  const Bytes b = ReadFile(path);
  const auto obus = enc::ParseObus(b);
  c_.Check(obus.has_value(), "output-complete", "the file is not a sequence of OBUs");
  // Descriptors.
  const Bytes plain = enc::WriteDescriptors(p_, p_.s);
  const size_t n = enc::ParseObus(plain)->size();
  c_.Check(obus->size() >= n, "output-complete", Fmt("%zu OBUs in the file, %zu descriptors expected", obus->size(), n));
  for (size_t i = 0; i < n; ++i) g::Stream::Add(final_, (*obus)[i].whole);
  const Bytes want = enc::Canonical(plain), got = enc::Canonical(final_);
  const auto mask = enc::LoudnessMask(p_);
  c_.Check(want.size() == got.size(), "descriptors", Fmt("%zu bytes expected, %zu written", want.size(), got.size()));
  for (size_t i = 0; i < got.size(); ++i) if (!mask[i] && got[i] != want[i]) c_.Fail("descriptors", Fmt("byte %zu is not loudness but differs (expected %02x, got %02x)", i, want[i], got[i]));
  // Units.
  size_t at = n, frames = 0;
  for (auto& e : p_.s.elements) frames += e.substreams.size();
  for (uint32_t t = 0; t < p_.frames; ++t) {
    size_t k = p_.s.delimiters + p_.blocks[t].size() + frames;
    for (auto& a : p_.arbs) k += a.hook >= 7 && a.tick == int64_t{t} * p_.s.codecs[0].spf;
    c_.Check(at + k <= obus->size(), "output-complete", Fmt("the file ends within unit %u of %u", t, p_.frames));
    Cut(*obus, at, t);
    Bytes u;
    for (size_t i = at; i < at + k; ++i) g::Stream::Add(u, (*obus)[i].whole);
    Unit(u);
    at += k;
  }
  c_.Check(at == obus->size(), "output-complete", Fmt("%zu more OBUs after the last unit", obus->size() - at));
}

void Session::Rendered() {
  auto& s = p_.s;
  const auto& codec = s.codecs[0];
  const uint32_t spf = codec.spf;
  std::set<std::string> want;
  const uint32_t ticks = p_.frames * spf - p_.trim_start - p_.trim_end;
  for (auto& q : s.pieces) {
    if (q.what != g::Piece::kAudio) continue;
    g::Frame& f = s.frames[q.index];
    for (size_t ch = 0; ch < f.pcm.size(); ++ch)
      for (uint32_t n = 0; n < spf; ++n) {
        const int64_t at = int64_t{spf} * q.tu + n - enc::DelayOf(*f.codec);
        f.pcm[ch][n] = at < 0 ? 0 : pcm_[at / spf].at(f.substream)[ch][at % spf];
      }
  }
  const auto exact = dec::ExactMixes(s);
  for (size_t mi = 0; mi < s.mixes.size(); ++mi)
    for (size_t b = 0; b < s.mixes[mi].subs.size(); ++b)
      for (size_t l = 0; l < s.mixes[mi].subs[b].layouts.size(); ++l) {
        const auto& layout = s.mixes[mi].subs[b].layouts[l];
        const std::string name = prefix_ + Fmt("_rendered_id_%u_sub_mix_%zu_layout_%zu.wav", s.mixes[mi].id, b, l);
        if (format_ == 1) continue;
        want.insert(name);
        const Bytes raw = ReadFile(out_ + "/" + name);
        if (layout.type == 3 && raw.empty() && !std::filesystem::exists(out_ + "/" + name)) continue;  // binaural may not be supported
        WavModel w;
        std::string why;
        c_.Check(ParseWav(raw, &w, &why), "rendered-wav", name + ": " + why);
        c_.Check(w.rate == static_cast<int>(codec.rate) && w.data.size() == w.data_size, "rendered-wav", Fmt("%s: rate %d, %zu of %u bytes", name.c_str(), w.rate, w.data.size(), w.data_size));
        bool plain = layout.type == 2;  // what can certainly be rendered
        for (auto& q : s.mixes[mi].subs[b].elements)
          for (auto& e : s.elements) if (e.id == q.id) plain &= e.type == 0 && e.layers[0].layout < 9;
        if (!plain && w.samples.empty()) continue;
        if (format_ >= 3) c_.Check(w.bits == 16 + 8 * (format_ - 3), "rendered-wav", Fmt("%s: %d bits", name.c_str(), w.bits));
        if (layout.type == 2 && layout.ss < 14) c_.Check(w.channels == static_cast<int>(dec::LayoutChannels(layout.ss).size()), "rendered-wav", Fmt("%s: %d channels", name.c_str(), w.channels));
        c_.Check(w.samples.size() == size_t{ticks} * w.channels, "rendered-wav", Fmt("%s: %zu samples in %d channels, %u ticks expected", name.c_str(), w.samples.size(), w.channels, ticks));
        c_.Count("rendered_files");
        if (layout.type != 2 || s.mixes[mi].subs.size() != 1) continue;
        bool unity = true;
        for (auto& k : s.blocks) if (k.def->type == 0) for (auto& q : k.subs) unity &= q.start == 0 && (q.anim < 1 || q.end == 0) && (q.anim < 2 || q.control == 0);
        for (auto& q : s.elements) for (auto& y : q.layers) unity &= !y.og || y.og_gain == 0;
        for (auto& k : s.mixes[mi].subs) { unity &= k.out_gain.gain == 0; for (auto& q : k.elements) unity &= q.gain.gain == 0; }
        int bits = 0;
        for (auto& k : s.codecs) bits = std::max(bits, k.Lossless() ? k.bits : 16);
        for (auto& [m, e] : exact) {
          if (!unity || m != static_cast<int>(mi) || e.ss != layout.ss || w.bits < bits) continue;
          // Rendered from the samples before they were coded.
          bool same = true;
          for (auto& y : e.channels) for (auto& [sub, x] : y) same &= p_.exact.at(sub);
          if (!same) continue;
          dec::Settings set;
          Bytes all;
          for (auto& u : dec::ExpectedUnits(s, e, set)) g::Stream::Add(all, u);
          for (size_t i = 0; i < w.samples.size(); ++i) {
            const int32_t v = static_cast<int32_t>(GetLe(&all[4 * i], 4) & (~0ull << (32 - w.bits)));
            if (w.samples[i] != v) c_.Fail("rendered-samples", Fmt("%s: sample %zu of channel %zu is %d instead of %d", name.c_str(), i / w.channels, i % w.channels, w.samples[i], v));
          }
          c_.Count("rendered_and_compared");
        }
      }
  want.insert(prefix_ + ".iamf");
  for (auto& f : std::filesystem::directory_iterator(out_))
    c_.Check(want.count(f.path().filename().string()), "only-the-requested-files", "unexpected file " + f.path().filename().string());
}

void Session::Run() {
  g::FixedLeb leb(p_.leb);
  in_ = ScratchDir() + "/in";
  out_ = ScratchDir() + (c_.Pick(2) ? "/out" : "/a/b");
  prefix_ = c_.Pick(2) ? "x" : "name with spaces";
  std::filesystem::create_directory(in_);
  if (c_.Pick(2)) std::filesystem::create_directories(out_);
  Inputs();
  for (auto& w : wavs_) WriteWholeFile(in_ + "/" + w.name, FileOf(w, p_.s.codecs[0].rate));
  Blocks();
  p_.md.mutable_test_vector_metadata()->set_file_name_prefix(prefix_);
  format_ = 1 + c_.Weighted({2, 2, 1, 1, 1});
  p_.md.mutable_encoder_control_metadata()->set_output_rendered_file_format(static_cast<pb::OutputAudioFormat>(format_));
  const int mode = c_.Weighted({6, 2, 2});
  if (mode == 1 && !std::filesystem::exists(out_)) { damaged_ = true; Damage(); }
  else if (mode == 1) { damaged_ = true; Damage(); }
  fault_ = mode == 2;
  const auto s = Encode();
  const std::string path = out_ + "/" + prefix_ + ".iamf";
  if (damaged_) {
    c_.Check(!s.ok(), "wrong-input-refused", "the program reports success");
    c_.nontrivial = true;
    return;
  }
  if (write_fault_) {
    c_.Check(!s.ok(), "failure-reported", "an output file could not be written, but the program reports success");
    c_.nontrivial = true;
    return;
  }
  if (read_fault_) { c_.Check(!s.ok(), "failure-reported", "an input file could not be read, but the program reports success"); c_.nontrivial = true; return; }
  c_.Check(s.ok(), "legal-input-accepted", std::string(s.message()));
  File();
  Rendered();
  c_.nontrivial = true;
  c_.Count("units", units_.size());
  c_.State(Ctx::Mix(dec::ShapeOf(p_.s) ^ (format_ * 8 + !longs_.empty() * 4 + wavs_.size())));
  c_.SimTime(double(p_.s.codecs[0].spf) * p_.frames / p_.s.codecs[0].rate);
}

void Run(Ctx& c) {
  enc::Plan p;
  const int kind = c.Pick(3);
  enc::DrawPlan(c, {.unity = kind != 2, .lossless = kind == 1}, p);
  for (auto& k : p.s.codecs) if (k.Lossless() && k.bits % 8) return;
  c.Log("%s n=%u frames=%u trims %u %u", dec::Describe(p.s).c_str(), p.n, p.frames, p.trim_start, p.trim_end);
  simtp::flac_hold_frames = c.Pick(3) == 2 ? 1 + c.Pick(3) : 0;
  if (simtp::flac_hold_frames && p.s.codecs[0].kind == g::kFlac) c.Fault("codec_holds_frames");
  const long live = simtp::live_handles;
  {
    dec::SaltScope salt(c.Bits());
    Session(c, p).Run();
  }
  simtp::flac_hold_frames = 0;
  c.Check(simtp::live_handles == live, "codec-leak", Fmt("%ld codec instances are not released", simtp::live_handles - live));
}

DST_PROPERTY(E03)({"E03", "", Run, 12000, 500000, "WAV files were encoded or a failure was met",
                   {"iamf/cli/encoder_main_lib.cc", "iamf/cli/wav_sample_provider.cc", "iamf/cli/wav_reader.cc", "iamf/cli/wav_writer.cc", "iamf/cli/parameter_block_partitioner.cc", "iamf/cli/proto_conversion", "iamf/cli/iamf_encoder.cc", "iamf/cli/iamf_components.cc", "iamf/cli/obu_sequencer_base.cc", "iamf/cli/obu_sequencer_iamf.cc", "iamf/cli/rendering_mix_presentation_finalizer.cc", "iamf/cli/renderer", "iamf/obu", "iamf/common"},
                   {"libopus, fdk-aac, libFLAC (simulated codecs)", "audio_to_tactile WAV library (simulated)", "loudness measurement library (simulated)", "file system calls (fault injection)", "Abseil hash order (salted per run)"}});
}  // namespace
}  // namespace dst
