// Plays a generated stream through the decoder API under a drawn schedule and
// records everything the caller can observe.
#ifndef VERIF_HARNESS_DECODE_COMMON_H_
#define VERIF_HARNESS_DECODE_COMMON_H_
#include <algorithm>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "core.h"
#include "iamf/api/decoder/iamf_decoder.h"
#include "iamf/include/iamf_tools/iamf_decoder_factory.h"
#include "iamf/include/iamf_tools/iamf_decoder_interface.h"
#include "iamf/include/iamf_tools/iamf_tools_api_types.h"
#include "iamf_gen.h"

namespace dst::dec {
namespace api = ::iamf_tools::api;
using gen::Bytes;
using Settings = api::IamfDecoderFactory::Settings;
using Decoder = std::unique_ptr<api::IamfDecoderInterface>;

inline const std::vector<std::string>& LayoutChannels(int ss) {
  static const auto* t = new std::vector<std::vector<std::string>>{
      {"L", "R"},
      {"L", "R", "C", "LFE", "Ls", "Rs"},
      {"L", "R", "C", "LFE", "Ls", "Rs", "Ltf", "Rtf"},
      {"L", "R", "C", "LFE", "Ls", "Rs", "Ltf", "Rtf", "Ltb", "Rtb"},
      {"L", "R", "C", "LFE", "Ls", "Rs", "Ltf", "Rtf", "Ltb", "Rtb", "BtFC"},
      {"C", "L", "R", "LH", "RH", "Ls", "Rs", "LB", "RB", "CH", "LFE", "LFE2"},
      {"L", "R", "C", "LFE", "Lss", "Rss", "Lrs", "Rrs", "Ltf", "Rtf", "Ltb", "Rtb", "Lsc", "Rsc"},
      {"FL", "FR", "FC", "LFE", "BL", "BR", "FLc", "FRc", "BC", "LFE2", "SiL", "SiR", "TpFL", "TpFR", "TpFC", "TpC", "TpBL", "TpBR", "TpSiL", "TpSiR", "TpBC", "BtFC", "BtFL", "BtFR"},
      {"L", "R", "C", "LFE", "Lss", "Rss", "Lrs", "Rrs"},
      {"L", "R", "C", "LFE", "Lss", "Rss", "Lrs", "Rrs", "Ltf", "Rtf", "Ltb", "Rtb"},
      {"L", "R", "C", "LFE", "Lss", "Rss", "Lrs", "Rrs", "Ltf", "Rtf"},
      {"L", "R", "C", "LFE", "Ltf", "Rtf"},
      {"M"},
      {"FL", "FR", "FC", "LFE", "BL", "BR", "FLc", "FRc", "SiL", "SiR", "TpFL", "TpFR", "TpBL", "TpBR", "TpSiL", "TpSiR"},
      {"L", "R"}};
  return (*t)[ss];
}
// Position of a channel in Android's AudioFormat channel mask.
inline int AndroidBit(int ss, const std::string& l) {
  static const auto* m = new std::map<std::string, int>{
      {"L", 0}, {"FL", 0}, {"M", 0}, {"R", 1}, {"FR", 1}, {"C", 2}, {"FC", 2}, {"LFE", 3},
      {"Ls", 4}, {"Rs", 5}, {"Lrs", 4}, {"Rrs", 5}, {"BL", 4}, {"BR", 5}, {"LB", 4}, {"RB", 5},
      {"FLc", 6}, {"FRc", 7}, {"Lsc", 6}, {"Rsc", 7}, {"BC", 8}, {"Lss", 9}, {"Rss", 10}, {"SiL", 9}, {"SiR", 10},
      {"TpC", 11}, {"CH", 11}, {"Ltf", 12}, {"TpFL", 12}, {"LH", 12}, {"TpFC", 13}, {"Rtf", 14}, {"TpFR", 14}, {"RH", 14},
      {"Ltb", 15}, {"TpBL", 15}, {"TpBC", 16}, {"Rtb", 17}, {"TpBR", 17}, {"TpSiL", 18}, {"TpSiR", 19},
      {"BtFL", 20}, {"BtFC", 21}, {"BtFR", 22}, {"LFE2", 23}};
  if (ss == 5 && l == "Ls") return 9;   // beside the back pair
  if (ss == 5 && l == "Rs") return 10;
  return m->at(l);
}
// permutation[i]: index in IAMF order of output channel i.
inline std::vector<int> OutputOrder(int ss, bool android) {
  const auto& c = LayoutChannels(ss);
  std::vector<int> p(c.size());
  for (size_t i = 0; i < p.size(); ++i) p[i] = i;
  if (android) std::stable_sort(p.begin(), p.end(), [&](int a, int b) { return AndroidBit(ss, c[a]) < AndroidBit(ss, c[b]); });
  return p;
}

struct Report {
  bool complete = false, mix_ok = false, channels_ok = false, rate_ok = false, frame_ok = false;
  uint32_t mix = 0, rate = 0, frame = 0;
  int layout = -1, channels = -1, type = -1;
  bool operator==(const Report&) const = default;
  std::string Str() const {
    return Fmt("complete=%d mix=%d:%u layout=%d channels=%d:%d type=%d rate=%d:%u frame=%d:%u", complete, mix_ok, mix, layout, channels_ok, channels, type, rate_ok, rate, frame_ok, frame);
  }
};
inline Report Query(api::IamfDecoderInterface& d) {
  Report r;
  r.complete = d.IsDescriptorProcessingComplete();
  api::SelectedMix m{};
  if ((r.mix_ok = d.GetOutputMix(m).ok())) { r.mix = m.mix_presentation_id; r.layout = static_cast<int>(m.output_layout); }
  int n = -1;
  if ((r.channels_ok = d.GetNumberOfOutputChannels(n).ok())) r.channels = n;
  r.type = static_cast<int>(d.GetOutputSampleType());
  uint32_t v = 0;
  if ((r.rate_ok = d.GetSampleRate(v).ok())) r.rate = v;
  if ((r.frame_ok = d.GetFrameSize(v).ok())) r.frame = v;
  return r;
}

struct Knobs {
  bool any_profiles = true;
  bool any_mix = true;
};
inline Settings DrawSettings(Ctx& c, const gen::Stream& s, Knobs k = {}) {
  Settings x;
  if (k.any_mix) {
    switch (c.Weighted({3, 4, 1})) {
      case 1: x.requested_mix.mix_presentation_id = c.OneOf(s.mixes).id; break;
      case 2: x.requested_mix.mix_presentation_id = c.Pick(1000); break;
      default: break;
    }
    if (c.Pick(3)) x.requested_mix.output_layout = static_cast<api::OutputLayout>(c.Pick(15));
  }
  if (c.Pick(3) == 2) x.channel_ordering = api::ChannelOrdering::kOrderingForAndroid;
  if (c.Pick(2)) x.requested_output_sample_type = api::OutputSampleType::kInt16LittleEndian;
  if (c.Pick(4) == 3) { x.trimming_settings.trim_beginning = c.Pick(2); x.trimming_settings.trim_end = c.Pick(2); }
  if (k.any_profiles && c.Pick(4) == 3) {
    x.requested_profile_versions.clear();
    const uint32_t m = 1 + c.Pick(7);
    for (int i = 0; i < 3; ++i) if (m >> i & 1) x.requested_profile_versions.insert(static_cast<api::ProfileVersion>(i));
  }
  return x;
}
inline std::string Str(const Settings& x) {
  std::string p;
  for (auto v : x.requested_profile_versions) p += std::to_string(static_cast<int>(v));
  std::sort(p.begin(), p.end());
  return Fmt("id=%d layout=%d android=%d type=%d trim=%d%d profiles=%s", x.requested_mix.mix_presentation_id ? static_cast<int>(*x.requested_mix.mix_presentation_id) : -1,
             x.requested_mix.output_layout ? static_cast<int>(*x.requested_mix.output_layout) : -1, static_cast<int>(x.channel_ordering), static_cast<int>(x.requested_output_sample_type),
             x.trimming_settings.trim_beginning, x.trimming_settings.trim_end, p.c_str());
}

struct SaltScope {
  unsigned long old = verif_hash_salt;
  explicit SaltScope(uint64_t s) { verif_hash_salt = s | 1; }
  ~SaltScope() { verif_hash_salt = old; }
};

// Everything a caller saw.
struct Outcome {
  bool created = false;
  bool error = false;    // some call failed; nothing is recorded after it
  std::string at;
  std::vector<Bytes> units;
  Report report;
};

// One decoder and its caller.
class Player {
 public:
  Player(Ctx& c, const Settings& s, const Bytes* descriptors, uint64_t salt) : c_(c), salt_(salt), settings_(s) {
    SaltScope sc(salt_);
    // An exact copy of the bytes: reading past them is caught.
    if (descriptors) {
      std::vector<uint8_t> copy(*descriptors);
      copy.shrink_to_fit();
      d_ = api::IamfDecoderFactory::CreateFromDescriptors(s, copy.data(), copy.size());
    } else {
      d_ = api::IamfDecoderFactory::Create(s);
    }
    out.created = d_ != nullptr;
    from_descriptors_ = descriptors != nullptr;
    if (!d_) Error(descriptors ? "CreateFromDescriptors" : "Create");
    c_.Note("create", out.created);
  }
  ~Player() { SaltScope sc(salt_); d_.reset(); }

  bool Feed(const uint8_t* p, size_t n) {
    if (out.error) return false;
    SaltScope sc(salt_);
    Bytes copy(p, p + n);
    copy.shrink_to_fit();
    const api::IamfStatus status = d_->Decode(copy.data(), copy.size());
    const bool ok = status.ok();
    if (!ok && c_.verbose) c_.Log("  %s", status.error_message.c_str());
    std::fill(copy.begin(), copy.end(), 0xa5);  // the caller reuses its buffer
    c_.Note("decode", n, ok);
    if (!ok) Error("Decode");
    return ok;
  }
  bool Feed(const Bytes& b) { return Feed(b.data(), b.size()); }

  // The documented size of an output buffer.
  size_t BufferSize() {
    int ch = 0;
    uint32_t fs = 0;
    const int bytes = d_->GetOutputSampleType() == api::OutputSampleType::kInt16LittleEndian ? 2 : 4;
    if (!d_->GetNumberOfOutputChannels(ch).ok() || !d_->GetFrameSize(fs).ok()) return 1 << 16;
    return size_t{fs} * ch * bytes;
  }
  // One retrieval with a buffer of the documented size.
  bool Get() {
    if (out.error) return false;
    SaltScope sc(salt_);
    const bool available = d_->IsTemporalUnitAvailable();
    Bytes buf(BufferSize());
    size_t n = 12345;
    const api::IamfStatus status = d_->GetOutputTemporalUnit(buf.data(), buf.size(), n);
    const bool ok = status.ok();
    if (!ok && c_.verbose) c_.Log("  %s", status.error_message.c_str());
    c_.Note("get", n, ok);
    c_.Check(n <= buf.size(), "unit-fits-the-documented-buffer", Fmt("%zu bytes written into %zu", n, buf.size()));
    c_.Check(available || n == 0, "unit-without-announcement", Fmt("%zu bytes although no unit was available", n));
    if (n) {
      buf.resize(n);
      out.units.push_back(buf);
    } else if (ok && available) {
      c_.Fail("available-unit-is-delivered", "a unit was reported as available but the retrieval returned no bytes");
    }
    if (!ok) Error("GetOutputTemporalUnit");
    return ok && n;
  }
  void Drain() {
    for (int i = 0; !out.error && d_->IsTemporalUnitAvailable(); ++i) {
      Get();
      c_.Check(i < 100000, "drain-terminates", "the loop over available units does not end");
    }
  }
  bool Available() { return d_ && d_->IsTemporalUnitAvailable(); }
  bool End() {
    if (out.error) return false;
    SaltScope sc(salt_);
    const bool ok = d_->SignalEndOfDecoding().ok();
    c_.Note("end", ok);
    if (!ok) Error("SignalEndOfDecoding");
    return ok;
  }
  Report Ask() {
    if (!d_) return {};
    SaltScope sc(salt_);
    Report r = Query(*d_);
    // Reported facts do not change once known.
    if (last_.complete) c_.Check(r == last_, "reports-are-stable", "first " + last_.Str() + " then " + r.Str());
    if (r.complete) last_ = r;
    return r;
  }
  void ForgetReports() { last_ = {}; }
  Outcome Finish() { out.report = Ask(); return out; }

  Ctx& c_;
  Decoder d_;
  Outcome out;
  uint64_t salt_;
  Settings settings_;
  bool from_descriptors_ = false;
  bool keep_going = false;     // the caller does not stop at an error
  bool failed = false;
  size_t units_at_error = 0;   // fetched before the first error
  void Error(const char* at) {
    if (!failed) { failed = true; units_at_error = out.units.size(); out.at = at; }
    if (!keep_going || !d_) out.error = true;
  }

 private:
  Report last_;
};

// How the bytes arrive and when units are fetched.
struct Delivery {
  std::vector<Bytes> chunks;
};
// Cuts standalone bytes anywhere; prefers boundaries and single bytes now and then.
inline std::vector<Bytes> DrawChunks(Ctx& c, const gen::Stream& s) {
  std::vector<Bytes> r;
  switch (c.Weighted({2, 3, 2, 2, 1})) {
    case 0: r.push_back(s.All()); break;
    case 1: {  // few cuts anywhere
      const Bytes all = s.All();
      std::set<size_t> cut;
      for (uint32_t n = 1 + c.Pick(8); n; --n) cut.insert(c.Pick(all.size() + 1));
      cut.insert(all.size());
      size_t at = 0;
      for (size_t x : cut) { r.emplace_back(all.begin() + at, all.begin() + x); at = x; }
      break;
    }
    case 2:  // one piece per call
      for (auto& p : s.pieces) r.push_back(p.bytes);
      break;
    case 3: {  // cuts near piece boundaries
      const Bytes all = s.All();
      std::set<size_t> cut;
      size_t at = 0;
      for (auto& p : s.pieces) {
        at += p.bytes.size();
        if (c.Pick(2)) continue;
        const int64_t x = static_cast<int64_t>(at) + c.Range(-3, 3);
        if (x >= 0 && x < static_cast<int64_t>(all.size())) cut.insert(x);
      }
      cut.insert(all.size());
      at = 0;
      for (size_t x : cut) { r.emplace_back(all.begin() + at, all.begin() + x); at = x; }
      break;
    }
    default: {  // byte by byte, sometimes a few at a time
      const Bytes all = s.All();
      const uint32_t most = 1 + c.Pick(3);
      const size_t limit = 4000;
      for (size_t at = 0; at < all.size();) {
        const size_t n = r.size() > limit ? all.size() - at : std::min<size_t>(all.size() - at, 1 + (most > 1 ? c.Pick(most) : 0));
        r.emplace_back(all.begin() + at, all.begin() + at + n);
        at += n;
      }
    }
  }
  for (size_t i = 1; i < r.size(); ++i) c.Fault("delivery_split");
  return r;
}
// Whole temporal units, one or several per call.
inline std::vector<Bytes> DrawUnitChunks(Ctx& c, const gen::Stream& s) {
  std::vector<Bytes> r;
  const int style = c.Pick(3);
  for (auto& t : s.Tus()) {
    if (r.empty() || style == 0 || (style == 2 && c.Pick(2))) r.push_back(t);
    else gen::Stream::Add(r.back(), t);
  }
  return r;
}
// Delivers the chunks with a drawn retrieval policy, ends, drains.
inline Outcome PlayAll(Ctx& c, Player& p, const std::vector<Bytes>& chunks, int policy) {
  // 0: fetch everything at the end; 1: after every chunk; 2: as drawn.
  if (policy == 0) c.Fault("consumer_stalls_until_the_end");
  for (auto& b : chunks) {
    if (p.out.error) break;
    if (policy == 2 && c.Pick(8) == 7) p.Ask();
    if (policy == 2 && c.Pick(12) == 11) p.Feed(nullptr, 0);
    if (policy == 2 && c.Pick(12) == 11) p.Get();
    if (!p.Feed(b)) break;
    if (policy == 1) p.Drain();
    if (policy == 2) {
      switch (c.Pick(4)) {
        case 1: p.Drain(); break;
        case 2: p.Get(); break;
        case 3: p.Ask(); p.Get(); p.Get(); break;
        default: break;
      }
    }
  }
  p.End();
  p.Drain();
  return p.Finish();
}

// What a lossless stream must sound like when it is rendered without gains:
// per output channel, the carried channel (substream, index in it), per element.
struct Exact {
  int ss = -1;
  // For each output channel in IAMF order, the contributions.
  std::vector<std::vector<std::pair<uint32_t, int>>> channels;
};
// The playback layouts that a given element reaches without any gain.
inline void ExactLayouts(const gen::Element& e, std::map<int, std::map<std::string, std::pair<uint32_t, int>>>& out) {
  if (e.type != 0) return;
  auto put = [&](int ss, size_t first, size_t n) {
    auto& m = out[ss];
    for (size_t i = first; i < first + n; ++i)
      for (size_t x = 0; x < e.labels[i].size(); ++x) m[e.labels[i][x]] = {e.substreams[i], static_cast<int>(x)};
  };
  const gen::Layer& l = e.layers[0];
  if (l.layout == 15) {
    const int x = l.expanded;
    const int ss = x == 1 ? 3 : x <= 7 ? 9 : x <= 12 ? 13 : -1;
    if (ss >= 0) put(ss, 0, e.substreams.size());
  } else if (l.layout == 9) {
    put(14, 0, e.substreams.size());
    put(0, 0, e.substreams.size());
  } else {
    put(gen::Info(l.layout).ss, 0, l.substreams);
  }
}
inline std::vector<std::pair<size_t, Exact>> ExactMixes(const gen::Stream& s) {
  std::vector<std::pair<size_t, Exact>> r;
  for (size_t m = 0; m < s.mixes.size(); ++m) {
    const auto& sub = s.mixes[m].subs[0];
    for (int ss = 0; ss < 15; ++ss) {
      Exact x;
      x.ss = ss;
      x.channels.resize(LayoutChannels(ss).size());
      bool ok = true;
      for (auto& me : sub.elements) {
        const gen::Element* e = nullptr;
        for (auto& q : s.elements) if (q.id == me.id) e = &q;
        std::map<int, std::map<std::string, std::pair<uint32_t, int>>> reach;
        ExactLayouts(*e, reach);
        auto it = reach.find(ss);
        if (it == reach.end()) { ok = false; break; }
        // World-locked binaural goes through the binaural renderer.
        for (size_t i = 0; i < x.channels.size(); ++i)
          if (auto f = it->second.find(LayoutChannels(ss)[i]); f != it->second.end()) x.channels[i].push_back(f->second);
      }
      if (ok) r.emplace_back(m, x);
    }
  }
  return r;
}
// Expected PCM of every unit that is not empty.
inline std::vector<Bytes> ExpectedUnits(const gen::Stream& s, const Exact& x, const Settings& set) {
  std::vector<Bytes> r;
  const bool android = set.channel_ordering == api::ChannelOrdering::kOrderingForAndroid && x.ss != 14;
  const auto order = OutputOrder(x.ss, android);
  const bool s16 = set.requested_output_sample_type == api::OutputSampleType::kInt16LittleEndian;
  std::vector<std::map<uint32_t, const gen::Frame*>> frames(s.num_tus);
  for (auto& p : s.pieces) if (p.what == gen::Piece::kAudio) frames[p.tu][s.frames[p.index].substream] = &s.frames[p.index];
  for (int t = 0; t < s.num_tus; ++t) {
    const gen::Frame& any = *frames[t].begin()->second;
    const uint32_t spf = any.codec->spf;
    const uint32_t from = set.trimming_settings.trim_beginning ? any.trim_start : 0, to = spf - (set.trimming_settings.trim_end ? any.trim_end : 0);
    Bytes b;
    for (uint32_t n = from; n < to; ++n)
      for (int ch : order) {
        int64_t v = 0;
        for (auto& [sub, i] : x.channels[ch]) v += frames[t].at(sub)->pcm[i][n];
        v = std::clamp<int64_t>(v, INT32_MIN, INT32_MAX);
        const uint32_t u = static_cast<uint32_t>(static_cast<int32_t>(v));
        for (int k = s16 ? 2 : 0; k < 4; ++k) b.push_back(u >> (8 * k));
      }
    if (!b.empty()) r.push_back(b);
  }
  return r;
}
inline std::string CompareUnits(const std::vector<Bytes>& want, const std::vector<Bytes>& got) {
  for (size_t i = 0; i < std::min(want.size(), got.size()); ++i) {
    if (want[i] == got[i]) continue;
    size_t k = 0;
    while (k < want[i].size() && k < got[i].size() && want[i][k] == got[i][k]) ++k;
    return Fmt("unit %zu: %zu bytes expected, %zu delivered, first difference at byte %zu (expected %s, got %s)", i, want[i].size(), got[i].size(), k,
               Hex(want[i].data() + k, std::min<size_t>(8, want[i].size() - k)).c_str(), Hex(got[i].data() + k, std::min<size_t>(8, got[i].size() - k)).c_str());
  }
  if (want.size() != got.size()) return Fmt("%zu units expected, %zu delivered", want.size(), got.size());
  return "";
}
inline uint64_t ShapeOf(const gen::Stream& s) {
  uint64_t h = 7;
  auto add = [&h](uint64_t v) { h = Ctx::Mix(h ^ v); };
  for (auto& k : s.codecs) { add(k.kind); add(k.bits); }
  for (auto& e : s.elements) { add(e.type); for (auto& l : e.layers) { add(l.layout); add(l.expanded); } add(e.params.size()); }
  add(s.mixes.size());
  add(s.num_tus);
  add(s.delimiters);
  return h;
}
// For the log of a replay.
inline std::string Describe(const gen::Stream& s) {
  std::string r;
  for (auto& k : s.codecs) r += Fmt("codec %u kind %d spf %u rate %u bits %d; ", k.id, k.kind, k.spf, k.rate, k.bits);
  for (auto& e : s.elements) {
    r += Fmt("element %u type %d codec %u substreams", e.id, e.type, e.codec_id);
    for (auto x : e.substreams) r += Fmt(" %u", x);
    for (auto& l : e.layers) r += Fmt(" layer %d/%d (%d,%d)%s%s", l.layout, l.expanded, l.substreams, l.coupled, l.og ? " og" : "", l.rg ? " rg" : "");
    if (e.type == 1) r += Fmt(" ambisonics %d out %d", e.ambi_mode, e.ambi_out);
    r += "; ";
  }
  for (auto& m : s.mixes) {
    r += Fmt("mix %u:", m.id);
    for (auto& b : m.subs) {
      r += " {";
      for (auto& e : b.elements) r += Fmt(" %u mode %d", e.id, e.mode);
      r += " |";
      for (auto& l : b.layouts) r += Fmt(" %d/%d", l.type, l.ss);
      r += " }";
    }
    r += "; ";
  }
  r += "data:";
  for (size_t i = s.num_descriptor_pieces; i < s.pieces.size(); ++i) {
    auto& p = s.pieces[i];
    if (p.what == gen::Piece::kAudio) r += Fmt(" t%d:f%u[%u,%u]", p.tu, s.frames[p.index].substream, s.frames[p.index].trim_start, s.frames[p.index].trim_end);
    else r += Fmt(" t%d:%s", p.tu, p.what == gen::Piece::kRedundant ? "redundant" : p.what == gen::Piece::kJunk ? "junk" : p.what == gen::Piece::kTd ? "td" : "block");
  }
  return r;
}
}  // namespace dst::dec
#endif
