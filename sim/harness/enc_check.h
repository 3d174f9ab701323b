// What an encoder hands out, compared with an independent writer.
#ifndef VERIF_HARNESS_ENC_CHECK_H_
#define VERIF_HARNESS_ENC_CHECK_H_
#include <fstream>

#include "enc_gen.h"
#include "iamf/include/iamf_tools/iamf_encoder_interface.h"
#include "iamf/include/iamf_tools/iamf_tools_encoder_api_types.h"

namespace dst::enc {
namespace g = dst::gen;
namespace api = ::iamf_tools::api;

// Bytes of the descriptors that hold measured loudness.
inline std::vector<bool> LoudnessMask(const Plan& p) {
  const g::Stream& s = p.s;
  g::Stream t;
  t.primary = s.primary;
  t.additional = s.additional;
  t.codecs = s.codecs;
  t.elements = s.elements;
  t.mixes = s.mixes;
  const Bytes a = WriteDescriptors(p, t);
  for (auto& m : t.mixes) for (auto& b : m.subs) for (auto& l : b.layouts) {
    l.loud.integrated = ~l.loud.integrated;
    l.loud.peak = ~l.loud.peak;
    l.loud.true_peak = ~l.loud.true_peak;
  }
  const Bytes b = WriteDescriptors(p, t);
  std::vector<bool> m(a.size());
  for (size_t i = 0; i < a.size(); ++i) m[i] = a[i] != b[i];
  return m;
}
inline std::string LabelKey(const std::string& name) {
  pb::ChannelLabelMessage m;
  m.set_channel_label(En<pb::ChannelLabel>(LabelOf(name)));
  return m.SerializeAsString();
}
inline Bytes ReadFile(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  return Bytes(std::istreambuf_iterator<char>(f), {});
}

// The order of Codec Configs among each other and of Audio Elements among each
// other carries no meaning.
inline Bytes Canonical(const Bytes& b) {
  auto obus = ParseObus(b);
  if (!obus) return b;
  for (size_t i = 0, k; i < obus->size(); i = k) {
    for (k = i + 1; k < obus->size() && (*obus)[k].type == (*obus)[i].type; ++k) {}
    if ((*obus)[i].type <= g::kElement) std::sort(obus->begin() + i, obus->begin() + k, [](auto& x, auto& y) { return x.whole < y.whole; });
  }
  Bytes r;
  for (auto& o : *obus) g::Stream::Add(r, o.whole);
  return r;
}

class Checked {
 public:
  Checked(Ctx& c, Plan& p) : c_(c), p_(p) {}

 protected:
  // The next temporal unit.
  void Unit(const Bytes& b);
  void Descriptors(api::IamfEncoderInterface& e, bool at_end, bool measured);

  Ctx& c_;
  Plan& p_;
  Bytes final_;
  std::vector<Bytes> units_;
  std::vector<std::map<uint32_t, g::Pcm>> pcm_;  // carried, per unit
};

inline void Checked::Unit(const Bytes& b) {
  const uint32_t t = units_.size();
  c_.NoteBytes("unit", b.data(), b.size());
  c_.Check(t < p_.frames, "as-many-units-as-frames", Fmt("a unit of %zu bytes after all %u frames", b.size(), p_.frames));
  auto obus = ParseObus(b);
  c_.Check(obus.has_value(), "unit-is-made-of-obus", Fmt("unit %u is not a sequence of OBUs: %s", t, Hex(b.data(), b.size()).c_str()));
  size_t i = 0;
  const bool td = !obus->empty() && (*obus)[0].type == g::kDelim;
  c_.Check(td == p_.s.delimiters, "delimiter", Fmt("unit %u: temporal delimiter %s", t, td ? "unwanted" : "missing"));
  if (td) { c_.Check((*obus)[0].whole == g::Obu{.type = g::kDelim}.Write(0), "delimiter", "malformed"); ++i; }
  {  // OBUs the user asked for, by place.
    std::vector<std::vector<Bytes>> at(3), asked(3);
    const size_t blocks = p_.blocks[t].size();
    size_t frames = 0;
    for (auto& d : p_.s.elements) frames += d.substreams.size();
    for (size_t x = i, nb = 0, nf = 0; x < obus->size();) {
      const auto& o = (*obus)[x];
      if (o.type <= g::kMeta) { nb += o.type == g::kParam; nf += o.type != g::kParam; ++x; continue; }
      const int place = nf == frames ? 2 : nf ? -1 : nb == blocks ? 1 : nb ? -1 : 0;
      c_.Check(place >= 0, "requested-obus", Fmt("unit %u: between blocks or between frames", t));
      at[place].push_back(o.whole);
      obus->erase(obus->begin() + x);
    }
    for (auto& a : p_.arbs) if (a.hook >= 7 && a.tick == int64_t{t} * p_.s.codecs[0].spf) asked[a.hook - 7].push_back(a.obu.Write(0));
    if (!blocks) { asked[0].insert(asked[0].end(), asked[1].begin(), asked[1].end()); asked[1] = asked[0]; asked[0].clear(); }
    c_.Check(at == asked, "requested-obus", Fmt("unit %u: %zu, %zu, %zu OBUs asked for before the blocks, after them, after the frames; %zu, %zu, %zu found, or they differ", t, asked[0].size(), asked[1].size(), asked[2].size(), at[0].size(), at[1].size(), at[2].size()));
  }
  std::multiset<Bytes> want, got;
  for (int x : p_.blocks[t]) want.insert(WriteBlock(p_, x));
  for (; i < obus->size() && (*obus)[i].type == g::kParam; ++i) got.insert((*obus)[i].whole);
  if (want != got) {
    std::string d = Fmt("unit %u:", t);
    for (auto& x : want) if (!got.count(x)) d += " missing " + Hex(x.data(), x.size());
    for (auto& x : got) if (!want.count(x)) d += " unexpected " + Hex(x.data(), x.size());
    c_.Fail("parameter-blocks-of-the-unit", d);
  }
  std::map<uint32_t, const g::Frame*> frames;
  for (auto& q : p_.s.pieces) if (q.what == g::Piece::kAudio && q.tu == static_cast<int>(t)) frames[p_.s.frames[q.index].substream] = &p_.s.frames[q.index];
  std::map<uint32_t, g::Pcm> pcm;
  for (; i < obus->size(); ++i) {
    const auto& o = (*obus)[i];
    c_.Check(o.type >= g::kFrame && o.type < g::kMeta && !o.redundant && !o.ext, "unit-contents", Fmt("unit %u: OBU of type %d among the frames", t, o.type));
    uint64_t sub = o.type - g::kFrame0;
    Bytes payload = o.payload;
    if (o.type == g::kFrame) {
      size_t at = 0;
      c_.Check(ReadUleb(o.payload, at, sub), "unit-contents", "substream id");
      payload.erase(payload.begin(), payload.begin() + at);
    }
    auto it = frames.find(sub);
    c_.Check(it != frames.end() && !pcm.count(sub), "each-substream-once", Fmt("unit %u: substream %u is %s", t, static_cast<uint32_t>(sub), it == frames.end() ? "unknown" : "repeated"));
    g::Frame f = *it->second;
    c_.Check(o.trim_start == f.trim_start && o.trim_end == f.trim_end, "trims",
             Fmt("unit %u substream %u: %u samples at the start and %u at the end are to be trimmed, written %u and %u", t, f.substream, f.trim_start, f.trim_end, o.trim_start, o.trim_end));
    const g::Codec& codec = *f.codec;
    const auto got_pcm = DecodePayload(codec, payload, f.pcm.size());
    c_.Check(got_pcm.has_value(), "frame-size", Fmt("unit %u substream %u: %zu bytes, %zu expected", t, f.substream, payload.size(), f.payload.size()));
    const int bits = codec.Lossless() ? codec.bits : 16;
    const int64_t tolerance = p_.exact.at(f.substream) ? 0 : int64_t{1} << (32 - bits);
    for (size_t ch = 0; ch < f.pcm.size(); ++ch)
      for (uint32_t n = 0; n < codec.spf; ++n)
        if (std::llabs(int64_t{f.pcm[ch][n]} - (*got_pcm)[ch][n]) > tolerance)
          c_.Fail("carried-samples", Fmt("unit %u substream %u channel %zu (%s) sample %u: %d expected, %d carried", t, f.substream, ch,
                                         p_.labels[p_.where.at(f.substream).first].coded[p_.where.at(f.substream).second][ch].c_str(), n, f.pcm[ch][n], (*got_pcm)[ch][n]));
    f.payload = g::CodedFrame(codec, *got_pcm, t);
    const Bytes whole = f.Write(0, false).Write(0);
    c_.Check(whole == o.whole, "frame-bytes", Fmt("unit %u substream %u: %s expected, %s written", t, f.substream, Hex(whole.data(), whole.size()).c_str(), Hex(o.whole.data(), o.whole.size()).c_str()));
    pcm[sub] = *got_pcm;
  }
  c_.Check(pcm.size() == frames.size(), "each-substream-once", Fmt("unit %u: %zu frames of %zu", t, pcm.size(), frames.size()));
  units_.push_back(b);
  pcm_.push_back(std::move(pcm));
}

// The descriptors the encoder holds.
inline void Checked::Descriptors(api::IamfEncoderInterface& e, bool at_end, bool measured) {
  Bytes b(7, 0x55);
  bool fin = !at_end;
  const auto s = e.GetDescriptorObus(false, b, fin);
  c_.Check(s.ok(), "descriptors-available", std::string(s.message()));
  c_.Check(fin == at_end, "finalized-flag", at_end ? "the descriptors are not finalized after the last unit" : "the descriptors are finalized before the last unit");
  const Bytes want = Canonical(WriteDescriptors(p_, p_.s)), whole = b;
  b = Canonical(b);
  if (!at_end || !measured) {
    if (b != want) {
      size_t k = 0;
      while (k < b.size() && k < want.size() && b[k] == want[k]) ++k;
      c_.Fail("descriptors", Fmt("%s: %zu bytes expected, %zu written, first difference at %zu (expected %s, got %s)", at_end ? "final" : "preliminary", want.size(), b.size(), k,
                                 Hex(want.data() + k, want.size() - k).c_str(), Hex(b.data() + k, b.size() - k).c_str()));
    }
  } else {
    const auto mask = LoudnessMask(p_);
    c_.Check(b.size() == want.size(), "descriptors", Fmt("final: %zu bytes expected, %zu written", want.size(), b.size()));
    for (size_t i = 0; i < b.size(); ++i)
      if (!mask[i] && b[i] != want[i]) c_.Fail("descriptors", Fmt("final: byte %zu is not loudness but differs (expected %02x, got %02x)", i, want[i], b[i]));
  }
  if (at_end) {
    if (!final_.empty()) c_.Check(whole == final_, "descriptors-stay-final", "the final descriptors change");
    final_ = whole;
  }
}

}  // namespace dst::enc
#endif  // VERIF_HARNESS_ENC_CHECK_H_
