// R01: frames rendered by one thread, samples collected by another.
#include <memory>

#include "core.h"
#include "gains_model.h"
#include "iamf/cli/channel_label.h"
#include "iamf/cli/labeled_frame.h"
#include "iamf/cli/renderer/audio_element_renderer_base.h"
#include "iamf/cli/renderer/gains/get_gains.h"
#include "iamf/cli/renderer/gains/precomputed_gains.h"
#include "iamf/cli/renderer_factory.h"
#include "iamf/obu/ambisonics_config.h"
#include "iamf/obu/audio_element.h"
#include "iamf/obu/mix_presentation.h"
#include "iamf/obu/rendering_config.h"
#include "sim_tp.h"

namespace dst {
namespace {
namespace it = ::iamf_tools;
using L = it::ChannelLabel;
using Label = L::Label;
using gains::Matrix;

std::vector<Label> LayoutLabels(int layout) {
  switch (layout) {
    case 0: return {L::kMono};
    case 1: case 9: return {L::kL2, L::kR2};
    case 2: return {L::kL5, L::kR5, L::kCentre, L::kLFE, L::kLs5, L::kRs5};
    case 3: return {L::kL5, L::kR5, L::kCentre, L::kLFE, L::kLs5, L::kRs5, L::kLtf2, L::kRtf2};
    case 4: return {L::kL5, L::kR5, L::kCentre, L::kLFE, L::kLs5, L::kRs5, L::kLtf4, L::kRtf4, L::kLtb4, L::kRtb4};
    case 5: return {L::kL7, L::kR7, L::kCentre, L::kLFE, L::kLss7, L::kRss7, L::kLrs7, L::kRrs7};
    case 6: return {L::kL7, L::kR7, L::kCentre, L::kLFE, L::kLss7, L::kRss7, L::kLrs7, L::kRrs7, L::kLtf2, L::kRtf2};
    case 7: return {L::kL7, L::kR7, L::kCentre, L::kLFE, L::kLss7, L::kRss7, L::kLrs7, L::kRrs7, L::kLtf4, L::kRtf4, L::kLtb4, L::kRtb4};
    default: return {L::kL3, L::kR3, L::kCentre, L::kLFE, L::kLtf3, L::kRtf3};
  }
}
std::vector<Label> ExpandedLabels(int e) {
  const std::vector<Label> k916 = {L::kFL, L::kFR, L::kFC, L::kLFE, L::kBL, L::kBR, L::kFLc, L::kFRc, L::kSiL, L::kSiR, L::kTpFL, L::kTpFR, L::kTpBL, L::kTpBR, L::kTpSiL, L::kTpSiR};
  const std::vector<Label> kH = {L::kFL, L::kFR, L::kFC, L::kLFE, L::kBL, L::kBR, L::kFLc, L::kFRc, L::kBC, L::kLFE2, L::kSiL, L::kSiR,
                                 L::kTpFL, L::kTpFR, L::kTpFC, L::kTpC, L::kTpBL, L::kTpBR, L::kTpSiL, L::kTpSiR, L::kTpBC, L::kBtFC, L::kBtFL, L::kBtFR};
  std::vector<Label> k7154 = LayoutLabels(7);
  for (Label l : {L::kTpC, L::kBtFL, L::kBtFR, L::kBtBL, L::kBtBR}) k7154.push_back(l);
  std::vector<Label> base, keep;
  switch (e) {
    case 0: base = LayoutLabels(7); keep = {L::kLFE}; break;
    case 1: base = LayoutLabels(4); keep = {L::kLs5, L::kRs5}; break;
    case 2: base = LayoutLabels(7); keep = {L::kLss7, L::kRss7}; break;
    case 3: base = LayoutLabels(7); keep = {L::kLrs7, L::kRrs7}; break;
    case 4: base = LayoutLabels(7); keep = {L::kLtf4, L::kRtf4}; break;
    case 5: base = LayoutLabels(7); keep = {L::kLtb4, L::kRtb4}; break;
    case 6: base = LayoutLabels(7); keep = {L::kLtf4, L::kRtf4, L::kLtb4, L::kRtb4}; break;
    case 7: base = LayoutLabels(7); keep = {L::kL7, L::kR7, L::kCentre}; break;
    case 8: return k916;
    case 9: base = k916; keep = {L::kFL, L::kFR}; break;
    case 10: base = k916; keep = {L::kSiL, L::kSiR}; break;
    case 11: base = k916; keep = {L::kTpSiL, L::kTpSiR}; break;
    case 12: base = k916; keep = {L::kTpFL, L::kTpFR, L::kTpSiL, L::kTpSiR, L::kTpBL, L::kTpBR}; break;
    case 13: return kH;
    case 14: base = kH; keep = {L::kLFE, L::kLFE2}; break;
    case 15: base = kH; keep = {L::kBtFC, L::kBtFL, L::kBtFR}; break;
    case 16: return k7154;
    case 17: base = k7154; keep = {L::kBtFL, L::kBtFR, L::kBtBL, L::kBtBR}; break;
    case 18: base = k7154; keep = {L::kTpC}; break;
    default: base = k7154; keep = {L::kLtf4, L::kRtf4, L::kLtb4, L::kRtb4, L::kTpC}; break;
  }
  for (auto& l : base) if (std::find(keep.begin(), keep.end(), l) == keep.end()) l = L::kOmitted;
  return base;
}
Label Demixed(Label l) {
  switch (l) {
    case L::kR2: return L::kDemixedR2;
    case L::kL3: return L::kDemixedL3;
    case L::kR3: return L::kDemixedR3;
    case L::kL5: return L::kDemixedL5;
    case L::kR5: return L::kDemixedR5;
    case L::kLs5: return L::kDemixedLs5;
    case L::kRs5: return L::kDemixedRs5;
    case L::kLtf2: return L::kDemixedLtf2;
    case L::kRtf2: return L::kDemixedRtf2;
    case L::kLtb4: return L::kDemixedLtb4;
    case L::kRtb4: return L::kDemixedRtb4;
    case L::kL7: return L::kDemixedL7;
    case L::kR7: return L::kDemixedR7;
    case L::kLrs7: return L::kDemixedLrs7;
    case L::kRrs7: return L::kDemixedRrs7;
    default: return L::kOmitted;
  }
}

// A renderer and its model.
struct Case {
  std::vector<it::DecodedUleb128> subs;
  it::SubstreamIdLabelsMap map;
  it::AudioElementObu::AudioElementType type = it::AudioElementObu::kAudioElementChannelBased;
  it::AudioElementObu::AudioElementConfig config;
  it::RenderingConfig rendering;
  it::Layout layout;
  it::TrimmingSettings trimming;
  size_t spf = 8, rate = 48000;
  // The model.
  enum { kNone, kPass, kMatrix, kBinaural } how = kNone;
  std::vector<Label> in;         // kOmitted: silence
  Matrix m;                      // for kMatrix and, when not empty, for kBinaural
  std::vector<std::vector<double>> slack;
  size_t outs = 0;
  bool dynamic = false;          // gains follow the demixing parameters
  bool to_712 = false;
  bool demix = false;            // the element may have demixing parameters
  std::vector<Label> also;       // further labels a frame may carry
};

it::ChannelAudioLayerConfig Layer(int layout, int expanded) {
  it::ChannelAudioLayerConfig l{};
  l.loudspeaker_layout = static_cast<it::ChannelAudioLayerConfig::LoudspeakerLayout>(layout);
  if (expanded >= 0) l.expanded_loudspeaker_layout = static_cast<it::ChannelAudioLayerConfig::ExpandedLoudspeakerLayout>(expanded);
  return l;
}

void DrawCase(Ctx& c, Case& k) {
  const int kind = c.Weighted({4, 2, 2, 2});
  const bool binaural_layout = c.Pick(5) == 4;
  const int ss = c.Pick(15);
  const int mode = c.Pick(2);
  k.spf = c.Pick(4) == 3 ? c.Pick(80) + 1 : c.OneOf(std::vector<size_t>{8, 32, 16, 33, 3, 1});
  k.rate = c.OneOf(std::vector<size_t>{48000, 44100, 96000});
  k.rendering.headphones_rendering_mode = static_cast<it::RenderingConfig::HeadphonesRenderingMode>(mode);
  if (binaural_layout) {
    k.layout = {.layout_type = it::Layout::kLayoutTypeBinaural, .specific_layout = it::LoudspeakersReservedOrBinauralLayout{.reserved = 0}};
  } else {
    k.layout = {.layout_type = it::Layout::kLayoutTypeLoudspeakersSsConvention,
                .specific_layout = it::LoudspeakersSsConventionLayout{.sound_system = static_cast<it::LoudspeakersSsConventionLayout::SoundSystem>(ss)}};
  }
  k.trimming = {.trim_beginning = c.Pick(3) != 2, .trim_end = c.Pick(3) != 2};
  const bool binaural = binaural_layout && mode == 1;
  const int system = binaural_layout ? 0 : ss;  // what is really rendered to
  const std::string out_key = gains::SystemKey(system);
  k.outs = binaural ? 2 : gains::SystemChannels(system);
  auto matrix = [&](const std::string& in_key) {
    const Matrix* m = gains::Find(in_key, out_key);
    if (!m) return;
    k.how = Case::kMatrix;
    k.m = *m;
    k.slack = k.m;
    for (auto& r : k.slack) for (auto& x : r) x = 1e-6;
  };
  if (kind < 2) {
    it::ScalableChannelLayoutConfig cfg{};
    if (kind == 1) {
      const int e = c.Pick(20);
      cfg.channel_audio_layer_configs.push_back(Layer(15, e));
      k.in = ExpandedLabels(e);
      const int sys = gains::SystemOfExpanded(e);
      if (!binaural && sys == system) k.how = Case::kPass;
      else if (!binaural) matrix(gains::SystemKey(sys));
      c.Log("%s", Fmt("expanded layout %d", e).c_str());
    } else {
      // Layers in increasing order; only the highest and the one that matches matter.
      std::vector<int> layers = {static_cast<int>(c.Pick(10))};
      if (layers[0] != 9 && c.Pick(2)) {
        constexpr int order[] = {0, 1, 8, 2, 3, 5, 4, 6, 7};
        layers.clear();
        for (int l : order) if (c.Pick(3) == 2) layers.push_back(l);
        if (layers.empty()) layers.push_back(order[c.Pick(9)]);
      }
      std::string names;
      for (int l : layers) { cfg.channel_audio_layer_configs.push_back(Layer(l, -1)); names += Fmt(" %d", l); }
      c.Log("layers%s", names.c_str());
      k.in = LayoutLabels(layers.back());
      k.demix = true;
      for (int l : layers) {
        const bool pass = l == 9 ? binaural || system == 0 : !binaural && gains::SystemOfLayout(l) == system;
        if (pass) { k.how = Case::kPass; k.in = LayoutLabels(l); break; }
      }
      if (k.how == Case::kNone && layers.back() != 9 && !binaural) {
        matrix(gains::LayoutKey(layers.back()));
        k.dynamic = layers.back() == 7 && (system == 11 || system == 10);
        k.to_712 = system == 10;
      }
      if (binaural && k.how == Case::kNone && k.spf >= 32) k.how = Case::kBinaural;
      for (int l : layers) for (Label x : LayoutLabels(l)) k.also.push_back(x);
    }
    k.config = cfg;
    k.subs = {0};
    k.map[0].assign(k.in.begin(), k.in.end());
  } else {
    k.type = it::AudioElementObu::kAudioElementSceneBased;
    const int order = c.Weighted({1, 4, 3, 2, 1, 1});
    const int n = (order + 1) * (order + 1);
    auto label = [](int i) { return static_cast<Label>(L::kA0 + std::min(i, 24)); };
    const Matrix* g = gains::Find(Fmt("A%d", order), out_key);
    const uint32_t first = c.Pick(100);
    if (kind == 2) {
      std::vector<uint8_t> mapping(n);
      std::vector<int> active;
      for (int i = 0; i < n; ++i) { const bool off = c.Pick(8) == 7; mapping[i] = off ? 255 : 0; if (!off) active.push_back(i); }
      if (active.empty()) { mapping[0] = 0; active = {0}; }
      // Substreams in any order; each is used.
      std::vector<int> perm(active.size());
      for (size_t i = 0; i < perm.size(); ++i) perm[i] = i;
      if (c.Pick(2)) for (size_t x = perm.size(); x > 1; --x) std::swap(perm[x - 1], perm[c.Pick(x)]);
      // Sometimes two channels share a substream.
      size_t subs = active.size();
      if (subs > 1 && c.Pick(6) == 5) {
        --subs;
        for (auto& p : perm) if (static_cast<size_t>(p) == subs) p = 0;
        c.Count("shared_substreams");
      }
      for (size_t i = 0; i < active.size(); ++i) mapping[active[i]] = perm[i];
      for (size_t s = 0; s < subs; ++s) k.subs.push_back(first + s * 3);
      // A substream's label is that of the first channel that uses it.
      std::vector<Label> of(subs, L::kOmitted);
      for (int i : active) if (of[mapping[i]] == L::kOmitted) of[mapping[i]] = label(i);
      for (size_t s = 0; s < subs; ++s) k.map[k.subs[s]] = {of[s]};
      auto cfg = it::AmbisonicsMonoConfig::Create(subs, mapping);
      c.Check(cfg.ok(), "legal-configuration-accepted", std::string(cfg.status().message()));
      k.config = it::AmbisonicsConfig{*cfg};
      for (int i = 0; i < n; ++i) k.in.push_back(mapping[i] == 255 ? L::kOmitted : of[mapping[i]]);
      if (binaural) {
        if (order >= 1 && order <= 4 && k.spf >= 32) k.how = Case::kBinaural;
      } else {
        matrix(Fmt("A%d", order));
      }
      c.Log("%s", Fmt("mono ambisonics order %d, %zu of %d channels", order, active.size(), n).c_str());
    } else {
      const int subs = 1 + c.Pick(std::min(n, 9)), coupled = c.Pick(std::min(subs, n - subs) + 1);
      const int ins = subs + coupled;
      std::vector<int16_t> d(ins * n);
      const uint64_t seed = c.Bits();
      const bool sparse = c.Pick(2);
      for (size_t i = 0; i < d.size(); ++i) {
        const uint64_t h = Ctx::Mix(seed + i);
        constexpr int16_t v[] = {0, 32767, -32768, 16384, 1, 0, 0, 0};
        d[i] = sparse ? v[h % 8] : static_cast<int16_t>(h >> 20);
      }
      auto cfg = it::AmbisonicsProjectionConfig::Create(n, subs, coupled, d);
      c.Check(cfg.ok(), "legal-configuration-accepted", std::string(cfg.status().message()));
      k.config = it::AmbisonicsConfig{*cfg};
      int at = 0;
      for (int s = 0; s < subs; ++s) {
        k.subs.push_back(first + s * 2);
        auto& ls = k.map[first + s * 2];
        for (int x = 0; x < (s < coupled ? 2 : 1); ++x) { ls.push_back(label(at)); k.in.push_back(label(at++)); }
      }
      if (binaural ? order >= 1 && order <= 4 && k.spf >= 32 : g != nullptr) {
        k.how = binaural ? Case::kBinaural : Case::kMatrix;
        const int outs = binaural ? n : k.outs;
        k.m.assign(ins, std::vector<double>(outs));
        k.slack = k.m;
        for (int i = 0; i < ins; ++i) for (int o = 0; o < outs; ++o) for (int j = 0; j < n; ++j) {
          const double q = d[i * n + j] / 32768.0;
          const double w = binaural ? j == o : (*g)[j][o];
          k.m[i][o] += q * w;
          k.slack[i][o] += std::abs(q) * (binaural ? 1e-15 : 1e-6);
        }
      }
      if (order > 4 && ins > 25) k.how = Case::kNone;
      c.Log("%s", Fmt("projected ambisonics order %d, %d substreams %d coupled", order, subs, coupled).c_str());
    }
  }
  if (k.how == Case::kPass) k.outs = k.in.size();
  c.Log("%s", Fmt("to %s%s mode %d, frames of %zu", binaural_layout ? "binaural" : "", binaural_layout ? "" : out_key.c_str(), mode, k.spf).c_str());
  c.State(Ctx::Mix(kind * 1000003 + std::hash<std::string>()(out_key) + k.in.size() * 101 + k.how * 7 + binaural));
}

// Demixing parameters as the specification's modes give them.
it::DownMixingParams DrawDemix(Ctx& c, bool present) {
  constexpr double a[] = {1, 0.707, 1, 0, 1, 0.707, 1}, b[] = {1, 0.707, 0.866, 0, 1, 0.707, 0.866}, g[] = {0.707, 0.707, 0.866, 0, 0.707, 0.707, 0.866}, d[] = {0.707, 0.707, 0.866, 0, 0.707, 0.707, 0.866};
  constexpr double w[] = {0, 0.0179, 0.0391, 0.0658, 0.1038, 0.25, 0.3962, 0.4342, 0.4609, 0.4821, 0.5};
  int mode = c.Pick(6);
  if (mode >= 3) ++mode;
  const int wi = c.Pick(11);
  return {.alpha = a[mode], .beta = b[mode], .gamma = g[mode], .delta = d[mode], .w_idx_offset = mode >= 4 ? 1 : -1, .w_idx_used = wi, .w = w[wi], .in_bitstream = present};
}

struct Input {
  it::LabeledFrame frame;
  bool good = true;
  size_t ticks = 0;
  std::vector<std::vector<double>> x;  // trimmed, by channel of Case::in
  it::DownMixingParams dm;
};

Input DrawFrame(Ctx& c, const Case& k, uint32_t serial) {
  Input r;
  r.dm = DrawDemix(c, c.Pick(2) == 1);
  if (!k.demix) r.dm.in_bitstream = false;
  r.frame = {};
  r.frame.demixing_params = r.dm;
  size_t n = k.spf;
  if (c.Pick(5) == 4) n = c.Pick(k.spf + 1);
  uint32_t ts = 0, te = 0;
  if (c.Pick(4) == 3) { ts = c.Pick(n + 1); te = c.Pick(n - ts + 1); c.Count("trimmed_frames"); }
  const uint64_t salt = c.Bits();
  const bool silent = c.Pick(8) == 7;
  auto value = [&](size_t ch, size_t t) {
    if (silent) return 0.0;
    return static_cast<double>(static_cast<int64_t>(Ctx::Mix(salt + ch * 1000003 + t * 17 + serial * 7919) >> 11)) / 4503599627370496.0 - 1.0;
  };
  std::map<Label, size_t> seen;
  std::vector<Label> present;
  for (Label l : k.in) if (l != L::kOmitted && !seen.count(l)) { const size_t i = seen.size(); seen[l] = i; present.push_back(l); }
  const bool demixed = c.Pick(3) == 2;
  auto name = [&](Label l) { const Label d = Demixed(l); return demixed && d != L::kOmitted && (salt >> (seen[l] & 31) & 1) ? d : l; };
  for (Label l : present) {
    auto& v = r.frame.label_to_samples[name(l)];
    for (size_t t = 0; t < n; ++t) v.push_back(value(seen[l], t));
  }
  // Both a channel and its demixed version: the channel counts.
  if (c.Pick(6) == 5)
    for (Label l : present) {
      const Label d = Demixed(l);
      if (d != L::kOmitted && !r.frame.label_to_samples.count(d)) r.frame.label_to_samples[d].assign(n, 0.123);
    }
  if (c.Pick(4) == 3)
    for (Label l : k.also) if (!seen.count(l) && !r.frame.label_to_samples.count(l)) r.frame.label_to_samples[l].assign(c.Pick(k.spf + 2), 0.77);
  // Trims that are not asked for must have no effect, whatever they say.
  r.frame.samples_to_trim_at_start = ts;
  r.frame.samples_to_trim_at_end = te;
  if (!k.trimming.trim_beginning && c.Pick(4) == 3) r.frame.samples_to_trim_at_start = 1000 + c.Pick(4);
  if (!k.trimming.trim_end && c.Pick(4) == 3) r.frame.samples_to_trim_at_end = 0xffffffffu;
  if (!k.trimming.trim_beginning) ts = 0;
  if (!k.trimming.trim_end) te = 0;
  if (c.Pick(8) == 7) {
    switch (c.Pick(5)) {
      case 0: r.frame.label_to_samples.erase(name(present[c.Pick(present.size())])); r.good = false;
              { bool all = true; for (Label l : present) if (!r.frame.label_to_samples.count(l) && !(Demixed(l) != L::kOmitted && r.frame.label_to_samples.count(Demixed(l)))) all = false; if (all) r.good = true; }
              if (r.good) { r.good = false; for (Label l : present) { r.frame.label_to_samples.erase(l); r.frame.label_to_samples.erase(Demixed(l)); } }
              break;
      case 1: if (present.size() > 1) { r.frame.label_to_samples[name(present[c.Pick(present.size())])].push_back(0.5); r.good = false; } break;
      case 2: for (Label l : present) r.frame.label_to_samples[name(l)].resize(k.spf + 1 + c.Pick(3), 0.5); r.good = false; break;
      case 3: if (k.trimming.trim_beginning) { r.frame.samples_to_trim_at_start = n - te + 1 + c.Pick(3); r.good = false; } break;
      case 4: if (k.trimming.trim_end && k.trimming.trim_beginning) { r.frame.samples_to_trim_at_start = 0x80000001u; r.frame.samples_to_trim_at_end = 0x80000000u; r.good = false; } break;
    }
    if (!r.good) c.Fault("bad_frame");
  }
  r.ticks = r.good ? n - ts - te : 0;
  for (Label l : k.in) {
    std::vector<double> v(r.ticks);
    if (l != L::kOmitted) for (size_t t = 0; t < r.ticks; ++t) v[t] = value(seen[l], t + ts);
    r.x.push_back(v);
  }
  return r;
}

void Gains(Ctx& c) {
  for (int i = 0; i < 2; ++i) {
    const auto& g = gains::kGolden[c.Pick(gains::kNumGolden)];
    const Matrix& want = *gains::Find(g.in, g.out);
    const auto got = it::GetGainsForLayoutPair(g.in, g.out);
    c.Check(got.ok(), "gains-of-layouts", Fmt("%s to %s not found", g.in, g.out));
    c.Check(got->size() == want.size() && (*got)[0].size() == want[0].size(), "gains-of-layouts", Fmt("%s to %s has the wrong size", g.in, g.out));
    for (size_t a = 0; a < want.size(); ++a) for (size_t b = 0; b < want[a].size(); ++b)
      c.Check((*got)[a].size() == want[a].size() && std::abs((*got)[a][b] - want[a][b]) <= 1e-6, "gains-of-layouts", Fmt("%s to %s: %zu to %zu is %g, %g published", g.in, g.out, a, b, (*got)[a][b], want[a][b]));
  }
  const std::string in = c.Pick(2) ? "A5" : gains::SystemKey(c.Pick(15)), out = gains::SystemKey(c.Pick(15));
  if (!gains::Find(in, out)) c.Check(!it::GetGainsForLayoutPair(in, out).ok(), "gains-of-layouts", in + " to " + out + " is made up");
  if (c.Pick(256) == 255) {
    const auto all = it::InitPrecomputedGains();
    for (auto& g : gains::kGolden) {
      const auto a = all.find(g.in);
      c.Check(a != all.end() && a->second.count(g.out), "gains-of-layouts", Fmt("%s to %s not in the table", g.in, g.out));
      const Matrix& got = a->second.at(g.out);
      const Matrix& want = *gains::Find(g.in, g.out);
      c.Check(got.size() == want.size(), "gains-of-layouts", Fmt("%s to %s has the wrong size in the table", g.in, g.out));
      for (size_t x = 0; x < want.size(); ++x) {
        c.Check(got[x].size() == want[x].size(), "gains-of-layouts", Fmt("%s to %s has the wrong size in the table", g.in, g.out));
        for (size_t y = 0; y < want[x].size(); ++y) c.Check(std::abs(got[x][y] - want[x][y]) <= 1e-6, "gains-of-layouts", Fmt("%s to %s: %zu to %zu is %g in the table, %g published", g.in, g.out, x, y, got[x][y], want[x][y]));
      }
    }
  }
}

void Run(Ctx& c) {
  Gains(c);
  Case k;
  DrawCase(c, k);
  bool obr_fails = c.Pick(16) == 15, fired = false;
  CodecFaults faults([&](int) { if (!obr_fails) return false; fired = true; c.Fault("binaural_library_failure"); return true; });
  const long live = simtp::live_handles;
  {
    auto r = it::RendererFactory(k.trimming).CreateRendererForLayout(k.subs, k.map, k.type, k.config, k.rendering, k.layout, k.spf, k.rate);
    if (k.how == Case::kNone || fired) {
      c.Check(r == nullptr, "renderer-for-layout", "a renderer where none is defined");
      c.Count("no_renderer");
      return;
    }
    c.Check(r != nullptr, "renderer-for-layout", "no renderer");
    const uint32_t frames = 1 + c.Pick(5);
    std::vector<Input> in;
    for (uint32_t i = 0; i < frames; ++i) in.push_back(DrawFrame(c, k, i));
    // What has to come out.
    std::vector<std::vector<double>> want(k.outs), tol(k.outs);
    std::vector<size_t> cut;  // the number of ticks once each frame is in
    float last[2] = {0, 0};
    bool blurred = false;
    for (auto& f : in) {
      if (f.good) {
        if (k.how == Case::kPass) {
          for (size_t o = 0; o < k.outs; ++o) { want[o].insert(want[o].end(), f.x[o].begin(), f.x[o].end()); tol[o].resize(want[o].size(), 0); }
        } else if (k.how == Case::kMatrix) {
          Matrix m = k.m;
          if (k.dynamic && f.dm.in_bitstream) {
            const auto& d = f.dm;
            m.assign(12, std::vector<double>(k.outs, 0.0));
            for (int i = 0; i < 4; ++i) m[i][i] = 1;
            if (k.to_712) {
              for (int i = 4; i < 10; ++i) m[i][i] = 1;
              m[10][8] = m[11][9] = d.gamma;
            } else {
              for (int e = 0; e < 2; ++e) {
                m[4 + e][e] = d.alpha * d.delta;
                m[4 + e][4 + e] = d.alpha * d.w * d.delta;
                m[6 + e][e] = d.beta * d.delta;
                m[6 + e][4 + e] = d.beta * d.w * d.delta;
                m[8 + e][4 + e] = 1;
                m[10 + e][4 + e] = d.gamma;
              }
            }
            c.Count("dynamic_gains");
          }
          for (size_t o = 0; o < k.outs; ++o) for (size_t t = 0; t < f.ticks; ++t) {
            double y = 0, s = 1e-12;
            for (size_t i = 0; i < m.size(); ++i) { y += f.x[i][t] * m[i][o]; s += std::abs(f.x[i][t]) * k.slack[i][o]; }
            want[o].push_back(y);
            tol[o].push_back(s);
          }
        } else {
          std::vector<std::vector<double>> x = f.x;
          if (!k.m.empty()) {
            x.assign(k.m[0].size(), std::vector<double>(f.ticks));
            for (size_t o = 0; o < x.size(); ++o) for (size_t t = 0; t < f.ticks; ++t) for (size_t i = 0; i < k.m.size(); ++i) x[o][t] += f.x[i][t] * k.m[i][o];
          }
          for (size_t t = 0; t < f.ticks; ++t) {
            float m[2] = {0, 0};
            for (size_t i = 0; i < x.size(); ++i) m[i & 1] += static_cast<float>(x[i][t]) / (1.0f + i);
            for (int e = 0; e < 2; ++e) {
              want[e].push_back(0.5f * m[e] + 0.25f * m[1 - e] + 0.125f * last[e]);
              tol[e].push_back(blurred && t == 0 ? 1e9 : 1e-4);
            }
            for (int e = 0; e < 2; ++e) last[e] = m[e];
          }
          // The library is always given whole blocks; what follows a short one
          // depends on how the rest of it is filled.
          if (f.ticks < k.spf) blurred = true;
          else blurred = false;
        }
      }
      cut.push_back(want[0].size());
    }
    // The threads.
    std::vector<std::vector<double>> got;
    bool done = false;
    size_t accepted = 0, started = 0;
    const bool fresh = c.Pick(2) == 1;  // a new vector for every collection
    const uint32_t idle = c.Pick(3);
    std::vector<std::function<void()>> tasks = {
        [&] {
          for (auto& f : in) {
            c.Check(!r->IsFinalized(), "finalized-when-announced", "finalized while frames are added");
            absl::StatusOr<size_t> n;
            {
              auto own = std::make_unique<it::LabeledFrame>(f.frame);
              ++started;
              n = r->RenderLabeledFrame(*own);
              for (auto& [l, v] : own->label_to_samples) std::fill(v.begin(), v.end(), 0.99);
            }
            ++accepted;
            c.Check(n.ok() == f.good, "frame-accepted", f.good ? "a good frame is refused: " + std::string(n.status().message()) : "a bad frame is accepted");
            if (n.ok()) c.Check(*n == f.ticks, "ticks-reported", Fmt("%zu reported, %zu to render", *n, f.ticks));
            for (uint32_t i = 0; i < idle; ++i) TaskYield();
          }
          c.Check(r->Finalize().ok(), "finalize-succeeds", "");
          done = true;
          c.Check(r->IsFinalized(), "finalized-when-announced", "not finalized after Finalize()");
        },
        [&] {
          for (;;) {
            const bool was_done = r->IsFinalized();
            const size_t floor = accepted ? cut[accepted - 1] : 0;
            const size_t before = got.empty() ? 0 : got[0].size();
            if (fresh) {
              std::vector<std::vector<double>> v;
              r->Flush(v);
              if (got.empty()) got.resize(v.size());
              c.Check(v.size() == got.size(), "channels", Fmt("%zu and then %zu", got.size(), v.size()));
              for (size_t o = 0; o < v.size(); ++o) got[o].insert(got[o].end(), v[o].begin(), v[o].end());
            } else {
              r->Flush(got);
            }
            c.Check(got.size() == k.outs, "channels", Fmt("%zu for a layout of %zu", got.size(), k.outs));
            for (auto& ch : got) {
              c.Check(ch.size() == got[0].size(), "channels", "the channels have different numbers of samples");
              c.Check(ch.size() >= floor, "rendered-frames-are-handed-over", Fmt("%zu ticks although %zu were rendered before", ch.size(), floor));
              c.Check(ch.size() <= (started ? cut[started - 1] : 0), "each-frame-once", Fmt("%zu ticks of at most %zu", ch.size(), started ? cut[started - 1] : 0));
            }
            if (got[0].size() > before && !done) c.nontrivial = true;
            if (was_done) break;
            if (got[0].size() == before) TaskYield();
          }
        }};
    if (c.Pick(4) == 3)
      tasks.push_back([&] {
        for (int i = 0; i < 8; ++i) {
          const bool d = done;
          c.Check(r->IsFinalized() || !d, "finalized-when-announced", "no longer finalized");
          TaskYield();
        }
      });
    RunTasks(c, tasks, "deadlock");
    c.Log("%zu frames, %zu ticks of %zu", in.size(), got.empty() ? 0 : got[0].size(), want[0].size());
    for (size_t o = 0; o < k.outs; ++o) {
      c.Check(got[o].size() == want[o].size(), "each-frame-once", Fmt("channel %zu: %zu ticks of %zu", o, got[o].size(), want[o].size()));
      for (size_t t = 0; t < want[o].size(); ++t)
        c.Check(std::abs(got[o][t] - want[o][t]) <= tol[o][t], "rendered-values", Fmt("channel %zu tick %zu: %.9g, expected %.9g", o, t, got[o][t], want[o][t]));
    }
    std::vector<std::vector<double>> rest;
    r->Flush(rest);
    for (auto& ch : rest) c.Check(ch.empty(), "each-frame-once", "samples after everything was collected");
    c.Count("frames", in.size());
    for (auto& ch : want) c.NoteBytes("want", ch.data(), ch.size() * sizeof(double));
    c.SimTime(double(k.spf) * in.size() / k.rate);
  }
  c.Check(simtp::live_handles == live, "library-leak", "the binaural library is not released");
}

DST_PROPERTY(R01)({"R01", "", Run, 36000, 2000000, "samples were collected while frames were being added",
                   {"iamf/cli/renderer (all audio element renderers)", "iamf/cli/renderer_factory.cc", "iamf/cli/renderer/gains", "iamf/cli/sample_processing_utils.cc", "iamf/cli/labeled_frame.cc", "iamf/cli/channel_label.cc", "iamf/obu/ambisonics_config.cc"},
                   {"obr (simulated binaural renderer)", "threads (cooperative tasks under the seeded scheduler; absl::Mutex operations and static initialisation are scheduling points)"}, true, true});
}  // namespace
}  // namespace dst
