// D08: what is played is the mix that the bitstream describes.
#include <cmath>

#include "decode_common.h"
#include "gains_model.h"

namespace dst {
namespace {
namespace g = dst::gen;

constexpr double kAlpha[] = {1, 0.707, 1, 0, 1, 0.707, 1}, kBeta[] = {1, 0.707, 0.866, 0, 1, 0.707, 0.866}, kGamma[] = {0.707, 0.707, 0.866, 0, 0.707, 0.707, 0.866};
constexpr double kW[] = {0, 0.0179, 0.0391, 0.0658, 0.1038, 0.25, 0.3962, 0.4342, 0.4609, 0.4821, 0.5};

// The blocks of a temporal unit by parameter.
using Blocks = std::map<uint32_t, const g::Block*>;

struct Gain { double linear, slack; };  // slack: relative
// The gain of a parameter at a tick of the frame, trimmed or not.
Gain GainAt(const g::ParamDef& d, const Blocks& blocks, uint32_t tick) {
  double db = d.gain / 256.0, err = 0;
  if (auto it = blocks.find(d.id); it != blocks.end()) {
    uint32_t start = 0;
    for (auto& s : it->second->subs) {
      if (tick >= start + s.duration) { start += s.duration; continue; }
      const double p0 = s.start / 256.0, p2 = s.end / 256.0, p1 = s.control / 256.0;
      const double n = tick - start, n2 = s.duration;
      if (s.anim == 0) db = p0;
      else if (s.anim == 1) { db = p0 + (p2 - p0) * n / n2; err = 1e-6 * (std::abs(p0) + std::abs(p2)); }
      else {
        const double n1 = std::floor(n2 * (s.rel / 256.0) + 0.5);
        const double a2 = n2 - 2 * n1, b = 2 * n1;
        // The root of a2 a^2 + b a - n = 0 in [0, 1], without cancellation.
        const double root = std::sqrt(b * b + 4 * a2 * n);
        const double a = n == 0 ? 0 : 2 * n / (b + root);
        db = (1 - a) * (1 - a) * p0 + 2 * (1 - a) * a * p1 + a * a * p2;
        const double da = a2 == 0 ? 1e-6 : 1e-6 * (b + root + 1) / std::abs(2 * a2) * (root > 0 ? 1 + b / root : 1e3);
        err = 2 * da * (std::abs(p1 - p0) + std::abs(p2 - p1)) + 1e-6 * (std::abs(p0) + 2 * std::abs(p1) + std::abs(p2));
      }
      break;
    }
  }
  return {std::pow(10.0, db / 20), 0.1152 * err * 1.1 + 2e-6 * (1 + std::abs(db) / 20)};
}

// An element as heard on a layout: what it takes from the carried channels.
struct Source {
  const g::Element* e = nullptr;
  enum { kUndefined, kPass, kMatrix } how = kUndefined;
  std::vector<std::string> in;   // names of the channels; "" for silence
  const gains::Matrix* golden = nullptr;
  int layer = -1;                // the highest layer that is needed
  int dynamic = 0;               // 10 or 11: gains follow the demixing parameters
  const g::ParamDef* demix = nullptr;
  bool uses_demix = false;
};

std::vector<std::string> LayerNames(int layout) {
  static const std::vector<std::vector<std::string>> t = {
      {"M"}, {"L2", "R2"}, {"L5", "R5", "C", "LFE", "Ls5", "Rs5"}, {"L5", "R5", "C", "LFE", "Ls5", "Rs5", "Ltf2", "Rtf2"},
      {"L5", "R5", "C", "LFE", "Ls5", "Rs5", "Ltf4", "Rtf4", "Ltb4", "Rtb4"}, {"L7", "R7", "C", "LFE", "Lss7", "Rss7", "Lrs7", "Rrs7"},
      {"L7", "R7", "C", "LFE", "Lss7", "Rss7", "Lrs7", "Rrs7", "Ltf2", "Rtf2"}, {"L7", "R7", "C", "LFE", "Lss7", "Rss7", "Lrs7", "Rrs7", "Ltf4", "Rtf4", "Ltb4", "Rtb4"},
      {"L3", "R3", "C", "LFE", "Ltf3", "Rtf3"}, {"L2", "R2"}};
  return t[layout];
}
// The name that tells a channel apart from those of other layers.
std::string FullName(const g::Element& e, size_t layer, const std::string& l) {
  if (e.layers[layer].layout == 15) return l;
  const auto& i = g::Info(e.layers[layer].layout);
  if (l == "L" || l == "R") return l + std::to_string(i.surround);
  if (l == "Ls" || l == "Rs") return l + "5";
  if (l == "Lss" || l == "Rss" || l == "Lrs" || l == "Rrs") return l + "7";
  if (l == "Ltf" || l == "Rtf") return l + (i.height == 4 ? "4" : i.surround == 3 ? "3" : "2");
  if (l == "Ltb" || l == "Rtb") return l + "4";
  return l;
}
bool OutputGainApplies(int flag, const std::string& n) {
  if (n == "M" || n == "L2" || n == "L3") return flag >> 5 & 1;
  if (n == "R2" || n == "R3") return flag >> 4 & 1;
  if (n == "Ls5") return flag >> 3 & 1;
  if (n == "Rs5") return flag >> 2 & 1;
  if (n == "Ltf2" || n == "Ltf3") return flag >> 1 & 1;
  if (n == "Rtf2" || n == "Rtf3") return flag & 1;
  return false;
}

using Values = std::map<std::string, std::vector<double>>;
struct Demix { double alpha = 0, beta = 0, gamma = 0, delta = 0, w = 0; };
// The channel, as carried or from those of the layers.
const std::vector<double>& Channel(Values& v, const std::string& n, const Demix& d, bool& used) {
  if (auto it = v.find(n); it != v.end()) return it->second;
  auto get = [&](const std::string& x) { return Channel(v, x, d, used); };
  std::vector<double> r;
  const std::string s = n.substr(0, 1);  // side
  auto fill = [&](const std::vector<double>& a, const std::vector<double>& b, auto f) { for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) r.push_back(f(a[i], b[i])); };
  if (n == "R2") fill(get("M"), get("L2"), [](double m, double l) { return 2 * m - l; });
  else if (n == "L3" || n == "R3") fill(get(s + "2"), get("C"), [](double x, double c) { return x - 0.707 * c; });
  else if (n == "Ls5" || n == "Rs5") { used = true; fill(get(s + "3"), get(s + "5"), [&](double x, double y) { return (x - y) / d.delta; }); }
  else if (n == "L7" || n == "R7") r = get(s + "5");
  else if (n == "Lrs7" || n == "Rrs7") { used = true; fill(get(s + "s5"), get(s + "ss7"), [&](double x, double y) { return (x - d.alpha * y) / d.beta; }); }
  else if (n == "Ltf2" || n == "Rtf2") {
    used = true;
    std::vector<double> x;
    const auto a = get(s + "3"), b = get(s + "5");
    for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) x.push_back(d.w * (a[i] - b[i]));
    fill(get(s + "tf3"), x, [](double t, double y) { return t - y; });
  } else if (n == "Ltb4" || n == "Rtb4") { used = true; fill(get(s + "tf2"), get(s + "tf4"), [&](double x, double y) { return (x - y) / d.gamma; }); }
  return v[n] = r;
}
// Whether all channels can be had, and what for.
bool Reachable(const g::Element& e, const std::vector<std::string>& names, bool& used, bool& derived) {
  Values v;
  size_t at = 0;
  for (size_t l = 0; l < e.layers.size(); ++l)
    for (int i = 0; i < e.layers[l].substreams; ++i, ++at)
      for (auto& x : e.labels[at]) v[FullName(e, l, x)] = {0.0};
  const size_t have = v.size();
  std::set<std::string> raw;
  for (auto& [n, x] : v) raw.insert(n);
  (void)have;
  for (auto& n : names) {
    if (n.empty()) continue;
    if (!raw.count(n)) derived = true;
    if (Channel(v, n, {1, 1, 1, 1, 1}, used).empty()) return false;
  }
  return true;
}

Source SourceOf(const g::Element& e, int mode, int ss) {
  Source r;
  r.e = &e;
  const bool headphones = ss == 14 && mode == 1;
  const int sys = ss == 14 ? 0 : ss;
  const std::string key = gains::SystemKey(sys);
  for (auto& p : e.params) if (p.type == 1) r.demix = &p;
  auto matrix = [&](const std::string& in) { r.golden = gains::Find(in, key); if (r.golden) r.how = Source::kMatrix; };
  if (e.type == 0 && e.layers[0].layout == 15) {
    const int from = gains::SystemOfExpanded(e.layers[0].expanded);
    if (headphones || from >= 14) return r;
    std::set<std::string> have;
    for (auto& l : e.labels) have.insert(l.begin(), l.end());
    for (auto& l : dec::LayoutChannels(from)) r.in.push_back(have.count(l) ? l : "");
    if (from == sys) r.how = Source::kPass; else matrix(gains::SystemKey(from));
    if (r.demix) r.how = Source::kUndefined;
  } else if (e.type == 0) {
    for (size_t l = 0; l < e.layers.size(); ++l) {
      const int layout = e.layers[l].layout;
      if (layout == 9 ? headphones || sys == 0 : !headphones && gains::SystemOfLayout(layout) == sys) {
        r.how = Source::kPass;
        r.layer = l;
        break;
      }
    }
    if (r.how == Source::kUndefined) {
      r.layer = e.layers.size() - 1;
      if (headphones || e.layers[r.layer].layout == 9) return r;
      matrix(gains::LayoutKey(e.layers[r.layer].layout));
      if (e.layers[r.layer].layout == 7 && (sys == 10 || sys == 11) && r.demix) r.dynamic = sys;
    }
    r.in = LayerNames(e.layers[r.layer].layout);
    bool derived = false;
    if (!Reachable(e, r.in, r.uses_demix, derived)) r.how = Source::kUndefined;
    if (r.uses_demix && !r.demix) r.how = Source::kUndefined;
    // Reconstruction gains are not modelled.
    if (derived) for (auto& l : e.layers) if (l.rg) r.how = Source::kUndefined;
  } else if (e.type == 1) {
    if (headphones) return r;
    int order = 0;
    while ((order + 1) * (order + 1) < e.ambi_out) ++order;
    matrix(Fmt("A%d", order));
    r.in.resize(e.ambi_out);
  }
  return r;
}

// One channel of an element: values, and how far off they may be.
struct Rendered { std::vector<std::vector<double>> y, slack; };

Rendered Render(const Source& s, const std::map<uint32_t, const g::Frame*>& frames, const Demix& d, size_t outs, uint32_t spf) {
  const g::Element& e = *s.e;
  std::vector<std::vector<double>> x;  // by channel of `in`
  auto carried = [&](size_t sub, int ch) {
    std::vector<double> v;
    for (int32_t p : frames.at(e.substreams[sub])->pcm[ch]) v.push_back(p / 2147483648.0);
    return v;
  };
  if (e.type == 0) {
    Values v;
    size_t at = 0;
    for (size_t l = 0; l < e.layers.size(); ++l)
      for (int i = 0; i < e.layers[l].substreams; ++i, ++at)
        for (size_t k = 0; k < e.labels[at].size(); ++k) {
          const std::string n = FullName(e, l, e.labels[at][k]);
          auto c = carried(at, k);
          if (e.layers[l].og && OutputGainApplies(e.layers[l].og_flag, e.layers[l].layout == 15 && (n == "Ls" || n == "Rs") ? n + "5" : n)) for (auto& q : c) q *= std::pow(10.0, e.layers[l].og_gain / 256.0 / 20);
          v[n] = c;
        }
    bool used = false;
    for (auto& n : s.in) x.push_back(n.empty() ? std::vector<double>(spf) : Channel(v, n, d, used));
  } else if (e.ambi_mode == 0) {
    for (int i = 0; i < e.ambi_out; ++i) x.push_back(e.mapping[i] == 255 ? std::vector<double>(spf) : carried(e.mapping[i], 0));
  } else {
    std::vector<std::vector<double>> in;
    for (size_t i = 0; i < e.substreams.size(); ++i) for (int k = 0; k < e.Channels(i); ++k) in.push_back(carried(i, k));
    x.assign(e.ambi_out, std::vector<double>(spf));
    for (size_t i = 0; i < in.size(); ++i) for (int o = 0; o < e.ambi_out; ++o) for (uint32_t t = 0; t < spf; ++t) x[o][t] += in[i][t] * (e.matrix[i * e.ambi_out + o] / 32768.0);
  }
  Rendered r;
  r.y.assign(outs, std::vector<double>(spf));
  r.slack = r.y;
  gains::Matrix m(x.size(), std::vector<double>(outs));
  if (s.how == Source::kPass) for (size_t i = 0; i < outs; ++i) m[i][i] = 1;
  else if (s.dynamic) {
    for (int i = 0; i < 4; ++i) m[i][i] = 1;
    if (s.dynamic == 10) {
      for (int i = 4; i < 10; ++i) m[i][i] = 1;
      m[10][8] = m[11][9] = d.gamma;
    } else {
      for (int k = 0; k < 2; ++k) {
        m[4 + k][k] = d.alpha * d.delta;
        m[4 + k][4 + k] = d.alpha * d.w * d.delta;
        m[6 + k][k] = d.beta * d.delta;
        m[6 + k][4 + k] = d.beta * d.w * d.delta;
        m[8 + k][4 + k] = 1;
        m[10 + k][4 + k] = d.gamma;
      }
    }
  } else m = *s.golden;
  const double per = s.how == Source::kMatrix && !s.dynamic ? 1e-6 : 1e-9;
  for (size_t i = 0; i < x.size(); ++i) for (size_t o = 0; o < outs; ++o) for (uint32_t t = 0; t < spf; ++t) {
    r.y[o][t] += x[i][t] * m[i][o];
    r.slack[o][t] += std::abs(x[i][t]) * per;
  }
  return r;
}

void Run(Ctx& c) {
  g::Stream s;
  g::Generator(c, {.decodable = true, .lossless = true, .plain_first = c.Pick(4) == 3, .junk = c.Pick(3) == 2, .max_tus = 5}).Run(s);
  if (!s.num_tus) { c.Count("no_units"); return; }
  dec::Settings set = dec::DrawSettings(c, s, {.any_profiles = false, .any_mix = false});
  // A mix and a layout for which every element has a defined sound.
  struct Choice { size_t mix; int ss; std::vector<Source> sources; };
  std::vector<Choice> choices;
  for (size_t m = 0; m < s.mixes.size(); ++m)
    for (int ss = 0; ss < 15; ++ss) {
      Choice k{m, ss, {}};
      bool ok = true;
      for (auto& me : s.mixes[m].subs[0].elements)
        for (auto& e : s.elements) if (e.id == me.id) { k.sources.push_back(SourceOf(e, me.mode, ss)); ok &= k.sources.back().how != Source::kUndefined; }
      if (ok) choices.push_back(k);
    }
  if (choices.empty()) { c.Count("nothing_defined"); return; }
  std::vector<Choice> rare;
  for (auto& x : choices) for (auto& q : x.sources) if (q.uses_demix || q.dynamic || q.layer > 0) { rare.push_back(x); break; }
  const Choice k = c.OneOf(!rare.empty() && c.Pick(4) ? rare : choices);
  const g::Mix& mix = s.mixes[k.mix];
  const g::SubMix& sub = mix.subs[0];
  set.requested_mix.mix_presentation_id = mix.id;
  set.requested_mix.output_layout = static_cast<dec::api::OutputLayout>(k.ss);
  const bool from = c.Pick(3) == 2;
  const g::Bytes desc = s.Descriptors();
  const auto chunks = from ? dec::DrawUnitChunks(c, s) : dec::DrawChunks(c, s);
  const int policy = c.Pick(3);
  if (c.verbose) c.Log("%s %s", dec::Describe(s).c_str(), dec::Str(set).c_str());
  dec::Player p(c, set, from ? &desc : nullptr, c.Bits());
  const dec::Outcome o = dec::PlayAll(c, p, chunks, policy);
  // Known finding: a substream of mono ambisonics which is mapped to several channels is taken for one with as many channels.
  bool shared = false;
  for (auto& src : k.sources) if (src.e->type == 1 && src.e->ambi_mode == 0) {
    std::set<int> seen;
    for (int m : src.e->mapping) shared |= m != 255 && !seen.insert(m).second;
  }
  if (shared) {
    c.Count("shared_ambisonics_substream");
    if (c.Pick(8) != 7) return;
  }
  auto check = [&](bool ok, const char* oracle, const std::string& detail) { c.Check(ok, shared ? "shared-ambisonics-substream" : oracle, detail); };
  check(!o.error, "valid-stream-decodes", "failed at " + o.at);
  check(o.report.mix_ok && o.report.mix == mix.id && o.report.layout == k.ss, "reported-mix", o.report.Str());
  // The model.
  const auto order = dec::OutputOrder(k.ss, set.channel_ordering == dec::api::ChannelOrdering::kOrderingForAndroid && k.ss != 14);
  const size_t outs = order.size();
  const bool s16 = set.requested_output_sample_type == dec::api::OutputSampleType::kInt16LittleEndian;
  std::vector<std::map<uint32_t, const g::Frame*>> frames(s.num_tus);
  std::vector<Blocks> blocks(s.num_tus);
  for (auto& q : s.pieces) {
    if (q.what == g::Piece::kAudio) frames[q.tu][s.frames[q.index].substream] = &s.frames[q.index];
    if (q.what == g::Piece::kBlock) blocks[q.tu][s.blocks[q.index].def->id] = &s.blocks[q.index];
  }
  std::map<const g::Element*, int> w_idx;
  size_t unit = 0;
  for (int t = 0; t < s.num_tus; ++t) {
    const g::Frame& any = *frames[t].begin()->second;
    const uint32_t spf = any.codec->spf;
    const uint32_t begin = set.trimming_settings.trim_beginning ? any.trim_start : 0, end = spf - (set.trimming_settings.trim_end ? any.trim_end : 0);
    std::vector<std::vector<double>> y(outs, std::vector<double>(spf)), slack = y;
    for (size_t i = 0; i < k.sources.size(); ++i) {
      const Source& src = k.sources[i];
      Demix d;
      if (src.demix) {
        int mode = src.demix->dmode, w = src.demix->w;
        if (auto b = blocks[t].find(src.demix->id); b != blocks[t].end()) {
          mode = b->second->subs[0].dmode;
          auto [it, first] = w_idx.try_emplace(src.e, 0);
          if (!first) it->second = std::clamp(it->second + (mode >= 4 ? 1 : -1), 0, 10);
          w = it->second;
          if (src.uses_demix || src.dynamic) c.Count("demixing_blocks");
        }
        d = {kAlpha[mode], kBeta[mode], kGamma[mode], kGamma[mode], kW[w]};
      }
      const Rendered r = Render(src, frames[t], d, outs, spf);
      for (uint32_t n = begin; n < end; ++n) {
        const Gain q = GainAt(sub.elements[i].gain, blocks[t], n);
        for (size_t ch = 0; ch < outs; ++ch) {
          const double v = r.y[ch][n] * q.linear;
          y[ch][n] += v;
          slack[ch][n] += r.slack[ch][n] * q.linear + std::abs(v) * q.slack;
        }
      }
    }
    if (end <= begin) continue;
    check(unit < o.units.size(), "units-of-the-mix", Fmt("unit %zu is missing", unit));
    const auto& got = o.units[unit++];
    const int width = s16 ? 2 : 4;
    check(got.size() == size_t{end - begin} * outs * width, "units-of-the-mix", Fmt("unit %zu: %zu bytes, %zu expected", unit - 1, got.size(), size_t{end - begin} * outs * width));
    bool sound = false;
    for (uint32_t n = begin; n < end; ++n) {
      const Gain q = GainAt(sub.out_gain, blocks[t], n);
      for (size_t x = 0; x < outs; ++x) {
        const double v = y[order[x]][n] * q.linear, tol = slack[order[x]][n] * q.linear + std::abs(v) * (q.slack + 1e-12);
        auto fixed = [](double f) { return static_cast<int64_t>(std::clamp(std::floor(f), -2147483648.0, 2147483647.0)); };
        int64_t lo = fixed(v * 2147483648.0 - tol * 2147483648.0 - 1), hi = fixed(v * 2147483648.0 + tol * 2147483648.0 + 1);
        if (s16) { lo >>= 16; hi >>= 16; }
        int64_t is = 0;
        const uint8_t* b = &got[(size_t{n - begin} * outs + x) * width];
        for (int i = width; i--;) is = is << 8 | b[i];
        is = s16 ? static_cast<int16_t>(is) : static_cast<int32_t>(is);
        check(lo <= is && is <= hi, "mixed-samples", Fmt("unit %zu (temporal unit %d), tick %u of the frame, output channel %zu: %lld, expected %lld to %lld", unit - 1, t, n, x, static_cast<long long>(is), static_cast<long long>(lo), static_cast<long long>(hi)));
        if (lo > -1000 && hi - lo < 100000 && std::abs(is) > 1) sound = true;
      }
    }
    if (sound) c.nontrivial = true;
  }
  check(unit == o.units.size(), "units-of-the-mix", Fmt("%zu units, %zu expected", o.units.size(), unit));
  for (auto& src : k.sources) {
    c.Count(src.e->type == 1 ? (src.e->ambi_mode ? "projected_ambisonics" : "mono_ambisonics") : src.how == Source::kPass ? (src.layer > 0 ? "upper_layer" : "own_layout") : src.dynamic ? "dynamic_gains" : "rendered_layout");
    if (src.uses_demix) c.Count("demixed");
  }
  if (k.sources.size() > 1) c.Count("several_elements");
  c.State(Ctx::Mix(dec::ShapeOf(s) ^ (k.ss * 64 + policy * 8 + from)));
  const auto& codec = s.CodecOf(*k.sources[0].e);
  c.SimTime(double(codec.spf) * s.num_tus / codec.rate);
}

DST_PROPERTY(D08)({"D08", "", Run, 45000, 3000000, "at least one unit with sound was compared with the model of the mix",
                   {"iamf/api/decoder", "iamf/cli/obu_processor.cc", "iamf/cli/descriptor_obu_parser.cc", "iamf/cli/audio_frame_decoder.cc", "iamf/cli/codec (LPCM, FLAC decoders)", "iamf/cli/parameters_manager.cc", "iamf/cli/demixing_manager.cc", "iamf/cli/demixer.cc", "iamf/cli/rendering_mix_presentation_finalizer.cc", "iamf/cli/renderer", "iamf/obu", "iamf/common"},
                   {"libFLAC (simulated)", "clock (simulated)", "Abseil hash order (salted per run)"}});
}  // namespace
}  // namespace dst
