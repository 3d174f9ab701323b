// P01: probing reports the facts the stream was built from, the same however
// the bytes arrive, and the JSON text is well formed and carries those facts.
#include <algorithm>
#include <cmath>
#include <functional>

#include "absl/types/span.h"
#include "core.h"
#include "iamf/cli/probe.h"
#include "iamf/cli/probe_json.h"
#include "iamf_gen.h"
#include "wav_model.h"

namespace dst {
namespace {
using namespace iamf_tools;  // report structs
namespace g = dst::gen;

// ------------------------------------------------------------ value tree ---
struct Entry;
struct V {
  enum T { kNull, kBool, kInt, kReal, kText, kList, kMap, kAbsent } t = kNull;
  bool b = false;
  std::string s;     // integer in decimal, or text
  double d = 0;
  std::vector<V> list;
  std::vector<Entry> map;
  const V* Get(const std::string& k) const;
};
struct Entry { std::string first; V second; };
const V* V::Get(const std::string& k) const {
  for (auto& [n, v] : map) if (n == k) return &v;
  return nullptr;
}
void Put(V& m, const std::string& k, V v) { m.map.push_back({k, std::move(v)}); }
V Int(uint64_t v) { V r; r.t = V::kInt; r.s = std::to_string(v); return r; }
V SInt(int64_t v) { V r; r.t = V::kInt; r.s = std::to_string(v); return r; }
V Real(double v) { V r; r.t = V::kReal; r.d = v; return r; }
V Boolean(bool v) { V r; r.t = V::kBool; r.b = v; return r; }
V Text(const std::string& v) { V r; r.t = V::kText; r.s = v; return r; }
V Absent() { V r; r.t = V::kAbsent; return r; }
V Map(std::vector<Entry> m) { V r; r.t = V::kMap; r.map = std::move(m); return r; }
template <typename C, typename F>
V List(const C& c, F f) { V r; r.t = V::kList; for (auto& x : c) r.list.push_back(f(x)); return r; }
template <typename O, typename F>
V Opt(const O& o, F f) { return o.has_value() ? f(*o) : Absent(); }
V U(uint64_t v) { return Int(v); }

// ----------------------------------------------------- strict JSON reader --
struct JsonReader {
  Ctx& c;
  const std::string& s;
  size_t p = 0;
  [[noreturn]] void Bad(const char* why) { c.Fail("json-malformed", Fmt("%s at byte %zu: \"%s\"", why, p, s.substr(p > 30 ? p - 30 : 0, 60).c_str())); }
  void Ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\t' || s[p] == '\r')) ++p; }
  bool Eat(char ch) { Ws(); if (p < s.size() && s[p] == ch) { ++p; return true; } return false; }
  std::string Str() {
    if (!Eat('"')) Bad("a string is expected");
    std::string r;
    for (;;) {
      if (p >= s.size()) Bad("a string is not closed");
      const unsigned char ch = s[p++];
      if (ch == '"') return r;
      if (ch < 0x20) { --p; Bad("a raw control character in a string"); }
      if (ch != '\\') { r.push_back(ch); continue; }
      if (p >= s.size()) Bad("a string is not closed");
      const char e = s[p++];
      switch (e) {
        case '"': case '\\': case '/': r.push_back(e); break;
        case 'b': r.push_back('\b'); break;
        case 'f': r.push_back('\f'); break;
        case 'n': r.push_back('\n'); break;
        case 'r': r.push_back('\r'); break;
        case 't': r.push_back('\t'); break;
        case 'u': {
          uint32_t v = 0;
          for (int i = 0; i < 4; ++i) {
            if (p >= s.size() || !isxdigit(static_cast<unsigned char>(s[p]))) Bad("a bad \\u escape");
            const char h = s[p++];
            v = v * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10);
          }
          if (v < 0x80) r.push_back(static_cast<char>(v));
          else if (v < 0x800) { r.push_back(static_cast<char>(0xc0 | v >> 6)); r.push_back(static_cast<char>(0x80 | (v & 63))); }
          else { r.push_back(static_cast<char>(0xe0 | v >> 12)); r.push_back(static_cast<char>(0x80 | (v >> 6 & 63))); r.push_back(static_cast<char>(0x80 | (v & 63))); }
          break;
        }
        default: Bad("a bad escape");
      }
    }
  }
  V Value(int depth) {
    if (depth > 64) Bad("too deep");
    Ws();
    if (p >= s.size()) Bad("a value is expected");
    const char ch = s[p];
    V r;
    if (ch == '{') {
      ++p;
      r.t = V::kMap;
      if (Eat('}')) return r;
      do {
        Ws();
        std::string k = Str();
        if (r.Get(k)) Bad(("duplicate key " + k).c_str());
        if (!Eat(':')) Bad("a colon is expected");
        Put(r, k, Value(depth + 1));
      } while (Eat(','));
      if (!Eat('}')) Bad("an object is not closed");
    } else if (ch == '[') {
      ++p;
      r.t = V::kList;
      if (Eat(']')) return r;
      do r.list.push_back(Value(depth + 1)); while (Eat(','));
      if (!Eat(']')) Bad("a list is not closed");
    } else if (ch == '"') {
      r.t = V::kText;
      r.s = Str();
    } else if (s.compare(p, 4, "true") == 0) { p += 4; r.t = V::kBool; r.b = true; }
    else if (s.compare(p, 5, "false") == 0) { p += 5; r.t = V::kBool; }
    else if (s.compare(p, 4, "null") == 0) { p += 4; }
    else {
      const size_t q = p;
      if (p < s.size() && s[p] == '-') ++p;
      const size_t d0 = p;
      while (p < s.size() && isdigit(static_cast<unsigned char>(s[p]))) ++p;
      if (p == d0 || (s[d0] == '0' && p - d0 > 1)) Bad("a bad number");
      bool integer = true;
      if (p < s.size() && s[p] == '.') { integer = false; const size_t f = ++p; while (p < s.size() && isdigit(static_cast<unsigned char>(s[p]))) ++p; if (p == f) Bad("a bad number"); }
      if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) {
        integer = false;
        ++p;
        if (p < s.size() && (s[p] == '+' || s[p] == '-')) ++p;
        const size_t f = p;
        while (p < s.size() && isdigit(static_cast<unsigned char>(s[p]))) ++p;
        if (p == f) Bad("a bad number");
      }
      r.s = s.substr(q, p - q);
      r.d = strtod(r.s.c_str(), nullptr);
      r.t = integer ? V::kInt : V::kReal;
    }
    return r;
  }
  V All() { V v = Value(0); Ws(); if (p != s.size()) Bad("text after the end"); return v; }
};

// `want` is a subset of `got`; what is absent in want must be absent in got.
void Same(Ctx& c, const V& want, const V* got, const std::string& path, const char* oracle, double tol) {
  if (want.t == V::kAbsent) {
    c.Check(!got || got->t == V::kNull || got->t == V::kAbsent, oracle, path + " is reported though it is not set");
    return;
  }
  c.Check(got != nullptr, oracle, path + " is missing");
  switch (want.t) {
    case V::kReal:
      c.Check((got->t == V::kReal || got->t == V::kInt) && std::fabs(got->d - want.d) <= tol * std::fabs(want.d) + (tol ? 1e-30 : 0), oracle,
              Fmt("%s is %.9g (%s) instead of %.9g", path.c_str(), got->d, got->s.c_str(), want.d));
      break;
    case V::kInt:
      c.Check(got->t == V::kInt && got->s == want.s, oracle, Fmt("%s is %s instead of %s", path.c_str(), got->s.c_str(), want.s.c_str()));
      break;
    case V::kBool:
      c.Check(got->t == V::kBool && got->b == want.b, oracle, Fmt("%s is not %d", path.c_str(), want.b));
      break;
    case V::kText:
      c.Check(got->t == V::kText && got->s == want.s, oracle,
              Fmt("%s is \"%s\" instead of \"%s\"", path.c_str(), got->s.c_str(), want.s.c_str()));
      break;
    case V::kList:
      c.Check(got->t == V::kList && got->list.size() == want.list.size(), oracle, Fmt("%s has %zu entries instead of %zu", path.c_str(), got->list.size(), want.list.size()));
      for (size_t i = 0; i < want.list.size(); ++i) Same(c, want.list[i], &got->list[i], Fmt("%s[%zu]", path.c_str(), i), oracle, tol);
      break;
    case V::kMap:
      c.Check(got->t == V::kMap, oracle, path + " is not an object");
      for (auto& [k, v] : want.map) Same(c, v, got->Get(k), path + "." + k, oracle, tol);
      break;
    default: break;
  }
}

// --------------------------------------------------------- report to tree --
V Tree(const CodecConfigReport& r) {
  V v = Map({{"id", U(r.id)}, {"codec_id", Text(r.codec_id)}, {"codec_id_raw", U(r.codec_id_raw)}, {"num_samples_per_frame", U(r.num_samples_per_frame)},
             {"audio_roll_distance", SInt(r.audio_roll_distance)}, {"output_sample_rate", U(r.output_sample_rate)},
             {"input_sample_rate", U(r.input_sample_rate)}, {"bit_depth", SInt(r.bit_depth)}});
  Put(v, "opus", Opt(r.opus, [](auto& o) {
    return Map({{"version", U(o.version)}, {"output_channel_count", U(o.output_channel_count)}, {"pre_skip", U(o.pre_skip)}, {"input_sample_rate", U(o.input_sample_rate)},
                {"output_gain", Real(o.output_gain)}, {"output_gain_q7_8", SInt(o.output_gain_q7_8)}, {"mapping_family", U(o.mapping_family)}});
  }));
  Put(v, "lpcm", Opt(r.lpcm, [](auto& o) {
    return Map({{"sample_format", Text(o.sample_format)}, {"sample_format_raw", U(o.sample_format_raw)}, {"sample_size", U(o.sample_size)}, {"sample_rate", U(o.sample_rate)}});
  }));
  Put(v, "aac", Opt(r.aac, [](auto& o) {
    return Map({{"object_type_indication", U(o.object_type_indication)}, {"stream_type", U(o.stream_type)}, {"upstream", Boolean(o.upstream)}, {"reserved", Boolean(o.reserved)},
                {"buffer_size_db", U(o.buffer_size_db)}, {"max_bitrate", U(o.max_bitrate)}, {"average_bit_rate", U(o.average_bit_rate)}, {"audio_object_type", U(o.audio_object_type)},
                {"sample_frequency_index", Text(o.sample_frequency_index)}, {"sample_frequency_index_raw", U(o.sample_frequency_index_raw)}, {"channel_configuration", U(o.channel_configuration)}});
  }));
  Put(v, "flac", Opt(r.flac, [](auto& o) {
    return Map({{"metadata_blocks", List(o.metadata_blocks, [](auto& b) {
      V m = Map({{"block_type", Text(b.block_type)}, {"block_type_raw", U(b.block_type_raw)}});
      if (b.is_stream_info)
        for (auto& e : std::vector<Entry>{{"minimum_block_size", U(b.minimum_block_size)}, {"maximum_block_size", U(b.maximum_block_size)},
                {"minimum_frame_size", U(b.minimum_frame_size)}, {"maximum_frame_size", U(b.maximum_frame_size)}, {"sample_rate", U(b.sample_rate)},
                {"number_of_channels", U(b.number_of_channels)}, {"bits_per_sample", U(b.bits_per_sample)}, {"total_samples_in_stream", U(b.total_samples_in_stream)}})
          m.map.push_back(e);
      else
        Put(m, "total_samples_in_stream", Absent());
      return m;
    })}});
  }));
  return v;
}
V Tree(const AudioElementReport& r) {
  V v = Map({{"id", U(r.id)}, {"type", Text(r.type)}, {"type_raw", U(r.type_raw)}, {"reserved", U(r.reserved)}, {"codec_config_id", U(r.codec_config_id)},
             {"num_substreams", U(r.num_substreams)}, {"substream_ids", List(r.substream_ids, U)},
             {"params", List(r.params, [](auto& p) {
                return Map({{"param_type", Text(p.param_type)}, {"param_type_raw", U(p.param_type_raw)}, {"parameter_id", U(p.parameter_id)}, {"parameter_rate", U(p.parameter_rate)},
                            {"param_definition_mode", U(p.param_definition_mode)}, {"duration", U(p.duration)}, {"constant_subblock_duration", U(p.constant_subblock_duration)}});
              })}});
  if (!r.scalable_layers.empty())
    Put(v, "scalable_layers", List(r.scalable_layers, [](auto& l) {
      return Map({{"loudspeaker_layout", Text(l.loudspeaker_layout)}, {"loudspeaker_layout_raw", U(l.loudspeaker_layout_raw)},
                  {"expanded_loudspeaker_layout", Opt(l.expanded_loudspeaker_layout, Text)}, {"expanded_loudspeaker_layout_raw", Opt(l.expanded_loudspeaker_layout_raw, U)},
                  {"output_gain_is_present_flag", Boolean(l.output_gain_is_present_flag)}, {"recon_gain_is_present_flag", Boolean(l.recon_gain_is_present_flag)},
                  {"substream_count", U(l.substream_count)}, {"coupled_substream_count", U(l.coupled_substream_count)},
                  {"output_gain_flag", U(l.output_gain_flag)}, {"output_gain_q7_8", SInt(l.output_gain_q7_8)}, {"output_gain", Real(l.output_gain)}});
    }));
  Put(v, "ambisonics", Opt(r.ambisonics, [](auto& a) {
    return Map({{"mode", Text(a.mode)}, {"mode_raw", U(a.mode_raw)}, {"order", Opt(a.order, [](int x) { return SInt(x); })},
                {"mono", Opt(a.mono, [](auto& m) {
                   return Map({{"output_channel_count", U(m.output_channel_count)}, {"substream_count", U(m.substream_count)}, {"channel_mapping", List(m.channel_mapping, U)}});
                 })},
                {"projection", Opt(a.projection, [](auto& m) {
                   return Map({{"output_channel_count", U(m.output_channel_count)}, {"substream_count", U(m.substream_count)}, {"coupled_substream_count", U(m.coupled_substream_count)},
                               {"demixing_matrix", List(m.demixing_matrix, SInt)}});
                 })}});
  }));
  Put(v, "channel_layout", Opt(r.channel_layout, Text));
  Put(v, "channel_layout_raw", Opt(r.channel_layout_raw, U));
  Put(v, "expanded_channel_layout_raw", Opt(r.expanded_channel_layout_raw, U));
  Put(v, "ambisonics_order", Opt(r.ambisonics_order, SInt));
  Put(v, "ambisonics_channels", Opt(r.ambisonics_channels, SInt));
  Put(v, "num_channels", Opt(r.num_channels, U));
  return v;
}
V Tree(const MixGainParamDefinitionReport& r) {
  auto& p = r.param_definition;
  return Map({{"param_definition", Map({{"parameter_id", U(p.parameter_id)}, {"parameter_rate", U(p.parameter_rate)}, {"param_definition_mode", U(p.param_definition_mode)},
                                        {"duration", U(p.duration)}, {"constant_subblock_duration", U(p.constant_subblock_duration)}})},
              {"default_mix_gain", Real(r.default_mix_gain)}, {"default_mix_gain_q7_8", SInt(r.default_mix_gain_q7_8)}});
}
V Tree(const MixPresentationReport& r) {
  return Map({{"id", U(r.id)}, {"count_label", U(r.count_label)}, {"num_sub_mixes", U(r.num_sub_mixes)},
              {"annotations", List(r.annotations, [](auto& a) { return Map({{"language", Text(a.first)}, {"label", Text(a.second)}}); })},
              {"tags", List(r.tags, [](auto& a) { return Map({{"tag_name", Text(a.tag_name)}, {"tag_value", Text(a.tag_value)}}); })},
              {"layouts", List(r.layouts, Text)},
              {"integrated_loudness_lkfs", Opt(r.integrated_loudness_lkfs, Real)}, {"digital_peak_dbfs", Opt(r.digital_peak_dbfs, Real)}, {"true_peak_dbfs", Opt(r.true_peak_dbfs, Real)},
              {"sub_mixes", List(r.sub_mixes, [](auto& s) {
                 return Map({{"audio_elements", List(s.audio_elements, [](auto& e) {
                                auto& q = e.rendering_config;
                                return Map({{"audio_element_id", U(e.audio_element_id)}, {"localized_element_annotations", List(e.localized_element_annotations, Text)},
                                            {"rendering_config", Map({{"headphones_rendering_mode", Text(q.headphones_rendering_mode)}, {"headphones_rendering_mode_raw", U(q.headphones_rendering_mode_raw)},
                                                                      {"binaural_filter_profile", Text(q.binaural_filter_profile)}, {"binaural_filter_profile_raw", U(q.binaural_filter_profile_raw)}})},
                                            {"element_mix_gain", Tree(e.element_mix_gain)}});
                              })},
                             {"output_mix_gain", Tree(s.output_mix_gain)},
                             {"layouts", List(s.layouts, [](auto& l) {
                                auto &a = l.loudness_layout;
                                auto &q = l.loudness;
                                V loud = Map({{"info_type", U(q.info_type)}, {"true_peak_present", Boolean(q.true_peak_present)}, {"anchored_loudness_present", Boolean(q.anchored_loudness_present)},
                                              {"has_layout_extension", Boolean(q.has_layout_extension)}, {"integrated_loudness", Real(q.integrated_loudness)},
                                              {"digital_peak", Real(q.digital_peak)}, {"true_peak", Opt(q.true_peak, Real)}});
                                if (!q.anchored_loudness_elements.empty())
                                  Put(loud, "anchored_loudness_elements", List(q.anchored_loudness_elements, [](auto& x) {
                                    return Map({{"anchor_element", Text(x.anchor_element)}, {"anchor_element_raw", U(x.anchor_element_raw)},
                                                {"anchored_loudness_q7_8", SInt(x.anchored_loudness_q7_8)}, {"anchored_loudness", Real(x.anchored_loudness)}});
                                  }));
                                return Map({{"loudness_layout", Map({{"layout_type", Text(a.layout_type)}, {"layout_type_raw", U(a.layout_type_raw)},
                                                                     {"sound_system", Opt(a.sound_system, Text)}, {"sound_system_raw", Opt(a.sound_system_raw, U)}})},
                                            {"loudness", loud}});
                              })}});
               })}});
}
V Tree(const TemporalUnitScanReport& r, bool index) {
  V v = Map({{"temporal_unit_count", U(r.temporal_unit_count)}, {"audio_frame_count", U(r.audio_frame_count)}, {"parameter_block_count", U(r.parameter_block_count)},
             {"temporal_delimiter_count", U(r.temporal_delimiter_count)}, {"audio_frame_parse_errors", U(r.audio_frame_parse_errors)},
             {"parameter_block_parse_errors", U(r.parameter_block_parse_errors)}, {"bytes_consumed", U(r.bytes_consumed)}, {"stopped_reason", Text(r.stopped_reason)},
             {"total_samples", Opt(r.total_samples, U)}, {"output_sample_rate", Opt(r.output_sample_rate, U)}, {"duration_seconds", Opt(r.duration_seconds, Real)},
             {"audio_frames_by_substream", List(r.audio_frames_by_substream, [](auto& f) {
                return Map({{"substream_id", U(f.substream_id)}, {"codec_config_id", U(f.codec_config_id)}, {"frame_count", U(f.frame_count)}, {"total_samples", U(f.total_samples)}});
              })},
             {"parameter_blocks", List(r.parameter_blocks, [](auto& b) {
                return Map({{"parameter_id", U(b.parameter_id)}, {"param_type", Text(b.param_type)}, {"param_type_raw", U(b.param_type_raw)}, {"start_timestamp", U(b.start_timestamp)},
                            {"end_timestamp", U(b.end_timestamp)}, {"duration", U(b.duration)}, {"constant_subblock_duration", U(b.constant_subblock_duration)},
                            {"subblocks", List(b.subblocks, [](auto& s) {
                               return Map({{"subblock_duration", U(s.subblock_duration)},
                                           {"mix_gain", Opt(s.mix_gain, [](auto& m) {
                                              return Map({{"animation_type", Text(m.animation_type)}, {"animation_type_raw", U(m.animation_type_raw)},
                                                          {"start_point_value", Real(m.start_point_value)}, {"start_point_value_q7_8", SInt(m.start_point_value_q7_8)},
                                                          {"end_point_value", Opt(m.end_point_value, Real)}, {"end_point_value_q7_8", Opt(m.end_point_value_q7_8, SInt)},
                                                          {"control_point_value", Opt(m.control_point_value, Real)}, {"control_point_value_q7_8", Opt(m.control_point_value_q7_8, SInt)},
                                                          {"control_point_relative_time", Opt(m.control_point_relative_time, U)}});
                                            })},
                                           {"demixing", Opt(s.demixing, [](auto& m) {
                                              return Map({{"dmixp_mode", Text(m.dmixp_mode)}, {"dmixp_mode_raw", U(m.dmixp_mode_raw)}, {"reserved", U(m.reserved)}});
                                            })},
                                           {"recon_gain", Opt(s.recon_gain, [](auto& m) {
                                              return Map({{"layers", List(m.layers, [](auto& l) {
                                                return Map({{"layer_index", U(l.layer_index)}, {"recon_gain_flag", U(l.recon_gain_flag)}, {"recon_gain", List(l.recon_gain, U)}});
                                              })}});
                                            })}});
                             })}});
              })}});
  if (index)
    Put(v, "temporal_units", List(r.temporal_units, [](auto& u) {
      return Map({{"start_timestamp", U(u.start_timestamp)}, {"num_samples", U(u.num_samples)}, {"byte_offset_from_scan_start", U(u.byte_offset_from_scan_start)},
                  {"samples_to_trim_at_start", U(u.samples_to_trim_at_start)}, {"samples_to_trim_at_end", U(u.samples_to_trim_at_end)}});
    }));
  return v;
}
V Tree(const ProbeReport& r, bool index) {
  return Map({{"primary_profile", Text(r.primary_profile)}, {"primary_profile_raw", U(r.primary_profile_raw)}, {"additional_profile", Text(r.additional_profile)},
              {"additional_profile_raw", U(r.additional_profile_raw)}, {"descriptor_bytes_consumed", U(r.descriptor_bytes_consumed)},
              {"descriptor_total_samples", Opt(r.descriptor_total_samples, U)}, {"descriptor_duration_seconds", Opt(r.descriptor_duration_seconds, Real)},
              {"codec_configs", List(r.codec_configs, [](auto& x) { return Tree(x); })}, {"audio_elements", List(r.audio_elements, [](auto& x) { return Tree(x); })},
              {"mix_presentations", List(r.mix_presentations, [](auto& x) { return Tree(x); })},
              {"temporal_unit_scan", Opt(r.temporal_unit_scan, [&](auto& x) { return Tree(x, index); })}});
}
void SortById(ProbeReport& r) {
  auto by = [](auto& a, auto& b) { return a.id < b.id; };
  std::sort(r.codec_configs.begin(), r.codec_configs.end(), by);
  std::sort(r.audio_elements.begin(), r.audio_elements.end(), by);
}
void CheckJson(Ctx& c, const ProbeReport& r) {
  const std::string text = ProbeReportToJson(r);
  JsonReader reader{c, text};
  const V got = reader.All();
  Same(c, Tree(r, false), &got, "report", "json-facts", 2e-5);
  c.Note("json", HashBytes(text.data(), text.size()));
}

// ---------------------------------------------------------- random report --
std::string OddString(Ctx& c) {
  std::string s;
  switch (c.Pick(4)) {
    case 0: return g::DrawString(c);
    case 1: return "plain";
    default: break;
  }
  const uint64_t seed = c.Bits();
  const size_t n = c.Pick(24);
  for (size_t i = 0; i < n; ++i) {
    const uint64_t x = Ctx::Mix(seed + i);
    static const char kOdd[] = "\"\\/\b\f\n\r\t\x01\x1f\x7f u{}[],:";
    if (x % 3 == 0) s.push_back(kOdd[x / 8 % (sizeof kOdd - 1)]);
    else if (x % 3 == 1) s.push_back(static_cast<char>(x / 8 % 32));
    else s += x & 8 ? "\xc3\xa9" : x & 16 ? "\xe2\x80\xa8" : x & 32 ? "\xf0\x9f\x8e\xb5" : "z";
  }
  return s;
}
template <typename T>
T Num(Ctx& c) {
  switch (c.Pick(5)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return std::numeric_limits<T>::max();
    case 3: return std::numeric_limits<T>::min();
    default: return static_cast<T>(c.Bits());
  }
}
float Flt(Ctx& c) { return static_cast<float>(Num<int16_t>(c)) / 256.0f; }
template <typename T, typename F>
std::vector<T> Some(Ctx& c, int max, F f) { std::vector<T> v; for (uint32_t n = c.Pick(max + 1); n; --n) v.push_back(f()); return v; }
MixGainParamDefinitionReport RandomGain(Ctx& c) {
  MixGainParamDefinitionReport r{};
  r.param_definition = {Num<uint32_t>(c), Num<uint32_t>(c), Num<uint8_t>(c), Num<uint32_t>(c), Num<uint32_t>(c)};
  r.default_mix_gain_q7_8 = Num<int16_t>(c);
  r.default_mix_gain = r.default_mix_gain_q7_8 / 256.0f;
  return r;
}
ProbeReport RandomReport(Ctx& c) {
  ProbeReport r;
  auto b = [&] { return c.Pick(2) == 1; };
  auto u8 = [&] { return Num<uint8_t>(c); };
  auto u32 = [&] { return Num<uint32_t>(c); };
  r.primary_profile = OddString(c); r.primary_profile_raw = u8();
  r.additional_profile = OddString(c); r.additional_profile_raw = u8();
  r.descriptor_bytes_consumed = Num<uint64_t>(c);
  if (b()) r.descriptor_total_samples = Num<uint64_t>(c);
  if (b()) r.descriptor_duration_seconds = Num<uint32_t>(c) / 48000.0;
  r.codec_configs = Some<CodecConfigReport>(c, 3, [&] {
    CodecConfigReport q{};
    q.id = u32(); q.codec_id = OddString(c); q.codec_id_raw = u32(); q.num_samples_per_frame = u32(); q.audio_roll_distance = Num<int16_t>(c);
    q.output_sample_rate = u32(); q.input_sample_rate = u32(); q.bit_depth = Num<int>(c);
    if (b()) { q.opus.emplace(); *q.opus = {u8(), u8(), Num<uint16_t>(c), u32(), Num<int16_t>(c), Flt(c), u8()}; }
    if (b()) q.lpcm = LpcmDecoderConfigReport{OddString(c), u8(), u8(), u32()};
    if (b()) q.aac = AacDecoderConfigReport{u8(), u8(), b(), b(), u32(), u32(), u32(), u8(), OddString(c), u8(), u8()};
    if (b()) { q.flac.emplace(); q.flac->metadata_blocks = Some<FlacMetaBlockReport>(c, 3, [&] {
      return FlacMetaBlockReport{OddString(c), u8(), b(), Num<uint16_t>(c), Num<uint16_t>(c), u32(), u32(), u32(), u8(), u8(), Num<uint64_t>(c)};
    }); }
    return q;
  });
  r.audio_elements = Some<AudioElementReport>(c, 3, [&] {
    AudioElementReport q{};
    q.id = u32(); q.type = OddString(c); q.type_raw = u8(); q.reserved = u8(); q.codec_config_id = u32(); q.num_substreams = u32();
    q.substream_ids = Some<uint32_t>(c, 3, u32);
    q.params = Some<AudioElementParamReport>(c, 2, [&] { return AudioElementParamReport{OddString(c), u32(), u32(), u32(), u8(), u32(), u32()}; });
    q.scalable_layers = Some<ChannelAudioLayerReport>(c, 2, [&] {
      ChannelAudioLayerReport l{};
      l.loudspeaker_layout = OddString(c); l.loudspeaker_layout_raw = u8();
      if (b()) l.expanded_loudspeaker_layout = OddString(c);
      if (b()) l.expanded_loudspeaker_layout_raw = u8();
      l.output_gain_is_present_flag = b(); l.recon_gain_is_present_flag = b(); l.substream_count = u8(); l.coupled_substream_count = u8();
      l.output_gain_flag = u8(); l.output_gain_q7_8 = Num<int16_t>(c); l.output_gain = l.output_gain_q7_8 / 256.0f;
      return l;
    });
    if (b()) {
      q.ambisonics.emplace();
      q.ambisonics->mode = OddString(c); q.ambisonics->mode_raw = u8();
      if (b()) q.ambisonics->order = Num<int>(c);
      if (b()) q.ambisonics->mono = AmbisonicsMonoReport{u8(), u8(), Some<uint8_t>(c, 4, u8)};
      if (b()) q.ambisonics->projection = AmbisonicsProjectionReport{u8(), u8(), u8(), Some<int16_t>(c, 4, [&] { return Num<int16_t>(c); })};
    }
    if (b()) q.channel_layout = OddString(c);
    if (b()) q.channel_layout_raw = u8();
    if (b()) q.expanded_channel_layout_raw = u8();
    if (b()) q.ambisonics_order = Num<int>(c);
    if (b()) q.ambisonics_channels = Num<int>(c);
    if (b()) q.num_channels = u32();
    return q;
  });
  r.mix_presentations = Some<MixPresentationReport>(c, 2, [&] {
    MixPresentationReport q{};
    q.id = u32(); q.count_label = u32(); q.num_sub_mixes = u32();
    q.annotations = Some<std::pair<std::string, std::string>>(c, 2, [&] { return std::make_pair(OddString(c), OddString(c)); });
    q.tags = Some<MixPresentationTagReport>(c, 2, [&] { return MixPresentationTagReport{OddString(c), OddString(c)}; });
    q.layouts = Some<std::string>(c, 2, [&] { return OddString(c); });
    if (b()) q.integrated_loudness_lkfs = Flt(c);
    if (b()) q.digital_peak_dbfs = Flt(c);
    if (b()) q.true_peak_dbfs = Flt(c);
    q.sub_mixes = Some<SubMixReport>(c, 2, [&] {
      SubMixReport s{};
      s.audio_elements = Some<SubMixAudioElementReport>(c, 2, [&] {
        return SubMixAudioElementReport{u32(), Some<std::string>(c, 2, [&] { return OddString(c); }), {OddString(c), u8(), OddString(c), u8()}, RandomGain(c)};
      });
      s.output_mix_gain = RandomGain(c);
      s.layouts = Some<MixPresentationLayoutReport>(c, 2, [&] {
        MixPresentationLayoutReport l{};
        l.loudness_layout.layout_type = OddString(c); l.loudness_layout.layout_type_raw = u8();
        if (b()) l.loudness_layout.sound_system = OddString(c);
        if (b()) l.loudness_layout.sound_system_raw = u8();
        auto& d = l.loudness;
        d.info_type = u8(); d.true_peak_present = b(); d.anchored_loudness_present = b(); d.has_layout_extension = b();
        d.integrated_loudness = Flt(c); d.digital_peak = Flt(c);
        if (b()) d.true_peak = Flt(c);
        d.anchored_loudness_elements = Some<AnchoredLoudnessElementReport>(c, 2, [&] { return AnchoredLoudnessElementReport{OddString(c), u8(), Num<int16_t>(c), Flt(c)}; });
        return l;
      });
      return s;
    });
    return q;
  });
  if (b()) {
    TemporalUnitScanReport s{};
    s.temporal_unit_count = u32(); s.audio_frame_count = u32(); s.parameter_block_count = u32(); s.temporal_delimiter_count = u32();
    s.audio_frame_parse_errors = u32(); s.parameter_block_parse_errors = u32();
    s.audio_frames_by_substream = Some<AudioFrameSummaryReport>(c, 3, [&] { return AudioFrameSummaryReport{u32(), u32(), u32(), Num<uint64_t>(c)}; });
    s.parameter_blocks = Some<ParameterBlockReport>(c, 3, [&] {
      ParameterBlockReport p;
      p.parameter_id = u32(); p.param_type = OddString(c); p.param_type_raw = u32(); p.start_timestamp = Num<uint64_t>(c); p.end_timestamp = Num<uint64_t>(c);
      p.duration = u32(); p.constant_subblock_duration = u32();
      p.subblocks = Some<ParameterSubblockReport>(c, 2, [&] {
        ParameterSubblockReport x;
        x.subblock_duration = u32();
        if (b()) {
          MixGainAnimationReport m;
          m.animation_type = OddString(c); m.animation_type_raw = u32(); m.start_point_value_q7_8 = Num<int16_t>(c); m.start_point_value = Flt(c);
          if (b()) { m.end_point_value_q7_8 = Num<int16_t>(c); m.end_point_value = Flt(c); }
          if (b()) { m.control_point_value_q7_8 = Num<int16_t>(c); m.control_point_value = Flt(c); }
          if (b()) m.control_point_relative_time = u8();
          x.mix_gain = m;
        }
        if (b()) x.demixing = DemixingInfoReport{OddString(c), u8(), u8()};
        if (b()) { x.recon_gain.emplace(); x.recon_gain->layers = Some<ReconGainForLayerReport>(c, 2, [&] { return ReconGainForLayerReport{u8(), u32(), Some<uint8_t>(c, 3, u8)}; }); }
        return x;
      });
      return p;
    });
    if (b()) s.total_samples = Num<uint64_t>(c);
    if (b()) s.duration_seconds = Num<uint32_t>(c) / 44100.0;
    if (b()) s.output_sample_rate = u32();
    s.bytes_consumed = Num<uint64_t>(c);
    s.stopped_reason = OddString(c);
    r.temporal_unit_scan = s;
  }
  return r;
}

// ------------------------------------------------- the facts of a stream ---
std::string Label(const std::vector<const char*>& t, int v, const char* rest = "reserved(%d)") { return v >= 0 && v < static_cast<int>(t.size()) && t[v] ? t[v] : Fmt(rest, v); }
std::string ProfileName(int v) { return v == 255 ? "reserved_255" : Label({"simple", "base", "base_enhanced", "base_advanced", "advanced1", "advanced2"}, v, "unknown(%d)"); }
std::string LayoutName(int v) { return v == 15 ? "Expanded" : Label({"Mono", "Stereo", "5.1", "5.1.2", "5.1.4", "7.1", "7.1.2", "7.1.4", "3.1.2", "Binaural"}, v); }
std::string ExpandedName(int v) {
  return Label({"LFE", "StereoS", "StereoSS", "StereoRS", "StereoTF", "StereoTB", "Top4Ch", "3.0", "9.1.6", "StereoF", "StereoSi", "StereoTpSi", "Top6Ch", "10.2.9.3", "LfePair",
                "Bottom3Ch", "7.1.5.4", "Bottom4Ch", "Top1Ch", "Top5Ch"}, v);
}
std::string SystemName(int v) {
  return Label({"Stereo", "5.1", "5.1.2", "5.1.4", "5+4+1", "3+7+0", "9.1.4", "22.2", "7.1", "7.1.4", "7.1.2", "3.1.2", "Mono", "9.1.6", "7.1.5.4"}, v);
}
std::string ParamName(uint32_t v) { return Label({"mix_gain", "demixing", "recon_gain", "polar", "cart8", "cart16", "dual_polar", "dual_cart8", "dual_cart16"}, v); }

MixGainParamDefinitionReport GainFacts(const g::ParamDef& p) {
  MixGainParamDefinitionReport r{};
  r.param_definition = {p.id, p.rate, static_cast<uint8_t>(p.mode), p.mode ? 0 : p.duration, p.mode ? 0 : p.csd};
  r.default_mix_gain_q7_8 = p.gain;
  r.default_mix_gain = p.gain / 256.0f;
  return r;
}

ProbeReport Facts(const g::Stream& s) {
  ProbeReport r;
  r.primary_profile = ProfileName(s.primary); r.primary_profile_raw = s.primary;
  r.additional_profile = ProfileName(s.additional); r.additional_profile_raw = s.additional;
  for (auto& k : s.codecs) {
    CodecConfigReport q{};
    q.id = k.id; q.codec_id_raw = k.FourCc(); q.num_samples_per_frame = k.spf; q.audio_roll_distance = k.Roll();
    q.codec_id = Label({"LPCM", "FLAC", "Opus", "AAC LC"}, k.kind);
    q.output_sample_rate = k.kind == g::kOpus ? 48000 : k.rate;
    q.input_sample_rate = k.kind == g::kOpus ? k.input_rate : k.rate;
    q.bit_depth = k.kind == g::kOpus ? 32 : k.kind == g::kAac ? 16 : k.bits;
    if (k.kind == g::kOpus) { q.opus.emplace(); *q.opus = {static_cast<uint8_t>(k.opus_version), 2, k.pre_skip, k.input_rate, 0, 0.0f, 0}; }
    if (k.kind == g::kLpcm) q.lpcm = LpcmDecoderConfigReport{k.flag_bits & 1 ? "little_endian" : k.flag_bits ? Fmt("reserved(%d)", k.flag_bits) : "big_endian",
                                                            static_cast<uint8_t>(k.flag_bits), static_cast<uint8_t>(k.bits), k.rate};
    if (k.kind == g::kAac) q.aac = AacDecoderConfigReport{0x40, 5, false, true, k.buffer_size, k.max_bitrate, k.avg_bitrate, 2, std::to_string(k.rate), static_cast<uint8_t>(k.freq_idx), 2};
    if (k.kind == g::kFlac) {
      q.flac.emplace();
      q.flac->metadata_blocks.push_back({"StreamInfo", 0, true, static_cast<uint16_t>(k.spf), static_cast<uint16_t>(k.spf), k.min_frame, k.max_frame, k.rate, 1,
                                         static_cast<uint8_t>(k.bits - 1), k.total});
      for (auto& b : k.blocks) q.flac->metadata_blocks.push_back({Label({"StreamInfo", "Padding", "Application", "Seektable", "VorbisComment", "Cuesheet", "Picture"}, b.first), static_cast<uint8_t>(b.first)});
    }
    r.codec_configs.push_back(q);
  }
  for (auto& e : s.elements) {
    AudioElementReport q{};
    q.id = e.id; q.type = Label({"channel_based", "scene_based", "object_based"}, e.type); q.type_raw = e.type; q.codec_config_id = e.codec_id;
    q.num_substreams = e.substreams.size();
    q.substream_ids = e.substreams;
    for (auto& p : e.params) {
      if (p.type > 2) q.params.push_back({ParamName(p.type), p.type, 0, 0, 1, 0, 0});
      else q.params.push_back({ParamName(p.type), p.type, p.id, p.rate, static_cast<uint8_t>(p.mode), p.mode ? 0 : p.duration, p.mode ? 0 : p.csd});
    }
    if (e.type == 0) {
      uint32_t n = 0;
      for (auto& l : e.layers) {
        ChannelAudioLayerReport x{};
        x.loudspeaker_layout = LayoutName(l.layout); x.loudspeaker_layout_raw = l.layout;
        if (l.layout == 15) { x.expanded_loudspeaker_layout = ExpandedName(l.expanded); x.expanded_loudspeaker_layout_raw = l.expanded; }
        x.output_gain_is_present_flag = l.og; x.recon_gain_is_present_flag = l.rg; x.substream_count = l.substreams; x.coupled_substream_count = l.coupled;
        if (l.og) { x.output_gain_flag = l.og_flag; x.output_gain_q7_8 = l.og_gain; x.output_gain = l.og_gain / 256.0f; }
        n += l.substreams + l.coupled;
        q.scalable_layers.push_back(x);
      }
      q.channel_layout = q.scalable_layers.back().loudspeaker_layout;
      q.channel_layout_raw = q.scalable_layers.back().loudspeaker_layout_raw;
      q.expanded_channel_layout_raw = q.scalable_layers.back().expanded_loudspeaker_layout_raw;
      q.num_channels = n;
    }
    if (e.type == 1) {
      q.ambisonics.emplace();
      q.ambisonics->mode = e.ambi_mode ? "projection" : "mono";
      q.ambisonics->mode_raw = e.ambi_mode;
      int order = 0;
      while ((order + 1) * (order + 1) < e.ambi_out) ++order;
      q.ambisonics->order = order;
      q.ambisonics_order = order;
      q.ambisonics_channels = e.ambi_out;
      q.num_channels = e.ambi_out;
      const uint8_t out = e.ambi_out, subs = e.substreams.size();
      if (e.ambi_mode == 0) q.ambisonics->mono = AmbisonicsMonoReport{out, subs, e.mapping};
      else q.ambisonics->projection = AmbisonicsProjectionReport{out, subs, static_cast<uint8_t>(e.ambi_coupled), e.matrix};
    }
    r.audio_elements.push_back(q);
  }
  for (auto& m : s.mixes) {
    MixPresentationReport q{};
    q.id = m.id; q.count_label = m.langs.size(); q.num_sub_mixes = m.subs.size();
    for (size_t i = 0; i < m.langs.size(); ++i) q.annotations.emplace_back(m.langs[i], m.labels[i]);
    if (m.has_tags) for (auto& t : m.tags) q.tags.push_back({t.first, t.second});
    for (auto& b : m.subs) {
      SubMixReport x{};
      for (auto& e : b.elements) {
        SubMixAudioElementReport y{};
        y.audio_element_id = e.id;
        y.localized_element_annotations = e.labels;
        y.rendering_config = {Label({"stereo", "binaural_world_locked", "binaural_head_locked", "reserved_3"}, e.mode), static_cast<uint8_t>(e.mode),
                              Label({"ambient", "direct", "reverberant", "reserved_3"}, e.profile), static_cast<uint8_t>(e.profile)};
        y.element_mix_gain = GainFacts(e.gain);
        x.audio_elements.push_back(y);
      }
      x.output_mix_gain = GainFacts(b.out_gain);
      for (auto& l : b.layouts) {
        MixPresentationLayoutReport y{};
        y.loudness_layout.layout_type = Label({"reserved_0", "reserved_1", "loudspeakers_ss_convention", "binaural"}, l.type);
        y.loudness_layout.layout_type_raw = l.type;
        if (l.type == 2) { y.loudness_layout.sound_system = SystemName(l.ss); y.loudness_layout.sound_system_raw = l.ss; }
        auto& d = y.loudness;
        d.info_type = l.loud.info; d.true_peak_present = l.loud.info & 1; d.anchored_loudness_present = l.loud.info & 2; d.has_layout_extension = l.loud.info & 0xfc;
        d.integrated_loudness = l.loud.integrated / 256.0f; d.digital_peak = l.loud.peak / 256.0f;
        if (l.loud.info & 1) d.true_peak = l.loud.true_peak / 256.0f;
        for (auto& a : l.loud.anchored)
          d.anchored_loudness_elements.push_back({Label({"unknown", "dialogue", "album"}, a.first), static_cast<uint8_t>(a.first), a.second, a.second / 256.0f});
        x.layouts.push_back(y);
      }
      q.sub_mixes.push_back(x);
    }
    if (!q.sub_mixes.empty()) {
      for (auto& l : q.sub_mixes[0].layouts) q.layouts.push_back(l.loudness_layout.sound_system.value_or(l.loudness_layout.layout_type));
      if (!q.sub_mixes[0].layouts.empty()) {
        auto& d = q.sub_mixes[0].layouts[0].loudness;
        q.integrated_loudness_lkfs = d.integrated_loudness; q.digital_peak_dbfs = d.digital_peak; q.true_peak_dbfs = d.true_peak;
      }
    }
    r.mix_presentations.push_back(q);
  }
  return r;
}

// The OBUs of the data that a probe is to see, with what each one is.
struct Seen {
  enum What { kSkip, kTd, kFrame, kBlock, kLost, kBadFrame, kBadBlock, kNext } what;
  size_t size;
  const g::Frame* frame = nullptr;
  const g::Block* block = nullptr;
};

TemporalUnitScanReport ScanFacts(const g::Stream& s, const std::vector<Seen>& obus, size_t tail, bool full, uint64_t budget, uint64_t cancel_at,
                                 std::vector<ScanProgress>* progress) {
  TemporalUnitScanReport r;
  std::map<uint32_t, AudioFrameSummaryReport> by;
  std::map<uint32_t, uint64_t> clock;
  std::map<uint32_t, uint32_t> rate;
  TemporalUnitEntry cur;
  std::set<uint32_t> seen;
  bool open = false;
  uint64_t now = 0, units = 0;
  size_t pos = 0;
  auto flush = [&] {
    if (open && !seen.empty()) {
      ++units;
      cur.start_timestamp = now;
      now += cur.num_samples;
      if (full) r.temporal_units.push_back(cur);
    }
    open = false;
    seen.clear();
    cur = {};
  };
  auto begin = [&] { if (!open) { open = true; cur.byte_offset_from_scan_start = pos; } };
  uint64_t n = 0;
  for (size_t i = 0;; ++i) {
    if (++n > budget) { r.stopped_reason = "scan_budget_exceeded"; break; }
    progress->push_back({pos, static_cast<uint32_t>(units)});
    if (n > cancel_at) { r.stopped_reason = "cancelled"; break; }
    if (i == obus.size()) { r.stopped_reason = tail ? "truncated" : "eof"; break; }
    const Seen& o = obus[i];
    if (o.what == Seen::kNext) { r.stopped_reason = "next_ia_sequence"; break; }
    switch (o.what) {
      case Seen::kTd: flush(); begin(); ++r.temporal_delimiter_count; break;
      case Seen::kBlock: {
        begin();
        ++r.parameter_block_count;
        const uint64_t t0 = clock[o.block->def->id];
        if (!full) break;
        ParameterBlockReport b;
        b.parameter_id = o.block->def->id;
        b.param_type = ParamName(o.block->def->type);
        b.param_type_raw = o.block->def->type;
        b.start_timestamp = t0;
        b.end_timestamp = clock[b.parameter_id] = t0 + o.block->duration;
        b.duration = o.block->duration;
        b.constant_subblock_duration = o.block->csd;
        for (auto& x : o.block->subs) {
          ParameterSubblockReport y;
          y.subblock_duration = x.duration;
          if (b.param_type_raw == 0) {
            MixGainAnimationReport m;
            m.animation_type = Label({"step", "linear", "bezier"}, x.anim);
            m.animation_type_raw = x.anim;
            m.start_point_value_q7_8 = x.start; m.start_point_value = x.start / 256.0f;
            if (x.anim >= 1) { m.end_point_value_q7_8 = x.end; m.end_point_value = x.end / 256.0f; }
            if (x.anim == 2) { m.control_point_value_q7_8 = x.control; m.control_point_value = x.control / 256.0f; m.control_point_relative_time = x.rel; }
            y.mix_gain = m;
          } else if (b.param_type_raw == 1) {
            y.demixing = DemixingInfoReport{Label({"mode1", "mode2", "mode3", "reserved_1", "mode1_n", "mode2_n", "mode3_n", "reserved_2"}, x.dmode), static_cast<uint8_t>(x.dmode), static_cast<uint8_t>(x.dres)};
          } else {
            y.recon_gain.emplace();
            for (size_t l = 0; l < x.recon.size(); ++l)
              if (x.recon[l]) y.recon_gain->layers.push_back({static_cast<uint8_t>(l), x.recon[l]->first, x.recon[l]->second});
          }
          b.subblocks.push_back(y);
        }
        r.parameter_blocks.push_back(b);
        break;
      }
      case Seen::kBadBlock: begin(); ++r.parameter_block_parse_errors; break;
      case Seen::kBadFrame: ++r.audio_frame_parse_errors; break;
      case Seen::kFrame: {
        const g::Frame& f = *o.frame;
        if (seen.count(f.substream)) flush();
        begin();
        if (seen.empty()) { cur.samples_to_trim_at_start = f.trim_start; cur.samples_to_trim_at_end = f.trim_end; }
        seen.insert(f.substream);
        cur.num_samples = std::max<uint64_t>(cur.num_samples, f.codec->spf);
        auto& a = by[f.substream];
        a.substream_id = f.substream;
        a.codec_config_id = f.codec->id;
        ++a.frame_count;
        a.total_samples += f.codec->spf;
        rate[f.substream] = f.codec->kind == g::kOpus ? 48000 : f.codec->rate;
        ++r.audio_frame_count;
        break;
      }
      default: break;
    }
    pos += o.size;
  }
  flush();
  uint32_t most = 0;
  uint64_t samples = 0;
  for (auto& [id, a] : by) { r.audio_frames_by_substream.push_back(a); most = std::max(most, a.frame_count); samples = std::max(samples, a.total_samples); }
  r.temporal_unit_count = std::max(most, r.temporal_delimiter_count);
  r.bytes_consumed = pos;
  if (samples) {
    r.total_samples = samples;
    // The longest substream decides; equally long ones of another rate leave
    // a choice, which the caller resolves.
    for (auto& [id, a] : by) if (a.total_samples == samples) { r.output_sample_rate = rate[id]; break; }
    r.duration_seconds = static_cast<double>(samples) / *r.output_sample_rate;
  }
  return r;
}

struct Out {
  absl::StatusOr<ProbeReport> r;
  std::vector<ScanProgress> progress;
};

void Run(Ctx& c) {
  if (c.Pick(4) == 3) {
    c.Count("random-reports");
    const ProbeReport r = RandomReport(c);
    CheckJson(c, r);
    c.nontrivial = true;
    c.State(HashBytes("json", 4) + r.codec_configs.size() * 64 + r.audio_elements.size() * 16 + r.mix_presentations.size() * 4 + r.temporal_unit_scan.has_value());
    return;
  }
  g::Stream s;
  g::Knobs k;
  k.decodable = c.Pick(2) == 1;
  g::Generator gen(c, k);
  gen.Run(s);

  // The data and what is in it.
  g::Bytes data = s.Descriptors();
  std::vector<Seen> obus;
  size_t descriptor_bytes = 0;
  bool in_units = false;
  const int damage = c.Weighted({6, 2, 2, 2, 2, 2});
  const uint32_t foreign = 0xf0000000u;  // ids that no descriptor declares
  for (size_t i = 0; i < s.pieces.size(); ++i) {
    auto& p = s.pieces[i];
    const bool unit = p.what == g::Piece::kTd || p.what == g::Piece::kBlock || p.what == g::Piece::kAudio;
    if (unit && !in_units) { in_units = true; descriptor_bytes = data.size(); }
    if (i >= s.num_descriptor_pieces) data.insert(data.end(), p.bytes.begin(), p.bytes.end());
    if (!in_units) continue;
    switch (p.what) {
      case g::Piece::kTd: obus.push_back({Seen::kTd, p.bytes.size()}); break;
      case g::Piece::kBlock: obus.push_back({Seen::kBlock, p.bytes.size(), nullptr, &s.blocks[p.index]}); break;
      case g::Piece::kAudio: obus.push_back({Seen::kFrame, p.bytes.size(), &s.frames[p.index]}); break;
      default: obus.push_back({Seen::kSkip, p.bytes.size()});
    }
    if (in_units && damage == 1 && c.Pick(4) == 3) {
      g::Obu o;
      switch (c.Pick(4)) {
        case 0: {  // a parameter block nobody declared
          g::BitW w;
          w.Uleb(foreign);
          w.Raw(g::DrawBytes(c, c.Pick(12)));
          o = {.type = g::kParam, .payload = w.b};
          c.Fault("foreign-parameter-block");
          obus.push_back({Seen::kBadBlock, o.Write(0).size()});
          break;
        }
        case 1:  // a frame with no room for its substream id
          o = {.type = g::kFrame};
          c.Fault("frame-without-id");
          obus.push_back({Seen::kBadFrame, o.Write(0).size()});
          break;
        case 2:  // a header which breaks the rules
          o = {.type = static_cast<int>(c.OneOf<int>({g::kDelim, g::kParam, g::kFrame0})), .redundant = true, .payload = g::DrawBytes(c, 3)};
          c.Fault("illegal-header");
          obus.push_back({Seen::kLost, o.Write(0).size()});
          break;
        default:
          o = {.type = g::kReserved25 + static_cast<int>(c.Pick(6)), .payload = g::DrawBytes(c, c.Pick(30))};
          c.Fault("reserved-obu");
          obus.push_back({Seen::kSkip, o.Write(0).size()});
          break;
      }
      const auto b = o.Write(0);
      data.insert(data.end(), b.begin(), b.end());
    }
  }
  if (!in_units) descriptor_bytes = data.size();
  bool exact = true;   // the model knows the facts
  size_t tail = 0;
  if (damage == 2) {  // the data ends early
    const size_t cut = c.Pick(data.size() + 1);
    c.Fault("truncated");
    data.resize(cut);
    size_t at = descriptor_bytes;
    std::vector<Seen> whole;
    for (auto& o : obus) { if (at + o.size > cut) break; at += o.size; whole.push_back(o); }
    tail = cut > at ? cut - at : 0;
    obus = whole;
    if (cut <= descriptor_bytes) in_units = false;
    else if (whole.empty() && tail) {
      // Nothing but the beginning of the first unit: enough only if the
      // type and size of its first OBU can be read.
      size_t q = descriptor_bytes + 1;
      while (q < cut && (data[q] & 128)) ++q;
      if (q >= cut) in_units = false;
    }
  } else if (damage == 3) {  // another sequence follows
    c.Fault("next-sequence");
    g::BitW q;
    q.Raw({'i', 'a', 'm', 'f', 0, 0});
    const auto b = g::Obu{.type = g::kSeq, .payload = q.b}.Write(0);
    data.insert(data.end(), b.begin(), b.end());
    obus.push_back({Seen::kNext, b.size()});
    in_units = true;  // the descriptors are known to be complete
    const auto more = g::DrawBytes(c, c.Pick(30));
    data.insert(data.end(), more.begin(), more.end());
  } else if (damage == 4) {  // flipped and overwritten bytes
    exact = false;
    for (uint32_t n = 1 + c.Pick(3); n && !data.empty(); --n) {
      const size_t at = c.Pick(data.size());
      data[at] = c.OneOf<int>({data[at] ^ (1 << c.Pick(8)), 0xff, 0, 0x80});
      c.Fault("corrupt-byte");
    }
  } else if (damage == 5) {  // a unit whose size field is out of all proportion
    exact = false;
    c.Fault("huge-size");
    const auto b = g::Bytes{static_cast<uint8_t>(c.OneOf<int>({g::kDelim, g::kFrame, g::kReserved25, g::kCodec}) << 3), static_cast<uint8_t>(0xf8 + c.Pick(8)), 0xff, 0xff, 0xff, 0x0f};
    data.insert(data.begin() + (in_units ? descriptor_bytes : data.size()), b.begin(), b.end());
  }
  c.NoteBytes("data", data.data(), data.size());

  const int mode = c.Pick(3);
  ProbeOptions opt;
  opt.scan_mode = static_cast<ScanMode>(mode);
  const uint64_t budget = c.Pick(4) == 3 ? c.Pick(obus.size() + 3) : 10'000'000;
  const uint64_t cancel = c.Pick(4) == 3 ? c.Pick(obus.size() + 3) : UINT64_MAX;
  opt.max_scan_obu_iterations = budget;
  auto probe = [&](auto f) {
    Out o{absl::UnknownError("")};
    ProbeOptions p = opt;
    uint64_t calls = 0;
    p.should_continue = [&](const ScanProgress& x) { o.progress.push_back(x); return ++calls <= cancel; };
    SetStepBudget(200'000'000);
    o.r = f(p);
    return o;
  };
  TakeAllocStats();
  Out mem = probe([&](auto p) { return Probe(absl::MakeConstSpan(data), p); });
  const auto alloc = TakeAllocStats();
  c.Check(alloc.max_request <= (size_t{1} << 22) + data.size() * 64, "huge-allocation", Fmt("one allocation of %zu bytes for %zu bytes of input", alloc.max_request, data.size()));

  // The same facts from a file, however the reads go.
  const std::string path = ScratchDir() + "/p.iamf";
  WriteWholeFile(path, data);
  const int io = c.Pick(3);
  bool read_error = false;
  Out file{absl::UnknownError("")};
  {
    IoFaults faults([&](IoOp op, size_t len) {
      IoDecision d;
      if (io == 0) return d;
      if (op == IoOp::kRead && len > 1 && c.Pick(3) == 2) { d.allow = 1 + c.Pick(len > 64 ? 64 : len - 1); c.Fault("short-read"); }
      else if (io == 2 && (op == IoOp::kRead || op == IoOp::kOpen || op == IoOp::kSeek) && c.Pick(12) == 11) { d.err = op == IoOp::kOpen ? 13 : 5; c.Fault("read-error"); read_error = true; }
      return d;
    });
    file = probe([&](auto p) { return ProbeFile(path, p); });
  }
  if (file.r.ok()) { SortById(*file.r); CheckJson(c, *file.r); }
  if (mem.r.ok()) { SortById(*mem.r); CheckJson(c, *mem.r); }
  if (!read_error) {
    c.Check(mem.r.ok() == file.r.ok(), "file-differs", Fmt("memory: %s, file: %s", mem.r.status().ToString().c_str(), file.r.status().ToString().c_str()));
    if (!mem.r.ok())
      c.Check(file.r.status().code() == absl::StatusCode::kInvalidArgument, "file-error-code", file.r.status().ToString());
    else {
      const V a = Tree(*mem.r, true), b = Tree(*file.r, true);
      Same(c, a, &b, "file report", "file-differs", 0);
    }
  } else if (!file.r.ok()) {
    c.Check(!(file.r.status().code() == absl::StatusCode::kResourceExhausted), "file-error-code", file.r.status().ToString());
  } else if (mem.r.ok()) {
    // A failing disk may cut the result short but not change what was read.
    const auto &f = *file.r, &m = *mem.r;
    c.Check(f.descriptor_bytes_consumed == m.descriptor_bytes_consumed && f.codec_configs.size() == m.codec_configs.size() &&
                f.audio_elements.size() == m.audio_elements.size() && f.mix_presentations.size() == m.mix_presentations.size(),
            "read-error-facts", "descriptors differ after a read error that was not reported");
    if (f.temporal_unit_scan && m.temporal_unit_scan) {
      auto &x = *f.temporal_unit_scan, &y = *m.temporal_unit_scan;
      c.Check(x.audio_frame_count <= y.audio_frame_count && x.parameter_block_count <= y.parameter_block_count && x.bytes_consumed <= data.size() - m.descriptor_bytes_consumed, "read-error-facts",
              Fmt("more found with read errors than without: %u/%u frames, %u/%u blocks, %zu/%zu bytes, %s/%s", x.audio_frame_count, y.audio_frame_count,
                  x.parameter_block_count, y.parameter_block_count, x.bytes_consumed, y.bytes_consumed, x.stopped_reason.c_str(), y.stopped_reason.c_str()));
      c.Check(x.bytes_consumed == y.bytes_consumed || (x.stopped_reason != "eof" && x.stopped_reason != "next_ia_sequence"), "read-error-hidden",
              "a scan cut short by a read error is reported as complete");
    }
  }
  c.Check(mem.r.ok() || mem.r.status().code() == absl::StatusCode::kResourceExhausted || mem.r.status().code() == absl::StatusCode::kInvalidArgument, "error-code",
          mem.r.status().ToString());

  if (exact && !in_units) {
    // Descriptors only: more data is needed to know that they are complete.
    c.Check(!mem.r.ok() && mem.r.status().code() == absl::StatusCode::kResourceExhausted, "incomplete", mem.r.status().ToString());
  } else if (exact) {
    c.Check(mem.r.ok(), "facts", "a good stream is refused: " + mem.r.status().ToString());
    ProbeReport want = Facts(s);
    SortById(want);
    want.descriptor_bytes_consumed = descriptor_bytes;
    // Metadata totals: any FLAC config that has one will do when they differ.
    auto& got = *mem.r;
    bool have = false, match = false;
    for (auto& x : s.codecs) if (x.kind == g::kFlac && x.total) {
      have = true;
      if (got.descriptor_total_samples && *got.descriptor_total_samples == x.total && got.descriptor_duration_seconds && std::fabs(*got.descriptor_duration_seconds - double(x.total) / x.rate) < 1e-9 * x.total) match = true;
    }
    c.Check(have ? match : !got.descriptor_total_samples && !got.descriptor_duration_seconds, "metadata-total", "the total of the codec configuration is not what was written");
    want.descriptor_total_samples = got.descriptor_total_samples;
    want.descriptor_duration_seconds = got.descriptor_duration_seconds;
    // A sub-mix without a stereo layout is completed with one; the loudness of
    // that one is not part of the stream.
    std::vector<ScanProgress> progress;
    if (mode) {
      want.temporal_unit_scan = ScanFacts(s, obus, tail, mode == 2, budget, cancel, &progress);
      c.Check(got.temporal_unit_scan.has_value(), "facts", "the scan that was asked for is missing");
      c.Check(progress.size() == mem.progress.size(), "progress", Fmt("%zu progress calls instead of %zu", mem.progress.size(), progress.size()));
      for (size_t i = 0; i < progress.size(); ++i)
        c.Check(progress[i].bytes_consumed == mem.progress[i].bytes_consumed && progress[i].temporal_unit_count == mem.progress[i].temporal_unit_count, "progress", Fmt("progress call %zu differs", i));
    }
    for (size_t m = 0; m < want.mix_presentations.size() && m < got.mix_presentations.size(); ++m) {
      auto &a = want.mix_presentations[m], &b = got.mix_presentations[m];
      for (size_t x = 0; x < a.sub_mixes.size() && x < b.sub_mixes.size(); ++x) {
        bool stereo = false;
        for (auto& l : a.sub_mixes[x].layouts) stereo |= l.loudness_layout.sound_system_raw == 0;
        auto& y = b.sub_mixes[x].layouts;
        if (stereo || y.size() != a.sub_mixes[x].layouts.size() + 1 || y.back().loudness_layout.sound_system_raw != 0) continue;
        c.Count("completed-sub-mixes");
        y.pop_back();
        if (x == 0 && !b.layouts.empty()) b.layouts.pop_back();
      }
    }
    const V a = Tree(want, true), b = Tree(got, true);
    Same(c, a, &b, "report", "facts", 1e-9);
    c.nontrivial = !obus.empty();
    c.Count("exact-models");
    if (want.temporal_unit_scan) c.SimTime(want.temporal_unit_scan->duration_seconds.value_or(0));
  }
  c.State(Ctx::Mix(s.codecs.size() * 7 + damage * 31 + mode * 101 + io * 1009 + s.elements.size() * 10007 + s.mixes.size() * 100003 + s.num_tus * 1000003 + mem.r.ok()));
  c.Note("ok", mem.r.ok(), file.r.ok());
}

DST_PROPERTY(P01)({"P01", "", Run, 20000, 400000,
                   "a stream with at least one unit was probed and its facts compared, or a report was turned to JSON and read back",
                   {"iamf/cli/probe.cc", "iamf/cli/probe_json.cc", "iamf/cli/descriptor_obu_parser.cc", "iamf/obu (all readers)", "iamf/common/read_bit_buffer.cc"},
                   {"file I/O (faults injected below the real stream classes)", "Abseil hash order (salted)"}});
}  // namespace
}  // namespace dst
