// Describes a generated stream to the encoder: user metadata, input samples,
// and the model of the temporal units the encoder has to produce.
#ifndef VERIF_HARNESS_ENC_GEN_H_
#define VERIF_HARNESS_ENC_GEN_H_
#include <algorithm>
#include <cmath>
#include <map>
#include <optional>
#include <string>
#include <vector>

#include "core.h"
#include "iamf/cli/proto/audio_element.pb.h"
#include "iamf/cli/proto/audio_frame.pb.h"
#include "iamf/cli/proto/codec_config.pb.h"
#include "iamf/cli/proto/mix_presentation.pb.h"
#include "iamf/cli/proto/parameter_block.pb.h"
#include "iamf/cli/proto/user_metadata.pb.h"
#include "iamf_gen.h"

namespace dst::enc {
namespace pb = ::iamf_tools_cli_proto;
using gen::Bytes;
using gen::Pcm;

// ------------------------------------------------------------- metadata ---
template <typename E>
E En(int v) { return static_cast<E>(v); }

inline void PutParam(const gen::ParamDef& p, pb::ParamDefinition* o) {
  o->set_parameter_id(p.id);
  o->set_parameter_rate(p.rate);
  o->set_param_definition_mode(p.mode);
  o->set_reserved(p.reserved);
  if (p.mode == 0) {
    o->set_duration(p.duration);
    o->set_constant_subblock_duration(p.csd);
    if (p.csd == 0) for (uint32_t s : p.sub) o->add_subblock_durations(s);
  }
}
inline void PutGain(const gen::ParamDef& p, pb::MixGainParamDefinition* o) {
  PutParam(p, o->mutable_param_definition());
  o->set_default_mix_gain(p.gain);
}
inline void PutCodec(const gen::Codec& k, pb::CodecConfigObuMetadata* o) {
  o->set_codec_config_id(k.id);
  auto* c = o->mutable_codec_config();
  c->set_num_samples_per_frame(k.spf);
  switch (k.kind) {
    case gen::kLpcm: {
      c->set_codec_id(pb::CODEC_ID_LPCM);
      auto* d = c->mutable_decoder_config_lpcm();
      d->set_sample_format_flags(k.little ? pb::LPCM_LITTLE_ENDIAN : pb::LPCM_BIG_ENDIAN);
      d->set_sample_size(k.bits);
      d->set_sample_rate(k.rate);
      break;
    }
    case gen::kOpus: {
      c->set_codec_id(pb::CODEC_ID_OPUS);
      auto* d = c->mutable_decoder_config_opus();
      d->set_version(k.opus_version);
      d->set_pre_skip(k.pre_skip);
      d->set_input_sample_rate(k.input_rate);
      d->mutable_opus_encoder_metadata()->set_application(pb::APPLICATION_AUDIO);
      d->mutable_opus_encoder_metadata()->set_target_bitrate_per_channel(48000);
      break;
    }
    case gen::kFlac: {
      c->set_codec_id(pb::CODEC_ID_FLAC);
      auto* d = c->mutable_decoder_config_flac();
      auto* b = d->add_metadata_blocks();
      b->mutable_header()->set_block_type(pb::FLAC_BLOCK_TYPE_STREAMINFO);
      auto* i = b->mutable_stream_info();
      i->set_minimum_block_size(k.spf);
      i->set_maximum_block_size(k.spf);
      i->set_minimum_frame_size(k.min_frame);
      i->set_maximum_frame_size(k.max_frame);
      i->set_sample_rate(k.rate);
      i->set_bits_per_sample(k.bits - 1);
      i->set_total_samples_in_stream(k.total);
      i->set_md5_signature(std::string(k.md5.begin(), k.md5.end()));
      for (auto& [type, bytes] : k.blocks) {
        auto* x = d->add_metadata_blocks();
        x->mutable_header()->set_block_type(En<pb::FlacBlockType>(type + 1));
        x->set_generic_block(std::string(bytes.begin(), bytes.end()));
      }
      break;
    }
    case gen::kAac: {
      c->set_codec_id(pb::CODEC_ID_AAC_LC);
      auto* d = c->mutable_decoder_config_aac();
      d->set_buffer_size_db(k.buffer_size);
      d->set_max_bitrate(k.max_bitrate);
      d->set_average_bit_rate(k.avg_bitrate);
      d->mutable_decoder_specific_info()->set_sample_frequency_index(En<pb::SampleFrequencyIndex>(k.freq_idx + 1));
      break;
    }
  }
}
inline void PutElement(const gen::Element& e, bool preset, pb::AudioElementObuMetadata* o) {
  o->set_audio_element_id(e.id);
  o->set_audio_element_type(En<pb::AudioElementType>(e.type + 1));
  o->set_reserved(e.reserved);
  o->set_codec_config_id(e.codec_id);
  for (uint32_t s : e.substreams) o->add_audio_substream_ids(s);
  for (auto& p : e.params) {
    auto* q = o->add_audio_element_params();
    q->set_param_definition_type(p.type > 8 ? pb::PARAM_DEFINITION_TYPE_RESERVED_255 : En<pb::ParamDefinitionType>(p.type + 1));
    if (p.type == 1) {
      auto* d = q->mutable_demixing_param();
      PutParam(p, d->mutable_param_definition());
      d->mutable_default_demixing_info_parameter_data()->set_dmixp_mode(En<pb::DMixPMode>(p.dmode + 1));
      d->mutable_default_demixing_info_parameter_data()->set_reserved(p.dres);
      d->set_default_w(p.w);
      d->set_reserved(p.wres);
    } else if (p.type > 8) {
      q->mutable_param_definition_extension()->set_param_definition_bytes(std::string(p.ext.begin(), p.ext.end()));
    } else {
      PutParam(p, q->mutable_recon_gain_param()->mutable_param_definition());
    }
  }
  if (e.type == 0) {
    auto* s = o->mutable_scalable_channel_layout_config();
    s->set_reserved(e.layers_res);
    for (auto& l : e.layers) {
      auto* x = s->add_channel_audio_layer_configs();
      x->set_loudspeaker_layout(En<pb::LoudspeakerLayout>(l.layout + 1));
      if (l.layout == 15) x->set_expanded_loudspeaker_layout(En<pb::ExpandedLoudspeakerLayout>(l.expanded + 1));
      x->set_output_gain_is_present_flag(l.og);
      x->set_recon_gain_is_present_flag(l.rg);
      x->set_substream_count(l.substreams);
      x->set_coupled_substream_count(l.coupled);
      x->set_reserved_a(l.reserved);
      if (l.og) { x->set_output_gain_flag(l.og_flag); x->set_reserved_b(l.og_res); x->set_output_gain(l.og_gain); }
    }
  } else {
    auto* a = o->mutable_ambisonics_config();
    if (preset) {
      int order = 0;
      while ((order + 1) * (order + 1) < e.ambi_out) ++order;
      a->mutable_ambisonics_preset_config()->set_ambisonics_preset(En<pb::AmbisonicsPreset>(order + 1));
    } else if (e.ambi_mode == 0) {
      auto* m = a->mutable_ambisonics_mono_config();
      m->set_output_channel_count(e.ambi_out);
      m->set_substream_count(e.substreams.size());
      for (uint8_t x : e.mapping) m->add_channel_mapping(x);
    } else {
      auto* m = a->mutable_ambisonics_projection_config();
      m->set_output_channel_count(e.ambi_out);
      m->set_substream_count(e.substreams.size());
      m->set_coupled_substream_count(e.ambi_coupled);
      for (int16_t x : e.matrix) m->add_demixing_matrix(x);
    }
  }
}
inline void PutRendering(const gen::MixElement& e, pb::RenderingConfig* o) {
  o->set_headphones_rendering_mode(En<pb::HeadPhonesRenderingMode>(e.mode + 1));
  o->set_binaural_filter_profile(En<pb::BinauralFilterProfile>(e.profile + 1));
  o->set_reserved(e.res);
  o->set_rendering_config_extension_bytes(std::string(e.ext.begin(), e.ext.end()));
  for (auto& p : e.positions) {
    auto* x = o->add_rendering_config_param_definitions();
    x->set_param_definition_type(En<pb::ParamDefinitionType>(p.type + 1));
    auto polar = [&](auto* y) { PutParam(p, y->mutable_param_definition()); y->set_default_azimuth(p.pos[0]); y->set_default_elevation(p.pos[1]); y->set_default_distance(p.pos[2]); };
    auto cart = [&](auto* y) { PutParam(p, y->mutable_param_definition()); y->set_default_x(p.pos[0]); y->set_default_y(p.pos[1]); y->set_default_z(p.pos[2]); };
    auto dual = [&](auto* y) {
      PutParam(p, y->mutable_param_definition());
      y->set_default_first_x(p.pos[0]); y->set_default_first_y(p.pos[1]); y->set_default_first_z(p.pos[2]);
      y->set_default_second_x(p.pos[3]); y->set_default_second_y(p.pos[4]); y->set_default_second_z(p.pos[5]);
    };
    switch (p.type) {
      case 3: polar(x->mutable_polar_param_definition()); break;
      case 4: cart(x->mutable_cart8_param_definition()); break;
      case 5: cart(x->mutable_cart16_param_definition()); break;
      case 6: {
        auto* y = x->mutable_dual_polar_param_definition();
        PutParam(p, y->mutable_param_definition());
        y->set_default_first_azimuth(p.pos[0]); y->set_default_first_elevation(p.pos[1]); y->set_default_first_distance(p.pos[2]);
        y->set_default_second_azimuth(p.pos[3]); y->set_default_second_elevation(p.pos[4]); y->set_default_second_distance(p.pos[5]);
        break;
      }
      case 7: dual(x->mutable_dual_cart8_param_definition()); break;
      case 8: dual(x->mutable_dual_cart16_param_definition()); break;
    }
  }
  if (e.offset == 0) o->mutable_element_gain_offset_config()->mutable_value_type()->mutable_element_gain_offset()->set_q7_dot8(e.offset_gain[0]);
  if (e.offset == 1) {
    auto* r = o->mutable_element_gain_offset_config()->mutable_range_type();
    r->mutable_default_element_gain_offset()->set_q7_dot8(e.offset_gain[0]);
    r->mutable_min_element_gain_offset()->set_q7_dot8(e.offset_gain[1]);
    r->mutable_max_element_gain_offset()->set_q7_dot8(e.offset_gain[2]);
  }
}
inline void PutMix(const gen::Mix& m, pb::MixPresentationObuMetadata* o) {
  o->set_mix_presentation_id(m.id);
  for (auto& x : m.langs) o->add_annotations_language(x);
  for (auto& x : m.labels) o->add_localized_presentation_annotations(x);
  for (auto& s : m.subs) {
    auto* q = o->add_sub_mixes();
    for (auto& e : s.elements) {
      auto* x = q->add_audio_elements();
      x->set_audio_element_id(e.id);
      for (auto& l : e.labels) x->add_localized_element_annotations(l);
      PutRendering(e, x->mutable_rendering_config());
      PutGain(e.gain, x->mutable_element_mix_gain());
    }
    PutGain(s.out_gain, q->mutable_output_mix_gain());
    for (auto& l : s.layouts) {
      auto* x = q->add_layouts();
      auto* y = x->mutable_loudness_layout();
      y->set_layout_type(En<pb::LayoutType>(l.type + 1));
      if (l.type == 2) { y->mutable_ss_layout()->set_sound_system(En<pb::SoundSystem>(l.ss + 1)); y->mutable_ss_layout()->set_reserved(l.res); }
      else y->mutable_reserved_or_binaural_layout()->set_reserved(l.res);
      auto* z = x->mutable_loudness();
      if (l.loud.info & 1) z->add_info_type_bit_masks(pb::LOUDNESS_INFO_TYPE_TRUE_PEAK);
      if (l.loud.info & 2) z->add_info_type_bit_masks(pb::LOUDNESS_INFO_TYPE_ANCHORED_LOUDNESS);
      for (int bit = 4; bit < 256; bit *= 2) if (l.loud.info & bit) z->add_info_type_bit_masks(En<pb::LoudnessInfoTypeBitMask>(bit));
      z->set_info_type_bytes(std::string(l.loud.ext.begin(), l.loud.ext.end()));
      z->set_integrated_loudness(l.loud.integrated);
      z->set_digital_peak(l.loud.peak);
      if (l.loud.info & 1) z->set_true_peak(l.loud.true_peak);
      if (l.loud.info & 2)
        for (auto& a : l.loud.anchored) {
          auto* w = z->mutable_anchored_loudness()->add_anchor_elements();
          w->set_anchor_element(En<pb::AnchorType>(a.first + 1));
          w->set_anchored_loudness(a.second);
        }
    }
  }
  o->set_include_mix_presentation_tags(m.has_tags);
  if (m.has_tags) for (auto& t : m.tags) {
    auto* x = o->mutable_mix_presentation_tags()->add_tags();
    x->set_tag_name(t.first);
    x->set_tag_value(t.second);
  }
  if (m.optional_fields) {
    o->mutable_obu_header()->set_obu_trimming_status_flag(true);
    auto* x = o->mutable_optional_fields();
    x->set_preferred_loudspeaker_renderer(En<pb::PreferredLoudspeakerRenderer>((*m.optional_fields)[0] + 1));
    x->set_preferred_binaural_renderer(En<pb::PreferredBinauralRenderer>((*m.optional_fields)[1] + 1));
    x->set_optional_fields_remaining_bytes(std::string(m.optional_fields->begin() + 2, m.optional_fields->end()));
  }
}
inline pb::ParameterBlockObuMetadata BlockMetadata(const gen::Block& b, int64_t start) {
  pb::ParameterBlockObuMetadata o;
  o.set_parameter_id(b.def->id);
  o.set_duration(b.duration);
  o.set_constant_subblock_duration(b.csd);
  o.set_start_timestamp(start);
  for (auto& s : b.subs) {
    auto* q = o.add_subblocks();
    if (b.csd == 0) q->set_subblock_duration(s.duration);
    if (b.def->type == 0) {
      auto* p = q->mutable_mix_gain_parameter_data()->mutable_param_data();
      if (s.anim == 0) p->mutable_step()->set_start_point_value(s.start);
      if (s.anim == 1) { p->mutable_linear()->set_start_point_value(s.start); p->mutable_linear()->set_end_point_value(s.end); }
      if (s.anim == 2) {
        auto* z = p->mutable_bezier();
        z->set_start_point_value(s.start);
        z->set_end_point_value(s.end);
        z->set_control_point_value(s.control);
        z->set_control_point_relative_time(s.rel);
      }
    } else if (b.def->type == 1) {
      q->mutable_demixing_info_parameter_data()->set_dmixp_mode(En<pb::DMixPMode>(s.dmode + 1));
      q->mutable_demixing_info_parameter_data()->set_reserved(s.dres);
    } else {
      for (auto& l : s.recon) {
        auto* z = q->mutable_recon_gain_info_parameter_data()->add_recon_gains_for_layer();
        if (!l) continue;
        size_t k = 0;
        for (int bit = 0; bit < 12; ++bit) if (l->first >> bit & 1) (*z->mutable_recon_gain())[bit] = l->second[k++];
      }
    }
  }
  return o;
}

// --------------------------------------------------------------- labels ---
inline int LabelOf(const std::string& s) {
  static const auto* t = new std::map<std::string, int>{
      {"M", 2}, {"L2", 3}, {"R2", 4}, {"C", 6}, {"LFE", 7}, {"L3", 8}, {"R3", 9}, {"Ltf3", 10}, {"Rtf3", 11}, {"L5", 14}, {"R5", 15}, {"Ls5", 16}, {"Rs5", 17},
      {"Ltf2", 22}, {"Rtf2", 23}, {"Ltf4", 26}, {"Rtf4", 27}, {"Ltb4", 28}, {"Rtb4", 29}, {"L7", 32}, {"R7", 33}, {"Lss7", 34}, {"Rss7", 35}, {"Lrs7", 36}, {"Rrs7", 37},
      {"FLc", 42}, {"FC", 43}, {"FRc", 44}, {"FL", 45}, {"FR", 46}, {"SiL", 47}, {"SiR", 48}, {"BL", 49}, {"BR", 50}, {"TpFL", 51}, {"TpFR", 52}, {"TpSiL", 53}, {"TpSiR", 54},
      {"TpBL", 55}, {"TpBR", 56}, {"BC", 57}, {"LFE2", 58}, {"TpFC", 59}, {"TpC", 60}, {"TpBC", 61}, {"BtFC", 62}, {"BtFL", 63}, {"BtFR", 64}, {"BtBL", 65}, {"BtBR", 66}};
  if (s[0] == 'A') return 1000 + std::stoi(s.substr(1));
  return t->at(s);
}
// The full name of a channel that is called `s` in a layer.
inline std::string FullLabel(const gen::Layer& l, const std::string& s) {
  if (l.layout == 15) {
    if (s == "L" || s == "R" || s == "Lss" || s == "Rss" || s == "Lrs" || s == "Rrs") return s + "7";
    if (s == "Ls" || s == "Rs") return s + "5";
    if (s == "Ltf" || s == "Rtf" || s == "Ltb" || s == "Rtb") return s + "4";
    return s;
  }
  const auto& i = gen::Info(l.layout);
  if (s == "L" || s == "R") return s + std::to_string(i.surround);
  if (s == "Ls" || s == "Rs") return s + "5";
  if (s == "Lss" || s == "Rss" || s == "Lrs" || s == "Rrs") return s + "7";
  if (s == "Ltf" || s == "Rtf") return s + std::to_string(i.surround == 3 ? 3 : i.height);
  if (s == "Ltb" || s == "Rtb") return s + "4";
  return s;  // M, C, LFE, L2, L5, R5
}

struct Labels {
  std::vector<std::string> inputs;                // what the caller supplies
  std::vector<std::vector<std::string>> coded;    // per substream
};
inline Labels LabelsOf(const gen::Element& e) {
  Labels r;
  r.coded.resize(e.substreams.size());
  if (e.type == 0) {
    size_t sub = 0;
    for (auto& l : e.layers)
      for (int i = 0; i < l.substreams; ++i, ++sub)
        for (auto& x : e.labels[sub]) r.coded[sub].push_back(FullLabel(l, x));
    const gen::Layer& top = e.layers.back();
    if (top.layout == 15) { for (auto& s : r.coded) for (auto& x : s) r.inputs.push_back(x); }
    else for (auto& x : gen::Info(top.layout).order) r.inputs.push_back(FullLabel(top, x));
  } else if (e.ambi_mode == 0) {
    for (size_t acn = 0; acn < e.mapping.size(); ++acn)
      if (e.mapping[acn] != 255) r.coded[e.mapping[acn]].push_back("A" + std::to_string(acn));
    for (auto& s : r.coded) for (auto& x : s) r.inputs.push_back(x);
  } else {
    int n = 0;
    for (size_t i = 0; i < e.substreams.size(); ++i)
      for (int k = 0; k < e.Channels(i); ++k) r.coded[i].push_back("A" + std::to_string(n++));
    for (auto& s : r.coded) for (auto& x : s) r.inputs.push_back(x);
  }
  return r;
}

// ------------------------------------------------------------- downmix ----
struct Demix { double alpha, beta, gamma, delta, w; };
inline Demix DemixOf(int mode, int w_idx) {
  static const double kW[] = {0.0, 0.0179, 0.0391, 0.0658, 0.1038, 0.25, 0.3962, 0.4342, 0.4609, 0.4821, 0.5};
  const int m = mode & 3;
  if (m == 0) return {1, 1, 0.707, 0.707, kW[w_idx]};
  if (m == 1) return {0.707, 0.707, 0.707, 0.707, kW[w_idx]};
  return {1, 0.866, 0.866, 0.866, kW[w_idx]};
}
inline int WOffset(int mode) { return mode < 4 ? -1 : 1; }
// All channels that can be derived from those given at one instant.
inline void Downmix(const Demix& d, std::map<std::string, double>& x) {
  auto has = [&x](const char* s) { return x.count(s) != 0; };
  if (has("L7") && has("Lss7")) for (const char* s : {"L", "R"}) {
    const std::string t(s);
    x[t + "5"] = x[t + "7"];
    x[t + "s5"] = d.alpha * x[t + "ss7"] + d.beta * x[t + "rs7"];
  }
  if (has("L5")) for (std::string t : {"L", "R"}) x[t + "3"] = x[t + "5"] + d.delta * x[t + "s5"];
  if (has("L3") && has("C")) for (std::string t : {"L", "R"}) x[t + "2"] = x[t + "3"] + 0.707 * x["C"];
  if (has("L2") && !has("M")) x["M"] = 0.5 * (x["L2"] + x["R2"]);
  if (has("Ltb4")) for (std::string t : {"L", "R"}) x[t + "tf2"] = x[t + "tf4"] + d.gamma * x[t + "tb4"];
  if (has("Ltf2") && has("Ls5")) for (std::string t : {"L", "R"}) x[t + "tf3"] = x[t + "tf2"] + d.w * d.delta * x[t + "s5"];
}

// ------------------------------------------------------------ the plan ----
// An OBU the user asks for by its bytes.
struct Arb {
  int hook = 0;       // InsertionHook
  int64_t tick = 0;
  gen::Obu obu;
};
struct Plan {
  gen::Stream s;
  std::vector<Arb> arbs;
  std::vector<gen::Obu> metadata;
  std::map<std::pair<int, size_t>, Bytes> ext;  // extension headers
  int leb = 0;
  pb::UserMetadata md;
  uint32_t n = 0, start = 0, end = 0;   // input samples; samples the user trims
  bool start_includes = false, end_includes = false;
  uint32_t delay = 0, frames = 0, padding = 0, trim_start = 0, trim_end = 0;
  std::vector<Labels> labels;                                       // per element
  std::vector<std::map<std::string, std::vector<double>>> inputs;   // per element
  std::map<uint32_t, bool> exact;                                   // substream is coded without arithmetic
  std::vector<bool> preset;
  // Blocks of each temporal unit (indices into s.blocks).
  std::vector<std::vector<int>> blocks;
  bool demix_blocks = false;
  std::map<uint32_t, std::pair<size_t, size_t>> where;  // substream -> element, index
};

// The delay of the simulated codecs.
inline uint32_t DelayOf(const gen::Codec& k) { return k.kind == gen::kOpus ? 312 : k.kind == gen::kAac ? 2048 : 0; }

// The descriptors, with the loudness of `s`.
inline Bytes WriteDescriptors(const Plan& p, const gen::Stream& s) {
  Bytes b;
  auto arbs = [&](int hook) { for (auto& a : p.arbs) if (a.hook == hook) gen::Stream::Add(b, a.obu.Write(0)); };
  auto put = [&](gen::Obu o, int kind, size_t i) {
    if (auto it = p.ext.find({kind, i}); it != p.ext.end()) o.ext = it->second;
    gen::Stream::Add(b, o.Write(0));
  };
  arbs(1);
  gen::BitW q;
  q.Raw({'i', 'a', 'm', 'f', static_cast<uint8_t>(s.primary), static_cast<uint8_t>(s.additional)});
  put({.type = gen::kSeq, .payload = q.b}, 0, 0);
  arbs(3);
  for (auto& m : p.metadata) gen::Stream::Add(b, m.Write(0));
  for (size_t i = 0; i < s.codecs.size(); ++i) put(s.codecs[i].Write(0), 1, i);
  arbs(4);
  for (size_t i = 0; i < s.elements.size(); ++i) put(s.elements[i].Write(0), 2, i);
  arbs(5);
  for (size_t i = 0; i < s.mixes.size(); ++i) put(s.mixes[i].Write(0), 3, i);
  arbs(6);
  arbs(2);
  return b;
}
inline Bytes WriteBlock(const Plan& p, size_t i) {
  gen::Obu o = p.s.blocks[i].Write(0);
  if (auto it = p.ext.find({4, i}); it != p.ext.end()) o.ext = it->second;
  return o.Write(0);
}

struct PlanKnobs {
  bool unity = false, lossless = false;
  uint32_t max_frames = 5;
  bool blocks = true;
  bool extras = true;
};
inline void PutHeader(const gen::Obu& o, pb::ObuHeaderMetadata* h) {
  h->set_obu_redundant_copy(o.redundant);
  h->set_obu_trimming_status_flag(o.flag);
  if (o.ext) { h->set_obu_extension_flag(true); h->set_extension_header_bytes(std::string(o.ext->begin(), o.ext->end())); }
}
inline void DrawPlan(Ctx& c, PlanKnobs k, Plan& p) {
  gen::Generator g(c, {.decodable = true, .lossless = k.lossless, .unity = k.unity, .encodable = true, .junk = false});
  gen::Stream& s = p.s;
  g.Descriptors(s);
  s.delimiters = c.Pick(3) == 2;
  for (auto& e : s.elements) p.delay = std::max(p.delay, DelayOf(s.CodecOf(e)));
  const uint32_t spf = s.codecs[0].spf;
  // Lengths and trims.
  if (c.Pick(10) == 9) p.n = 1 + c.Pick(spf);
  else if (c.Pick(2)) p.n = spf * (1 + c.Pick(k.max_frames));
  else p.n = 1 + c.Pick(spf * k.max_frames);
  p.frames = (p.delay + p.n + spf - 1) / spf;
  p.padding = p.frames * spf - (p.delay + p.n);
  p.start_includes = c.Pick(2);
  p.end_includes = c.Pick(2);
  const bool user_start = c.Pick(3) == 2, user_end = c.Pick(3) == 2;
  p.start = p.start_includes ? p.delay : 0;
  p.end = p.end_includes ? p.padding : 0;
  if (user_start) p.start += c.Pick(std::min<uint32_t>(p.n, 2 * spf) + 1);
  if (user_end) p.end += c.Pick(spf - p.padding + 1);
  p.trim_start = p.start_includes ? p.start : p.start + p.delay;
  p.trim_end = p.end_includes ? p.end : p.end + p.padding;
  {  // The last frame holds both.
    const int64_t last = static_cast<int64_t>(p.trim_start) - static_cast<int64_t>(p.frames - 1) * spf;
    if (last > 0 && last + p.trim_end > spf) {
      p.end = p.end_includes ? p.padding : 0;
      p.trim_end = p.padding;
      p.start = p.start_includes ? p.delay : 0;
      p.trim_start = p.delay;
    }
  }
  // Input.
  const uint64_t base = c.Bits();
  const int content = c.Pick(4);
  for (size_t i = 0; i < s.elements.size(); ++i) {
    const gen::Element& e = s.elements[i];
    p.labels.push_back(LabelsOf(e));
    p.inputs.emplace_back();
    const bool scalable = e.type == 0 && e.layers.size() > 1;
    const gen::Codec& codec = s.CodecOf(e);
    for (size_t ch = 0; ch < p.labels[i].inputs.size(); ++ch) {
      auto& v = p.inputs[i][p.labels[i].inputs[ch]];
      for (uint32_t t = 0; t < p.n; ++t)
        v.push_back(gen::Sample(base, 1000 + i, ch, t, codec.Lossless() ? codec.bits : 16, scalable ? 2 : content) / 2147483648.0);
    }
    bool identity = e.type == 1 && e.ambi_mode == 0 && e.substreams.size() == static_cast<size_t>(e.ambi_out);
    for (size_t x = 0; identity && x < e.mapping.size(); ++x) identity = e.mapping[x] == x;
    p.preset.push_back(identity && !(codec.kind == gen::kOpus && e.ambi_out == 16) && c.Pick(3) == 2);
  }
  // Parameter blocks: none or one in every unit.
  std::vector<const gen::ParamDef*> with;
  std::set<uint32_t> seen;
  auto consider = [&](const gen::ParamDef& d, const gen::Element* e = nullptr) {
    if (d.type > 2 || !seen.insert(d.id).second) return;
    if (k.blocks && c.Pick(2) == 1 && !(d.type == 1 && !s.CodecOf(*e).Lossless())) with.push_back(&d);
  };
  for (auto& e : s.elements) for (auto& d : e.params) consider(d, &e);
  for (auto& m : s.mixes) for (auto& b : m.subs) { for (auto& e : b.elements) consider(e.gain); consider(b.out_gain); }
  s.num_tus = p.frames;
  s.blocks.reserve(with.size() * p.frames);
  p.blocks.resize(p.frames);
  for (uint32_t t = 0; t < p.frames; ++t)
    for (auto* d : with) {
      p.blocks[t].push_back(s.blocks.size());
      s.blocks.push_back(g.DrawBlock(s, *d));
      p.demix_blocks |= d->type == 1;
    }
  // What a layer's output gain divides its channels by.
  auto gain_of = [](const gen::Layer& l, const std::string& label) {
    static const std::map<std::string, int> kBit = {{"M", 32}, {"L2", 32}, {"L3", 32}, {"R2", 16}, {"R3", 16}, {"Ls5", 8}, {"Rs5", 4}, {"Ltf2", 2}, {"Ltf3", 2}, {"Rtf2", 1}, {"Rtf3", 1}};
    auto it = kBit.find(label);
    return l.og && it != kBit.end() && (l.og_flag & it->second) ? std::pow(10.0, l.og_gain / 256.0 / 20.0) : 1.0;
  };
  // What the substreams carry.
  s.frames.reserve(1000);
  std::map<uint32_t, Pcm> coded;  // whole stream, in the encoder's time
  for (size_t i = 0; i < s.elements.size(); ++i) {
    const gen::Element& e = s.elements[i];
    const gen::ParamDef* demix = nullptr;
    for (auto& d : e.params) if (d.type == 1) demix = &d;
    const uint32_t late = p.delay - DelayOf(s.CodecOf(e));  // behind the codec with the longest delay
    for (size_t x = 0; x < e.substreams.size(); ++x) {
      coded[e.substreams[x]].assign(p.labels[i].coded[x].size(), std::vector<int32_t>(p.frames * spf));
      p.exact[e.substreams[x]] = true;
      p.where[e.substreams[x]] = {i, x};
      for (auto& l : p.labels[i].coded[x]) if (!p.inputs[i].count(l)) p.exact[e.substreams[x]] = false;
    }
    // The output gains.
    std::vector<std::vector<double>> gain(e.substreams.size());
    for (size_t x = 0, layer = 0, left = e.layers.empty() ? 0 : e.layers[0].substreams; x < e.substreams.size(); ++x, --left) {
      while (layer + 1 < e.layers.size() && left == 0) left = e.layers[++layer].substreams;
      for (auto& l : p.labels[i].coded[x]) {
        gain[x].push_back(e.type == 0 ? gain_of(e.layers[layer], l) : 1.0);
        if (gain[x].back() != 1.0) p.exact[e.substreams[x]] = false;
      }
    }
    int w = 0;
    for (uint32_t t = 0; t < p.frames; ++t) {
      Demix d{0.707, 0.707, 0.707, 0.707, 0};
      if (demix) {
        const gen::Block* b = nullptr;
        for (int q : p.blocks[t]) if (s.blocks[q].def == demix) b = &s.blocks[q];
        if (b) {
          if (t) w = std::clamp(w + WOffset(b->subs[0].dmode), 0, 10);
          d = DemixOf(b->subs[0].dmode, w);
        } else {
          d = DemixOf(demix->dmode, demix->w);
        }
      }
      for (uint32_t n = t * spf; n < std::min(p.n, (t + 1) * spf); ++n) {
        std::map<std::string, double> v;
        for (auto& [l, x] : p.inputs[i]) v[l] = x[n];
        if (e.type == 0 && e.layers.size() > 1) Downmix(d, v);
        for (size_t x = 0; x < e.substreams.size(); ++x)
          for (size_t ch = 0; ch < p.labels[i].coded[x].size(); ++ch) {
            const double y = v.at(p.labels[i].coded[x][ch]) / gain[x][ch] * 2147483648.0;
            coded[e.substreams[x]][ch][n + late] = y >= 2147483647.0 ? INT32_MAX : y <= -2147483648.0 ? INT32_MIN : static_cast<int32_t>(y);
          }
      }
    }
  }
  s.frames.reserve(coded.size() * p.frames);
  for (uint32_t t = 0; t < p.frames; ++t)
    for (auto& e : s.elements)
      for (uint32_t sub : e.substreams) {
        gen::Frame f;
        f.substream = sub;
        f.element = &e;
        f.codec = &s.CodecOf(e);
        f.trim_start = std::clamp<int64_t>(static_cast<int64_t>(p.trim_start) - static_cast<int64_t>(t) * spf, 0, spf);
        f.trim_end = t + 1 == p.frames ? p.trim_end : 0;
        for (auto& ch : coded[sub]) {
          f.pcm.emplace_back(ch.begin() + t * spf, ch.begin() + (t + 1) * spf);
          const int bits = f.codec->Lossless() ? f.codec->bits : 16;
          for (auto& v : f.pcm.back()) if (bits < 32) v &= ~0u << (32 - bits);
        }
        f.payload = gen::CodedFrame(*f.codec, f.pcm, t);
        s.frames.push_back(std::move(f));
        s.pieces.push_back({gen::Piece::kAudio, {}, static_cast<int>(t), static_cast<int>(s.frames.size()) - 1});
      }
  // User metadata.
  pb::UserMetadata& m = p.md;
  if (k.extras && c.Pick(4) == 3) {
    p.leb = 5 + c.Pick(4);
    m.mutable_test_vector_metadata()->mutable_leb_generator()->set_mode(pb::GENERATE_LEB_FIXED_SIZE);
    m.mutable_test_vector_metadata()->mutable_leb_generator()->set_fixed_size(p.leb);
  }
  auto header = [&](int kind, size_t i, pb::ObuHeaderMetadata* h) {
    if (!k.extras || c.Pick(8) != 7) return;
    gen::Obu o;
    o.ext = p.ext[{kind, i}] = gen::DrawBytes(c, c.Pick(5));
    o.flag = kind == 3 && s.mixes[i].optional_fields;
    PutHeader(o, h);
  };
  if (k.extras && c.Pick(4) == 3) {
    for (uint32_t n = 1 + c.Pick(2); n; --n) {
      auto* x = m.add_metadata_obu_metadata();
      gen::BitW w;
      if (c.Pick(2)) {
        const int cc = c.Pick(2) ? 0xff : c.Pick(255);
        const Bytes body = gen::DrawBytes(c, c.Pick(6));
        auto* y = x->mutable_metadata_itu_t_t35();
        y->set_itu_t_t35_country_code(cc);
        w.Put(1, 8); w.Put(cc, 8);
        if (cc == 0xff) { y->set_itu_t_t35_country_code_extension_byte(7); w.Put(7, 8); }
        y->set_itu_t_t35_payload_bytes(std::string(body.begin(), body.end()));
        w.Raw(body);
      } else {
        auto* y = x->mutable_metadata_iamf_tags();
        const uint32_t tags = c.Pick(3);
        w.Put(2, 8); w.Put(tags, 8);
        for (uint32_t i = 0; i < tags; ++i) {
          auto* t = y->add_tags();
          t->set_name("n" + std::to_string(i)); t->set_value(std::string(c.Pick(5), 'v'));
          w.Str(t->name()); w.Str(t->value());
        }
      }
      gen::BitW z;  // the type is a ULEB128
      { gen::FixedLeb f(p.leb); z.Uleb(w.b[0]); }
      z.Raw(Bytes(w.b.begin() + 1, w.b.end()));
      p.metadata.push_back({.type = gen::kMeta, .payload = z.b});
    }
  }
  if (k.extras && c.Pick(4) == 3) {
    for (uint32_t n = 1 + c.Pick(5); n; --n) {
      Arb a;
      a.hook = 2 + c.Pick(8);
      if (c.Pick(16) == 15) a.hook = 1;
      a.tick = int64_t{c.Pick(p.frames)} * spf;
      a.obu.type = gen::kReserved25 + c.Pick(6);
      a.obu.redundant = c.Pick(8) == 7;
      if (c.Pick(4) == 3) a.obu.ext = gen::DrawBytes(c, c.Pick(4));
      a.obu.payload = gen::DrawBytes(c, c.Pick(8));
      auto* x = m.add_arbitrary_obu_metadata();
      x->set_insertion_hook(En<pb::InsertionHook>(a.hook));
      x->set_obu_type(En<pb::ArbitraryObuType>(a.obu.type + 1));
      PutHeader(a.obu, x->mutable_obu_header());
      x->set_payload(std::string(a.obu.payload.begin(), a.obu.payload.end()));
      if (a.hook >= 7) x->set_insertion_tick(a.tick);
      p.arbs.push_back(a);
    }
  }
  for (size_t i = 0; i < s.blocks.size(); ++i)
    if (k.extras && c.Pick(16) == 15) p.ext[{4, i}] = gen::DrawBytes(c, c.Pick(4));
  m.mutable_test_vector_metadata()->set_override_computed_recon_gains(true);
  m.mutable_encoder_control_metadata()->set_add_build_information_tag(false);
  m.mutable_temporal_delimiter_metadata()->set_enable_temporal_delimiters(s.delimiters);
  auto* q = m.add_ia_sequence_header_metadata();
  q->set_primary_profile(En<pb::ProfileVersion>(s.primary + 1));
  q->set_additional_profile(En<pb::ProfileVersion>(s.additional + 1));
  header(0, 0, q->mutable_obu_header());
  for (size_t i = 0; i < s.codecs.size(); ++i) { auto* x = m.add_codec_config_metadata(); PutCodec(s.codecs[i], x); header(1, i, x->mutable_obu_header()); }
  for (size_t i = 0; i < s.elements.size(); ++i) { auto* x = m.add_audio_element_metadata(); PutElement(s.elements[i], p.preset[i], x); header(2, i, x->mutable_obu_header()); }
  for (size_t i = 0; i < s.mixes.size(); ++i) { auto* x = m.add_mix_presentation_metadata(); PutMix(s.mixes[i], x); header(3, i, x->mutable_obu_header()); }
  for (size_t i = 0; i < s.elements.size(); ++i) {
    auto* f = m.add_audio_frame_metadata();
    f->set_audio_element_id(s.elements[i].id);
    f->set_samples_to_trim_at_start(p.start);
    f->set_samples_to_trim_at_end(p.end);
    f->set_samples_to_trim_at_start_includes_codec_delay(p.start_includes);
    f->set_samples_to_trim_at_end_includes_padding(p.end_includes);
    for (auto& l : p.labels[i].inputs) f->add_channel_metadatas()->set_channel_label(En<pb::ChannelLabel>(LabelOf(l)));
  }
}

// ------------------------------------------------------------ reading back
struct ParsedObu {
  int type = 0;
  bool redundant = false, flag = false, ext = false;
  uint32_t trim_end = 0, trim_start = 0;
  Bytes payload, whole;
};
inline bool ReadUleb(const Bytes& b, size_t& at, uint64_t& v) {
  v = 0;
  for (int i = 0; i < 8; ++i) {
    if (at >= b.size()) return false;
    const uint8_t x = b[at++];
    v |= uint64_t{x & 127u} << (7 * i);
    if (!(x & 128)) return v <= 0xffffffffu;
  }
  return false;
}
inline std::optional<std::vector<ParsedObu>> ParseObus(const Bytes& b) {
  std::vector<ParsedObu> r;
  for (size_t at = 0; at < b.size();) {
    ParsedObu o;
    const size_t first = at;
    const uint8_t h = b[at++];
    o.type = h >> 3;
    o.redundant = h & 4;
    o.flag = h & 2;
    o.ext = h & 1;
    uint64_t size, v;
    if (!ReadUleb(b, at, size) || size > b.size() - at) return std::nullopt;
    const size_t end = at + size;
    Bytes body(b.begin() + at, b.begin() + end);
    size_t k = 0;
    if (o.flag && o.type >= gen::kFrame && o.type < gen::kMeta) {
      if (!ReadUleb(body, k, v)) return std::nullopt;
      o.trim_end = v;
      if (!ReadUleb(body, k, v)) return std::nullopt;
      o.trim_start = v;
    }
    if (o.ext) {
      if (!ReadUleb(body, k, v) || v > body.size() - k) return std::nullopt;
      k += v;
    }
    o.payload.assign(body.begin() + k, body.end());
    o.whole.assign(b.begin() + first, b.begin() + end);
    at = end;
    r.push_back(std::move(o));
  }
  return r;
}
// The samples in a coded frame; the caller re-codes them to check the rest.
inline std::optional<Pcm> DecodePayload(const gen::Codec& k, const Bytes& b, size_t channels) {
  Pcm p(channels, std::vector<int32_t>(k.spf));
  const size_t n = k.kind == gen::kLpcm ? k.bits / 8 : k.kind == gen::kFlac ? (k.bits + 7) / 8 : 2;
  const size_t head = k.kind == gen::kLpcm ? 0 : k.kind == gen::kFlac ? 12 : 8, tail = k.kind == gen::kFlac ? 4 : 0;
  if (b.size() != head + tail + n * channels * k.spf) return std::nullopt;
  size_t at = head;
  for (uint32_t t = 0; t < k.spf; ++t)
    for (size_t ch = 0; ch < channels; ++ch, at += n) {
      uint32_t v = 0;
      for (size_t i = 0; i < n; ++i)
        v |= uint32_t{b[at + i]} << (k.kind == gen::kLpcm && k.little ? 32 - 8 * n + 8 * i : 24 - 8 * i);
      p[ch][t] = static_cast<int32_t>(v);
    }
  return p;
}
}  // namespace dst::enc
#endif
