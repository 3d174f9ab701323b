// E02: failures while encoding are reported, contained, and never hidden.
#include <cmath>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <limits>

#include "decode_common.h"
#include "enc_check.h"
#include "google/protobuf/descriptor.h"
#include "google/protobuf/message.h"
#include "iamf/cli/iamf_components.h"
#include "iamf/cli/iamf_encoder.h"
#include "iamf/cli/rendering_mix_presentation_finalizer.h"
#include "iamf/include/iamf_tools/iamf_encoder_factory.h"
#include "sim_tp.h"

namespace dst {
namespace {
namespace g = dst::gen;
namespace api = ::iamf_tools::api;
namespace proto = ::google::protobuf;
using enc::ReadFile;
using g::Bytes;

// ----------------------------------------------------- altered metadata ---
struct Leaf { proto::Message* m; const proto::FieldDescriptor* f; int index; };
void Collect(proto::Message* m, std::vector<Leaf>& out) {
  const auto* d = m->GetDescriptor();
  const auto* r = m->GetReflection();
  for (int i = 0; i < d->field_count(); ++i) {
    const auto* f = d->field(i);
    if (f->is_repeated()) {
      const int n = r->FieldSize(*m, f);
      for (int k = 0; k < n; ++k) {
        if (f->cpp_type() == proto::FieldDescriptor::CPPTYPE_MESSAGE) Collect(r->MutableRepeatedMessage(m, f, k), out);
        out.push_back({m, f, k});
      }
    } else if (f->cpp_type() == proto::FieldDescriptor::CPPTYPE_MESSAGE) {
      if (r->HasField(*m, f)) { Collect(r->MutableMessage(m, f), out); out.push_back({m, f, -1}); }
    } else {
      out.push_back({m, f, -1});
    }
  }
}
uint64_t Number(Ctx& c, uint64_t old) {
  switch (c.Pick(4)) {
    case 0: return old + 1;
    case 1: return old - 1;
    case 2: return c.Pick(20);
    default: return c.OneOf<uint64_t>({0, 31, 32, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff});
  }
}
// Alters one field somewhere in `m`.
void Alter(Ctx& c, proto::Message* m) {
  std::vector<Leaf> all;
  Collect(m, all);
  if (all.empty()) return;
  const Leaf& l = c.OneOf(all);
  const auto* r = l.m->GetReflection();
  const auto* f = l.f;
  const bool rep = l.index >= 0;
  c.Log("altered: %s %d", f->full_name().c_str(), l.index);
  c.Fault("altered_metadata");
  if (f->cpp_type() == proto::FieldDescriptor::CPPTYPE_MESSAGE || (rep && c.Pick(3) == 2)) {
    if (!rep) { r->ClearField(l.m, f); return; }
    switch (c.Pick(3)) {
      case 0: r->SwapElements(l.m, f, l.index, r->FieldSize(*l.m, f) - 1); r->RemoveLast(l.m, f); return;
      case 1: r->SwapElements(l.m, f, l.index, c.Pick(r->FieldSize(*l.m, f))); return;
      default:
        if (f->cpp_type() == proto::FieldDescriptor::CPPTYPE_MESSAGE) {
          std::unique_ptr<proto::Message> copy(r->GetRepeatedMessage(*l.m, f, l.index).New());
          copy->CopyFrom(r->GetRepeatedMessage(*l.m, f, l.index));
          r->AddMessage(l.m, f)->CopyFrom(*copy);
        }
        return;
    }
  }
  // Sizes that ask for gigabytes are refused by nobody and are no failure.
  const bool big = f->name() == "num_samples_per_frame" || f->name() == "samples_to_trim_at_start" || f->name() == "samples_to_trim_at_end" || f->name() == "num_subblocks";
  switch (f->cpp_type()) {
#define INT(T, N) { uint64_t v = Number(c, rep ? r->GetRepeated##T(*l.m, f, l.index) : r->Get##T(*l.m, f)); if (big) v %= 100000; \
    rep ? r->SetRepeated##T(l.m, f, l.index, static_cast<N>(v)) : r->Set##T(l.m, f, static_cast<N>(v)); break; }
    case proto::FieldDescriptor::CPPTYPE_INT32: INT(Int32, int32_t)
    case proto::FieldDescriptor::CPPTYPE_INT64: INT(Int64, int64_t)
    case proto::FieldDescriptor::CPPTYPE_UINT32: INT(UInt32, uint32_t)
    case proto::FieldDescriptor::CPPTYPE_UINT64: INT(UInt64, uint64_t)
    case proto::FieldDescriptor::CPPTYPE_BOOL: rep ? r->SetRepeatedBool(l.m, f, l.index, !r->GetRepeatedBool(*l.m, f, l.index)) : r->SetBool(l.m, f, !r->GetBool(*l.m, f)); break;
    case proto::FieldDescriptor::CPPTYPE_FLOAT: { const float v = c.OneOf<float>({0, -1, 1, 2, 1e9f, NAN, INFINITY}); rep ? r->SetRepeatedFloat(l.m, f, l.index, v) : r->SetFloat(l.m, f, v); break; }
    case proto::FieldDescriptor::CPPTYPE_DOUBLE: { const double v = c.OneOf<double>({0, -1, 1, 2, 1e9, NAN, INFINITY}); rep ? r->SetRepeatedDouble(l.m, f, l.index, v) : r->SetDouble(l.m, f, v); break; }
    case proto::FieldDescriptor::CPPTYPE_STRING: {
      const Bytes b = g::DrawBytes(c, c.Pick(5) == 4 ? 200 : c.Pick(9));
      const std::string v(b.begin(), b.end());
      rep ? r->SetRepeatedString(l.m, f, l.index, v) : r->SetString(l.m, f, v);
      break;
    }
    case proto::FieldDescriptor::CPPTYPE_ENUM: {
      const auto* e = f->enum_type();
      const int v = c.Pick(8) == 7 ? 77 : e->value(c.Pick(e->value_count()))->number();
      rep ? r->SetRepeatedEnumValue(l.m, f, l.index, v) : r->SetEnumValue(l.m, f, v);
      break;
    }
    default: break;
  }
}

// What fits the fields of the bitstream.
struct Width { int64_t lo, hi; };
const Width* WidthOf(const proto::FieldDescriptor* f) {
  static const Width kS8{-128, 127}, kS16{-32768, 32767}, kU8{0, 255}, kU16{0, 65535}, kU24{0, 0xffffff};
  static const auto* const kTable = new std::map<std::string, Width>{
      {"ParamDefinition.reserved", {0, 127}}, {"AudioElementObuMetadata.reserved", {0, 31}}, {"ScalableChannelLayoutConfig.reserved", {0, 31}},
      {"ChannelAudioLayerConfig.reserved_a", {0, 3}}, {"ChannelAudioLayerConfig.reserved_b", {0, 3}}, {"ChannelAudioLayerConfig.output_gain_flag", {0, 63}},
      {"ChannelAudioLayerConfig.output_gain", kS16}, {"ChannelAudioLayerConfig.substream_count", kU8}, {"ChannelAudioLayerConfig.coupled_substream_count", kU8},
      {"RenderingConfig.reserved", {0, 7}}, {"MixGainParamDefinition.default_mix_gain", kS16}, {"LoudnessInfo.integrated_loudness", kS16},
      {"LoudnessInfo.digital_peak", kS16}, {"LoudnessInfo.true_peak", kS16}, {"AnchorElement.anchored_loudness", kS16},
      {"LoudspeakersSsConventionLayout.reserved", {0, 3}}, {"LoudspeakersReservedOrBinauralLayout.reserved", {0, 63}}, {"QFormatOrFloatingPoint.q7_dot8", kS16},
      {"DemixingParamDefinition.default_w", {0, 15}}, {"DemixingParamDefinition.reserved", {0, 15}}, {"DemixingInfoParameterData.reserved", {0, 31}},
      {"OpusDecoderConfig.version", kU8}, {"OpusDecoderConfig.pre_skip", kU16}, {"AacDecoderConfig.buffer_size_db", kU24},
      {"LpcmDecoderConfig.sample_size", kU8}, {"FlacMetaBlockStreamInfo.minimum_block_size", kU16}, {"FlacMetaBlockStreamInfo.maximum_block_size", kU16},
      {"FlacMetaBlockStreamInfo.minimum_frame_size", kU24}, {"FlacMetaBlockStreamInfo.maximum_frame_size", kU24}, {"FlacMetaBlockStreamInfo.sample_rate", {0, 0xfffff}},
      {"FlacMetaBlockStreamInfo.bits_per_sample", {0, 31}}, {"FlacMetaBlockStreamInfo.total_samples_in_stream", {0, 0xfffffffff}},
      {"AmbisonicsMonoConfig.channel_mapping", kU8}, {"AmbisonicsMonoConfig.output_channel_count", kU8}, {"AmbisonicsMonoConfig.substream_count", kU8},
      {"AmbisonicsProjectionConfig.demixing_matrix", kS16}, {"AmbisonicsProjectionConfig.output_channel_count", kU8}, {"AmbisonicsProjectionConfig.substream_count", kU8},
      {"AmbisonicsProjectionConfig.coupled_substream_count", kU8}, {"MetadataItuTT35.itu_t_t35_country_code", kU8},
      {"StepParameterData.start_point_value", kS16}, {"LinearParameterData.start_point_value", kS16}, {"LinearParameterData.end_point_value", kS16},
      {"BezierParameterData.start_point_value", kS16}, {"BezierParameterData.end_point_value", kS16}, {"BezierParameterData.control_point_value", kS16},
      {"BezierParameterData.control_point_relative_time", kU8}, {"ReconGainEntry.value", kU8},
      {"PolarParamDefinition.default_distance", {0, 127}}, {"DualPolarParamDefinition.default_first_distance", {0, 127}}, {"DualPolarParamDefinition.default_second_distance", {0, 127}}};
  std::string n(f->full_name());
  n = n.substr(n.find('.') + 1);
  if (n.starts_with("Cart8") || n.starts_with("DualCart8")) return f->name() == "param_definition" ? nullptr : &kS8;
  if (n.starts_with("Cart16") || n.starts_with("DualCart16")) return f->name() == "param_definition" ? nullptr : &kS16;
  if (n.ends_with("Entry.value")) n = "ReconGainEntry.value";
  auto it = kTable->find(n);
  return it == kTable->end() ? nullptr : &it->second;
}
// Gives one field in `m` a value the bitstream cannot carry.
bool Overflow(Ctx& c, proto::Message* m) {
  std::vector<Leaf> all, fit;
  Collect(m, all);
  for (auto& l : all) if (WidthOf(l.f) && (l.index >= 0 || l.m->GetReflection()->HasField(*l.m, l.f))) fit.push_back(l);
  if (fit.empty()) return false;
  const Leaf& l = c.OneOf(fit);
  const auto* r = l.m->GetReflection();
  const auto* f = l.f;
  const Width& w = *WidthOf(f);
  const bool is_signed = f->cpp_type() == proto::FieldDescriptor::CPPTYPE_INT32;
  const int64_t span = w.hi - w.lo + 1;
  int64_t v = w.hi + 1 + c.OneOf<int64_t>({0, 1, span / 2, span - 1, span, span + 1});
  if (is_signed && c.Pick(2)) v = w.lo - 1 - c.OneOf<int64_t>({0, 1, span / 2, span - 1, span, span + 1});
  if (c.Pick(3) == 2) v = w.lo + c.Pick(span < 300 ? span : 300) + (int64_t{1} << (8 * (span <= 256 ? 1 + c.Pick(2) : span <= 65536 ? 2 : 3)) << (span > 0x1000000 ? 12 : 0));
  if (v <= w.hi && v >= w.lo) v = w.hi + 1;
  const bool rep = l.index >= 0;
  switch (f->cpp_type()) {
    case proto::FieldDescriptor::CPPTYPE_INT32: rep ? r->SetRepeatedInt32(l.m, f, l.index, v) : r->SetInt32(l.m, f, v); break;
    case proto::FieldDescriptor::CPPTYPE_UINT32: rep ? r->SetRepeatedUInt32(l.m, f, l.index, v) : r->SetUInt32(l.m, f, v); break;
    case proto::FieldDescriptor::CPPTYPE_INT64: rep ? r->SetRepeatedInt64(l.m, f, l.index, v) : r->SetInt64(l.m, f, v); break;
    case proto::FieldDescriptor::CPPTYPE_UINT64: rep ? r->SetRepeatedUInt64(l.m, f, l.index, v) : r->SetUInt64(l.m, f, v); break;
    default: return false;
  }
  c.Log("does not fit: %s %d = %lld", std::string(f->full_name()).c_str(), l.index, static_cast<long long>(v));
  c.Fault("value_too_wide");
  return true;
}

class Session : enc::Checked {
 public:
  using Checked::Checked;
  void Run();

 private:
  bool Note(const absl::Status& s, const char* what);
  bool Create();
  bool Call(api::IamfTemporalUnitData& d);
  void AddBlocks(api::IamfTemporalUnitData& d, uint32_t t, bool demix);
  bool BlocksOnly(uint32_t t, bool demix);
  bool NeedBlocks(uint32_t upto);
  bool Output();
  bool Finalize();
  bool Random();
  bool Round(uint32_t j);
  void Illegal();
  bool Body();
  void End();
  bool Exact() const { return !failed_ && !tainted_; }

  std::unique_ptr<api::IamfEncoderInterface> e_;
  std::string path_, older_;
  bool measured_ = false;
  // Failures.
  bool failed_ = false, tainted_ = false, fired_ = false, io_fired_ = false, io_reported_ = false, remove_failed_ = false;
  bool in_call_fired_ = false;
  std::string first_;   // what failed first
  int on_error_ = 0;    // 0 stop, 1 a few more calls, 2 go on
  int illegal_at_ = -1;
  bool too_wide_ = false;           // a value cannot be carried
  int too_wide_block_ = -1;
  bool altered_blocks_ = false, disk_ok_ = false, created_ = false, late_trim_ = false;
  uint32_t blocks_added_ = 0;
  bool all_units_legal_ = true;
};

// True: the caller goes on.
bool Session::Note(const absl::Status& s, const char* what) {
  c_.Note(what, s.ok());
  const bool io = std::exchange(in_call_fired_, false);
  if (s.ok()) return true;
  if (!failed_) { first_ = std::string(what) + ": " + std::string(s.message()); c_.Log("%s", first_.c_str()); }
  failed_ = true;
  if (io && io_fired_) io_reported_ = true;
  return on_error_ == 2;
}

bool Session::Create() {
  std::string md;
  p_.md.SerializeToString(&md);
  c_.NoteBytes("metadata", md.data(), md.size());
  const int how = path_.empty() ? c_.Weighted({3, 2, 2}) : 3;
  measured_ = how != 0;
  absl::Status s;
  auto take = [&](auto&& r) { s = r.status(); if (r.ok()) e_ = std::move(*r); };
  if (how == 0) {
    take(iamf_tools::IamfEncoder::Create(p_.md, nullptr, nullptr, iamf_tools::RenderingMixPresentationFinalizer::ProduceNoSampleProcessors, iamf_tools::IamfEncoder::CreateNoObuSequencers));
  } else if (how == 1) {
    const auto layouts = iamf_tools::CreateLayoutRendererFactory();
    const auto loudness = iamf_tools::CreateLoudnessCalculatorFactory();
    take(iamf_tools::IamfEncoder::Create(p_.md, layouts.get(), loudness.get(), iamf_tools::RenderingMixPresentationFinalizer::ProduceNoSampleProcessors, iamf_tools::IamfEncoder::CreateNoObuSequencers));
  } else if (how == 2) {
    take(api::IamfEncoderFactory::CreateIamfEncoder(md));
  } else {
    take(api::IamfEncoderFactory::CreateFileGeneratingIamfEncoder(md, path_));
  }
  Note(s, "create");
  c_.Check(s.ok() || tainted_ || fired_ || io_fired_, "legal-configuration-accepted", std::string(s.message()));
  c_.Check(s.ok() == (e_ != nullptr), "create", "success without an encoder");
  return created_ = s.ok();
}
bool Session::Call(api::IamfTemporalUnitData& d) { return Note(e_->Encode(d), "encode"); }
void Session::AddBlocks(api::IamfTemporalUnitData& d, uint32_t t, bool demix) {
  for (int b : p_.blocks[t]) {
    const auto& k = p_.s.blocks[b];
    if ((k.def->type == 1) != demix) continue;
    auto m = enc::BlockMetadata(k, int64_t{t} * p_.s.codecs[0].spf);
    if (auto it = p_.ext.find({4, b}); it != p_.ext.end()) enc::PutHeader({.ext = it->second}, m.mutable_obu_header());
    if (too_wide_block_ == b) too_wide_ = Overflow(c_, &m);
    if (altered_blocks_ && c_.Pick(2) == 1) {
      Alter(c_, &m);
      tainted_ = true;
      if (c_.Pick(4) == 3) { c_.Fault("parameter_block_lost"); continue; }
    }
    d.parameter_block_id_to_metadata[k.def->id] = m.SerializeAsString();
  }
}
bool Session::BlocksOnly(uint32_t t, bool demix) {
  api::IamfTemporalUnitData d;
  AddBlocks(d, t, demix);
  return d.parameter_block_id_to_metadata.empty() || Call(d);
}
bool Session::NeedBlocks(uint32_t upto) {
  while (blocks_added_ < std::min(upto, p_.frames)) if (!BlocksOnly(blocks_added_++, false)) return false;
  return true;
}
bool Session::Output() {
  Bytes b(3, 0x77);
  const auto s = e_->OutputTemporalUnit(b);
  const bool on = Note(s, "output");
  if (s.ok() && !b.empty()) {
    if (Exact() && !late_trim_) {
      Unit(b);
    } else {
      if (!tainted_) c_.Check(enc::ParseObus(b).has_value(), "unit-is-made-of-obus", Hex(b.data(), b.size()));
      units_.push_back(b);
    }
  }
  return on;
}
bool Session::Finalize() { return Note(e_->FinalizeEncode(), "finalize"); }

// A call out of order or with wrong arguments.
void Session::Illegal() {
  tainted_ = true;
  const uint32_t spf = p_.s.codecs[0].spf;
  api::IamfTemporalUnitData d;
  std::vector<std::vector<double>> hold;
  hold.reserve(64);
  auto add = [&](size_t i, const std::string& label, size_t n, double v) {
    if (hold.size() >= 64) return;
    hold.emplace_back(n, v);
    d.audio_element_id_to_data[p_.s.elements[i].id][label] = absl::MakeConstSpan(hold.back());
  };
  const size_t i = c_.Pick(p_.inputs.size());
  const int kind = c_.Pick(12);
  c_.Log("illegal call %d", kind);
  static const char* const kNames[] = {"missing_channel", "foreign_channel", "unknown_element", "garbage_label", "uneven_samples", "odd_values", "garbage_block", "block_of_another_time", "too_many_samples", "output_without_samples", "finalize_too_early", "unknown_block"};
  c_.Fault(kNames[kind]);
  switch (kind) {
    case 0: for (auto& l : p_.labels[i].inputs) if (c_.Pick(3)) add(i, enc::LabelKey(l), spf, 0.25); break;
    case 1: for (auto& l : p_.labels[i].inputs) add(i, enc::LabelKey(l), spf, 0.25); { const int v = c_.OneOf<int>({2, 3, 7, 8, 26, 58, 67, 1000, 1024, 0, 1, 99}); std::string x = "\x08"; if (v > 127) x += static_cast<char>(v | 128), x += static_cast<char>(v >> 7); else x += static_cast<char>(v); add(i, x, spf, 0.5); }; break;
    case 2: hold.emplace_back(spf, 0.5); d.audio_element_id_to_data[p_.s.elements[i].id + 77][enc::LabelKey("M")] = absl::MakeConstSpan(hold.back()); break;
    case 3: { const Bytes b = g::DrawBytes(c_, c_.Pick(6)); add(i, std::string(b.begin(), b.end()), spf, 0.5); break; }
    case 4: for (auto& l : p_.labels[i].inputs) add(i, enc::LabelKey(l), c_.Pick(2 * spf + 2), 0.25); break;
    case 5: for (auto& l : p_.labels[i].inputs) add(i, enc::LabelKey(l), spf, c_.OneOf<double>({NAN, INFINITY, -INFINITY, 1e300, -1e300, 2.0, -1.0, 4.9e-324})); break;
    case 6: { const Bytes b = g::DrawBytes(c_, c_.Pick(12)); d.parameter_block_id_to_metadata[c_.Pick(5)] = std::string(b.begin(), b.end()); break; }
    case 7:
      if (!p_.s.blocks.empty()) {
        const auto& k = c_.OneOf(p_.s.blocks);
        d.parameter_block_id_to_metadata[k.def->id] = enc::BlockMetadata(k, c_.OneOf<int64_t>({0, 1, spf, 2 * spf, 7 * spf + 1, -int64_t{spf}, INT64_MAX, INT64_MIN})).SerializeAsString();
      }
      break;
    case 8: for (auto& l : p_.labels[i].inputs) add(i, enc::LabelKey(l), spf * (1 + c_.Pick(4)) + c_.Pick(3), 0.25); break;
    case 9: Output(); return;
    case 10: Finalize(); return;
    case 11: {
      enc::pb::ParameterBlockObuMetadata m;
      m.set_parameter_id(c_.Pick(300));
      m.set_duration(spf);
      m.set_constant_subblock_duration(spf);
      d.parameter_block_id_to_metadata[m.parameter_id()] = m.SerializeAsString();
      break;
    }
  }
  Call(d);
  if (c_.Pick(3) == 2) Output();
}

bool Session::Random() {
  switch (c_.Pick(5)) {
    case 0: return Output();
    case 1: return Finalize();
    case 2: { Bytes b; bool f = false; return Note(e_->GetDescriptorObus(c_.Pick(2), b, f), "descriptors"); }
    case 3: { e_->GetEncoderDelay(); e_->GeneratingTemporalUnits(); return true; }
    default: {
      api::IamfTemporalUnitData d;
      const std::vector<double> v(p_.s.codecs[0].spf, 0.125);
      for (size_t i = 0; i < p_.inputs.size(); ++i) for (auto& l : p_.labels[i].inputs) d.audio_element_id_to_data[p_.s.elements[i].id][enc::LabelKey(l)] = absl::MakeConstSpan(v);
      return Call(d);
    }
  }
}

bool Session::Round(uint32_t j) {
  const uint32_t spf = p_.s.codecs[0].spf, at = j * spf, k = std::min(spf, p_.n - at);
  if (!NeedBlocks(j + 1)) return false;
  const bool apart = c_.Pick(3) == 2;
  api::IamfTemporalUnitData d;
  AddBlocks(d, j, true);
  for (size_t i = 0; i < p_.inputs.size(); ++i) {
    for (auto& l : p_.labels[i].inputs) d.audio_element_id_to_data[p_.s.elements[i].id][enc::LabelKey(l)] = absl::MakeConstSpan(p_.inputs[i].at(l)).subspan(at, k);
    if (apart && i + 1 < p_.inputs.size()) { if (!Call(d)) return false; d = {}; }
  }
  return Call(d);
}

bool Session::Body() {
  if (!Create()) return false;
  if (too_wide_) {
    Bytes b;
    bool fin = false;
    if (!Note(e_->GetDescriptorObus(false, b, fin), "descriptors")) return false;
  }
  if (Exact() && !fired_ && !io_fired_) Descriptors(*e_, false, measured_);
  const uint32_t spf = p_.s.codecs[0].spf, rounds = (p_.n + spf - 1) / spf;
  const int leave = c_.Pick(8) == 7 ? c_.Pick(rounds + 2) : -1;  // destroyed midway
  bool finalized = false;
  // The end is announced when the last frame may be out already.
  const bool late = c_.Pick(5) == 4;
  late_trim_ = late && p_.trim_end != p_.padding;
  if (late_trim_) c_.Fault("end_announced_late");
  uint32_t encoded = 0;
  for (uint32_t j = 0; j < rounds; ++j) {
    if (leave == static_cast<int>(j)) { c_.Fault("encoder_destroyed_midway"); return false; }
    if (illegal_at_ == static_cast<int>(j)) for (int q = 1 + c_.Pick(3); q; --q) Illegal();
    if (!Round(j)) return false;
    if (j + 1 == rounds && !late) { if (!Finalize()) return false; finalized = true; }
    if (!Output()) return false;
    ++encoded;
  }
  if (!finalized && !Finalize()) return false;
  for (uint32_t i = 0; e_->GeneratingTemporalUnits(); ++i) {
    if (leave == static_cast<int>(rounds + i)) { c_.Fault("encoder_destroyed_midway"); return false; }
    if (i > 3 * p_.frames + 10 + p_.arbs.size()) {
      c_.Check(failed_ || tainted_, "encoding-ends", Fmt("still generating %u rounds after the end was announced", i));
      return false;
    }
    if (illegal_at_ >= static_cast<int>(rounds) && i == 0) Illegal();
    const uint32_t after = late && i == 0 ? encoded : std::min(encoded + 1, p_.frames);
    if (!NeedBlocks(after)) return false;
    if (after != encoded && !BlocksOnly(after - 1, true)) return false;
    if (!Output()) return false;
    encoded = after;
  }
  return true;
}

void Session::End() {
  const bool over = e_ && !e_->GeneratingTemporalUnits();
  if (over && Exact() && late_trim_) {
    for (auto& u : std::exchange(units_, {})) Unit(u);
    late_trim_ = false;
  }
  if (over && Exact()) {
    c_.Check(units_.size() == p_.frames, "success-with-audio-missing", Fmt("%zu units for %u frames, and every call succeeded", units_.size(), p_.frames));
    Descriptors(*e_, true, measured_);
  }
  if (failed_ && e_ && on_error_ == 1) for (int q = c_.Pick(5); q; --q) Random();
  const bool still_exact = Exact();
  e_.reset();
  disk_ok_ = true;
  if (path_.empty()) return;
  const bool exists = std::filesystem::exists(path_);
  const Bytes got = ReadFile(path_);
  if (over && still_exact) {
    Bytes want = final_;
    for (auto& u : units_) g::Stream::Add(want, u);
    c_.Check(exists && got == want, "success-with-a-wrong-file", Fmt("every call succeeded; %zu bytes expected in the file, %zu found, or they differ", want.size(), got.size()));
    c_.Count("complete_files");
  } else if (io_reported_ && !remove_failed_) {
    c_.Check(!exists, "failed-file-is-removed", Fmt("%s; a file of %zu bytes is left", first_.c_str(), got.size()));
    c_.Count("failed_files_removed");
  } else if (created_ || got != Bytes(older_.begin(), older_.end())) if (!tainted_ && exists && !io_fired_ && !over) {
    // What was delivered so far, and nothing else.
    const Bytes head = enc::WriteDescriptors(p_, p_.s);
    c_.Check(got.size() >= head.size(), "file-is-a-prefix", Fmt("%zu bytes, %zu of descriptors", got.size(), head.size()));
    Bytes rest(got.begin() + head.size(), got.end()), want;
    for (auto& u : units_) g::Stream::Add(want, u);
    c_.Check(rest == want, "file-is-a-prefix", Fmt("%zu bytes of units delivered, %zu found after the descriptors, or they differ", want.size(), rest.size()));
  }
}

void Session::Run() {
  g::FixedLeb leb(p_.leb);
  int mode = c_.Weighted({4, 4, 4, 3, 3, 1, 3});
  if (mode == 4 && p_.s.blocks.empty()) mode = 3;
  on_error_ = c_.Pick(3);
  if (mode == 1 || c_.Pick(4) == 3) {
    path_ = ScratchDir() + "/e.iamf";
    if (c_.Pick(4) == 3) { older_ = std::string(20 + c_.Pick(3000), 'x'); std::ofstream(path_) << older_; c_.Fault("older_file_in_the_way"); }
  }
  const bool codec = mode == 0 || (mode != 1 && c_.Pick(8) == 7);
  if (mode == 2) illegal_at_ = c_.Pick((p_.n + p_.s.codecs[0].spf - 1) / p_.s.codecs[0].spf + 1);
  if (mode == 3) { tainted_ = true; for (int q = 1 + c_.Pick(3); q; --q) Alter(c_, &p_.md); }
  if (mode == 4) altered_blocks_ = true;
  if (mode == 6) {
    tainted_ = true;
    if (!p_.s.blocks.empty() && c_.Pick(3) == 2) too_wide_block_ = c_.Pick(p_.s.blocks.size());
    else too_wide_ = Overflow(c_, &p_.md);
  }
  // The codec call that fails, counted over all of them or at one site.
  int skip = codec ? c_.Weighted({1, 2, 2}) : -1;
  if (skip == 1) skip = c_.Pick(12);
  if (skip == 2) skip = c_.Pick(100);
  const int site = codec && c_.Pick(2) ? static_cast<int>(c_.Pick(simtp::kAacDecode + 1)) : -1;
  if (site >= 0) skip %= 8;
  const bool lasting = codec && c_.Pick(3) == 2;
  CodecFaults codec_faults([&](int s) {
    if (skip < 0 || (site >= 0 && s != site)) return false;
    if (skip-- > 0) return false;
    if (lasting) skip = 0;
    if (!fired_) c_.Log("codec call fails: %s", simtp::kSiteNames[s]);
    fired_ = true;
    c_.Fault("codec_call_fails");
    return true;
  });
  const int io_op = mode == 1 ? c_.Weighted({1, 4, 2, 1, 1}) : -1;
  static const IoOp kOps[] = {IoOp::kOpen, IoOp::kWrite, IoOp::kClose, IoOp::kSeek, IoOp::kRemove};
  int io_skip = mode == 1 ? static_cast<int>(c_.Pick(io_op == 1 ? 5 : 2)) : 0;
  const int err = c_.OneOf<int>({28, 5, 13, 122});
  const bool io_lasting = c_.Pick(2), torn = c_.Pick(3) == 2;
  if (io_op == 4) { on_error_ = 0; }
  IoFaults io([&](IoOp op, size_t len) {
    IoDecision d;
    if (disk_ok_) return d;
    if (op == IoOp::kWrite && len > 1 && c_.Pick(8) == 7) { d.allow = 1 + c_.Pick(len - 1); c_.Fault("short_write"); }
    if (io_op < 0 || op != kOps[io_op]) return d;
    if (io_skip-- > 0) return d;
    io_skip = io_lasting ? 0 : 1 << 30;
    if (torn && op == IoOp::kWrite && len > 1) { d.allow = c_.Pick(len); io_skip = 0; if (d.allow) return d; }
    d.err = err;
    io_fired_ = in_call_fired_ = true;
    remove_failed_ |= op == IoOp::kRemove;
    static const char* const kNames[] = {"open_fails", "write_fails", "close_fails", "seek_fails", "remove_fails"};
    c_.Fault(kNames[io_op]);
    c_.Log("%s: %d", kNames[io_op], err);
    return d;
  });
  const bool done = Body();
  c_.Log("mode %d done=%d failed=%d (%s) tainted=%d fired=%d io=%d", mode, done, failed_, first_.c_str(), tainted_, fired_, io_fired_);
  c_.Check(!failed_ || tainted_ || fired_ || io_fired_ || late_trim_, "legal-calls-succeed", first_);
  c_.Check(!too_wide_ || !done || failed_, "unrepresentable-is-refused", "every call succeeded although a value does not fit its field");
  End();
  if (failed_ || tainted_ || fired_ || io_fired_) c_.nontrivial = true;
  if (failed_) c_.Count("failures_reported");
  if (fired_ && !failed_) c_.Count("codec_failures_survived");
  c_.Count("units", units_.size());
  c_.State(Ctx::Mix(HashBytes(first_.data(), first_.size()) ^ (dec::ShapeOf(p_.s) % 64 * 8 + mode)));
  c_.SimTime(double(p_.s.codecs[0].spf) * units_.size() / p_.s.codecs[0].rate);
}

void Run(Ctx& c) {
  enc::Plan p;
  enc::DrawPlan(c, {.unity = false, .lossless = c.Pick(3) == 2}, p);
  c.Log("%s", dec::Describe(p.s).c_str());
  simtp::flac_hold_frames = c.Pick(3) == 2 ? 1 + c.Pick(4) : 0;
  const long live = simtp::live_handles;
  TakeAllocStats();
  {
    dec::SaltScope salt(c.Bits());
    Session(c, p).Run();
  }
  const AllocStats a = TakeAllocStats();
  c.Check(a.max_request < (256u << 20), "memory", Fmt("a single request of %zu bytes", a.max_request));
  simtp::flac_hold_frames = 0;
  c.Check(simtp::live_handles == live, "codec-leak", Fmt("%ld codec instances are not released", simtp::live_handles - live));
}

DST_PROPERTY(E02)({"E02", "", Run, 24000, 1000000, "a failure was injected, or a call or the metadata was illegal",
                   {"iamf/cli/iamf_encoder.cc", "iamf/cli/iamf_encoder_factory.cc", "iamf/cli/proto_conversion", "iamf/cli/parameter_block_generator.cc", "iamf/cli/codec (all encoders and decoders)", "iamf/cli/downmixing_manager.cc", "iamf/cli/obu_sequencer_base.cc", "iamf/cli/obu_sequencer_iamf.cc", "iamf/cli/obu_sequencer_streaming_iamf.cc", "iamf/cli/rendering_mix_presentation_finalizer.cc", "iamf/obu", "iamf/common"},
                   {"libopus, fdk-aac, libFLAC (simulated codecs)", "loudness measurement library (simulated)", "disk (fault seam over a scratch directory)", "clock (simulated)", "Abseil hash order (salted per run)"}});
}  // namespace
}  // namespace dst
