// E01: what is pushed into the encoder comes out of a decoder.
#include <cstring>
#include <filesystem>
#include <fstream>

#include "decode_common.h"
#include "enc_check.h"
#include "iamf/cli/iamf_components.h"
#include "iamf/cli/iamf_encoder.h"
#include "iamf/cli/rendering_mix_presentation_finalizer.h"
#include "iamf/include/iamf_tools/iamf_encoder_factory.h"
#include "iamf/include/iamf_tools/iamf_encoder_interface.h"
#include "iamf/include/iamf_tools/iamf_tools_encoder_api_types.h"
#include "sim_tp.h"

namespace dst {
namespace {
namespace g = dst::gen;
namespace api = ::iamf_tools::api;
using g::Bytes;

using enc::LabelKey;
using enc::ReadFile;

class Session : enc::Checked {
 public:
  using Checked::Checked;
  void Run();

 private:
  void Create();
  void Encode(api::IamfTemporalUnitData& d);
  void AddBlocks(api::IamfTemporalUnitData& d, uint32_t t, bool demix);
  void BlocksOnly(uint32_t t, bool demix);
  void NeedBlocks(uint32_t upto);
  void Output();
  void Extras();
  void Descriptors(bool at_end) { Checked::Descriptors(*e_, at_end, measured_); }
  void Playback();

  std::unique_ptr<api::IamfEncoderInterface> e_;
  std::string path_;
  bool measured_ = false;
  Bytes out_;
  uint32_t blocks_added_ = 0;
  bool finalized_ = false;
};

void Session::Create() {
  std::string md;
  p_.md.SerializeToString(&md);
  const int how = c_.Weighted({4, 2, 2, 2});
  if (how == 0) {
    auto r = iamf_tools::IamfEncoder::Create(p_.md, nullptr, nullptr, iamf_tools::RenderingMixPresentationFinalizer::ProduceNoSampleProcessors, iamf_tools::IamfEncoder::CreateNoObuSequencers);
    c_.Check(r.ok(), "legal-configuration-accepted", std::string(r.status().message()));
    e_ = std::move(*r);
  } else if (how == 1) {
    measured_ = true;
    const auto layouts = iamf_tools::CreateLayoutRendererFactory();
    const auto loudness = iamf_tools::CreateLoudnessCalculatorFactory();
    auto r = iamf_tools::IamfEncoder::Create(p_.md, layouts.get(), loudness.get(), iamf_tools::RenderingMixPresentationFinalizer::ProduceNoSampleProcessors, iamf_tools::IamfEncoder::CreateNoObuSequencers);
    c_.Check(r.ok(), "legal-configuration-accepted", std::string(r.status().message()));
    e_ = std::move(*r);
  } else {
    measured_ = true;
    if (how == 3) path_ = ScratchDir() + "/e.iamf";
    auto r = how == 2 ? api::IamfEncoderFactory::CreateIamfEncoder(md) : api::IamfEncoderFactory::CreateFileGeneratingIamfEncoder(md, path_);
    c_.Check(r.ok(), "legal-configuration-accepted", std::string(r.status().message()));
    e_ = std::move(*r);
  }
  c_.Count(how == 0 ? "created_without_measurement" : how == 1 ? "created_with_measurement" : how == 2 ? "created_streaming" : "created_for_a_file");
  // The metadata is not needed any more.
  std::fill(md.begin(), md.end(), '\xff');
}

void Session::Encode(api::IamfTemporalUnitData& d) {
  const auto s = e_->Encode(d);
  c_.Note("encode", d.audio_element_id_to_data.size(), s.ok());
  c_.Check(s.ok(), "encode-accepts-legal-input", std::string(s.message()));
}
void Session::AddBlocks(api::IamfTemporalUnitData& d, uint32_t t, bool demix) {
  for (int b : p_.blocks[t]) {
    const auto& k = p_.s.blocks[b];
    if ((k.def->type == 1) != demix) continue;
    auto m = enc::BlockMetadata(k, int64_t{t} * p_.s.codecs[0].spf);
    if (auto it = p_.ext.find({4, b}); it != p_.ext.end()) enc::PutHeader({.ext = it->second}, m.mutable_obu_header());
    d.parameter_block_id_to_metadata[k.def->id] = m.SerializeAsString();
  }
}
void Session::BlocksOnly(uint32_t t, bool demix) {
  api::IamfTemporalUnitData d;
  AddBlocks(d, t, demix);
  if (!d.parameter_block_id_to_metadata.empty()) Encode(d);
}
// Blocks that do not steer the downmix: any time before their unit.
void Session::NeedBlocks(uint32_t upto) {
  for (; blocks_added_ < std::min(upto, p_.frames); ++blocks_added_) BlocksOnly(blocks_added_, false);
}

void Session::Output() {
  // Callers reuse their buffer.
  if (c_.Pick(4) == 3) out_.clear();
  const auto s = e_->OutputTemporalUnit(out_);
  c_.Note("output", out_.size(), s.ok());
  c_.Check(s.ok(), "output-succeeds", std::string(s.message()));
  if (!out_.empty()) Unit(out_);
}

// Calls that change nothing.
void Session::Extras() {
  switch (c_.Weighted({6, 1, 1, 1, 1})) {
    case 1: Descriptors(final_.size() != 0); break;
    case 2: {
      Bytes b;
      bool fin = false;
      e_->GetDescriptorObus(true, b, fin).IgnoreError();
      break;
    }
    case 3: {
      const uint32_t d = e_->GetEncoderDelay();
      c_.Check(d == p_.delay, "encoder-delay", Fmt("%u reported, %u expected", d, p_.delay));
      break;
    }
    case 4: if (final_.empty()) c_.Check(e_->GeneratingTemporalUnits(), "generating", "not generating although there is more to encode"); break;
    default: break;
  }
}

void Session::Run() {
  const uint32_t spf = p_.s.codecs[0].spf;
  g::FixedLeb leb(p_.leb);
  IoFaults io([&](IoOp op, size_t len) {
    IoDecision d;
    if (op == IoOp::kWrite && len > 1 && c_.Pick(6) == 5) { d.allow = 1 + c_.Pick(len - 1); c_.Fault("short_write"); }
    return d;
  });
  Create();
  Descriptors(false);
  // The pushes.
  std::vector<uint32_t> pushes;
  // Mixers take a frame at a time.
  bool direct = !p_.demix_blocks;
  for (size_t i = 0; i < p_.inputs.size(); ++i) direct &= !p_.preset[i] && p_.s.elements[i].layers.size() < 2;
  const bool ahead = direct && c_.Pick(2) == 1;
  uint64_t sum = 0;
  while (sum < p_.n) {
    uint32_t k = spf;
    if (ahead) {
      const uint64_t need = (pushes.size() + 1) * uint64_t{spf};
      k = sum >= need ? 1 + c_.Pick(2 * spf) : need - sum + c_.Pick(spf + 1);
    }
    k = std::min<uint64_t>(k, p_.n - sum);
    pushes.push_back(k);
    sum += k;
  }
  // The end of the user's trimming is only known for certain to the last push.
  const bool late = p_.trim_end == p_.padding && c_.Pick(4) == 3;
  const int skew = c_.Weighted({4, 2, 1, 2});
  const uint32_t lookahead = c_.Pick(3) == 2 ? c_.Pick(4) : 0;
  c_.Log("n=%u spf=%u frames=%u trims %u %u ahead=%d late=%d skew=%d lookahead=%u", p_.n, spf, p_.frames, p_.trim_start, p_.trim_end, ahead, late, skew, lookahead);
  if (ahead) c_.Fault("producer_runs_ahead");
  uint32_t encoded = 0;
  sum = 0;
  for (size_t j = 0; j < pushes.size(); ++j) {
    Extras();
    const bool last = j + 1 == pushes.size();
    NeedBlocks(j + 1 + lookahead);
    // Groups of (element, label) that arrive together.
    std::vector<std::pair<size_t, std::string>> all;
    for (size_t i = 0; i < p_.inputs.size(); ++i) for (auto& l : p_.labels[i].inputs) all.emplace_back(i, l);
    std::vector<std::vector<std::pair<size_t, std::string>>> groups(1);
    std::vector<bool> output_after;
    if (skew == 0) groups[0] = all;
    if (skew == 1 || (skew == 3 && last)) {
      for (auto& x : all) { if (!groups.back().empty() && groups.back()[0].first != x.first) groups.emplace_back(); groups.back().push_back(x); }
      c_.Fault("elements_arrive_apart");
    }
    if (skew == 2) {
      groups.resize(1 + c_.Pick(4));
      for (auto& x : all) groups[c_.Pick(groups.size())].push_back(x);
      c_.Fault("channels_arrive_apart");
    }
    if (skew == 3 && !last) {
      for (auto& x : all) { if (!groups.back().empty() && groups.back()[0].first != x.first) { output_after.push_back(c_.Pick(2)); groups.emplace_back(); } groups.back().push_back(x); }
      c_.Fault("elements_arrive_in_different_rounds");
    }
    output_after.resize(groups.size());
    bool first = true;
    for (size_t gi = 0; gi < groups.size(); ++gi) {
      api::IamfTemporalUnitData d;
      std::vector<std::vector<double>> hold;
      hold.reserve(groups[gi].size());
      for (auto& [i, l] : groups[gi]) {
        auto& v = p_.inputs[i].at(l);
        hold.emplace_back(v.begin() + sum, v.begin() + sum + pushes[j]);
        d.audio_element_id_to_data[p_.s.elements[i].id][LabelKey(l)] = absl::MakeConstSpan(hold.back());
      }
      if (first) AddBlocks(d, j, true);
      first = false;
      Encode(d);
      for (auto& v : hold) std::fill(v.begin(), v.end(), 0.77);  // the caller reuses its memory
      if (output_after[gi]) Output();
    }
    sum += pushes[j];
    if (last && !late) {
      const auto s = e_->FinalizeEncode();
      c_.Check(s.ok(), "finalize-succeeds", std::string(s.message()));
      finalized_ = true;
    }
    Output();
    ++encoded;
    if (!last && c_.Pick(8) == 7) Output();  // a round without new samples
  }
  if (late) {
    c_.Check(e_->GeneratingTemporalUnits(), "generating", "not generating before the end was announced");
    const auto s = e_->FinalizeEncode();
    c_.Check(s.ok(), "finalize-succeeds", std::string(s.message()));
    finalized_ = true;
  }
  bool starting = late;
  for (uint32_t i = 0; e_->GeneratingTemporalUnits(); ++i) {
    c_.Check(i <= 3 * p_.frames + 10, "encoding-ends", Fmt("still generating %u rounds after the end was announced", i));
    Extras();
    if (c_.Pick(6) == 5) c_.Check(e_->FinalizeEncode().ok(), "finalize-succeeds", "when repeated");
    if (c_.Pick(6) == 5) {  // dropped
      api::IamfTemporalUnitData d;
      const std::vector<double> noise(spf, 0.5);
      for (size_t k = 0; k < p_.inputs.size(); ++k) for (auto& l : p_.labels[k].inputs) d.audio_element_id_to_data[p_.s.elements[k].id][LabelKey(l)] = absl::MakeConstSpan(noise);
      Encode(d);
      c_.Fault("samples_after_the_end");
    }
    const uint32_t after = starting ? encoded : std::min(encoded + 1, p_.frames);
    NeedBlocks(after + lookahead);
    if (after != encoded) BlocksOnly(after - 1, true);
    Output();
    encoded = after;
    starting = false;
  }
  c_.Check(units_.size() == p_.frames, "as-many-units-as-frames", Fmt("%zu units for %u frames", units_.size(), p_.frames));
  Descriptors(true);
  Extras();
  if (c_.Pick(4) == 3) {
    Bytes b;
    e_->OutputTemporalUnit(b).IgnoreError();
    c_.Check(b.empty(), "as-many-units-as-frames", "a unit after the end");
    Descriptors(true);
  }
  c_.Check(!e_->GeneratingTemporalUnits(), "generating", "generating again after the end");
  e_.reset();
  if (!path_.empty()) {
    Bytes want = final_;
    for (auto& u : units_) g::Stream::Add(want, u);
      const Bytes got = ReadFile(path_);
    c_.Check(want == got, "file-is-the-stream", Fmt("%zu bytes expected in the file, %zu found, or they differ", want.size(), got.size()));
  }
  Playback();
}

void Session::Playback() {
  const auto& codec = p_.s.codecs[0];
  const uint32_t spf = codec.spf;
  g::Stream& s = p_.s;
  // What the decoder hears: the carried samples, late by the codec's delay.
  for (auto& q : s.pieces) {
    if (q.what != g::Piece::kAudio) continue;
    g::Frame& f = s.frames[q.index];
    for (size_t ch = 0; ch < f.pcm.size(); ++ch)
      for (uint32_t n = 0; n < spf; ++n) {
        const int64_t at = int64_t{spf} * q.tu + n - enc::DelayOf(*f.codec);
        f.pcm[ch][n] = at < 0 ? 0 : pcm_[at / spf].at(f.substream)[ch][at % spf];
      }
  }
  dec::Settings set;
  if (c_.Pick(2)) set.requested_output_sample_type = api::OutputSampleType::kInt16LittleEndian;
  const auto exact = dec::ExactMixes(s);
  const dec::Exact* x = nullptr;
  if (!exact.empty() && c_.Pick(8) != 7) {
    const auto& [m, e] = c_.OneOf(exact);
    set.requested_mix.mix_presentation_id = s.mixes[m].id;
    set.requested_mix.output_layout = static_cast<api::OutputLayout>(e.ss);
    bool unity = true;
    for (auto& b : s.blocks) if (b.def->type == 0) for (auto& q : b.subs) unity &= q.start == 0 && (q.anim < 1 || q.end == 0) && (q.anim < 2 || q.control == 0);
    for (auto& q : s.elements) for (auto& l : q.layers) unity &= !l.og || l.og_gain == 0;
    for (auto& b : s.mixes[m].subs) { unity &= b.out_gain.gain == 0; for (auto& q : b.elements) unity &= q.gain.gain == 0; }
    if (unity) x = &e;
  }
  Bytes all;
  const auto head = enc::ParseObus(final_);
  for (auto& o : *head)  // a sequence begins with its header
    if (!all.empty() || o.type == g::kSeq) g::Stream::Add(all, o.whole);
  for (auto& u : units_) g::Stream::Add(all, u);
  dec::Player p(c_, set, nullptr, c_.Bits());
  const auto o = dec::PlayAll(c_, p, {all}, c_.Pick(2));
  c_.Check(!o.error, "encoded-stream-decodes", "failed at " + o.at);
  c_.Check(o.report.complete && o.report.channels > 0, "encoded-stream-decodes", o.report.Str());
  size_t bytes = 0;
  for (auto& u : o.units) bytes += u.size();
  const size_t tick = o.report.channels * (set.requested_output_sample_type == api::OutputSampleType::kInt16LittleEndian ? 2 : 4);
  const int64_t want = int64_t{p_.frames} * spf - p_.trim_start - p_.trim_end;
  c_.Check(bytes == want * tick, "every-sample-once", Fmt("%lld samples are to be played, %g were", static_cast<long long>(want), double(bytes) / tick));
  if (x) {
    const std::string d = dec::CompareUnits(dec::ExpectedUnits(s, *x, set), o.units);
    c_.Check(d.empty(), "played-samples", d);
    c_.Count("played_and_compared");
  }
  c_.nontrivial = true;
  c_.Count("units", units_.size());
  c_.State(Ctx::Mix(dec::ShapeOf(s) ^ (measured_ * 64 + !path_.empty() * 32 + p_.demix_blocks * 16 + !s.blocks.empty())));
  c_.SimTime(double(spf) * p_.frames / codec.rate);
}

void Run(Ctx& c) {
  enc::Plan p;
  const int kind = c.Pick(3);
  enc::DrawPlan(c, {.unity = kind != 2, .lossless = kind == 1}, p);
  c.Log("%s", dec::Describe(p.s).c_str());
  simtp::flac_hold_frames = c.Pick(3) == 2 ? 1 + c.Pick(4) : 0;
  if (simtp::flac_hold_frames && p.s.codecs[0].kind == g::kFlac) c.Fault("codec_holds_frames");
  const long live = simtp::live_handles;
  {
    dec::SaltScope salt(c.Bits());
    Session(c, p).Run();
  }
  simtp::flac_hold_frames = 0;
  c.Check(simtp::live_handles == live, "codec-leak", Fmt("%ld codec instances are not released", simtp::live_handles - live));
}

DST_PROPERTY(E01)({"E01", "", Run, 24000, 1000000, "a whole sequence was encoded and played back",
                   {"iamf/cli/iamf_encoder.cc", "iamf/cli/iamf_encoder_factory.cc", "iamf/cli/proto_conversion", "iamf/cli/audio_frame_generator.cc", "iamf/cli/parameter_block_generator.cc", "iamf/cli/codec (all encoders and decoders)", "iamf/cli/downmixing_manager.cc", "iamf/cli/obu_sequencer_base.cc", "iamf/cli/obu_sequencer_iamf.cc", "iamf/cli/obu_sequencer_streaming_iamf.cc", "iamf/cli/rendering_mix_presentation_finalizer.cc", "iamf/cli/itu_1770_4", "iamf/api/decoder", "iamf/cli/obu_processor.cc", "iamf/obu", "iamf/common"},
                   {"libopus, fdk-aac, libFLAC (simulated codecs)", "loudness measurement library (simulated)", "clock (simulated)", "Abseil hash order (salted per run)"}});
}  // namespace
}  // namespace dst
