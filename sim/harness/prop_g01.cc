// G01: samples added by one thread, frames collected by another.
#include <list>
#include <memory>

#include "enc_check.h"
#include "decode_common.h"
#include "iamf/cli/audio_frame_with_data.h"
#include "iamf/cli/cli_util.h"
#include "iamf/cli/global_timing_module.h"
#include "iamf/cli/obu_sequencer_streaming_iamf.h"
#include "iamf/cli/parameters_manager.h"
#include "iamf/cli/proto_conversion/channel_label_utils.h"
#include "iamf/cli/proto_conversion/downmixing_reconstruction_util.h"
#include "iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.h"
#include "iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.h"
#include "iamf/cli/proto_conversion/proto_to_obu/codec_config_generator.h"
#include "iamf/cli/proto_conversion/proto_to_obu/ia_sequence_header_generator.h"
#include "iamf/cli/proto_conversion/proto_to_obu/mix_presentation_generator.h"
#include "iamf/cli/temporal_unit_view.h"
#include "iamf/common/leb_generator.h"
#include "sim_tp.h"

namespace dst {
namespace {
namespace g = dst::gen;
namespace it = ::iamf_tools;
using g::Bytes;

// A generator and what it needs.
struct World {
  it::DescriptorObus::CodecConfigsById codecs;
  it::DescriptorObus::AudioElementsById elements;
  it::DescriptorObus::MixPresentationObus mixes;
  absl::flat_hash_map<it::DecodedUleb128, it::ParamDefinitionVariant> params;
  std::unique_ptr<it::GlobalTimingModule> timing;
  std::unique_ptr<it::ParametersManager> manager;
  std::unique_ptr<it::AudioFrameGenerator> gen;

  World(Ctx& c, enc::Plan& p) {
    auto ok = [&](const absl::Status& s) { c.Check(s.ok(), "legal-configuration-accepted", std::string(s.message())); };
    ok(it::CodecConfigGenerator(p.md.codec_config_metadata()).Generate(codecs));
    ok(it::AudioElementGenerator(p.md.audio_element_metadata()).Generate(codecs, elements));
    ok(it::MixPresentationGenerator(p.md.mix_presentation_metadata()).Generate(false, mixes));
    ok(it::CollectAndValidateParamDefinitions(elements, mixes, params));
    timing = it::GlobalTimingModule::Create(elements, params);
    c.Check(timing != nullptr, "legal-configuration-accepted", "timing");
    auto m = it::ParametersManager::Create(elements);
    ok(m.status());
    manager = *std::move(m);
    auto down = it::CreateAudioElementIdToDownmixingConfig(p.md, elements);
    ok(down.status());
    auto r = it::AudioFrameGenerator::Create(p.md.audio_frame_metadata(), p.md.codec_config_metadata(), elements, it::DownmixerManager::Make(*std::move(down)), *manager, *timing);
    ok(r.status());
    gen = *std::move(r);
  }
};

// One call of the producer.
struct Add { size_t element; std::string label; uint32_t from, count; };

using Frames = std::list<it::AudioFrameWithData>;
// A frame without the pointer into its world.
struct Seen {
  int64_t start, end;
  uint32_t trim_start, trim_end;
  Bytes payload;
  std::vector<std::vector<double>> samples;
  it::DownMixingParams down;
  uint32_t element;
  bool operator==(const Seen&) const = default;
};
std::map<uint32_t, Seen> Key(const Frames& f) {
  std::map<uint32_t, Seen> r;
  for (auto& x : f)
    r[x.obu.GetSubstreamId()] = {x.start_timestamp, x.end_timestamp, x.obu.header_.num_samples_to_trim_at_start, x.obu.header_.num_samples_to_trim_at_end,
                                 Bytes(x.obu.audio_frame_.begin(), x.obu.audio_frame_.end()), x.encoded_samples.value_or(std::vector<std::vector<double>>{}), x.down_mixing_params,
                                 x.audio_element_with_data ? x.audio_element_with_data->obu.GetAudioElementId() : ~0u};
  return r;
}

class Session : enc::Checked {
 public:
  using Checked::Checked;
  void Run();

 private:
  void Plan();
  absl::Status Do(World& w, const Add& a) {
    const auto& v = p_.inputs[a.element].at(a.label);
    std::vector<double> hold(v.begin() + a.from, v.begin() + a.from + a.count);
    const auto s = w.gen->AddSamples(p_.s.elements[a.element].id, static_cast<it::ChannelLabel::Label>(label_.at(a.label)), absl::MakeConstSpan(hold));
    std::fill(hold.begin(), hold.end(), 0.77);  // the caller reuses its memory
    return s;
  }
  std::vector<Add> adds_;
  std::map<std::string, int> label_;
};

void Session::Plan() {
  const uint32_t spf = p_.s.codecs[0].spf;
  for (auto& ls : p_.labels) for (auto& l : ls.inputs) {
    const auto r = it::ChannelLabelUtils::ProtoToLabel(static_cast<enc::pb::ChannelLabel>(enc::LabelOf(l)));
    c_.Check(r.ok(), "legal-configuration-accepted", "label " + l);
    label_[l] = static_cast<int>(*r);
  }
  // Each element's pushes; the elements advance independently of each other.
  std::vector<std::vector<Add>> per(p_.inputs.size());
  for (size_t i = 0; i < p_.inputs.size(); ++i) {
    const bool direct = !p_.preset[i] && p_.s.elements[i].layers.size() < 2;
    const bool ahead = direct && c_.Pick(2) == 1;
    uint64_t sum = 0, pushes = 0;
    while (sum < p_.n) {
      uint32_t k = spf;
      if (ahead) {
        const uint64_t need = (pushes + 1) * uint64_t{spf};
        k = sum >= need ? 1 + c_.Pick(2 * spf) : need - sum + c_.Pick(spf + 1);
      }
      k = std::min<uint64_t>(k, p_.n - sum);
      std::vector<std::string> order = p_.labels[i].inputs;
      if (c_.Pick(3) == 2) for (size_t x = order.size(); x > 1; --x) std::swap(order[x - 1], order[c_.Pick(x)]);
      for (auto& l : order) per[i].push_back({i, l, static_cast<uint32_t>(sum), k});
      sum += k;
      ++pushes;
    }
  }
  const int how = c_.Pick(3);
  std::vector<size_t> at(per.size());
  for (;;) {
    std::vector<size_t> open;
    for (size_t i = 0; i < per.size(); ++i) if (at[i] < per[i].size()) open.push_back(i);
    if (open.empty()) break;
    size_t i = open[0];
    size_t run = p_.labels[i].inputs.size();  // how 0: a round of each element in turn
    if (how == 0) {
      for (size_t o : open) if (per[o][at[o]].from < per[i][at[i]].from) i = o;
      run = p_.labels[i].inputs.size();
    } else if (how == 1) {
      i = c_.OneOf(open);
      run = p_.labels[i].inputs.size();
    } else {
      i = c_.OneOf(open);
      run = 1;
    }
    for (; run && at[i] < per[i].size(); --run) adds_.push_back(per[i][at[i]++]);
  }
}

void Session::Run() {
  const uint32_t spf = p_.s.codecs[0].spf;
  size_t substreams = 0;
  for (auto& e : p_.s.elements) substreams += e.substreams.size();
  Plan();
  // One thread: everything is added, then everything is collected.
  std::vector<std::map<uint32_t, Seen>> want;
  {
    World w(c_, p_);
    for (auto& a : adds_) {
      const auto s = Do(w, a);
      c_.Check(s.ok(), "samples-accepted", "one thread: " + std::string(s.message()));
    }
    c_.Check(w.gen->Finalize().ok(), "finalize-succeeds", "one thread");
    for (uint32_t i = 0; w.gen->GeneratingFrames(); ++i) {
      c_.Check(i <= p_.frames + p_.delay / spf + 3, "generation-ends", Fmt("one thread: still generating %u collections after the end", i));
      Frames f;
      const auto s = w.gen->OutputFrames(f);
      c_.Check(s.ok(), "collecting-succeeds", "one thread: " + std::string(s.message()));
      if (!f.empty()) want.push_back(Key(f));
    }
    c_.Check(want.size() == p_.frames, "as-many-units-as-frames", Fmt("one thread: %zu collected of %u", want.size(), p_.frames));
  }
  // Two threads, and sometimes one that only asks.
  World w(c_, p_);
  std::vector<Frames> got;
  absl::Status added, collected;
  bool done = false, announced = false, finalized = false, calls_after = c_.Pick(4) == 3;
  uint32_t after = 0, done_adds = 0, finals = c_.Pick(8) == 7 ? 2 : 1;
  // Who trims more than the padding has to announce the end before the last frame leaves.
  const bool gate = p_.trim_end > p_.padding;
  const bool reuse = c_.Pick(3) == 2;  // one list collects everything
  // A failure in the codec library.
  int64_t fail_at = -1, site = 0;
  if (c_.Pick(6) == 5) fail_at = c_.Pick(substreams * p_.frames + 1);
  bool fired = false;
  CodecFaults faults([&](int) {
    if (fail_at < 0 || site++ != fail_at) return false;
    fired = true;
    c_.Fault("codec_failure");
    return true;
  });
  Frames all;
  std::vector<std::function<void()>> tasks = {
      [&] {
        for (auto& a : adds_) {
          c_.Check(w.gen->TakingSamples(), "taking-samples", "samples are not taken before the end was announced");
          added = Do(w, a);
          if (!added.ok()) break;
          ++done_adds;
        }
        if (added.ok()) {
          announced = true;
          for (uint32_t i = 0; i < finals; ++i) { const auto s = w.gen->Finalize(); c_.Check(s.ok(), "finalize-succeeds", std::string(s.message())); }
          finalized = true;
          c_.Check(!w.gen->TakingSamples(), "taking-samples", "samples are taken after the end was announced");
          if (calls_after) { const auto s = Do(w, adds_.back()); c_.Check(s.ok(), "samples-accepted", "after the end: " + std::string(s.message())); c_.Fault("samples_after_the_end"); }
        }
        done = true;
      },
      [&] {
        for (;;) {
          const bool was_done = done, was_final = finalized;
          if (!w.gen->GeneratingFrames()) {
            c_.Check(announced || fired, "generating", "not generating before the end was announced");
            break;
          }
          if (gate && !was_final && got.size() + 1 >= p_.frames && !was_done) { TaskYield(); continue; }
          Frames f;
          const size_t before = all.size();
          Frames& into = reuse ? all : f;
          collected = w.gen->OutputFrames(into);
          if (!collected.ok()) break;
          if (reuse) f.assign(std::next(all.begin(), before), all.end());
          c_.Check(f.empty() || f.size() == substreams, "a-frame-of-every-substream", Fmt("%zu frames of %zu substreams", f.size(), substreams));
          if (!f.empty()) { got.push_back(f); if (!done) c_.nontrivial = true; }
          if (was_final) c_.Check(++after <= p_.frames + p_.delay / spf + 3, "generation-ends", Fmt("still generating %u collections after the end was announced", after));
          if (was_done && !was_final && f.empty()) break;
          if (f.empty()) TaskYield();
        }
      }};
  bool observed_end = false;
  if (c_.Pick(3) == 2)
    tasks.push_back([&] {
      for (uint32_t i = 0; i < 24 && !done; ++i) {
        const bool final_before = finalized;
        const bool taking = w.gen->TakingSamples(), generating = w.gen->GeneratingFrames();
        c_.Check(w.gen->GetEncoderDelay() == p_.delay, "encoder-delay", Fmt("%u reported", w.gen->GetEncoderDelay()));
        c_.Check(!(final_before && taking), "taking-samples", "samples are taken after the end was announced");
        c_.Check(!observed_end || !generating, "generating", "generating again");
        if (!generating) { observed_end = true; c_.Check(announced || fired, "generating", "not generating before the end was announced"); }
        TaskYield();
      }
    });
  RunTasks(c_, tasks, "deadlock");
  c_.Log("n=%u spf=%u frames=%u adds=%zu (%u done) collected=%zu after=%u fired=%d", p_.n, spf, p_.frames, adds_.size(), done_adds, got.size(), after, fired);
  if (!fired) {
    c_.Check(added.ok(), "samples-accepted", std::string(added.message()));
    c_.Check(collected.ok(), "collecting-succeeds", std::string(collected.message()));
    c_.Check(got.size() == p_.frames, "as-many-units-as-frames", Fmt("%zu collected of %u", got.size(), p_.frames));
    Frames f;
    const auto s = w.gen->OutputFrames(f);
    c_.Check(s.ok() && f.empty(), "as-many-units-as-frames", "a frame after the end");
  } else {
    // Both threads hear about it, or at least one of them.
    c_.Check(!added.ok() || !collected.ok(), "failure-reported", "the codec failed and neither thread was told");
    c_.Check(got.size() <= want.size(), "as-many-units-as-frames", "more frames than in a run without failures");
  }
  for (size_t t = 0; t < got.size(); ++t) {
    const auto k = Key(got[t]);
    c_.Check(k.size() == substreams, "each-substream-once", Fmt("unit %zu: %zu frames of %zu substreams", t, k.size(), substreams));
    for (auto& [sub, f] : k) {
      const auto it = want[t].find(sub);
      c_.Check(it != want[t].end(), "each-substream-once", Fmt("unit %zu: substream %u", t, sub));
      const Seen& x = it->second;
      c_.Check(f.start == int64_t{spf} * static_cast<int64_t>(t) && f.end == f.start + spf, "consecutive-in-time", Fmt("substream %u frame %zu covers %lld..%lld", sub, t, static_cast<long long>(f.start), static_cast<long long>(f.end)));
      c_.Check(f.trim_start == x.trim_start && f.trim_end == x.trim_end, "trims", Fmt("substream %u frame %zu: trims %u %u, %u %u with one thread", sub, t, f.trim_start, f.trim_end, x.trim_start, x.trim_end));
      c_.Check(f.payload == x.payload, "same-bytes", Fmt("substream %u frame %zu: %s, %s with one thread", sub, t, Hex(f.payload.data(), f.payload.size()).c_str(), Hex(x.payload.data(), x.payload.size()).c_str()));
      c_.Check(f == x, "same-frame", Fmt("substream %u frame %zu: samples, parameters or element differ from those with one thread", sub, t));
    }
  }
  if (fired) return;
  // What was collected is what the user asked for.
  g::FixedLeb leb(p_.leb);
  const auto lebs = p_.leb ? it::LebGenerator::Create(it::LebGenerator::GenerationMode::kFixedSize, p_.leb) : it::LebGenerator::Create();
  it::ObuSequencerStreamingIamf q(p_.s.delimiters, *lebs);
  std::optional<it::IASequenceHeaderObu> header;
  c_.Check(it::IaSequenceHeaderGenerator(p_.md.ia_sequence_header_metadata(0)).Generate(header).ok() && header.has_value(), "legal-configuration-accepted", "header");
  auto s = q.PushDescriptorObus(*header, {}, w.codecs, w.elements, w.mixes, {});
  c_.Check(s.ok(), "legal-configuration-accepted", std::string(s.message()));
  for (auto& f : got) {
    auto v = it::TemporalUnitView::Create(std::vector<it::ParameterBlockWithData>{}, f, std::vector<it::ArbitraryObu>{});
    c_.Check(v.ok(), "frames-form-a-unit", std::string(v.status().message()));
    s = q.PushTemporalUnit(*v);
    c_.Check(s.ok(), "frames-form-a-unit", std::string(s.message()));
    const auto b = q.GetPreviousSerializedTemporalUnit();
    Unit(Bytes(b.begin(), b.end()));
  }
  c_.Count("units", got.size());
  c_.Count("adds", adds_.size());
  c_.State(Ctx::Mix(dec::ShapeOf(p_.s) * 64 + got.size()));
  c_.SimTime(double(spf) * p_.frames / p_.s.codecs[0].rate);
}

void Run(Ctx& c) {
  enc::Plan p;
  enc::DrawPlan(c, {.lossless = c.Pick(2) == 1, .max_frames = 4, .blocks = false, .extras = false}, p);
  c.Log("%s", dec::Describe(p.s).c_str());
  simtp::flac_hold_frames = c.Pick(3) == 2 ? 1 + c.Pick(4) : 0;
  if (simtp::flac_hold_frames && p.s.codecs[0].kind == g::kFlac) c.Fault("codec_holds_frames");
  const long live = simtp::live_handles;
  {
    dec::SaltScope salt(c.Bits());
    Session(c, p).Run();
  }
  simtp::flac_hold_frames = 0;
  c.Check(simtp::live_handles == live, "codec-leak", Fmt("%ld codec instances are not released", simtp::live_handles - live));
}

DST_PROPERTY(G01)({"G01", "", Run, 24000, 1000000, "frames were collected while samples were being added",
                   {"iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc", "iamf/cli/codec/encoder_base.h", "iamf/cli/codec (all encoders)", "iamf/cli/downmixer_manager.cc", "iamf/cli/demixing_module.cc", "iamf/cli/substream_frames.h", "iamf/cli/global_timing_module.cc", "iamf/cli/parameters_manager.cc", "iamf/cli/temporal_unit_view.cc", "iamf/cli/obu_sequencer_streaming_iamf.cc", "iamf/cli/proto_conversion", "iamf/obu"},
                   {"libopus, fdk-aac, libFLAC (simulated codecs)", "threads (cooperative tasks under the seeded scheduler; absl::Mutex operations are scheduling points)", "Abseil hash order (salted per run)"}});
}  // namespace
}  // namespace dst
