// T01: sample processors accept and emit samples only in the legal order.
#include <cmath>
#include <memory>

#include "absl/status/status.h"
#include "core.h"
#include "iamf/cli/ambisonics_mixer.h"
#include "iamf/cli/sample_processor_base.h"
#include "iamf/obu/codec_config.h"

namespace dst {
namespace {
using iamf_tools::AmbisonicsMixer;
using iamf_tools::CodecConfig;
using iamf_tools::SampleProcessorBase;
using Frame = std::vector<std::vector<double>>;
using Spans = absl::Span<const absl::Span<const double>>;

// Processors of the simulation, written against the documented contract of
// the base class only: the output vectors are empty when the derived hooks
// are entered, and only what they append is the output of this call.
enum Kind { kCopy, kDelay, kExpand, kBatch, kMixer };
class Sim : public SampleProcessorBase {
 public:
  Sim(Kind k, size_t max_in, size_t ch, Ctx& c) : SampleProcessorBase(max_in, ch, max_in * 3), k_(k), c_(c), held_(ch) {}
  int entered = 0;        // calls that reached the derived class
  bool fail_next = false;  // fault: the derived step fails
  bool partial = false;    // ... after having produced output

 protected:
  void Emit(size_t ch, double v) { output_channel_time_samples_[ch].push_back(v); }
  absl::Status PushFrameDerived(Spans in) override {
    ++entered;
    for (auto& o : output_channel_time_samples_)
      c_.Check(o.empty(), "stale-output", "a processing step starts with samples of an earlier call in its output");
    if (fail_next && !partial) return absl::UnknownError("injected");
    for (size_t ch = 0; ch < in.size(); ++ch) {
      if (k_ == kDelay) {
        for (double v : held_[ch]) Emit(ch, v);
        held_[ch].assign(in[ch].begin(), in[ch].end());
      } else if (k_ == kBatch) {  // emits only when it holds more than a frame
        held_[ch].insert(held_[ch].end(), in[ch].begin(), in[ch].end());
        if (held_[ch].size() > max_input_samples_per_frame_) {
          for (double v : held_[ch]) Emit(ch, v);
          held_[ch].clear();
        }
      } else {
        for (double v : in[ch]) {
          Emit(ch, v);
          if (k_ == kExpand) Emit(ch, -v);
        }
      }
    }
    return fail_next ? absl::UnknownError("injected") : absl::OkStatus();
  }
  absl::Status FlushDerived() override {
    ++entered;
    for (auto& o : output_channel_time_samples_)
      c_.Check(o.empty(), "stale-output", "the flush starts with samples of an earlier call in its output");
    if (fail_next && !partial) return absl::UnknownError("injected");
    for (size_t ch = 0; ch < held_.size(); ++ch) {
      for (double v : held_[ch]) Emit(ch, v);
      held_[ch].clear();
    }
    return fail_next ? absl::UnknownError("injected") : absl::OkStatus();
  }

 private:
  const Kind k_;
  Ctx& c_;
  Frame held_;
};

// What must come out, from the accepted frames alone.
struct Model {
  Kind k;
  size_t max_in;
  Frame held;
  std::vector<std::vector<double>> m;  // mixing response [in][out]
  Frame Push(const Frame& in) {
    Frame out(in.size());
    for (size_t ch = 0; ch < in.size(); ++ch) {
      switch (k) {
        case kCopy: out[ch] = in[ch]; break;
        case kDelay: out[ch] = held[ch]; held[ch] = in[ch]; break;
        case kExpand: for (double v : in[ch]) { out[ch].push_back(v); out[ch].push_back(-v); } break;
        case kBatch:
          held[ch].insert(held[ch].end(), in[ch].begin(), in[ch].end());
          if (held[ch].size() > max_in) { out[ch] = held[ch]; held[ch].clear(); }
          break;
        case kMixer:
          for (size_t t = 0; t < in[ch].size(); ++t) {
            double s = 0;
            for (size_t i = 0; i < in.size(); ++i) s += m[i][ch] * in[i][t];
            out[ch].push_back(s);
          }
          break;
      }
    }
    return out;
  }
  Frame Flush() { Frame o = held; for (auto& h : held) h.clear(); return o; }
};

void CheckOutput(Ctx& c, SampleProcessorBase& p, const Frame& want, double tol) {
  const Spans got = p.GetOutputSamplesAsSpan();
  c.Check(got.size() == want.size(), "output-shape", Fmt("%zu output channels of %zu", got.size(), want.size()));
  for (size_t ch = 0; ch < want.size(); ++ch) {
    c.Check(got[ch].size() == want[ch].size(), "output-count",
            Fmt("channel %zu: %zu samples come out, %zu are due", ch, got[ch].size(), want[ch].size()));
    for (size_t t = 0; t < want[ch].size(); ++t)
      c.Check(std::abs(got[ch][t] - want[ch][t]) <= tol, "output-values", Fmt("channel %zu sample %zu differs", ch, t));
  }
}

void Run(Ctx& c) {
  const Kind k = static_cast<Kind>(c.Pick(5));
  size_t max_in = c.Pick(5) == 4 ? 1 + c.Pick(200) : 1 + c.Pick(8);
  if (c.Pick(25) == 24) max_in = 0;
  size_t ch = 1 + (c.Pick(6) == 5 ? c.Pick(28) : c.Pick(4));
  std::unique_ptr<SampleProcessorBase> p;
  Sim* sim = nullptr;
  Model model{k, max_in};
  double tol = 0;
  if (k == kMixer) {
    using Preset = AmbisonicsMixer::Preset;
    const auto preset = static_cast<Preset>(c.Pick(4));
    const auto codec = c.Pick(2) ? CodecConfig::kCodecIdOpus : CodecConfig::kCodecIdLpcm;
    p = std::make_unique<AmbisonicsMixer>(AmbisonicsMixer::MakeFromPreset(codec, preset, max_in));
    ch = p->GetNumChannels();
    c.Check(ch == size_t(static_cast<int>(preset) + 1) * (static_cast<int>(preset) + 1), "mixer-channels", Fmt("%zu channels", ch));
    model.m.assign(ch, std::vector<double>(ch));
    const bool matrix = preset == Preset::kBestPracticeForOrder3 && codec == CodecConfig::kCodecIdOpus;
    if (!matrix) {
      for (size_t i = 0; i < ch; ++i) model.m[i][i] = 1.0;  // transparent copy
    } else {
      // The response to one impulse per channel, from a separate instance.
      auto probe = AmbisonicsMixer::MakeFromPreset(codec, preset, ch);
      Frame imp(ch, std::vector<double>(ch));
      for (size_t i = 0; i < ch; ++i) imp[i][i] = 1.0;
      std::vector<absl::Span<const double>> sp(imp.begin(), imp.end());
      c.Check(probe.PushFrame(absl::MakeConstSpan(sp)).ok(), "legal-refused", "impulses refused");
      const auto o = probe.GetOutputSamplesAsSpan();
      for (size_t i = 0; i < ch; ++i)
        for (size_t j = 0; j < ch; ++j) model.m[i][j] = o[j][i];
      tol = 1e-9;
    }
  } else {
    auto s = std::make_unique<Sim>(k, max_in, ch, c);
    sim = s.get();
    p = std::move(s);
  }
  model.held.resize(ch);
  c.Check(p->GetNumChannels() == ch, "channel-count", "wrong number of channels reported");
  bool flushed = false;
  const int ops = 1 + c.Pick(c.Pick(3) == 2 ? 30 : 8);
  for (int i = 0; i < ops; ++i) {
    const bool flush = c.Pick(flushed ? 2 : 7) == 1;
    const int before = sim ? sim->entered : 0;
    if (sim) {
      sim->fail_next = c.Pick(12) == 11;
      sim->partial = sim->fail_next && c.Pick(2);
    }
    absl::Status st;
    if (flush) {
      st = p->Flush();
      c.Note("flush", st.ok());
      if (flushed) {
        c.Check(st.code() == absl::StatusCode::kFailedPrecondition, "flush-twice", "a second flush is not refused as a failed precondition");
        c.Check(!sim || sim->entered == before, "refused-reaches-processor", "a refused flush is processed");
        c.State(1);
        continue;
      }
      flushed = true;
      c.Check(!sim || sim->entered == before + 1, "not-processed", "the flush is not processed exactly once");
      if (sim && sim->fail_next) {
        c.Fault("processing-step-fails");
        c.Check(!st.ok(), "failure-hidden", "a failed flush is reported as success");
        continue;
      }
      c.Check(st.ok(), "legal-refused", "the first flush is refused");
      const Frame want = model.Flush();
      CheckOutput(c, *p, want, tol);
      c.nontrivial = true;
      c.State(2);
      continue;
    }
    const uint32_t shape = c.Weighted({10, 2, 2, 2, 1});
    size_t n = c.Pick(3) ? max_in : c.Pick(max_in + 1), rows = ch;
    bool legal = true;
    if (shape == 1) { n = max_in + 1 + c.Pick(3); legal = false; }
    if (shape == 2) { rows = c.Pick(2) ? ch + 1 + c.Pick(3) : c.Pick(ch); legal = false; }
    Frame in(rows);
    uint64_t s = c.Bits();
    for (size_t t = 0; t < n; ++t)
      for (auto& row : in) {
        s = Ctx::Mix(s);
        row.push_back(double(int64_t(s >> 20)) / double(1ll << 43) - 1);
      }
    if (shape == 3 && ch > 1) {  // ragged: one channel longer or shorter
      auto& row = in[c.Pick(ch)];
      if (!row.empty() && c.Pick(2)) row.pop_back();
      else row.push_back(0.5);
      legal = false;
    }
    if (shape == 4) {  // no samples at all
      for (auto& row : in) row.clear();
      n = 0;
    }
    const Frame orig = in;
    std::vector<absl::Span<const double>> sp(in.begin(), in.end());
    st = p->PushFrame(absl::MakeConstSpan(sp));
    // The caller's buffers are its own again after the call.
    for (auto& row : in) std::fill(row.begin(), row.end(), 9.0e9);
    c.Note("push", (shape << 2) | (flushed << 1) | st.ok(), n);
    c.State(16 + (shape << 3) + (flushed << 2) + (st.ok() << 1) + (n == max_in));
    if (flushed) {
      c.Check(st.code() == absl::StatusCode::kFailedPrecondition, "push-after-flush", "samples after the flush are not refused as a failed precondition");
      c.Check(!sim || sim->entered == before, "refused-reaches-processor", "a refused push is processed");
      continue;
    }
    if (!legal) {
      c.Check(!st.ok(), "illegal-accepted", Fmt("a frame of the wrong shape is accepted (kind %u)", shape));
      c.Check(!sim || sim->entered == before, "refused-reaches-processor", "a refused push is processed");
      continue;
    }
    c.Check(!sim || sim->entered == before + 1, "not-processed", "an accepted frame is not processed exactly once");
    if (sim && sim->fail_next) {
      c.Fault("processing-step-fails");
      c.Check(!st.ok(), "failure-hidden", "a failed step is reported as success");
      if (sim->partial) model.Push(orig);
      continue;
    }
    c.Check(st.ok(), "legal-refused", Fmt("a frame of %zu of %zu samples is refused", n, max_in));
    c.nontrivial = true;
    const Frame want = model.Push(orig);
    CheckOutput(c, *p, want, tol);
    if (c.Pick(4) == 3) CheckOutput(c, *p, want, tol);  // asking again changes nothing
    c.SimTime(n / 48000.0);
  }
}
DST_PROPERTY(T01)({"T01", "", Run, 200000, 5000000,
  "each run drives one processor (pass-through, delaying, expanding, batching, or the real ambisonics mixer) with a drawn sequence of legal and illegal pushes and flushes, with processing steps that fail before or after producing output; non-trivial: at least one frame or flush was accepted and its output compared",
  {"iamf/cli/sample_processor_base.cc", "iamf/cli/ambisonics_mixer.cc"},
  {"derived processors other than the ambisonics mixer are written by the harness"}});
}  // namespace
}  // namespace dst
