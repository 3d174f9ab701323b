// D01: the decoded audio and what is reported about it do not depend on how
// the bytes arrive or when the units are fetched.
#include "decode_common.h"

namespace dst {
namespace {
namespace g = dst::gen;

void Run(Ctx& c) {
  g::Stream s;
  g::Generator(c, {.decodable = true, .lossless = c.Pick(4) != 3, .junk = c.Pick(2) == 1}).Run(s);
  const dec::Settings set = dec::DrawSettings(c, s);
  if (c.verbose) c.Log("%s", dec::Describe(s).c_str());
  c.Log("%s", dec::Str(set).c_str());
  const uint64_t salt = c.Bits();
  dec::Outcome ref;
  {
    dec::Player p(c, set, nullptr, salt);
    ref = dec::PlayAll(c, p, {s.All()}, 0);
  }
  c.Log("reference: %zu units, error %d at %s, %s", ref.units.size(), ref.error, ref.at.c_str(), ref.report.Str().c_str());
  const int plays = 2 + c.Pick(2);
  for (int i = 0; i < plays; ++i) {
    const bool from = s.num_tus && c.Pick(3) == 2;
    const g::Bytes desc = s.Descriptors();
    const auto chunks = from ? dec::DrawUnitChunks(c, s) : dec::DrawChunks(c, s);
    const int policy = c.Pick(3);
    dec::Player p(c, set, from ? &desc : nullptr, c.Pick(2) ? c.Bits() : salt);
    const dec::Outcome o = dec::PlayAll(c, p, chunks, policy);
    c.Log("play %d: from descriptors %d, %zu chunks, policy %d: %zu units, error %d at %s", i, from, chunks.size(), policy, o.units.size(), o.error, o.at.c_str());
    const std::string d = dec::CompareUnits(ref.units, o.units);
    c.Check(d.empty(), from ? "same-audio-from-descriptors" : "same-audio", d);
    c.Check(ref.error == o.error, "same-errors", ref.error ? "the reference failed at " + ref.at : "failed at " + o.at);
    if (!ref.error) c.Check(ref.report == o.report, "same-reports", ref.report.Str() + " against " + o.report.Str());
    c.State(Ctx::Mix(chunks.size() * 4 + policy + from * 1000003) ^ dec::ShapeOf(s));
  }
  c.Count(ref.error ? "refused" : "decoded");
  c.Count("units", ref.units.size());
  if (!ref.units.empty()) c.nontrivial = true;
  if (ref.report.rate_ok && ref.report.rate) c.SimTime(double(s.codecs[0].spf) * s.num_tus / ref.report.rate * (plays + 1));
}

DST_PROPERTY(D01)({"D01", "", Run, 24000, 600000, "at least one unit was delivered by every schedule",
                   {"iamf/api/decoder", "iamf/cli/obu_processor.cc", "iamf/cli/descriptor_obu_parser.cc", "iamf/cli/audio_frame_decoder.cc", "iamf/cli/codec (decoders)", "iamf/cli/demixing_manager.cc", "iamf/cli/rendering_mix_presentation_finalizer.cc", "iamf/cli/renderer", "iamf/obu", "iamf/common"},
                   {"libFLAC, Opus and AAC libraries (simulated)", "binaural renderer library (simulated)", "clock (simulated)", "Abseil hash order (salted)"}});
}  // namespace
}  // namespace dst
