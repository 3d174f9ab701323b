// D02: lossless streams decode to exactly the samples they carry.
#include "decode_common.h"

namespace dst {
namespace {
namespace g = dst::gen;

void Run(Ctx& c) {
  g::Stream s;
  g::Generator(c, {.decodable = true, .lossless = true, .unity = true, .plain_first = c.Pick(3) != 2, .junk = c.Pick(3) != 0, .max_tus = 6}).Run(s);
  const auto exact = dec::ExactMixes(s);
  dec::Settings set = dec::DrawSettings(c, s, {.any_profiles = false, .any_mix = false});
  if (exact.empty()) { c.Count("nothing_exact"); return; }
  const auto& [m, x] = c.OneOf(exact);
  set.requested_mix.mix_presentation_id = s.mixes[m].id;
  set.requested_mix.output_layout = static_cast<dec::api::OutputLayout>(x.ss);
  const bool from = s.num_tus && c.Pick(3) == 2;
  const g::Bytes desc = s.Descriptors();
  const auto chunks = from ? dec::DrawUnitChunks(c, s) : dec::DrawChunks(c, s);
  const int policy = c.Pick(3);
  c.Log("%s from=%d chunks=%zu policy=%d tus=%d", dec::Str(set).c_str(), from, chunks.size(), policy, s.num_tus);
  dec::Player p(c, set, from ? &desc : nullptr, c.Bits());
  const dec::Outcome o = dec::PlayAll(c, p, chunks, policy);
  c.Check(!o.error, "valid-stream-decodes", "failed at " + o.at);
  if (!s.num_tus) { c.Check(o.units.empty(), "nothing-from-nothing", "units out of a stream without any"); return; }
  const auto want = dec::ExpectedUnits(s, x, set);
  const std::string d = dec::CompareUnits(want, o.units);
  c.Check(d.empty(), "carried-samples", d);
  const auto& k = s.CodecOf(*[&] { for (auto& e : s.elements) if (e.id == s.mixes[m].subs[0].elements[0].id) return &e; return &s.elements[0]; }());
  dec::Report r = o.report;
  c.Check(r.complete && r.mix_ok && r.mix == s.mixes[m].id && r.layout == x.ss && r.channels == static_cast<int>(x.channels.size()) && r.type == static_cast<int>(set.requested_output_sample_type), "reported-mix", r.Str());
  if (s.codecs.size() == 1) c.Check(r.rate_ok && r.rate == k.rate && r.frame_ok && r.frame == k.spf, "reported-timing", r.Str());
  c.Count("units", want.size());
  c.Count(Fmt("layout_%d", x.ss).c_str());
  if (!want.empty()) c.nontrivial = true;
  c.State(Ctx::Mix(dec::ShapeOf(s) ^ (x.ss * 64 + policy * 8 + from)));
  c.SimTime(double(k.spf) * s.num_tus / k.rate);
}

DST_PROPERTY(D02)({"D02", "", Run, 60000, 2000000, "at least one non-empty unit was compared with the samples it carries",
                   {"iamf/api/decoder", "iamf/cli/obu_processor.cc", "iamf/cli/descriptor_obu_parser.cc", "iamf/cli/audio_frame_decoder.cc", "iamf/cli/codec (LPCM, FLAC decoders)", "iamf/cli/demixing_manager.cc", "iamf/cli/rendering_mix_presentation_finalizer.cc", "iamf/cli/renderer", "iamf/obu", "iamf/common"},
                   {"libFLAC (simulated)", "clock (simulated)", "Abseil hash order (salted per run)"}});
}  // namespace
}  // namespace dst
