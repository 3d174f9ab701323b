// D05: every temporal unit is delivered exactly once, whole and in order.
#include "decode_common.h"

namespace dst {
namespace {
namespace g = dst::gen;

// Number of units that carry samples among the first `tus`.
size_t NonEmpty(const g::Stream& s, const dec::Settings& set, int tus) {
  std::vector<const g::Frame*> first(s.num_tus, nullptr);
  for (auto& p : s.pieces) if (p.what == g::Piece::kAudio && !first[p.tu]) first[p.tu] = &s.frames[p.index];
  size_t n = 0;
  for (int t = 0; t < tus; ++t) {
    const uint32_t cut = (set.trimming_settings.trim_beginning ? first[t]->trim_start : 0) + (set.trimming_settings.trim_end ? first[t]->trim_end : 0);
    n += cut < first[t]->codec->spf;
  }
  return n;
}

// A retrieval with a buffer that is too small for the unit.
void GetTooSmall(Ctx& c, dec::Player& p, size_t unit) {
  if (p.out.error || !p.Available() || !unit) return;
  dec::SaltScope sc(p.salt_);
  const size_t size = c.Pick(3) == 0 ? unit - 1 : c.Pick(unit);
  g::Bytes buf(size, 0x5c);
  size_t n = 999;
  const bool ok = p.d_->GetOutputTemporalUnit(buf.data(), size, n).ok();
  c.Note("too_small", size, ok);
  c.Fault("buffer_too_small");
  c.Check(!ok && n == 0, "too-small-buffer-fails", Fmt("%zu bytes for a unit of %zu: ok=%d, %zu written", size, unit, ok, n));
  c.Check(std::count(buf.begin(), buf.end(), 0x5c) == static_cast<int64_t>(size), "too-small-buffer-writes-nothing", "the buffer was modified");
  c.Check(p.Available(), "too-small-buffer-keeps-the-unit", "the unit is gone");
}

void Run(Ctx& c) {
  g::Stream s;
  g::Generator(c, {.decodable = true, .lossless = c.Pick(4) != 3, .junk = c.Pick(2) == 1, .max_tus = 8}).Run(s);
  const dec::Settings set = dec::DrawSettings(c, s);
  if (c.verbose) c.Log("%s", dec::Describe(s).c_str());
  const uint64_t salt = c.Bits();
  dec::Outcome ref;
  {
    dec::Player p(c, set, nullptr, salt);
    ref = dec::PlayAll(c, p, {s.All()}, 1);
  }
  if (ref.error) { c.Count("refused"); return; }
  c.Check(ref.units.size() == NonEmpty(s, set, s.num_tus), "one-unit-per-temporal-unit", Fmt("%zu units, %zu temporal units with samples", ref.units.size(), NonEmpty(s, set, s.num_tus)));
  if (ref.units.empty()) return;
  const g::Bytes desc = s.Descriptors();

  // Interleavings of deliveries with sufficient and insufficient retrievals.
  {
    const bool from = c.Pick(3) == 2;
    const auto chunks = from ? dec::DrawUnitChunks(c, s) : dec::DrawChunks(c, s);
    // Where each unit is known to be over.
    std::vector<size_t> over(s.num_tus, SIZE_MAX);
    {
      size_t at = 0;
      std::vector<bool> seen(s.num_tus, false);
      for (size_t i = from ? s.num_descriptor_pieces : 0; i < s.pieces.size(); ++i) {
        const auto& p = s.pieces[i];
        at += p.bytes.size();
        if (p.what != g::Piece::kAudio) continue;
        if (from) over[p.tu] = at;  // its last frame
        else if (!seen[p.tu] && p.tu) over[p.tu - 1] = at;
        seen[p.tu] = true;
      }
    }
    dec::Player p(c, set, from ? &desc : nullptr, salt);
    size_t fed = 0;
    const uint32_t lazy = c.Pick(4);
    for (auto& b : chunks) {
      const bool before = p.d_ && p.d_->IsDescriptorProcessingComplete();
      if (!p.Feed(b)) break;
      fed += b.size();
      if (lazy && c.Pick(lazy + 1) == 0) {
        if (c.Pick(3) == 0) { p.Get(); continue; }
        while (p.Available() && !p.out.error) {
          if (c.Pick(3) == 0) GetTooSmall(c, p, ref.units[std::min(p.out.units.size(), ref.units.size() - 1)].size());
          p.Get();
        }
        if (!before || p.out.error) continue;
        int done = 0;
        while (done < s.num_tus && over[done] <= fed) ++done;
        const size_t want = NonEmpty(s, set, done);
        c.Check(p.out.units.size() >= want, "unit-available-in-time", Fmt("%zu bytes delivered and drained: %zu units fetched, %zu are over", fed, p.out.units.size(), want));
      } else if (c.Pick(6) == 5) {
        GetTooSmall(c, p, ref.units[std::min(p.out.units.size(), ref.units.size() - 1)].size());
      }
    }
    p.End();
    while (p.Available() && !p.out.error) {
      if (c.Pick(3) == 0) GetTooSmall(c, p, ref.units[std::min(p.out.units.size(), ref.units.size() - 1)].size());
      p.Get();
    }
    // Nothing more comes.
    p.Get();
    const std::string d = dec::CompareUnits(ref.units, p.out.units);
    c.Check(!p.out.error, "interleaving-without-error", "failed at " + p.out.at);
    c.Check(d.empty(), "each-unit-once", d);
    c.nontrivial = true;
    c.State(Ctx::Mix(chunks.size() * 8 + lazy * 2 + from) ^ dec::ShapeOf(s));
  }

  // The output for a prefix is a prefix of the output.
  {
    dec::Player p(c, set, nullptr, salt);
    int whole = 0;
    g::Bytes b = desc;
    const bool boundary = c.Pick(2) == 0;
    if (boundary) {
      whole = c.Pick(s.num_tus + 1);
      const auto t = s.Tus();
      for (int i = 0; i < whole; ++i) g::Stream::Add(b, t[i]);
    } else {
      g::Bytes all = s.All();
      const size_t cut = desc.size() + c.Pick(all.size() - desc.size() + 1);
      all.resize(cut);
      size_t at = 0;
      std::vector<size_t> end(s.num_tus, 0);
      for (auto& q : s.pieces) { at += q.bytes.size(); if (q.what == g::Piece::kAudio) end[q.tu] = at; }
      while (whole < s.num_tus && end[whole] <= cut) ++whole;
      b = all;
    }
    std::vector<g::Bytes> chunks{b};
    if (c.Pick(2)) { const size_t x = c.Pick(b.size() + 1); chunks = {g::Bytes(b.begin(), b.begin() + x), g::Bytes(b.begin() + x, b.end())}; }
    const dec::Outcome o = dec::PlayAll(c, p, chunks, c.Pick(2));
    const size_t want = NonEmpty(s, set, whole);
    c.Log("prefix: %d whole units, %zu with samples, boundary=%d: %zu delivered, error=%d", whole, want, boundary, o.units.size(), o.error);
    std::vector<g::Bytes> head(o.units.begin(), o.units.begin() + std::min(want, o.units.size()));
    const std::string d = dec::CompareUnits({ref.units.begin(), ref.units.begin() + want}, head);
    c.Check(d.empty(), "prefix-of-the-output", d);
    // A cut inside a unit may leave a part of that one.
    c.Check(o.units.size() <= want + (boundary ? 0 : 1), "nothing-beyond-the-prefix", Fmt("%zu units for a prefix of %zu", o.units.size(), want));
    if (boundary) c.Check(!o.error, "prefix-without-error", "failed at " + o.at);
  }
  c.Count("units", ref.units.size());
  if (ref.report.rate_ok) c.SimTime(double(s.codecs[0].spf) * s.num_tus / ref.report.rate * 3);
}

DST_PROPERTY(D05)({"D05", "", Run, 24000, 600000, "units were fetched under an interleaving with insufficient retrievals and compared, and a prefix was played",
                   {"iamf/api/decoder", "iamf/cli/obu_processor.cc", "iamf/cli/descriptor_obu_parser.cc", "iamf/cli/audio_frame_decoder.cc", "iamf/cli/codec (decoders)", "iamf/cli/demixing_manager.cc", "iamf/cli/rendering_mix_presentation_finalizer.cc", "iamf/cli/renderer", "iamf/obu", "iamf/common"},
                   {"libFLAC, Opus and AAC libraries (simulated)", "binaural renderer library (simulated)", "clock (simulated)", "Abseil hash order (salted)"}});
}  // namespace
}  // namespace dst
