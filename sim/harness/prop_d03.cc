// D03: no input bitstream can crash, hang or exhaust the decoder.
#include "decode_common.h"
#include "sim_tp.h"

namespace dst {
namespace {
namespace g = dst::gen;
using g::Bytes;

// ------------------------------------------------------------- damage -----
void DamagePiece(Ctx& c, Bytes& b) {
  if (b.empty()) return;
  // Mostly near the front, where the structure is.
  auto at = [&] { return c.Pick(3) ? c.Pick(std::min<size_t>(b.size(), 24)) : c.Pick(b.size()); };
  switch (c.Weighted({4, 3, 2, 2, 2, 1, 1})) {
    case 0: b[at()] ^= 1 << c.Pick(8); break;
    case 1: { static const uint8_t k[] = {0, 0xff, 0x80, 0x7f, 1, 0x40, 0xc0, 0x10}; b[at()] = k[c.Pick(8)]; break; }
    case 2: b[at()] = c.Pick(256); break;
    case 3: { const size_t x = at(); b.erase(b.begin() + x, b.begin() + x + 1 + c.Pick(std::min<size_t>(b.size() - x, 4))); break; }
    case 4: { const size_t x = at(); for (uint32_t n = 1 + c.Pick(4); n; --n) b.insert(b.begin() + x, c.Pick(256)); break; }
    case 5: b.resize(c.Pick(b.size())); break;
    default: {  // a size or value of five and more bytes
      const size_t x = at();
      static const std::vector<Bytes> k{{0xff, 0xff, 0xff, 0xff, 0x0f}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0}, {0xff, 0xff, 0x7f}, {0x80, 0x80, 0x01}};
      const Bytes& v = c.OneOf(k);
      b.erase(b.begin() + x);
      b.insert(b.begin() + x, v.begin(), v.end());
    }
  }
}
// The contents of an OBU changed but its size still right: gets past the
// framing into the parsers.
void DamageInside(Ctx& c, Bytes& b) {
  if (b.size() < 3) return;
  size_t header = 1;
  while (header < b.size() && b[header] & 0x80) ++header;
  if (++header >= b.size()) return;
  for (uint32_t n = 1 + c.Pick(2); n; --n) {
    const size_t x = header + (c.Pick(3) ? c.Pick(std::min<size_t>(b.size() - header, 32)) : c.Pick(b.size() - header));
    switch (c.Pick(3)) {
      case 0: b[x] ^= 1 << c.Pick(8); break;
      case 1: { static const uint8_t k[] = {0, 0xff, 0x80, 0x7f, 1, 0x40}; b[x] = k[c.Pick(6)]; break; }
      default: b[x] = c.Pick(256);
    }
  }
}
// Takes an OBU apart; false if it is not one whole OBU.
bool Split(const Bytes& b, uint8_t& first, Bytes& payload) {
  uint64_t size = 0;
  size_t i = 1;
  for (int k = 0; k < 8 && i < b.size(); ++k) {
    size |= uint64_t{b[i] & 127u} << (7 * k);
    if (!(b[i++] & 128)) break;
  }
  if (b.empty() || size != b.size() - i) return false;
  first = b[0];
  payload.assign(b.begin() + i, b.end());
  return true;
}
void PutLeb(Bytes& b, uint64_t v) { do { const uint8_t x = v & 127; v >>= 7; b.push_back(x | (v ? 128 : 0)); } while (v); }
Bytes Join(uint8_t first, const Bytes& payload) {
  Bytes b{first};
  PutLeb(b, payload.size());
  b.insert(b.end(), payload.begin(), payload.end());
  return b;
}
size_t SkipLeb(const Bytes& b, size_t i) { while (i < b.size() && b[i] & 128) ++i; return std::min(i + 1, b.size()); }
// Values at the edges of 32 bits; the second often completes the first.
uint32_t Edge(Ctx& c, uint32_t before) {
  static const uint32_t k[] = {0, 1, 2, 0x7f, 0x80, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x10000, 0xffff0000};
  if (c.Pick(3) == 0) return 0u - before + c.Pick(9);
  return k[c.Pick(11)] + (c.Pick(3) ? 0 : c.Pick(9));
}
// A well-formed OBU with impossible numbers.
bool DamageNumbers(Ctx& c, Bytes& b) {
  uint8_t first;
  Bytes p;
  if (!Split(b, first, p)) return false;
  const int type = first >> 3;
  if (type >= 5 && type <= 23 && c.Pick(4)) {  // an audio frame's trims
    if (first & 2) { size_t e = SkipLeb(p, SkipLeb(p, 0)); p.erase(p.begin(), p.begin() + e); }
    Bytes t;
    const uint32_t end = Edge(c, 0), start = Edge(c, end);
    PutLeb(t, end);
    PutLeb(t, start);
    p.insert(p.begin(), t.begin(), t.end());
    first |= 2;
  } else {  // some numbers in a row
    if (p.empty()) return false;
    size_t x = c.Pick(3) ? c.Pick(std::min<size_t>(p.size(), 24)) : c.Pick(p.size());
    uint32_t v = 0;
    for (uint32_t n = 1 + c.Pick(2); n && x < p.size(); --n) {
      Bytes t;
      PutLeb(t, v = Edge(c, v));
      p.erase(p.begin() + x, p.begin() + SkipLeb(p, x));
      p.insert(p.begin() + x, t.begin(), t.end());
      x += t.size();
    }
  }
  b = Join(first, p);
  return true;
}
const char* Damage(Ctx& c, std::vector<Bytes>& p, size_t descriptors, const std::vector<Bytes>& other) {
  if (p.empty()) return "";
  // A piece; descriptors in a third of the cases.
  auto any = [&]() -> size_t {
    if (descriptors && (descriptors >= p.size() || c.Pick(3) == 0)) return c.Pick(std::min(descriptors, p.size()));
    return descriptors + c.Pick(p.size() - descriptors);
  };
  switch (c.Weighted({5, 6, 2, 2, 2, 2, 2, 1, 1, 5})) {
    case 0: DamagePiece(c, p[any()]); return "corrupted_obu";
    case 1: DamageInside(c, p[any()]); return "corrupted_payload";
    case 2: p.erase(p.begin() + any()); return "lost_obu";
    case 3: { const size_t i = any(); const Bytes b = p[i]; p.insert(p.begin() + any(), b); return "repeated_obu"; }
    case 4: { const size_t i = any(), j = any(); std::swap(p[i], p[j]); return "reordered_obus"; }
    case 5: { const size_t i = any(); if (!other.empty()) p.insert(p.begin() + i, c.OneOf(other)); return "obu_of_another_stream"; }
    case 6: { const size_t i = any(); if (!other.empty()) p[i] = c.OneOf(other); return "obu_replaced"; }
    case 7: { p.resize(any()); return "truncated"; }
    case 8: { Bytes b(1 + c.Pick(40)); for (auto& x : b) x = c.Pick(256); p.insert(p.begin() + any(), b); return "garbage"; }
    default: return DamageNumbers(c, p[any()]) ? "impossible_numbers" : "";
  }
}

// -------------------------------------------------------- codec faults ----
struct Arm {
  Ctx* c = nullptr;
  int site = -1;     // -1: any
  uint32_t den = 0;  // fails one call in den
  uint32_t after = 0;
  uint64_t fired = 0;
  bool operator()(int s) {
    if (!den || (site >= 0 && s != site)) return false;
    if (after) { --after; return false; }
    if (c->Pick(den)) return false;
    ++fired;
    c->Fault(simtp::kSiteNames[s]);
    return true;
  }
};

void TooSmall(Ctx& c, dec::Player& p) {
  if (!p.d_) return;
  dec::SaltScope sc(p.salt_);
  Bytes b(c.Pick(40));
  size_t n = 77;
  p.d_->GetOutputTemporalUnit(b.data(), b.size(), n);
  c.Check(n <= b.size(), "unit-fits-the-buffer", Fmt("%zu bytes written into %zu", n, b.size()));
  if (n) { b.resize(n); p.out.units.push_back(b); }
}

// What is played of damaged data depends on that data alone, never on the audio
// of earlier units.
void RunPast(Ctx& c) {
  g::Stream s;
  g::Generator(c, {.decodable = true, .lossless = true, .junk = c.Pick(2) == 1, .max_tus = 6}).Run(s);
  if (s.num_tus < 2) return;
  dec::Settings set = dec::DrawSettings(c, s);
  if (c.verbose) c.Log("%s", dec::Describe(s).c_str());
  const uint64_t salt = c.Bits();
  const int t = 1 + c.Pick(s.num_tus - 1);
  size_t split = s.num_descriptor_pieces;
  while (split < s.pieces.size() && s.pieces[split].tu < t) ++split;
  // Two versions of the past.
  Bytes head[2];
  uint64_t content = c.Bits();
  bool differ = false;
  for (size_t i = 0; i < split; ++i) {
    const auto& p = s.pieces[i];
    g::Stream::Add(head[0], p.bytes);
    Bytes b = p.bytes;
    if (p.what == g::Piece::kAudio && s.frames[p.index].codec->kind == g::kLpcm) {
      const size_t n = s.frames[p.index].payload.size();
      for (size_t k = b.size() - n; k < b.size(); ++k) b[k] ^= (content = Ctx::Mix(content)) | 1;
      differ = true;
    }
    g::Stream::Add(head[1], b);
  }
  std::vector<Bytes> tail;
  for (size_t i = split; i < s.pieces.size(); ++i) tail.push_back(s.pieces[i].bytes);
  const std::vector<Bytes> other = tail;
  for (uint32_t n = 1 + c.Pick(2); n; --n) { const char* kind = Damage(c, tail, 0, other); if (*kind) c.Fault(kind); }
  Bytes rest;
  std::vector<size_t> ends;
  for (auto& b : tail) { g::Stream::Add(rest, b); ends.push_back(rest.size()); }
  if (!differ) return;
  if (c.verbose) c.Log("t=%d %s head %s | %s tail %s", t, dec::Str(set).c_str(), Hex(head[0].data() + s.Descriptors().size(), head[0].size() - s.Descriptors().size(), 64).c_str(), Hex(head[1].data() + s.Descriptors().size(), head[1].size() - s.Descriptors().size(), 64).c_str(), Hex(rest.data(), rest.size(), 64).c_str());
  const bool from = c.Pick(3) == 2;
  const Bytes desc = s.Descriptors();
  std::set<size_t> cut{rest.size()};
  if (!from) for (size_t e : ends) if (c.Pick(3) == 0) cut.insert(e);
  const bool keep_going = c.Pick(3) != 0;
  dec::Outcome o[2];
  std::string calls[2];
  for (int v = 0; v < 2; ++v) {
    dec::Player p(c, set, from ? &desc : nullptr, salt);
    p.keep_going = keep_going;
    Bytes b(head[v].begin() + (from ? desc.size() : 0), head[v].end());
    auto step = [&](bool ok) {
      calls[v] += ok ? '+' : '-';
      for (int i = 0; i < 40 && !p.out.error && p.Available(); ++i) calls[v] += p.Get() ? 'u' : '.';
    };
    step(p.Feed(b));
    size_t at = 0;
    for (size_t e : cut) { step(p.Feed(rest.data() + at, e - at)); at = e; }
    step(p.End());
    o[v] = p.Finish();
  }
  // The binaural renderer remembers the past, as it must.
  if (o[0].report.layout == static_cast<int>(dec::api::OutputLayout::kIAMF_Binaural)) return;
  c.Check(calls[0] == calls[1], "errors-do-not-depend-on-the-past", calls[0] + " and " + calls[1] + " for streams that differ only in the audio of earlier units");
  size_t old = 0;
  {
    std::vector<const g::Frame*> first(s.num_tus, nullptr);
    for (auto& p : s.pieces) if (p.what == g::Piece::kAudio && !first[p.tu]) first[p.tu] = &s.frames[p.index];
    for (int i = 0; i < t; ++i) {
      const uint32_t gone = (set.trimming_settings.trim_beginning ? first[i]->trim_start : 0) + (set.trimming_settings.trim_end ? first[i]->trim_end : 0);
      old += gone < first[i]->codec->spf;
    }
  }
  for (int v = 0; v < 2; ++v) o[v].units.erase(o[v].units.begin(), o[v].units.begin() + std::min(old, o[v].units.size()));
  const std::string d = dec::CompareUnits(o[0].units, o[1].units);
  if (c.verbose) for (int v = 0; v < 2; ++v) for (auto& u : o[v].units) c.Log("version %d: %s", v, Hex(u.data(), u.size(), 64).c_str());
  c.Check(d.empty(), "units-do-not-depend-on-the-past", Fmt("behind unit %zu: ", old) + d);
  c.nontrivial = !o[0].units.empty();
  c.Count("past_compared");
  c.State(Ctx::Mix(dec::ShapeOf(s) ^ 99));
}

void Run(Ctx& c) {
  if (c.Pick(4) == 3) return RunPast(c);
  g::Stream s, s2;
  g::Generator(c, {.decodable = c.Pick(5) != 4, .lossless = c.Pick(3) == 0, .junk = c.Pick(2) == 1, .max_tus = 6}).Run(s);
  std::vector<Bytes> pieces, other;
  for (auto& p : s.pieces) pieces.push_back(p.bytes);
  const size_t nd = s.num_descriptor_pieces;
  dec::Settings set = dec::DrawSettings(c, s);
  if (c.verbose) c.Log("%s", dec::Describe(s).c_str());
  const uint64_t salt = c.Bits();
  const Bytes good = s.All();

  const uint32_t ndamage = c.Weighted({2, 5, 2, 1});
  if (ndamage && c.Pick(4) == 3) {
    g::Generator(c, {.decodable = true, .lossless = c.Pick(3) == 0, .junk = c.Pick(2) == 1, .max_tus = 2}).Run(s2);
    for (auto& p : s2.pieces) other.push_back(p.bytes);
  } else {
    other = pieces;
  }
  for (uint32_t i = 0; i < ndamage; ++i) {
    const char* kind = Damage(c, pieces, std::min(nd, pieces.size()), other);
    if (*kind) c.Fault(kind);
  }
  Bytes bad;
  std::vector<size_t> ends;
  for (auto& p : pieces) { g::Stream::Add(bad, p); ends.push_back(bad.size()); }
  size_t first = 0;  // first damaged byte
  while (first < bad.size() && first < good.size() && bad[first] == good[first]) ++first;
  const bool damaged = bad != good;
  c.NoteBytes("stream", bad.data(), bad.size());

  // Chunks.
  const bool from = c.Pick(3) == 2;
  size_t desc_bytes = 0;
  std::set<size_t> cut{bad.size()};
  if (from) {
    for (size_t i = 0; i < std::min(nd, pieces.size()); ++i) desc_bytes += pieces[i].size();
    if (c.Pick(16) == 15) desc_bytes = c.Pick(bad.size() + 1);
    cut.insert(desc_bytes);
  }
  switch (c.Pick(4)) {
    case 0: break;
    case 1: for (size_t e : ends) cut.insert(e); break;
    case 2: for (uint32_t n = 1 + c.Pick(10); n; --n) cut.insert(c.Pick(bad.size() + 1)); break;
    default: for (size_t e : ends) if (c.Pick(2)) cut.insert(std::min<size_t>(bad.size(), e + c.Pick(3)));
  }
  if (damaged && c.Pick(2)) cut.insert(first);
  cut.erase(cut.begin(), cut.upper_bound(from ? desc_bytes : 0));
  cut.insert(bad.size());

  Arm arm;
  arm.c = &c;
  if (c.Pick(ndamage ? 4 : 2) == (ndamage ? 3u : 1u)) {
    static const int kSites[] = {-1, simtp::kOpusDecCreate, simtp::kOpusDecode, simtp::kFlacDecNew, simtp::kFlacDecInit, simtp::kFlacDecProcess, simtp::kAacDecOpen, simtp::kAacDecFill, simtp::kAacDecode};
    arm.site = kSites[c.Pick(9)];
    arm.after = c.Pick(16);
    arm.den = 1 + c.Pick(12);
  }

  std::vector<Bytes> units;
  size_t before_damage = SIZE_MAX;  // units fetched before the damage arrived
  bool failed = false, created = false, drained = true, reset = false;
  size_t units_at_error = 0;
  TakeAllocStats();
  {
    CodecFaults faults([&](int site) { return arm(site); });
    Bytes desc(bad.begin(), bad.begin() + desc_bytes);
    dec::Player p(c, set, from ? &desc : nullptr, salt);
    p.keep_going = c.Pick(3) != 0;
    created = p.d_ != nullptr;
    if (from && desc_bytes > first && damaged) before_damage = 0;
    size_t at = from ? desc_bytes : 0;
    const uint32_t lazy = c.Pick(3);
    bool ended = false;
    for (size_t e : cut) {
      if (p.out.error) break;
      if (damaged && before_damage == SIZE_MAX && e > first) before_damage = p.out.units.size();
      p.Feed(bad.data() + at, e - at);
      at = e;
      if (lazy == 0) p.Drain();
      else switch (c.Pick(8)) {
        case 1: p.Drain(); break;
        case 2: p.Get(); break;
        case 3: p.Ask(); break;
        case 4: if (c.Pick(3) == 2) { TooSmall(c, p); } break;
        case 5: p.Get(); p.Get(); break;
        case 6: if (p.keep_going && c.Pick(6) == 5) { p.End(); ended = true; } break;
        case 7:
          if (p.keep_going && c.Pick(4) == 3) {
            dec::SaltScope sc(salt);
            dec::api::SelectedMix m;
            if (c.Pick(2)) p.d_->Reset();
            else p.d_->ResetWithNewMix(dec::DrawSettings(c, s).requested_mix, m);
            p.ForgetReports();
            c.Fault("reset");
            reset = true;
          }
          break;
        default: break;
      }
    }
    if (damaged && before_damage == SIZE_MAX) before_damage = p.out.units.size();
    p.End();
    // A caller that does not look at errors.
    for (int i = 0; i < 40 && !p.out.error && p.Available(); ++i) p.Get();
    drained = p.out.error || !p.Available();
    p.Finish();
    units = p.out.units;
    failed = p.failed || ended;
    units_at_error = p.failed ? p.units_at_error : units.size();
  }
  const auto alloc = TakeAllocStats();
  c.Check(alloc.max_request <= (size_t{64} << 20) + bad.size() * 64, "huge-allocation", Fmt("one allocation of %zu bytes for %zu bytes of input", alloc.max_request, bad.size()));
  if (!created) { c.Count("not_created"); c.nontrivial = damaged || arm.fired; return; }

  // Against the undamaged stream without codec failures.
  // (a decoder created from descriptors takes the end of each call for the end of a unit)
  if (!reset && (!from || cut.size() == 1)) {
    std::vector<Bytes> ref;
    bool ref_failed;
    {
      dec::Player p(c, set, nullptr, salt);
      dec::PlayAll(c, p, {good}, 1);
      ref = p.out.units;
      ref_failed = p.out.error;
    }
    if (!ref_failed || !ref.empty()) {
      const size_t safe = std::min(damaged ? std::min(before_damage, units.size()) : units.size(), units_at_error);
      std::vector<Bytes> head(units.begin(), units.begin() + safe);
      const size_t n = std::min(safe, ref.size());
      const std::string d = dec::CompareUnits({ref.begin(), ref.begin() + n}, {head.begin(), head.begin() + n});
      c.Check(d.empty(), arm.fired ? "no-wrong-unit-without-an-error" : "units-before-the-damage", d);
      c.Check(safe <= ref.size(), "nothing-invented", Fmt("%zu units before any damage, the stream has %zu", safe, ref.size()));
      if (!damaged && arm.fired && !failed && drained && !ref_failed) c.Check(units.size() == ref.size(), "codec-failure-is-reported", Fmt("%llu failed codec calls, no error, and %zu units of %zu", (unsigned long long)arm.fired, units.size(), ref.size()));
      if (!damaged && !arm.fired && !failed && drained && !ref_failed) c.Check(units.size() == ref.size(), "undamaged-stream-is-whole", Fmt("%zu units of %zu", units.size(), ref.size()));
    }
  }
  c.nontrivial = damaged || arm.fired;
  if (failed) c.Count("error_reported");
  if (damaged && !failed) c.Count("damage_survived");
  c.Count("units", units.size());
  c.State(Ctx::Mix(dec::ShapeOf(s) ^ (failed * 2 + (arm.fired ? 1 : 0))));
  c.SimTime(0.01);
}

DST_PROPERTY(D03)({"D03", "", Run, 40000, 1000000, "damaged bytes or a failing codec reached the decoder",
                   {"iamf/api/decoder", "iamf/cli/obu_processor.cc", "iamf/cli/descriptor_obu_parser.cc", "iamf/cli/audio_frame_decoder.cc", "iamf/cli/codec (decoders)", "iamf/cli/demixing_manager.cc", "iamf/cli/rendering_mix_presentation_finalizer.cc", "iamf/cli/renderer", "iamf/obu", "iamf/common"},
                   {"libFLAC, Opus and AAC libraries (simulated, failing on request)", "binaural renderer library (simulated)", "clock (simulated)", "Abseil hash order (salted)"}});
}  // namespace
}  // namespace dst
