// D04: a reset decoder cannot be told from a new one; a refused reset has no
// effect.
#include "decode_common.h"

namespace dst {
namespace {
namespace g = dst::gen;

struct Op {
  enum What { kFeed, kGet, kGetSmall, kAsk, kEnd } what = kAsk;
  g::Bytes bytes;
  uint32_t size = 0;
};

// What the caller sees of one call.
std::string Apply(dec::api::IamfDecoderInterface& d, const Op& op, uint64_t salt) {
  dec::SaltScope sc(salt);
  std::string r;
  switch (op.what) {
    case Op::kFeed: {
      g::Bytes copy(op.bytes);
      copy.shrink_to_fit();
      r = Fmt("decode(%zu)=%d", copy.size(), d.Decode(copy.data(), copy.size()).ok());
      break;
    }
    case Op::kGet:
    case Op::kGetSmall: {
      g::Bytes buf(op.what == Op::kGet ? 1 << 18 : op.size);
      size_t n = 0;
      const bool ok = d.GetOutputTemporalUnit(buf.data(), buf.size(), n).ok();
      r = Fmt("get(%zu)=%d %zu bytes %016llx", buf.size(), ok, n, (unsigned long long)HashBytes(buf.data(), n));
      break;
    }
    case Op::kEnd: r = Fmt("end=%d", d.SignalEndOfDecoding().ok()); break;
    case Op::kAsk: r = dec::Query(d).Str(); break;
  }
  return r + (d.IsTemporalUnitAvailable() ? " unit available" : " no unit") + (d.IsDescriptorProcessingComplete() ? "" : " incomplete");
}

std::vector<Op> DrawOps(Ctx& c, const g::Stream& s, int n, bool damage) {
  std::vector<Op> r;
  const auto tus = s.Tus();
  size_t next = 0;
  for (int i = 0; i < n; ++i) {
    Op o;
    switch (c.Weighted({4, 4, 1, 1, 1})) {
      case 0:
        o.what = Op::kFeed;
        if (!tus.empty()) o.bytes = tus[next++ % tus.size()];
        if (c.Pick(5) == 4 && !tus.empty()) g::Stream::Add(o.bytes, tus[next++ % tus.size()]);
        if (damage && !o.bytes.empty()) {
          switch (c.Weighted({4, 2, 1, 1})) {
            case 1: o.bytes.resize(c.Pick(o.bytes.size())); break;          // cut inside an OBU
            case 2: o.bytes[c.Pick(o.bytes.size())] ^= 1 << c.Pick(8); break;
            case 3: { const g::Bytes d = s.Descriptors(); g::Stream::Add(o.bytes, d); break; }  // next IA sequence
            default: break;
          }
        }
        break;
      case 1: o.what = Op::kGet; break;
      case 2: o.what = Op::kGetSmall; o.size = c.Pick(64); break;
      case 3: o.what = Op::kAsk; break;
      default: if (c.Pick(3) == 2) o.what = Op::kEnd;
    }
    r.push_back(std::move(o));
  }
  return r;
}

void Run(Ctx& c) {
  g::Stream s;
  g::Generator(c, {.decodable = true, .lossless = c.Pick(3) == 0, .junk = c.Pick(2) == 1}).Run(s);
  const g::Bytes desc = s.Descriptors();
  dec::Settings set = dec::DrawSettings(c, s);
  if (c.verbose) c.Log("%s", dec::Describe(s).c_str());
  const uint64_t salt = c.Bits();
  auto create = [&](const dec::Settings& x) {
    dec::SaltScope sc(salt);
    g::Bytes copy(desc);
    copy.shrink_to_fit();
    return dec::api::IamfDecoderFactory::CreateFromDescriptors(x, copy.data(), copy.size());
  };
  const bool standalone = c.Pick(8) == 7;
  dec::Decoder a, twin;
  std::vector<Op> history;
  if (standalone) {
    dec::SaltScope sc(salt);
    a = dec::api::IamfDecoderFactory::Create(set);
    twin = dec::api::IamfDecoderFactory::Create(set);
    if (c.Pick(4)) {
      Op o;
      o.what = Op::kFeed;
      o.bytes = desc;
      if (c.Pick(4) == 3) o.bytes.resize(c.Pick(desc.size()));
      history.push_back(o);
    }
  } else {
    a = create(set);
    twin = create(set);
    if (!a) { c.Count("refused"); return; }
  }
  const int resets = 1 + c.Pick(3);
  for (int round = 0; round < resets; ++round) {
    for (auto& o : DrawOps(c, s, c.Pick(9), true)) history.push_back(o);
    std::string last;
    for (auto& o : history) {
      last = Apply(*a, o, salt);
      if (c.verbose) c.Log("before: %s", last.c_str());
      c.NoteBytes("op", last.data(), last.size());
    }
    // The reset.
    const bool with_mix = c.Pick(2) == 1;
    dec::Settings next = set;
    if (with_mix) next.requested_mix = dec::DrawSettings(c, s).requested_mix;
    dec::Decoder fresh = standalone ? nullptr : create(next);
    bool ok;
    dec::api::SelectedMix selected{77777, dec::api::OutputLayout::kIAMF_Binaural};
    {
      dec::SaltScope sc(salt);
      ok = with_mix ? a->ResetWithNewMix(next.requested_mix, selected).ok() : a->Reset().ok();
    }
    c.Log("round %d: reset%s = %d (%s)", round, with_mix ? " with new mix" : "", ok, dec::Str(next).c_str());
    c.Note("reset", ok, with_mix);
    c.Fault(with_mix ? "reset_with_new_mix" : "reset");
    c.Check(!standalone || !ok, "standalone-reset-refused", "a reset was accepted without known descriptors");
    if (!standalone) c.Check(ok == (fresh != nullptr), "reset-like-create", Fmt("reset %s, creating %s", ok ? "succeeds" : "fails", fresh ? "succeeds" : "fails"));
    if (ok && with_mix) {
      const dec::Report r = dec::Query(*a);
      c.Check(r.mix_ok && r.mix == selected.mix_presentation_id && r.layout == static_cast<int>(selected.output_layout), "reset-reports-the-mix", r.Str() + Fmt(" but the reset said %u / %d", selected.mix_presentation_id, static_cast<int>(selected.output_layout)));
    }
    dec::Decoder& other = ok ? fresh : twin;
    if (!ok) for (auto& o : history) Apply(*twin, o, salt);
    // The same calls on both.
    auto later = DrawOps(c, s, 2 + c.Pick(10), c.Pick(3) == 2);
    Op ask;
    later.insert(later.begin(), ask);
    for (int i = 0; i < 4; ++i) { Op get; get.what = Op::kGet; later.push_back(get); }
    bool delivered = false;
    for (auto& o : later) {
      const std::string x = Apply(*a, o, salt), y = Apply(*other, o, salt);
      if (c.verbose) c.Log("after: %s", x.c_str());
      c.NoteBytes("op", x.data(), x.size());
      c.Check(x == y, ok ? "reset-like-new" : "refused-reset-changes-nothing", x + (ok ? " after the reset, but from a new decoder: " : " after the refused reset, but without it: ") + y);
      delivered |= x.find(" 0 bytes") == std::string::npos && o.what == Op::kGet;
    }
    if (ok) { set = next; c.nontrivial |= delivered; }
    else c.nontrivial |= standalone;
    c.Count(ok ? "reset" : standalone ? "refused_standalone" : "refused_mix");
    c.State(Ctx::Mix(dec::ShapeOf(s) ^ (round * 4 + with_mix * 2 + ok)));
    // Both have the same state behind them again.
    if (ok) twin = std::move(fresh);
    history.clear();
    c.SimTime(0.01);
  }
}

DST_PROPERTY(D04)({"D04", "", Run, 24000, 600000, "units were fetched after a successful reset and compared with a new decoder's, or a reset was refused",
                   {"iamf/api/decoder", "iamf/cli/obu_processor.cc", "iamf/cli/descriptor_obu_parser.cc", "iamf/cli/audio_frame_decoder.cc", "iamf/cli/codec (decoders)", "iamf/cli/demixing_manager.cc", "iamf/cli/rendering_mix_presentation_finalizer.cc", "iamf/cli/renderer", "iamf/obu", "iamf/common"},
                   {"libFLAC, Opus and AAC libraries (simulated)", "binaural renderer library (simulated)", "clock (simulated)", "Abseil hash order (salted)"}});
}  // namespace
}  // namespace dst
