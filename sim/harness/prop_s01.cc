// S01: what a sequencer writes is complete, in order, or reported.
#include <filesystem>
#include <fstream>

#include "iamf/cli/obu_processor.h"
#include "iamf/cli/obu_sequencer_base.h"
#include "iamf/cli/obu_sequencer_iamf.h"
#include "iamf/cli/obu_sequencer_streaming_iamf.h"
#include "iamf/cli/temporal_unit_view.h"
#include "iamf/common/leb_generator.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/obu/arbitrary_obu.h"
#include "iamf_gen.h"

namespace dst {
namespace {
namespace g = dst::gen;
namespace it = ::iamf_tools;
using g::Bytes;

// What reaches the class that stores the bytes.
struct Call {
  char what = 0;  // D descriptors, U unit, F finalized descriptors, C close, A abort
  std::vector<int64_t> numbers;
  Bytes bytes;
  bool operator==(const Call&) const = default;
};
std::string Str(const Call& k) {
  std::string r(1, k.what);
  for (int64_t n : k.numbers) r += Fmt(" %lld", static_cast<long long>(n));
  return r + Fmt(" [%zu bytes %08llx]", k.bytes.size(), static_cast<unsigned long long>(HashBytes(k.bytes.data(), k.bytes.size()) & 0xffffffff));
}
std::string Str(const std::vector<Call>& v) { std::string r; for (auto& k : v) r += Str(k) + "; "; return r; }
constexpr int64_t kNone = -1000000;

class Recorder : public it::ObuSequencerBase {
 public:
  Recorder(const it::LebGenerator& leb, bool td, bool delay, Ctx& c, int fail_at) : ObuSequencerBase(leb, td, delay), c_(c), fail_at_(fail_at) {}
  std::vector<Call> calls;
  bool fired = false;

 private:
  absl::Status Take(Call k) {
    calls.push_back(std::move(k));
    if (fail_at_-- == 0) { fired = true; c_.Fault("storage_refuses"); return absl::ResourceExhaustedError("injected"); }
    return absl::OkStatus();
  }
  static Bytes B(absl::Span<const uint8_t> s) { return Bytes(s.begin(), s.end()); }
  absl::Status PushSerializedDescriptorObus(uint32_t spf, uint32_t rate, uint8_t depth, std::optional<it::InternalTimestamp> first, int channels, absl::Span<const uint8_t> d) override {
    return Take({'D', {spf, rate, depth, first ? *first : kNone, channels}, B(d)});
  }
  absl::Status PushSerializedTemporalUnit(it::InternalTimestamp ts, int n, bool key, absl::Span<const uint8_t> d) override { return Take({'U', {ts, n, key}, B(d)}); }
  absl::Status PushFinalizedDescriptorObus(absl::Span<const uint8_t> d) override { return Take({'F', {}, B(d)}); }
  void CloseDerived() override { calls.push_back({'C', {}, {}}); }
  void AbortDerived() override { calls.push_back({'A', {}, {}}); }
  Ctx& c_;
  int fail_at_;
};

struct Arb { int type, hook; Bytes payload; bool flag, invalid; };
struct Unit {
  std::list<it::AudioFrameWithData> frames;
  std::list<it::ParameterBlockWithData> blocks;
  std::list<it::ArbitraryObu> arbs;
  std::vector<Arb> arb_models;
  int64_t ts = 0;
  uint32_t start = 0, end = 0;
  Bytes bytes;
  bool invalid = false, key = false;
};
struct Desc {
  it::IASequenceHeaderObu header;
  it::DescriptorObus::CodecConfigsById codecs;
  it::DescriptorObus::MixPresentationObus mixes;
  std::list<it::ArbitraryObu> arbs;
  Bytes bytes;
  bool invalid = false;
};

class Session {
 public:
  explicit Session(Ctx& c) : c_(c) {}
  void Run();

 private:
  bool Load();
  std::vector<Arb> DrawArbs(bool descriptors, bool may_invalidate);
  Bytes ArbBytes(const std::vector<Arb>& a, int hook) const;
  Bytes DescriptorBytes(const g::Stream& s, const std::vector<Arb>& arbs) const;
  void MakeUnits();
  bool Views();
  // The calls; each follows the model.
  void Push();
  void PushUnit(size_t i);
  void Update();
  void Close();
  void Abort();
  void Judge(const absl::Status& s, const char* what, bool must_fail, bool aborts_on_failure);
  void CheckOutput();
  bool Store(Call k) { want_.push_back(std::move(k)); return true; }
  void StoreDescriptors(int64_t first) { Store({'D', {spf_, rate_, depth_, first, 2}, desc_}); stored_ = true; }

  Ctx& c_;
  g::Stream s_;
  Bytes all_;
  std::unique_ptr<it::MemoryBasedReadBitBuffer> rb_;
  std::unique_ptr<it::ObuProcessor> p_;
  std::vector<Unit> units_;
  int leb_size_ = 0;
  std::unique_ptr<it::LebGenerator> leb_ = it::LebGenerator::Create();
  bool td_ = false, delay_ = false, uniform_ = true, wide_ = false;
  int kind_ = 0, fail_at_ = -1;
  std::string path_;
  it::ObuSequencerBase* q_ = nullptr;
  Recorder* rec_ = nullptr;
  it::ObuSequencerStreamingIamf* str_ = nullptr;
  bool bad_path_ = false;

  // Faults.
  bool disk_ok_ = true, fired_ = false, remove_failed_ = false;

  // The model.
  enum { kNew, kPushed, kClosed } state_ = kNew;
  bool stored_ = false, ok_close_ = false, aborted_ = false;
  std::vector<Call> want_;
  std::vector<Arb> desc_arbs_;
  std::vector<Call> waiting_;
  bool sounded_ = false;  // an untrimmed sample was seen
  Bytes desc_, final_, last_unit_, data_;
  int64_t spf_ = 1024, rate_ = 48000, depth_ = 16;
  size_t pos_ = 0;
  std::string trace_;
};

bool Session::Load() {
  wide_ = c_.Pick(3) == 2;
  g::Generator(c_, {.decodable = !wide_, .encodable = !wide_, .junk = false, .max_tus = 6}).Run(s_);
  all_ = s_.All();
  rb_ = it::MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(all_));
  bool insufficient = false;
  p_ = it::ObuProcessor::Create(s_.num_tus == 0, rb_.get(), insufficient);
  c_.Check(p_ != nullptr, "stream-is-read", "the generated stream was refused");
  for (size_t t = 0;; ++t) {
    std::optional<it::ObuProcessor::OutputTemporalUnit> u;
    bool more = false;
    const auto st = p_->ProcessTemporalUnit(true, u, more);
    if (wide_ && !st.ok()) return false;
    c_.Check(st.ok(), "stream-is-read", Fmt("unit %zu: %s", t, std::string(st.message()).c_str()));
    if (u) {
      Unit x;
      x.frames = std::move(u->output_audio_frames);
      x.blocks = std::move(u->output_parameter_blocks);
      x.ts = u->output_timestamp;
      units_.push_back(std::move(x));
    }
    if (!more) break;
  }
  // Elements of kinds this version does not know carry no frames.
  if (wide_ && static_cast<int>(units_.size()) != s_.num_tus) return false;
  for (auto& u : units_) {
    size_t n = 0;
    for (auto& e : s_.elements) n += e.substreams.size();
    if (wide_ && u.frames.size() != n) return false;
  }
  c_.Check(static_cast<int>(units_.size()) == s_.num_tus, "stream-is-read", Fmt("%zu of %d units", units_.size(), s_.num_tus));
  c_.Check(p_->GetCodecConfigsByIdView().size() == s_.codecs.size() && p_->GetAudioElementsView().size() == s_.elements.size() && p_->GetMixPresentationObusView().size() == s_.mixes.size(),
           "stream-is-read", "descriptors are missing");
  // A sub-mix without a stereo layout is completed with one.
  for (auto& m : s_.mixes) for (auto& b : m.subs) {
    bool stereo = false;
    for (auto& l : b.layouts) stereo |= l.type == 2 && l.ss == 0;
    if (stereo) continue;
    g::MixLayout l;
    l.loud = b.layouts.back().loud;
    b.layouts.push_back(l);
  }
  return true;
}

std::vector<Arb> Session::DrawArbs(bool descriptors, bool may_invalidate) {
  std::vector<Arb> r;
  if (c_.Pick(3) != 2) return r;
  for (uint32_t n = 1 + c_.Pick(3); n; --n) {
    Arb a;
    a.type = c_.Pick(4) == 3 ? static_cast<int>(g::kDelim) : g::kReserved25 + static_cast<int>(c_.Pick(6));
    a.hook = descriptors ? c_.Pick(6) : 6 + c_.Pick(3);
    a.payload = g::DrawBytes(c_, c_.Pick(12));
    a.flag = a.type == g::kDelim && c_.Pick(2);
    a.invalid = may_invalidate && c_.Pick(24) == 23;
    r.push_back(a);
  }
  return r;
}
std::list<it::ArbitraryObu> Make(const std::vector<Arb>& v, std::optional<int64_t> tick) {
  std::list<it::ArbitraryObu> r;
  for (auto& a : v) {
    it::ObuHeader h;
    h.type_specific_flag = a.flag;
    std::optional<it::InternalTimestamp> t;
    if (tick) t = *tick;
    r.emplace_back(static_cast<it::ObuType>(a.type), h, absl::MakeConstSpan(a.payload), static_cast<it::ArbitraryObu::InsertionHook>(a.hook), t, a.invalid);
  }
  return r;
}
Bytes Session::ArbBytes(const std::vector<Arb>& v, int hook) const {
  Bytes r;
  for (auto& a : v) if (a.hook == hook) g::Stream::Add(r, g::Obu{.type = a.type, .flag = a.flag, .payload = a.payload}.Write(0));
  return r;
}
Bytes Session::DescriptorBytes(const g::Stream& s, const std::vector<Arb>& arbs) const {
  using H = it::ArbitraryObu;
  g::FixedLeb f(leb_size_);
  Bytes r = ArbBytes(arbs, H::kInsertionHookBeforeDescriptors);
  auto add = [&](const Bytes& b) { g::Stream::Add(r, b); };
  add(g::Obu{.type = g::kSeq, .payload = {'i', 'a', 'm', 'f', static_cast<uint8_t>(s.primary), static_cast<uint8_t>(s.additional)}}.Write(0));
  add(ArbBytes(arbs, H::kInsertionHookAfterIaSequenceHeader));
  std::map<uint32_t, Bytes> codecs, elements;
  for (auto& x : s.codecs) codecs[x.id] = x.Write(0).Write(0);
  for (auto& x : s.elements) elements[x.id] = x.Write(0).Write(0);
  for (auto& [id, b] : codecs) add(b);
  add(ArbBytes(arbs, H::kInsertionHookAfterCodecConfigs));
  for (auto& [id, b] : elements) add(b);
  add(ArbBytes(arbs, H::kInsertionHookAfterAudioElements));
  for (auto& x : s.mixes) add(x.Write(0).Write(0));
  add(ArbBytes(arbs, H::kInsertionHookAfterMixPresentations));
  add(ArbBytes(arbs, H::kInsertionHookAfterDescriptors));
  return r;
}

// Gives every unit its trims, its arbitrary OBUs, and the bytes it stands for.
void Session::MakeUnits() {
  const uint32_t spf = s_.codecs[0].spf;
  const bool own_trims = c_.Pick(3) == 0;
  const size_t silent = own_trims ? 0 : c_.Pick(units_.size() + 2);
  for (size_t t = 0; t < units_.size(); ++t) {
    Unit& u = units_[t];
    std::vector<const g::Frame*> frames;
    std::vector<const g::Block*> blocks;
    for (auto& p : s_.pieces) {
      if (p.tu != static_cast<int>(t)) continue;
      if (p.what == g::Piece::kAudio) frames.push_back(&s_.frames[p.index]);
      if (p.what == g::Piece::kBlock) blocks.push_back(&s_.blocks[p.index]);
    }
    c_.Check(frames.size() == u.frames.size() && blocks.size() == u.blocks.size(), "stream-is-read", Fmt("unit %zu: %zu of %zu frames, %zu of %zu blocks", t, u.frames.size(), frames.size(), u.blocks.size(), blocks.size()));
    if (own_trims) {
      u.start = frames[0]->trim_start;
      u.end = frames[0]->trim_end;
    } else {
      if (t < silent) u.start = spf;
      else if (t == silent && c_.Pick(2)) u.start = c_.Pick(spf);
      else if (c_.Pick(24) == 23) u.start = 1 + c_.Pick(spf);  // too late
      if (c_.Pick(5) == 4) u.end = c_.Pick(spf - u.start + 1);
      for (auto& f : u.frames) { f.obu.header_.num_samples_to_trim_at_start = u.start; f.obu.header_.num_samples_to_trim_at_end = u.end; f.obu.header_.type_specific_flag = u.start || u.end; }
    }
    u.arb_models = DrawArbs(false, true);
    u.arbs = Make(u.arb_models, u.ts);
    for (auto& a : u.arb_models) { u.invalid |= a.invalid; u.key |= a.type == g::kDelim && !a.flag; }
    std::sort(blocks.begin(), blocks.end(), [](auto* a, auto* b) { return a->def->id < b->def->id; });
    std::sort(frames.begin(), frames.end(), [](auto* a, auto* b) { return std::pair(a->element->id, a->substream) < std::pair(b->element->id, b->substream); });
    g::FixedLeb fl(leb_size_);
    if (td_) g::Stream::Add(u.bytes, g::Obu{.type = g::kDelim}.Write(0));
    g::Stream::Add(u.bytes, ArbBytes(u.arb_models, it::ArbitraryObu::kInsertionHookBeforeParameterBlocksAtTick));
    for (auto* b : blocks) g::Stream::Add(u.bytes, b->Write(0).Write(0));
    g::Stream::Add(u.bytes, ArbBytes(u.arb_models, it::ArbitraryObu::kInsertionHookAfterParameterBlocksAtTick));
    for (auto* f : frames) {
      g::Obu o = f->Write(0, false);
      o.trim_start = u.start;
      o.trim_end = u.end;
      o.flag = u.start || u.end;
      g::Stream::Add(u.bytes, o.Write(0));
    }
    g::Stream::Add(u.bytes, ArbBytes(u.arb_models, it::ArbitraryObu::kInsertionHookAfterAudioFramesAtTick));
  }
}

// The judge of one call. `must_fail`: the call is illegal or the data is.
void Session::Judge(const absl::Status& s, const char* what, bool must_fail, bool aborts) {
  const bool fault = fired_ || (rec_ && rec_->fired);
  c_.Log("%s: %s%s%s", what, s.ok() ? "ok" : std::string(s.message()).c_str(), must_fail ? " (must fail)" : "", fault ? " (fault)" : "");
  trace_ += s.ok() ? what[0] : 'x';
  c_.Note(what, s.ok());
  if (s.ok()) {
    c_.Check(!must_fail, "illegal-calls-are-refused", Fmt("%s was accepted", what));
    c_.Check(!(rec_ && rec_->fired), "failures-are-reported", Fmt("%s hid that the storage refused", what));
    return;
  }
  c_.Check(must_fail || fault || bad_path_, "legal-calls-succeed", Fmt("%s: %s", what, std::string(s.message()).c_str()));
  c_.Count(must_fail ? "illegal_calls_refused" : "faults_reported");
  if (aborts) { state_ = kClosed; aborted_ = true; }
  if (rec_) {
    // Whatever happened, nothing is stored after the refusal but the abort.
    if (aborts) c_.Check(!rec_->calls.empty() && rec_->calls.back().what == 'A', "failed-calls-abort", Fmt("%s failed and did not abort: %s", what, Str(rec_->calls).c_str()));
  }
}

void Session::Push() {
  auto arbs = DrawArbs(true, true);
  if (state_ == kNew) desc_arbs_ = arbs;
  bool bad = state_ != kNew || !uniform_;
  for (auto& a : arbs) bad |= a.invalid;
  fired_ = false;
  if (state_ == kNew) desc_ = DescriptorBytes(s_, arbs);
  const bool was_closed = state_ == kClosed;
  if (!bad) {
    state_ = kPushed;
    final_ = desc_;
    if (!delay_) StoreDescriptors(kNone);
  }
  const auto st = q_->PushDescriptorObus(p_->GetIaSequenceHeaderView(), {}, p_->GetCodecConfigsByIdView(), p_->GetAudioElementsView(), p_->GetMixPresentationObusView(), Make(arbs, std::nullopt));
  if (!bad && !st.ok() && wide_ && !fired_ && !(rec_ && rec_->fired)) {
    // A mix that no profile of the header allows.
    bad = true;
    if (!delay_) { want_.pop_back(); stored_ = false; }
    c_.Count("refused_by_profile");
  }
  Judge(st, "Push descriptors", bad, true);
  if (!st.ok() && !was_closed) ok_close_ = false;
}

void Session::PushUnit(size_t i) {
  if (!uniform_) return;  // frames of different lengths make no unit
  Unit& u = units_[i];
  const uint32_t spf = s_.codecs[0].spf;
  fired_ = false;
  // Units that do not belong together are refused before anything is written.
  if (c_.Pick(5) == 4) {
    auto frames = u.frames;
    std::list<it::ParameterBlockWithData> blocks;
    auto arbs = Make(u.arb_models, u.ts);
    bool broken = true;
    const char* how = "";
    switch (c_.Pick(5)) {
      case 0: how = "a substream twice"; frames.push_back(frames.front()); break;
      case 1:
        how = "different trims";
        if (frames.size() < 2) { broken = false; break; }
        if (c_.Pick(2)) frames.back().obu.header_.num_samples_to_trim_at_start ^= 1; else frames.back().obu.header_.num_samples_to_trim_at_end ^= 1;
        break;
      case 2:
        how = "different times";
        if (frames.size() < 2) { broken = false; break; }
        if (c_.Pick(2)) frames.back().start_timestamp += spf; else frames.back().end_timestamp += 1;
        break;
      case 3:
        how = "more trimmed than there is";
        for (auto& f : frames) {
          auto& h = f.obu.header_;
          if (i % 2) { h.num_samples_to_trim_at_start = 0xffffffffu - u.start; h.num_samples_to_trim_at_end = u.start + 1; }
          else { h.num_samples_to_trim_at_start = spf; h.num_samples_to_trim_at_end = 1; }
        }
        break;
      default: {
        how = "an arbitrary OBU from elsewhere";
        it::ObuHeader h;
        std::optional<it::InternalTimestamp> t;
        if (c_.Pick(2)) t = u.ts + 1;
        arbs.emplace_back(it::kObuIaReserved25, h, absl::Span<const uint8_t>(), it::ArbitraryObu::kInsertionHookAfterAudioFramesAtTick, t);
      }
    }
    if (broken) {
      const auto v = it::TemporalUnitView::Create(blocks, frames, arbs);
      c_.Check(!v.ok(), "inconsistent-units-are-refused", how);
      c_.Count("inconsistent_units");
    }
  }
  if (!u.blocks.empty() && c_.Pick(8) == 7) {
    std::vector<const it::ParameterBlockWithData*> b;
    std::vector<const it::AudioFrameWithData*> f;
    for (auto& x : u.blocks) b.push_back(&x);
    for (auto& x : u.frames) f.push_back(&x);
    const bool twice = c_.Pick(2);
    auto& x = u.blocks.front();
    if (twice) b.push_back(b.front()); else x.end_timestamp += 1;
    const auto v = it::TemporalUnitView::CreateFromPointers(b, f, {});
    c_.Check(!v.ok(), "inconsistent-units-are-refused", twice ? "a parameter block twice" : "a parameter block of other times");
    if (!twice) x.end_timestamp -= 1;
    c_.Count("inconsistent_units");
  }
  // Any order of what is in the unit.
  std::vector<const it::ParameterBlockWithData*> b;
  std::vector<const it::AudioFrameWithData*> f;
  std::vector<const it::ArbitraryObu*> a;
  for (auto& x : u.blocks) b.push_back(&x);
  for (auto& x : u.frames) f.push_back(&x);
  for (auto& x : u.arbs) a.push_back(&x);
  if (c_.Pick(2)) {
    for (size_t k = f.size(); k > 1; --k) std::swap(f[k - 1], f[c_.Pick(k)]);
    for (size_t k = b.size(); k > 1; --k) std::swap(b[k - 1], b[c_.Pick(k)]);
  }
  const auto v = it::TemporalUnitView::CreateFromPointers(b, f, a);
  c_.Check(v.ok(), "consistent-units-are-accepted", std::string(v.status().message()));
  const uint32_t n = spf - u.start - u.end;
  c_.Check(v->num_untrimmed_samples_ == n && v->num_samples_to_trim_at_start_ == u.start && v->start_timestamp_ == u.ts, "unit-statistics", Fmt("%u untrimmed of %u expected", v->num_untrimmed_samples_, n));
  const bool late = sounded_ && u.start > 0;
  const bool bad = state_ != kPushed || u.invalid || late;
  if (!bad) {
    const Call k{'U', {u.ts, n, u.key}, u.bytes};
    const bool first = !sounded_ && n != 0;
    sounded_ |= first;
    if (delay_ && !stored_ && !first) {
      waiting_.push_back(k);
    } else {
      if (delay_ && !stored_) StoreDescriptors(u.ts + u.start);
      for (auto& w : waiting_) Store(w);
      waiting_.clear();
      Store(k);
    }
    last_unit_ = u.bytes;
    c_.NoteBytes("unit", u.bytes.data(), u.bytes.size());
    g::Stream::Add(data_, u.bytes);
  }
  const auto st = q_->PushTemporalUnit(*v);
  Judge(st, "Unit", bad, true);
  if (late && state_ != kClosed) c_.Count("late_trims");
}

void Session::Update() {
  fired_ = false;
  g::Stream t;  // what the new descriptors say
  t.primary = s_.primary;
  t.additional = s_.additional;
  t.codecs = s_.codecs;
  t.elements = s_.elements;
  t.mixes = s_.mixes;
  auto mixes = p_->GetMixPresentationObusView();
  auto header = p_->GetIaSequenceHeaderView();
  auto arbs = desc_arbs_;
  bool bad = state_ != kPushed;
  std::unique_ptr<it::MemoryBasedReadBitBuffer> rb;
  std::unique_ptr<it::ObuProcessor> other;
  const int how = c_.Weighted({2, 5, 1, 2, 1, 2});
  switch (how) {
    case 1:
    case 2: {
      auto m = mixes.begin();
      for (size_t i = 0; i < t.mixes.size(); ++i, ++m) {
        if (how == 2 && i == 0) continue;
        for (size_t k = 0; k < t.mixes[i].subs.size(); ++k)
          for (size_t l = 0; l < t.mixes[i].subs[k].layouts.size(); ++l) {
            if (c_.Pick(3) == 2) continue;
            auto& x = t.mixes[i].subs[k].layouts[l].loud;
            auto& y = m->sub_mixes_[k].layouts[l].loudness;
            x.integrated = y.integrated_loudness = static_cast<int16_t>(c_.Bits());
            x.peak = y.digital_peak = static_cast<int16_t>(c_.Bits());
          }
      }
      break;
    }
    case 3:
      if (!arbs.empty() && c_.Pick(2)) { arbs.erase(arbs.begin() + c_.Pick(arbs.size())); break; }
      arbs.push_back({g::kReserved25 + 1, static_cast<int>(c_.Pick(6)), g::DrawBytes(c_, c_.Pick(4)), false, false}); break;
    case 4: arbs.push_back({g::kReserved25 + 1, static_cast<int>(c_.Pick(6)), {}, false, true}); bad = true; break;
    case 5:
      // Another frame size or another rate in the Codec Configs.
      for (auto& k : t.codecs) {
        if (k.kind != g::kLpcm) continue;
        if (c_.Pick(2)) k.spf ^= 1, k.spf += k.spf == 0 ? 2 : 0;
        else k.rate = k.rate == 16000 ? 32000 : 16000;
      }
      break;
  }
  if (how == 5) {
    Bytes b;
    {
      g::Stream u = t;
      b = DescriptorBytes(u, {});
    }
    rb = it::MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(b));
    bool insufficient = false;
    other = it::ObuProcessor::Create(true, rb.get(), insufficient);
    if (!other) { c_.Count("altered_codec_refused"); return; }
    std::set<uint32_t> spf, rate;
    for (auto& k : t.codecs) { spf.insert(k.spf); rate.insert(k.kind == g::kOpus ? 48000 : k.rate); }
    if (*spf.begin() != spf_ || *rate.begin() != rate_ || spf.size() > 1 || rate.size() > 1) bad = true;
  }
  for (auto& a : arbs) bad |= a.invalid;
  const Bytes now = DescriptorBytes(t, arbs);
  if (now.size() != desc_.size()) bad = true;
  if (!bad) {
    state_ = kClosed;
    final_ = now;
    if (!stored_) StoreDescriptors(0);
    for (auto& w : waiting_) Store(w);
    waiting_.clear();
    if (now != desc_) Store({'F', {}, now});
    Store({'C', {}, {}});
    ok_close_ = true;
  }
  const auto st = q_->UpdateDescriptorObusAndClose(header, {}, other ? other->GetCodecConfigsByIdView() : p_->GetCodecConfigsByIdView(), p_->GetAudioElementsView(), mixes, Make(arbs, std::nullopt));
  c_.Log("update %d", how);
  if (!st.ok() && !bad) ok_close_ = false;
  Judge(st, "Finalize", bad, true);
  if (st.ok() && now != desc_) c_.Count("descriptors_rewritten");
}

void Session::Close() {
  fired_ = false;
  const bool bad = state_ == kClosed;
  if (!bad) {
    if (state_ == kPushed && !stored_) StoreDescriptors(0);
    for (auto& w : waiting_) Store(w);
    waiting_.clear();
    Store({'C', {}, {}});
    state_ = kClosed;
    ok_close_ = true;
  }
  const auto st = q_->Close();
  Judge(st, "Close", bad, false);
  if (!st.ok() && !bad) { ok_close_ = false; Abort(); }
}

void Session::Abort() {
  fired_ = false;
  q_->Abort();
  trace_ += 'A';
  c_.Log("Abort");
  if (rec_) c_.Check(!rec_->calls.empty() && rec_->calls.back().what == 'A', "abort-reaches-the-storage", Str(rec_->calls));
  if (!ok_close_) aborted_ = true;
  state_ = kClosed;
}

void Session::CheckOutput() {
  if (rec_) {
    std::vector<Call> got;
    for (auto& k : rec_->calls) if (k.what != 'A') got.push_back(k);
    if (rec_->fired) {
      c_.Check(got.size() <= want_.size(), "nothing-is-stored-after-a-refusal", Str(rec_->calls));
      for (size_t i = 0; i < got.size(); ++i) c_.Check(got[i] == want_[i], "stored-in-order", Fmt("call %zu was %s instead of %s", i, Str(got[i]).c_str(), Str(want_[i]).c_str()));
      // Nothing follows the refused call but aborts.
      bool seen = false;
      for (auto& k : rec_->calls) { if (k.what == 'A') seen = true; else c_.Check(!seen, "nothing-is-stored-after-a-refusal", Str(rec_->calls)); }
    } else {
      c_.Check(got == want_, "stored-in-order", "stored " + Str(got) + "instead of " + Str(want_));
    }
    return;
  }
  if (str_) {
    if (aborted_) {
      c_.Check(str_->GetSerializedDescriptorObus().empty() && str_->GetPreviousSerializedTemporalUnit().empty(), "nothing-streamed-after-abort", "data is left");
    } else if (state_ == kPushed) {
      auto d = str_->GetSerializedDescriptorObus(), u = str_->GetPreviousSerializedTemporalUnit();
      c_.Check(Bytes(d.begin(), d.end()) == desc_, "streamed-descriptors", "differ");
      c_.Check(Bytes(u.begin(), u.end()) == last_unit_, "streamed-unit", "differs");
    } else if (ok_close_ && stored_) {
      auto d = str_->GetSerializedDescriptorObus();
      if (trace_.back() != 'x' && trace_.back() != 'A') c_.Check(Bytes(d.begin(), d.end()) == final_, "streamed-descriptors", "differ from the final ones");
    }
    return;
  }
  if (path_.empty() || bad_path_) return;
  disk_ok_ = true;
  std::error_code ec;
  const bool there = std::filesystem::exists(path_, ec);
  if (ok_close_ && stored_) {
    std::ifstream f(path_, std::ios::binary);
    const Bytes got(std::istreambuf_iterator<char>(f), {});
    Bytes want = final_;
    g::Stream::Add(want, data_);
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    c_.Check(there && got == want, "file-is-complete", Fmt("%zu bytes instead of %zu, alike up to %zu", got.size(), want.size(), i));
    c_.Count("files_complete");
  } else if (aborted_ && stored_ && !remove_failed_) {
    c_.Check(!there, "no-file-after-abort", "the file is still there");
    c_.Count("files_removed");
  }
  disk_ok_ = false;
}

void Session::Run() {
  leb_size_ = c_.Pick(5) == 4 ? 5 + c_.Pick(4) : 0;
  if (!Load()) { c_.Count("unsupported_streams"); return; }
  if (leb_size_) leb_ = it::LebGenerator::Create(it::LebGenerator::GenerationMode::kFixedSize, leb_size_);
  td_ = c_.Pick(2);
  kind_ = c_.Weighted({3, 1, 4});
  delay_ = kind_ == 2 && c_.Pick(3) != 0;
  MakeUnits();
  // The common numbers.
  std::set<int64_t> spf, rate, depth;
  for (auto& k : s_.codecs) {
    spf.insert(k.spf);
    rate.insert(k.kind == g::kOpus ? 48000 : k.rate);
    depth.insert(k.kind == g::kOpus ? 32 : k.kind == g::kAac ? 16 : k.bits);
  }
  uniform_ = spf.size() <= 1 && rate.size() <= 1;
  if (uniform_) { spf_ = *spf.begin(); rate_ = *rate.begin(); depth_ = depth.size() == 1 ? *depth.begin() : 16; }
  std::unique_ptr<it::ObuSequencerBase> q;
  if (kind_ == 0) {
    const int where = c_.Weighted({8, 4, 1, 1});
    path_ = ScratchDir() + "/out.iamf";
    if (where == 1) { std::ofstream o(path_, std::ios::binary); o << std::string(1 + c_.Pick(200000), 'x'); }
    if (where == 2) { path_ = ScratchDir() + "/none/out.iamf"; bad_path_ = true; c_.Fault("no_such_directory"); }
    if (where == 3) path_.clear();
    q = std::make_unique<it::ObuSequencerIamf>(path_, td_, *leb_);
  } else if (kind_ == 1) {
    auto x = std::make_unique<it::ObuSequencerStreamingIamf>(td_, *leb_);
    str_ = x.get();
    q = std::move(x);
  } else {
    if (c_.Pick(3) == 2) fail_at_ = c_.Pick(units_.size() + 3);
    auto x = std::make_unique<Recorder>(*leb_, td_, delay_, c_, fail_at_);
    rec_ = x.get();
    q = std::move(x);
  }
  q_ = q.get();
  c_.Log("kind %d delay %d td %d leb %d units %zu uniform %d", kind_, delay_, td_, leb_size_, units_.size(), uniform_);

  static const IoOp kOps[] = {IoOp::kOpen, IoOp::kWrite, IoOp::kClose, IoOp::kSeek, IoOp::kRemove};
  int op = kind_ == 0 && c_.Pick(2) ? c_.Weighted({1, 5, 1, 3, 1}) : -1, skip = op == 1 ? c_.Pick(units_.size() + 3) : op == 3 ? c_.Pick(3) : 0;
  const int err = c_.OneOf<int>({28, 5, 13, 122});
  const bool lasting = c_.Pick(2), torn = c_.Pick(3) == 2;
  disk_ok_ = false;
  IoFaults io([&](IoOp o, size_t len) {
    IoDecision d;
    if (disk_ok_) return d;
    if (o == IoOp::kWrite && len > 1 && c_.Pick(8) == 7) { d.allow = 1 + c_.Pick(len - 1); c_.Fault("short_write"); }
    if (op < 0 || o != kOps[op]) return d;
    if (skip-- > 0) return d;
    skip = lasting ? 0 : 1 << 30;
    if (torn && o == IoOp::kWrite && len > 1) { d.allow = c_.Pick(len); skip = 0; if (d.allow) return d; }
    d.err = err;
    fired_ = true;
    remove_failed_ |= o == IoOp::kRemove;
    static const char* const kNames[] = {"open_fails", "write_fails", "close_fails", "seek_fails", "remove_fails"};
    c_.Fault(kNames[op]);
    c_.Log("%s: %d", kNames[op], err);
    return d;
  });

  // Mostly the documented order; sometimes a call out of place.
  const bool chaos = c_.Pick(3) == 2;
  int phase = 0;
  for (int step = 0; step < 24 && phase < 4; ++step) {
    if (chaos && c_.Pick(5) == 4) {
      switch (c_.Pick(5)) {
        case 0: Push(); break;
        case 1: if (!units_.empty()) PushUnit(c_.Pick(units_.size())); break;
        case 2: Update(); break;
        case 3: Close(); break;
        default: Abort(); break;
      }
    } else if (phase == 0) {
      Push();
      phase = 1;
    } else if (phase == 1) {
      if (pos_ < units_.size()) PushUnit(pos_++);
      else phase = 2;
    } else if (phase == 2) {
      const int e = c_.Weighted({4, 3, 1, 1});
      if (e == 0) Update();
      if (e == 1) Close();
      if (e == 2) Abort();
      phase = state_ == kClosed && c_.Pick(3) != 2 ? 4 : 3;  // perhaps once more
    } else {
      phase = 4;
      switch (c_.Pick(4)) {
        case 0: if (!units_.empty()) PushUnit(c_.Pick(units_.size())); break;
        case 1: Update(); break;
        case 2: Close(); break;
        default: Push(); break;
      }
    }
    if (rec_ == nullptr) CheckOutput();
    if (state_ == kClosed && phase < 3) phase = 3;
  }
  CheckOutput();
  c_.NoteBytes("descriptors", desc_.data(), desc_.size());
  c_.nontrivial = stored_;
  c_.Count("calls", trace_.size());
  c_.Count("units", units_.size());
  c_.State(Ctx::Mix(HashBytes(trace_.data(), trace_.size()) ^ (kind_ * 8 + delay_ * 4 + td_ * 2 + (fail_at_ >= 0 || op >= 0))));
  disk_ok_ = true;
}

void Run(Ctx& c) { Session(c).Run(); }

DST_PROPERTY(S01)({"S01", "", Run, 30000, 1500000, "descriptors reached the storage",
                   {"iamf/cli/obu_sequencer_base.cc", "iamf/cli/obu_sequencer_iamf.cc", "iamf/cli/obu_sequencer_streaming_iamf.cc", "iamf/cli/temporal_unit_view.cc", "iamf/cli/obu_processor.cc (reading)", "iamf/obu", "iamf/common", "libstdc++ streams and std::filesystem"},
                   {"file system calls (fault-injecting)", "storage behind the base class in two of three kinds of runs (recording stub)", "Abseil hash order (salted)"}});
}  // namespace
}  // namespace dst
