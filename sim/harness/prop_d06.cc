// D06: decoders and encoders that live in one process do not know of each other.
// Every instance executes a fixed list of calls, once alone and once beside the
// others under the controlled scheduler; what its caller sees has to be equal.
#include <cstring>
#include <fstream>

#include "decode_common.h"
#include "enc_check.h"
#include "iamf/include/iamf_tools/iamf_encoder_factory.h"
#include "iamf/include/iamf_tools/iamf_encoder_interface.h"
#include "iamf/include/iamf_tools/iamf_tools_encoder_api_types.h"
#include "sim_tp.h"

namespace dst {
namespace {
namespace g = dst::gen;
namespace api = ::iamf_tools::api;
using g::Bytes;

// Codec calls of the instance whose call is executed by this thread.
struct Faults { int calls = 0, at = -1; };
thread_local Faults* t_faults = nullptr;

struct Seen {
  std::string what;
  Bytes bytes;
  bool operator==(const Seen&) const = default;
};

// A sequence of calls to one instance.
struct Instance {
  std::vector<std::function<void(Instance&)>> ops;
  int fault_at = -1;      // this codec call of the instance fails
  // While executed:
  std::string path;
  dec::Decoder d;
  std::unique_ptr<api::IamfEncoderInterface> e;
  Bytes out;              // buffer the encoder's caller reuses
  std::vector<Seen> seen;
  size_t next = 0;
  Faults faults;

  void Start(const std::string& where) {
    path = where;
    d.reset();
    e.reset();
    out.clear();
    seen.clear();
    next = 0;
    faults = {0, fault_at};
  }
  void Step() {
    t_faults = &faults;
    ops[next++](*this);
    t_faults = nullptr;
  }
  void See(std::string what, Bytes b = {}) { seen.push_back({std::move(what), std::move(b)}); }
};

// --------------------------------------------------------------- decoders --
void Feed(Instance& i, const Bytes& b) {
  if (!i.d) return;
  Bytes copy(b);
  copy.shrink_to_fit();
  const bool ok = i.d->Decode(copy.data(), copy.size()).ok();
  std::fill(copy.begin(), copy.end(), 0xa5);
  i.See(Fmt("decode %d", ok));
}
bool Get(Instance& i) {
  int ch = 0;
  uint32_t fs = 0;
  size_t size = 1 << 16;
  if (i.d->GetNumberOfOutputChannels(ch).ok() && i.d->GetFrameSize(fs).ok())
    size = size_t{fs} * ch * (i.d->GetOutputSampleType() == api::OutputSampleType::kInt16LittleEndian ? 2 : 4);
  Bytes buf(size);
  size_t n = 12345;
  const bool ok = i.d->GetOutputTemporalUnit(buf.data(), buf.size(), n).ok();
  if (n > buf.size()) n = 0;
  buf.resize(n);
  i.See(Fmt("get %d", ok), buf);
  return n != 0;
}
void Drain(Instance& i) {
  for (int k = 0; i.d && i.d->IsTemporalUnitAvailable() && k < 1000; ++k)
    if (!Get(i)) break;
}
void Ask(Instance& i) { if (i.d) i.See(dec::Query(*i.d).Str()); }

void DrawDecoder(Ctx& c, const g::Stream& s, Instance& i) {
  const auto set = std::make_shared<dec::Settings>(dec::DrawSettings(c, s));
  const bool from = c.Pick(3) == 2;
  auto chunks = from ? dec::DrawUnitChunks(c, s) : dec::DrawChunks(c, s);
  if (chunks.size() > 60) {  // byte by byte: the rest at once
    for (size_t k = 60; k < chunks.size(); ++k) g::Stream::Add(chunks[59], chunks[k]);
    chunks.resize(60);
  }
  const auto desc = std::make_shared<Bytes>(s.Descriptors());
  if (c.Pick(4) == 3) {
    c.Fault("damaged_stream");
    for (uint32_t n = 1 + c.Pick(3); n; --n) {
      Bytes& b = from && c.Pick(4) == 3 ? *desc : chunks.empty() ? *desc : chunks[c.Pick(chunks.size())];
      if (!b.empty()) b[c.Pick(b.size())] ^= 1 + c.Pick(255);
    }
  }
  i.ops.push_back([set, desc, from](Instance& x) {
    Bytes copy(*desc);
    copy.shrink_to_fit();
    x.d = from ? api::IamfDecoderFactory::CreateFromDescriptors(*set, copy.data(), copy.size()) : api::IamfDecoderFactory::Create(*set);
    x.See(Fmt("create %d", x.d != nullptr));
  });
  const int policy = c.Pick(3);
  for (auto& b : chunks) {
    i.ops.push_back([b](Instance& x) { Feed(x, b); });
    if (policy == 1) i.ops.push_back(Drain);
    if (policy == 2) {
      switch (c.Pick(4)) {
        case 1: i.ops.push_back([](Instance& x) { if (x.d) Get(x); }); break;
        case 2: i.ops.push_back(Drain); break;
        case 3: i.ops.push_back(Ask); break;
        default: break;
      }
    }
    if (c.Pick(24) == 23 && !from) {
      i.ops.push_back([](Instance& x) { if (x.d) x.See(Fmt("reset %d", x.d->Reset().ok())); });
      i.ops.push_back([all = s.All()](Instance& x) { Feed(x, all); });
    }
  }
  i.ops.push_back([](Instance& x) { if (x.d) x.See(Fmt("end %d", x.d->SignalEndOfDecoding().ok())); });
  i.ops.push_back(Drain);
  i.ops.push_back(Ask);
  i.ops.push_back([](Instance& x) { x.d.reset(); });
}

// --------------------------------------------------------------- encoders --
void Descriptors(Instance& x) {
  if (!x.e) return;
  Bytes b;
  bool fin = false;
  const bool ok = x.e->GetDescriptorObus(false, b, fin).ok();
  x.See(Fmt("descriptors %d %d", ok, fin), ok ? enc::Canonical(b) : Bytes());
}
void Output(Instance& x) {
  if (!x.e) return;
  const bool ok = x.e->OutputTemporalUnit(x.out).ok();
  x.See(Fmt("output %d", ok), ok ? x.out : Bytes());
  x.See(Fmt("generating %d", x.e->GeneratingTemporalUnits()));
}
void DrawEncoder(Ctx& c, const std::shared_ptr<enc::Plan>& p, Instance& i) {
  const bool file = c.Pick(3) == 2;
  i.ops.push_back([p, file](Instance& x) {
    std::string md;
    p->md.SerializeToString(&md);
    auto r = file ? api::IamfEncoderFactory::CreateFileGeneratingIamfEncoder(md, x.path) : api::IamfEncoderFactory::CreateIamfEncoder(md);
    x.See(Fmt("create %d", r.ok()));
    if (r.ok()) x.e = std::move(*r);
  });
  if (c.Pick(2)) i.ops.push_back(Descriptors);
  const uint32_t spf = p->s.codecs[0].spf;
  for (uint32_t t = 0; t < p->frames; ++t) {
    const uint64_t from = uint64_t{t} * spf;
    const uint32_t n = from < p->n ? std::min<uint64_t>(spf, p->n - from) : 0;
    const bool last = from < p->n && from + n == p->n, mute = p->n == 0;
    i.ops.push_back([p, t, from, n, spf](Instance& x) {
      if (!x.e) return;
      api::IamfTemporalUnitData d;
      for (int b : p->blocks[t])
        d.parameter_block_id_to_metadata[p->s.blocks[b].def->id] = enc::BlockMetadata(p->s.blocks[b], int64_t{t} * spf).SerializeAsString();
      std::vector<std::vector<double>> hold;
      hold.reserve(64 * p->inputs.size());
      if (n)
        for (size_t k = 0; k < p->inputs.size(); ++k)
          for (auto& l : p->labels[k].inputs) {
            auto& v = p->inputs[k].at(l);
            hold.emplace_back(v.begin() + from, v.begin() + from + n);
            d.audio_element_id_to_data[p->s.elements[k].id][enc::LabelKey(l)] = absl::MakeConstSpan(hold.back());
          }
      x.See(Fmt("encode %d", x.e->Encode(d).ok()));
      for (auto& v : hold) std::fill(v.begin(), v.end(), 0.77);
    });
    if (last || (mute && t == 0)) i.ops.push_back([](Instance& x) { if (x.e) x.See(Fmt("finalize %d", x.e->FinalizeEncode().ok())); });
    i.ops.push_back(Output);
    if (c.Pick(8) == 7) i.ops.push_back(Descriptors);
  }
  for (int k = 0; k < 2; ++k) i.ops.push_back([](Instance& x) { if (x.e && x.e->GeneratingTemporalUnits()) Output(x); });
  i.ops.push_back(Descriptors);
  i.ops.push_back([](Instance& x) { x.e.reset(); });
  if (file) i.ops.push_back([](Instance& x) { x.See("file", enc::Canonical(enc::ReadFile(x.path))); });
}

void Run(Ctx& c) {
  const int n = 2 + c.Weighted({4, 2, 1});
  std::vector<std::shared_ptr<g::Stream>> streams;
  std::vector<std::shared_ptr<enc::Plan>> plans;
  std::vector<Instance> all(n);
  std::string kinds;
  for (auto& i : all) {
    if (c.Weighted({3, 2}) == 0) {
      kinds += 'd';
      if (streams.empty() || c.Pick(3)) {
        streams.push_back(std::make_shared<g::Stream>());
        g::Generator(c, {.decodable = true, .lossless = c.Pick(2) == 1, .junk = c.Pick(4) == 3, .max_tus = 4, .max_spf = 64}).Run(*streams.back());
        c.Log("%s", dec::Describe(*streams.back()).c_str());
      }
      DrawDecoder(c, *c.OneOf(streams), i);
    } else {
      kinds += 'e';
      if (plans.empty() || c.Pick(3)) {
        plans.push_back(std::make_shared<enc::Plan>());
        enc::DrawPlan(c, {.max_frames = 4}, *plans.back());
        c.Log("%s", dec::Describe(plans.back()->s).c_str());
      }
      DrawEncoder(c, c.OneOf(plans), i);
    }
    if (c.Pick(5) == 4) i.fault_at = c.Pick(40);
  }
  CodecFaults codec([](int) {
    if (!t_faults) return false;
    return t_faults->calls++ == t_faults->at;
  });
  IoFaults io([&](IoOp op, size_t len) {
    IoDecision d;
    if (op == IoOp::kWrite && len > 1 && InTask() && c.Pick(24) == 23) { d.allow = 1 + c.Pick(len - 1); c.Fault("short_write"); }
    return d;
  });
  SetStepBudget(3000000000ull);
  std::vector<std::vector<Seen>> alone(n);
  auto solo = [&] {
    for (int k = 0; k < n; ++k) {
      all[k].Start(ScratchDir() + Fmt("/s%d.iamf", k));
      while (all[k].next < all[k].ops.size()) all[k].Step();
      alone[k] = all[k].seen;
      if (all[k].faults.at >= 0 && all[k].faults.calls > all[k].faults.at) c.Fault("codec_call_fails");
    }
  };
  const bool cold = c.Pick(2) == 1;  // the first use of anything happens concurrently
  if (!cold) solo();
  // The instances may move to another thread between two calls.
  std::vector<size_t> split(n);
  bool moves = false;
  for (int k = 0; k < n; ++k) {
    split[k] = c.Pick(3) == 2 ? c.Pick(all[k].ops.size() + 1) : all[k].ops.size();
    moves |= split[k] < all[k].ops.size();
    all[k].Start(ScratchDir() + Fmt("/c%d.iamf", k));
  }
  uint64_t calls = 0;
  auto tasks = [&](bool second) {
    std::vector<std::function<void()>> t;
    for (int j = 0; j < n; ++j) {
      const int k = second ? n - 1 - j : j;
      t.push_back([&, k, second] {
        while (all[k].next < (second ? all[k].ops.size() : split[k])) {
          c.Note("call", k, all[k].next);
          all[k].Step();
          ++calls;
          TaskYield();
        }
      });
    }
    RunTasks(c, t, "deadlock");
  };
  tasks(false);
  if (moves) { c.Fault("instance_moves_to_another_thread"); tasks(true); }
  std::vector<std::vector<Seen>> together(n);
  for (int k = 0; k < n; ++k) together[k] = all[k].seen;
  if (cold) solo();
  for (int k = 0; k < n; ++k) {
    const auto &a = alone[k], &b = together[k];
    for (size_t x = 0; x < std::max(a.size(), b.size()); ++x) {
      if (x < a.size() && x < b.size() && a[x] == b[x]) continue;
      auto str = [&](const std::vector<Seen>& v) { return x < v.size() ? v[x].what + Fmt(" (%zu bytes)", v[x].bytes.size()) : std::string("nothing"); };
      size_t at = 0;
      if (x < a.size() && x < b.size()) while (at < a[x].bytes.size() && at < b[x].bytes.size() && a[x].bytes[at] == b[x].bytes[at]) ++at;
      c.Fail("same-as-alone", Fmt("%s %d of %d (%s), observation %zu: %s alone, %s beside the others, first differing byte %zu", kinds[k] == 'd' ? "decoder" : "encoder", k, n, kinds.c_str(), x,
                                  str(a).c_str(), str(b).c_str(), at));
    }
    for (auto& x : a) c.NoteBytes(x.what.c_str(), x.bytes.data(), x.bytes.size());
  }
  c.nontrivial = true;
  c.Count("instances", n);
  c.Count("concurrent_calls", calls);
  c.Count(cold ? "concurrent_first" : "alone_first");
  uint64_t h = 3;
  for (auto& s : streams) h = Ctx::Mix(h ^ dec::ShapeOf(*s));
  for (auto& p : plans) h = Ctx::Mix(h ^ dec::ShapeOf(p->s));
  c.State(Ctx::Mix(h ^ HashBytes(kinds.data(), kinds.size())));
}

DST_PROPERTY(D06)({"D06", "", Run, 5000, 400000, "instances ran beside each other and were compared with running alone",
                   {"iamf/api/decoder", "iamf/include/iamf_tools", "iamf/cli/obu_processor.cc", "iamf/cli/iamf_encoder.cc", "iamf/cli/proto_conversion", "iamf/cli/renderer", "iamf/cli/codec", "iamf/obu", "iamf/common"},
                   {"libopus, fdk-aac, libFLAC (simulated codecs)", "loudness measurement library, obr (simulated)", "threads (controlled scheduler)", "clock (simulated)"}, true, true});
}  // namespace
}  // namespace dst
