// C01: a codec decoder returns the samples of the frame it was given, or an
// error; encoders deliver every accepted frame once, in order, unchanged.
#include <cstring>
#include <deque>
#include <list>
#include <memory>
#include <optional>

#include "absl/status/status.h"
#include "core.h"
#include "sim_tp.h"
#include "iamf/cli/audio_frame_decoder.h"
#include "iamf/cli/audio_frame_with_data.h"
#include "iamf/cli/codec/aac_encoder.h"
#include "iamf/cli/codec/encoder_base.h"
#include "iamf/cli/codec/flac_encoder.h"
#include "iamf/cli/codec/lpcm_encoder.h"
#include "iamf/cli/codec/opus_encoder.h"
#include "iamf/cli/proto/codec_config.pb.h"
#include "iamf/obu/audio_frame.h"
#include "iamf/obu/codec_config.h"
#include "iamf/obu/substream_channel_count.h"
#include "include/opus.h"
#include "libAACdec/include/aacdecoder_lib.h"

namespace dst {
namespace {
using namespace iamf_tools;  // NOLINT
using Bytes = std::vector<uint8_t>;
using Pcm = std::vector<std::vector<int32_t>>;  // (channel, time), left-justified

enum Codec { kLpcm, kFlac, kOpus, kAac };
struct Config {
  Codec codec;
  uint32_t spf, rate;
  int bits;     // significant bits of a sample
  bool little;  // LPCM only
};

uint32_t Sum(const uint8_t* p, size_t n) {
  uint32_t h = 2166136261u;
  for (size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 16777619u;
  return h;
}
void Be(Bytes& b, uint32_t v, int n) { while (n--) b.push_back(v >> (8 * n)); }

Config DrawConfig(Ctx& c, Codec codec, bool other_aac = false) {
  Config k{codec, 0, 48000, 16, false};
  switch (codec) {
    case kLpcm:
      k.spf = c.Pick(5) == 4 ? 1 + c.Pick(1500) : 1 + c.Pick(12);
      k.bits = c.OneOf<int>({16, 24, 32});
      k.rate = c.OneOf<uint32_t>({48000, 16000, 32000, 44100, 96000});
      k.little = c.Pick(2);
      break;
    case kFlac:
      k.spf = 16 + (c.Pick(4) == 3 ? c.Pick(3000) : c.Pick(8));
      k.bits = c.OneOf<int>({16, 24, 32});
      k.rate = c.OneOf<uint32_t>({48000, 16000, 32000, 44100, 96000});
      break;
    case kOpus:
      k.spf = c.OneOf<uint32_t>({120, 240, 480, 960});
      break;
    case kAac:
      k.spf = 1024;
      if (other_aac && c.Pick(4) == 3) k.spf = c.Pick(2) ? 2048 : 960;
      break;
  }
  return k;
}

absl::StatusOr<CodecConfigObu> MakeObu(const Config& k, uint32_t id) {
  CodecConfig cc{.num_samples_per_frame = k.spf};
  switch (k.codec) {
    case kLpcm:
      cc.codec_id = CodecConfig::kCodecIdLpcm;
      cc.decoder_config = LpcmDecoderConfig{
          .sample_format_flags_bitmask_ = k.little ? LpcmDecoderConfig::kLpcmLittleEndian : LpcmDecoderConfig::kLpcmBigEndian,
          .sample_size_ = static_cast<uint8_t>(k.bits), .sample_rate_ = k.rate};
      break;
    case kFlac:
      cc.codec_id = CodecConfig::kCodecIdFlac;
      cc.decoder_config = FlacDecoderConfig({{{.header = {.block_type = FlacMetaBlockHeader::kFlacStreamInfo},
          .payload = FlacMetaBlockStreamInfo{.minimum_block_size = static_cast<uint16_t>(k.spf),
              .maximum_block_size = static_cast<uint16_t>(k.spf), .sample_rate = k.rate,
              .bits_per_sample = static_cast<uint8_t>(k.bits - 1), .total_samples_in_stream = 0}}}});
      break;
    case kOpus:
      cc.codec_id = CodecConfig::kCodecIdOpus;
      cc.decoder_config = OpusDecoderConfig{.version_ = 1, .pre_skip_ = 312, .input_sample_rate_ = k.rate};
      break;
    case kAac:
      cc.codec_id = CodecConfig::kCodecIdAacLc;
      cc.decoder_config = AacDecoderConfig{.decoder_specific_info_ = {.audio_specific_config = {
          .sample_frequency_index_ = AudioSpecificConfig::SampleFrequencyIndex::k48000}}};
      break;
  }
  return CodecConfigObu::Create(ObuHeader(), id, cc);
}

Pcm DrawPcm(Ctx& c, size_t ch, size_t n, int bits) {
  Pcm p(ch, std::vector<int32_t>(n));
  const uint64_t base = c.Bits();
  const int mode = c.Pick(4);
  for (size_t t = 0; t < n; ++t)
    for (size_t i = 0; i < ch; ++i) {
      uint32_t v = static_cast<uint32_t>(Ctx::Mix(base + t * 3 + i) >> 11);
      if (mode == 1) v = (v & 1) ? 0x7fffffffu : 0x80000000u;  // extremes
      if (mode == 2) v = (v & 1) ? 0xffffffffu : 0u;           // around zero
      if (bits < 32) v &= ~0u << (32 - bits);
      p[i][t] = static_cast<int32_t>(v);
    }
  return p;
}

// Coded frames, built without the repository's help.
Bytes LpcmFrame(const Config& k, const Pcm& p) {
  Bytes b;
  const int n = k.bits / 8;
  for (size_t t = 0; t < p[0].size(); ++t)
    for (const auto& ch : p)
      for (int i = 0; i < n; ++i)
        b.push_back(static_cast<uint32_t>(ch[t]) >> (k.little ? 32 - k.bits + 8 * i : 24 - 8 * i));
  return b;
}
Bytes FlacFrame(const Pcm& p, int bits, uint32_t frame) {
  Bytes b{0xff, 0xf8};
  const uint32_t n = p[0].size();
  Be(b, n, 2);
  b.push_back(p.size());
  b.push_back(bits);
  Be(b, frame, 4);
  Be(b, Sum(b.data(), b.size()) & 0xffff, 2);
  for (size_t t = 0; t < n; ++t)
    for (const auto& ch : p) Be(b, static_cast<uint32_t>(ch[t] >> (32 - bits)), (bits + 7) / 8);
  Be(b, Sum(b.data(), b.size()), 4);
  return b;
}
Bytes Packet16(uint8_t tag, const Pcm& p) {
  Bytes pay;
  for (size_t t = 0; t < p[0].size(); ++t)
    for (const auto& ch : p) Be(pay, static_cast<uint32_t>(ch[t]) >> 16, 2);
  Bytes b{tag, static_cast<uint8_t>(p.size())};
  Be(b, p[0].size(), 2);
  Be(b, Sum(pay.data(), pay.size()), 4);
  b.insert(b.end(), pay.begin(), pay.end());
  return b;
}
Bytes CodedFrame(const Config& k, const Pcm& p, uint32_t frame) {
  switch (k.codec) {
    case kLpcm: return LpcmFrame(k, p);
    case kFlac: return FlacFrame(p, k.bits, frame);
    case kOpus: return Packet16('O', p);
    case kAac: return Packet16('A', p);
  }
  return {};
}

// What a frame must decode to. The lossy codecs keep state in the library:
// the reference is a second instance of the library fed the same packets.
struct Ref {
  Config k;
  size_t ch = 0;
  ::OpusDecoder* opus = nullptr;
  AAC_DECODER_INSTANCE* aac = nullptr;
  std::vector<int16_t> fifo;
  Ref(const Config& kk, size_t c) : k(kk), ch(c) {
    if (k.codec == kOpus) opus = opus_decoder_create(48000, ch, nullptr);
    if (k.codec == kAac) {
      aac = aacDecoder_Open(TT_MP4_RAW, 1);
      UCHAR asc[2] = {static_cast<UCHAR>(2 << 3 | 3 >> 1), static_cast<UCHAR>((3 & 1) << 7 | ch << 3)};
      UCHAR* conf[] = {asc};
      const UINT len[] = {2};
      aacDecoder_ConfigRaw(aac, conf, len);
    }
  }
  Ref(const Ref&) = delete;
  ~Ref() {
    if (opus) opus_decoder_destroy(opus);
    if (aac) aacDecoder_Close(aac);
  }
  // nullopt: the frame cannot be decoded.
  std::optional<std::vector<std::vector<double>>> Decode(const Bytes& f) {
    std::vector<std::vector<double>> out(ch);
    if (k.codec == kLpcm) {
      const size_t bps = k.bits / 8;
      if (f.size() % (bps * ch) || f.size() / (bps * ch) > k.spf) return std::nullopt;
      for (size_t o = 0; o < f.size(); o += bps) {
        uint32_t v = 0;
        for (size_t i = 0; i < bps; ++i) v |= static_cast<uint32_t>(f[o + (k.little ? bps - 1 - i : i)]) << (24 - 8 * i);
        out[o / bps % ch].push_back(static_cast<int32_t>(v) / 2147483648.0);
      }
      return out;
    }
    if (k.codec == kOpus) {
      std::vector<float> pcm(k.spf * ch);
      const int n = opus_decode_float(opus, f.data(), f.size(), pcm.data(), k.spf, 0);
      if (n < 0) return std::nullopt;
      for (size_t i = 0; i < n * ch; ++i) out[i % ch].push_back(pcm[i]);
      return out;
    }
    std::vector<INT_PCM> pcm(1024 * ch);
    Bytes copy = f;
    UCHAR* in[] = {copy.data()};
    const UINT size[] = {static_cast<UINT>(f.size())};
    UINT valid = f.size();
    aacDecoder_Fill(aac, in, size, &valid);
    if (valid) return std::nullopt;
    if (aacDecoder_DecodeFrame(aac, pcm.data(), pcm.size(), 0) != AAC_DEC_OK) return std::nullopt;
    for (size_t i = 0; i < pcm.size(); ++i) out[i % ch].push_back(pcm[i] / 32768.0);
    return out;
  }
};
std::vector<std::vector<double>> Normal(const Pcm& p) {
  std::vector<std::vector<double>> out(p.size());
  for (size_t i = 0; i < p.size(); ++i)
    for (int32_t v : p[i]) out[i].push_back(v / 2147483648.0);
  return out;
}

// Equal, or followed by silence up to the frame size where `pad` allows it.
bool Same(absl::Span<const std::vector<double>> got, const std::vector<std::vector<double>>& want, uint32_t pad) {
  if (got.size() != want.size()) return false;
  for (size_t c = 0; c < want.size(); ++c) {
    if (got[c].size() != want[c].size() && !(pad && got[c].size() == pad && want[c].size() < pad)) return false;
    for (size_t t = 0; t < got[c].size(); ++t)
      if (got[c][t] != (t < want[c].size() ? want[c][t] : 0.0)) return false;
  }
  return true;
}
std::string Describe(absl::Span<const std::vector<double>> got, const std::vector<std::vector<double>>& want) {
  if (got.size() != want.size()) return Fmt("%zu channels instead of %zu", got.size(), want.size());
  for (size_t c = 0; c < want.size(); ++c) {
    if (got[c].size() != want[c].size()) return Fmt("channel %zu has %zu samples, %zu were coded", c, got[c].size(), want[c].size());
    for (size_t t = 0; t < want[c].size(); ++t)
      if (got[c][t] != want[c][t]) return Fmt("channel %zu sample %zu is %.10g instead of %.10g", c, t, got[c][t], want[c][t]);
  }
  return "same";
}

int g_fault = -1, g_skip = 0;  // site to fail once, after g_skip calls
bool g_fired = false;
bool Hook(int site) {
  if (site != g_fault) return false;
  if (g_skip-- > 0) return false;
  g_fault = -1;
  g_fired = true;
  return true;
}
void Arm(int site, int skip = 0) { g_fault = site; g_skip = skip; g_fired = false; }
bool Disarm() { const bool f = g_fired; g_fault = -1; g_fired = false; return f; }

struct Stream {
  Config k;
  size_t ch;
  std::unique_ptr<Ref> ref;
  bool trusted = true;  // false: its decoder may not exist
  bool shaken = false;  // a library fault hit it: errors are fine from now on
  uint32_t frame = 0;
  // The last frame decoded and where the decoder says its samples are.
  absl::Span<const std::vector<double>> span;
  std::optional<std::vector<std::vector<double>>> want;
};

void CheckLast(Ctx& c, const std::map<uint32_t, Stream>& streams) {
  for (const auto& [id, s] : streams)
    if (s.want)
      c.Check(Same(s.span, *s.want, s.k.codec == kFlac ? s.k.spf : 0), "other-substream",
              Fmt("decoding another substream changed the samples of substream %u: %s", id, Describe(s.span, *s.want).c_str()));
}

void RunDecoder(Ctx& c) {
  AudioFrameDecoder dec;
  std::map<uint32_t, Stream> streams;
  std::vector<CodecConfigObu> obus;
  const int elements = 1 + c.Pick(2);
  uint32_t next_id = c.Pick(3) ? 0 : c.Bits() & 0xffff;
  for (int e = 0; e < elements; ++e) {
    const Config k = DrawConfig(c, static_cast<Codec>(c.Weighted({4, 4, 2, 2})), true);
    auto obu = MakeObu(k, e);
    c.Check(obu.ok(), "harness", "codec config: " + obu.status().ToString());
    SubstreamIdLabelsMap labels;
    std::vector<std::pair<uint32_t, size_t>> subs;
    const int n = 1 + c.Pick(3);
    for (int i = 0; i < n; ++i) {
      const size_t ch = 1 + c.Pick(2);
      subs.push_back({next_id, ch});
      labels[next_id] = ch == 2 ? std::list<ChannelLabel::Label>{ChannelLabel::kL2, ChannelLabel::kR2}
                                : std::list<ChannelLabel::Label>{ChannelLabel::kMono};
      next_id += 1 + c.Pick(3);
    }
    bool bad = false;
    if (c.Pick(20) == 19) {  // no such substream
      labels[next_id] = c.Pick(2) ? std::list<ChannelLabel::Label>{}
                                  : std::list<ChannelLabel::Label>{ChannelLabel::kL2, ChannelLabel::kR2, ChannelLabel::kMono};
      bad = true;
    }
    if (c.Pick(10) == 9) {
      static const int kSites[] = {-1, simtp::kFlacDecNew, simtp::kOpusDecCreate, simtp::kAacDecOpen, simtp::kFlacDecInit};
      const int site = k.codec == kFlac ? (c.Pick(2) ? simtp::kFlacDecNew : simtp::kFlacDecInit)
                     : k.codec == kOpus ? kSites[2] : k.codec == kAac ? kSites[3] : -1;
      Arm(site, c.Pick(n));
    }
    const absl::Status st = dec.InitDecodersForSubstreams(labels, *obu);
    const bool fired = Disarm();
    c.Note("init", k.codec, st.ok());
    if (fired) c.Fault("codec-create-fails");
    c.Check(!(fired && st.ok()), "create-failure-hidden", "a decoder that could not be created is reported as created");
    c.Check(!(bad && st.ok()), "illegal-accepted", "a substream without a valid number of channels got a decoder");
    c.Check(st.ok() || fired || bad, "legal-refused", "decoders refused: " + st.ToString());
    for (auto [id, ch] : subs) {
      Stream s{k, ch};
      s.ref = std::make_unique<Ref>(k, ch);
      s.trusted = st.ok();
      streams.emplace(id, std::move(s));
    }
    if (st.ok() && c.Pick(8) == 7) {
      SubstreamIdLabelsMap again{{subs[0].first, {ChannelLabel::kMono}}};
      c.Check(!dec.InitDecodersForSubstreams(again, *obu).ok(), "illegal-accepted", "a substream got two decoders");
    }
  }
  std::vector<uint32_t> ids;
  for (auto& [id, s] : streams) ids.push_back(id);
  const int frames = 1 + c.Pick(c.Pick(4) == 3 ? 24 : 8);
  for (int i = 0; i < frames; ++i) {
    if (c.Pick(30) == 29) {
      AudioFrameWithData f{.obu = AudioFrameObu(ObuHeader(), next_id + 1, Bytes{1, 2, 3, 4})};
      c.Check(!dec.Decode(f).ok(), "illegal-accepted", "a frame of an unknown substream is decoded");
      continue;
    }
    const uint32_t id = c.OneOf(ids);
    Stream& s = streams.at(id);
    const Config& k = s.k;
    const uint32_t kind = c.Weighted({14, 3, 2, 3, 2, 2, 3, 2, 1, 1, 2});
    size_t n = k.codec == kAac ? 1024 : k.spf, ch = s.ch;
    if (kind == 1 && k.codec != kAac && k.codec != kOpus) n = c.Pick(k.spf + 1);          // short
    if (kind == 1 && k.codec == kFlac && n == 0) n = 1;
    if (kind == 2) n = k.spf + 1 + c.Pick(40);                                            // too long
    if (kind == 8) ch = s.ch == 2 ? 1 : 2;                                                // wrong channels
    int bits = k.bits;
    const Pcm pcm = DrawPcm(c, ch, n, k.bits);
    Config as = k;
    if (kind == 9 && k.codec == kFlac) { as.bits = c.OneOf<int>({12, 8, 24}); bits = as.bits; }
    Bytes f = CodedFrame(as, pcm, s.frame++);
    bool maybe = false;  // the frame's samples or an error, both are right
    bool damaged = kind == 2 || kind == 8;
    if (kind == 3) { f.resize(c.Pick(f.size())); damaged = true; }                         // cut off
    if (kind == 4) { f.clear(); damaged = true; }                                          // empty
    if (kind == 5) { for (auto& b : f) b = static_cast<uint8_t>(c.Bits()), damaged = true; if (f.size() > 300) f.resize(300); }
    if (kind == 6) { const Bytes o = f; for (int j = 1 + c.Pick(3); j > 0; --j) { const size_t at = c.Pick(f.size()); f[at] ^= 1 << c.Pick(8); } damaged = f != o; }
    if (kind == 7) {  // something behind or before the frame
      const bool before = c.Pick(4) == 3;
      const Bytes extra = c.Pick(2) && !before ? CodedFrame(k, DrawPcm(c, s.ch, k.spf, k.bits), s.frame) : Bytes(1 + c.Pick(40), static_cast<uint8_t>(c.Bits()));
      f.insert(before ? f.begin() : f.end(), extra.begin(), extra.end());
      maybe = damaged = true;
    }
    if (kind == 9 && k.codec == kFlac) damaged = as.bits < 16;
    if (kind == 10) {
      const int site = k.codec == kFlac ? int{simtp::kFlacDecProcess} : k.codec == kOpus ? int{simtp::kOpusDecode}
                     : k.codec == kAac ? (c.Pick(2) ? int{simtp::kAacDecFill} : int{simtp::kAacDecode}) : -1;
      Arm(site);
    }
    AudioFrameWithData fr{.obu = AudioFrameObu(ObuHeader(), id, f)};
    const absl::Status st = dec.Decode(fr);
    const bool fired = Disarm();
    if (fired) c.Fault("codec-decode-fails");
    if (damaged) c.Fault(kind == 2 ? "frame-too-long" : kind == 3 ? "frame-cut-off" : kind == 4 ? "frame-empty" : kind == 5 ? "frame-garbage"
                       : kind == 6 ? "frame-bits-flipped" : kind == 7 ? "frame-with-extra-data" : "frame-of-other-format");
    c.Note("decode", kind << 3 | k.codec << 1 | st.ok(), HashBytes(f.data(), f.size()));
    c.State(kind << 8 | k.codec << 4 | st.ok() << 3 | s.shaken << 2 | fired << 1);
    std::optional<std::vector<std::vector<double>>> want;
    if (!fired) {
      if (k.codec == kFlac) {
        if (!damaged) {
          want = Normal(pcm);
          if (bits < k.bits)
            for (auto& row : *want) for (auto& v : row) v = std::floor(v * (1ll << (bits - 1))) / (1ll << (bits - 1));
        } else if (maybe) {
          want = Normal(pcm);
        }
      } else {
        want = s.ref->Decode(f);
      }
    }
    if (!s.trusted) {  // its decoder was not created; errors are expected
      if (!st.ok()) { s.want.reset(); s.shaken = true; continue; }
      if (s.shaken) break;
    }
    if (!st.ok()) {
      c.Check(fr.decoded_samples.empty(), "samples-with-error", "a frame that failed to decode was given samples");
      c.Check(fired || !want || maybe || s.shaken || (k.codec == kAac && k.spf != 1024), "good-frame-refused",
              Fmt("frame %d (kind %u, codec %d) is refused: ", i, kind, k.codec) + st.ToString());
      if (want && !fired && k.codec != kFlac && k.codec != kLpcm) s.trusted = false;
      s.want.reset();
    } else {
      c.Check(!fired, "failure-hidden", "a failing library call is reported as success");
      c.Check(want.has_value(), "bad-frame-accepted",
              Fmt("a frame that cannot be decoded (kind %u, codec %d, %zu bytes) yields %zu channels of samples as if it could", kind, k.codec,
                  f.size(), fr.decoded_samples.size()));
      c.Check(Same(fr.decoded_samples, *want, k.codec == kFlac ? k.spf : 0), "wrong-samples",
              Fmt("frame %d (kind %u, codec %d): ", i, kind, k.codec) + Describe(fr.decoded_samples, *want));
      s.span = fr.decoded_samples;
      s.want = want;
      c.nontrivial = true;
      c.SimTime(k.spf / double(k.rate));
    }
    if (fired && k.codec == kFlac) s.shaken = true;
    CheckLast(c, streams);
  }
}

std::unique_ptr<EncoderBase> MakeEncoder(Ctx& c, const Config& k, const CodecConfigObu& obu, SubstreamChannelCount ch) {
  switch (k.codec) {
    case kLpcm: return std::make_unique<LpcmEncoder>(obu, ch);
    case kFlac: {
      iamf_tools_cli_proto::FlacEncoderMetadata m;
      m.set_compression_level(c.Pick(9));
      return std::make_unique<FlacEncoder>(m, obu, ch);
    }
    case kOpus:
      return std::make_unique<iamf_tools::OpusEncoder>(
          iamf_tools::OpusEncoder::Settings{.use_float_api = c.Pick(2) == 1, .libopus_application_mode = OPUS_APPLICATION_AUDIO}, obu, ch);
    case kAac: {
      iamf_tools_cli_proto::AacEncoderMetadata m;
      m.set_signaling_mode(2);
      return std::make_unique<AacEncoder>(m, obu, ch);
    }
  }
  return nullptr;
}

void RunEncoder(Ctx& c) {
  const Config k = DrawConfig(c, static_cast<Codec>(c.Weighted({4, 4, 2, 2})));
  const size_t ch = 1 + c.Pick(2);
  auto obu = MakeObu(k, 7);
  c.Check(obu.ok(), "harness", "codec config: " + obu.status().ToString());
  auto count = SubstreamChannelCount::Create(ch);
  simtp::flac_hold_frames = c.Pick(3) == 2 ? 1 + c.Pick(4) : 0;
  auto enc = MakeEncoder(c, k, *obu, *count);
  if (c.Pick(12) == 11) {
    const int site = k.codec == kFlac ? (c.Pick(2) ? int{simtp::kFlacEncNew} : int{simtp::kFlacEncInit})
                   : k.codec == kOpus ? (c.Pick(2) ? int{simtp::kOpusEncCreate} : int{simtp::kOpusEncCtl})
                   : k.codec == kAac ? (c.Pick(2) ? int{simtp::kAacEncOpen} : int{simtp::kAacEncConfig}) : -1;
    Arm(site, c.Pick(2));
  }
  const absl::Status init = enc->Initialize(/*validate_codec_delay=*/true);
  if (Disarm()) {
    c.Fault("codec-create-fails");
    c.Check(!init.ok(), "create-failure-hidden", "an encoder that could not be set up is reported as ready");
    return;
  }
  c.Check(init.ok(), "legal-refused", "encoder refused: " + init.ToString());
  c.Check(enc->GetNumberOfSamplesToDelayAtStart() == (k.codec == kOpus ? 312 : k.codec == kAac ? 2048 : 0), "codec-delay",
          Fmt("the delay at the start is %u", enc->GetNumberOfSamplesToDelayAtStart()));

  std::deque<std::pair<uint32_t, Pcm>> accepted;  // accepted, not yet delivered
  std::list<AudioFrameWithData> popped;
  AudioElementWithData* const tag = reinterpret_cast<AudioElementWithData*>(0x1000);
  bool broken = false, finalized = false;
  uint32_t serial = 0, delivered = 0;
  std::unique_ptr<AudioFrameDecoder> dec = std::make_unique<AudioFrameDecoder>();
  SubstreamIdLabelsMap labels{{3, ch == 2 ? std::list<ChannelLabel::Label>{ChannelLabel::kL2, ChannelLabel::kR2}
                                          : std::list<ChannelLabel::Label>{ChannelLabel::kMono}}};
  c.Check(dec->InitDecodersForSubstreams(labels, *obu).ok(), "harness", "decoder");
  auto verify = [&]() {
    while (!popped.empty()) {
      AudioFrameWithData f = std::move(popped.front());
      popped.pop_front();
      c.Check(!accepted.empty(), "extra-frame", "a frame comes out that was never put in");
      const auto [no, pcm] = std::move(accepted.front());
      accepted.pop_front();
      ++delivered;
      c.Check(f.start_timestamp == no * 10 && f.end_timestamp == no * 10 + 7 && f.obu.GetSubstreamId() == 3 &&
                  f.audio_element_with_data == tag && f.encoded_samples && (*f.encoded_samples)[0][0] == no,
              "frame-order", Fmt("frame %u comes out with the data of frame %lld", no, (long long)f.start_timestamp / 10));
      const Bytes want = CodedFrame(k, pcm, k.codec == kFlac ? no : 0);
      c.Check(f.obu.audio_frame_ == want, "wrong-coded-frame",
              Fmt("frame %u of codec %d: %s instead of %s", no, k.codec, Hex(f.obu.audio_frame_.data(), f.obu.audio_frame_.size()).c_str(),
                  Hex(want.data(), want.size()).c_str()));
      f.audio_element_with_data = nullptr;
      if (k.codec == kLpcm || k.codec == kFlac) {  // lossless: the same samples come back
        const absl::Status st = dec->Decode(f);
        c.Check(st.ok(), "round-trip", Fmt("frame %u does not decode: ", no) + st.ToString());
        const auto w = Normal(pcm);
        c.Check(Same(f.decoded_samples, w, 0), "round-trip", Fmt("frame %u: ", no) + Describe(f.decoded_samples, w));
      }
      c.nontrivial = true;
    }
  };
  auto encode = [&](const Pcm& pcm, bool legal, int site) {
    auto part = std::make_unique<AudioFrameWithData>(AudioFrameWithData{.obu = AudioFrameObu(ObuHeader(), 3, {})});
    part->start_timestamp = serial * 10;
    part->end_timestamp = serial * 10 + 7;
    part->encoded_samples.emplace(1, std::vector<double>{double(serial)});
    part->audio_element_with_data = tag;
    if (legal && !broken && !finalized && site == -1) accepted.emplace_back(serial, pcm);
    const absl::Status st = enc->EncodeAudioFrame(pcm, std::move(part));
    return st;
  };
  const bool threads = c.Pick(4) == 3;
  const int ops = 1 + c.Pick(c.Pick(4) == 3 ? 24 : 8);
  if (threads) {  // one task encodes, another collects
    std::vector<Pcm> in;
    for (int i = 0; i < ops; ++i) in.push_back(DrawPcm(c, ch, k.spf, k.bits));
    bool done = false;
    absl::Status fin;
    std::vector<absl::Status> sts(ops);
    RunTasks(c, {[&] {
      for (int i = 0; i < ops; ++i) { sts[i] = encode(in[i], true, -1); ++serial; }
      fin = enc->Finalize();
      done = true;
    }, [&] {
      for (;;) {
        const bool last = done;
        while (enc->FramesAvailable()) {
          const size_t before = popped.size();
          (void)enc->Pop(popped);
          c.Check(popped.size() == before + 1, "pop", "a frame is announced but cannot be taken");
        }
        if (last) break;
        TaskYield();
      }
    }}, "deadlock");
    for (auto& s : sts) c.Check(s.ok(), "legal-refused", "a frame is refused: " + s.ToString());
    c.Check(fin.ok(), "legal-refused", "finalizing fails: " + fin.ToString());
    c.Count("concurrent runs");
    verify();
    c.Check(accepted.empty(), "lost-frame", Fmt("%zu of %d accepted frames never come out", accepted.size(), ops));
    c.Check(enc->Finished(), "not-finished", "the encoder does not end");
    return;
  }
  for (int i = 0; i < ops; ++i) {
    const uint32_t op = c.Weighted({8, 4, 1, 1, 1});
    if (op == 1) {
      const int n = 1 + c.Pick(3);
      for (int j = 0; j < n; ++j) {
        const bool avail = enc->FramesAvailable();
        const size_t before = popped.size();
        c.Check(enc->Pop(popped).ok(), "pop", "taking a frame fails");
        c.Check(popped.size() == before + (avail ? 1 : 0), "pop", "the number of frames taken is wrong");
      }
      c.Note("pop", popped.size());
      verify();
    } else if (op == 2 && !finalized && i > 0) {
      if (c.Pick(4) == 3 && k.codec == kFlac) Arm(simtp::kFlacEncFinish);
      const absl::Status st = enc->Finalize();
      const bool fired = Disarm();
      if (fired) {
        c.Fault("codec-finish-fails");
        c.Check(!st.ok(), "failure-hidden", "an encoder that could not finish is reported as finished");
        broken = true;
      } else if (!broken) {
        c.Check(st.ok(), "legal-refused", "finalizing fails: " + st.ToString());
      }
      finalized = true;
      c.Note("finalize", st.ok());
    } else if (op == 3) {  // wrong shape
      Pcm bad = DrawPcm(c, ch, k.spf, k.bits);
      switch (c.Pick(5)) {
        case 0: bad[0].pop_back(); break;
        case 1: bad[ch - 1].pop_back(); break;
        case 2: bad[ch - 1].push_back(0); break;
        case 3: bad.pop_back(); break;
        case 4: bad.push_back(bad[0]); break;
      }
      const absl::Status st = encode(bad, false, -1);
      c.Note("encode-bad", st.ok());
      c.Check(!st.ok(), "illegal-accepted", "a frame of the wrong shape is accepted");
    } else {
      const Pcm pcm = DrawPcm(c, ch, k.spf, k.bits);
      int site = -1;
      if (op == 4) {
        site = k.codec == kFlac ? int{simtp::kFlacEncProcess} : k.codec == kOpus ? int{simtp::kOpusEncode}
             : k.codec == kAac ? int{simtp::kAacEncode} : -1;
        Arm(site);
      }
      const absl::Status st = encode(pcm, true, site);
      const bool fired = Disarm();
      c.Note("encode", st.ok(), finalized);
      c.State(k.codec << 6 | finalized << 5 | broken << 4 | st.ok() << 3 | op);
      if (finalized) {
        c.Check(!st.ok(), "encode-after-finalize", "a frame is accepted after the encoder was finalized");
      } else if (fired) {
        c.Fault("codec-encode-fails");
        c.Check(!st.ok(), "failure-hidden", "a frame the library could not encode is reported as encoded");
        if (k.codec == kFlac) broken = true;
      } else if (!broken && site == -1) {
        c.Check(st.ok(), "legal-refused", "a frame is refused: " + st.ToString());
        ++serial;
      } else if (!broken) {
        c.Check(st.ok(), "harness", "armed site was not reached: " + st.ToString());
      }
    }
  }
  if (!finalized && !broken) {
    c.Check(enc->Finalize().ok(), "legal-refused", "finalizing fails");
    finalized = true;
  }
  while (enc->FramesAvailable()) c.Check(enc->Pop(popped).ok(), "pop", "taking a frame fails");
  verify();
  if (!broken) {
    c.Check(accepted.empty(), "lost-frame", Fmt("%zu of %u accepted frames never come out", accepted.size(), serial));
    c.Check(enc->Finished(), "not-finished", "the encoder does not end after all frames were taken");
  }
  c.SimTime(delivered * k.spf / double(k.rate));
}

void Run(Ctx& c) {
  simtp::fault_hook = Hook;
  simtp::flac_hold_frames = 0;
  Disarm();
  const long live = simtp::live_handles;
  if (c.Weighted({3, 2}) == 0) RunDecoder(c);
  else RunEncoder(c);
  simtp::flac_hold_frames = 0;
  c.Check(simtp::live_handles == live, "codec-leak", Fmt("%ld codec instances are not released", simtp::live_handles - live));
}
DST_PROPERTY(C01)({"C01", "", Run, 100000, 3000000,
  "each run creates decoders for a drawn set of substreams and codecs and decodes a drawn interleaving of good, short, oversized, cut, empty, garbled and damaged frames while library calls fail, or drives one encoder with frames, wrong frames, collections, failures and finalization in drawn order (a quarter with a concurrent collector); non-trivial: at least one frame was decoded or delivered and compared",
  {"iamf/cli/codec/*_decoder.cc", "iamf/cli/codec/*_encoder.cc", "iamf/cli/audio_frame_decoder.cc", "iamf/cli/sample_processing_utils.cc", "iamf/common/utils/numeric_utils.cc"},
  {"libopus, libFLAC and FDK-AAC are simulated: packets carry the PCM with checksums, the decoders keep their algorithmic delay"}});
}  // namespace
}  // namespace dst
