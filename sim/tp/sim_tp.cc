// Simulated third-party libraries (harness only): bit-exact, deterministic
// stand-ins for libopus, libFLAC, fdk-aac, obr, loudness_ebur128 and the
// audio_to_tactile WAV reader/writer, with the fault seam of sim_tp.h.
//
// Codecs: packets carry the PCM verbatim plus a header and a checksum, so an
// encode/decode round trip is exact. Opus and AAC keep their algorithmic delay
// as state of the *decoder*, so a decoder that is not recreated or is shared
// between substreams produces visibly different output, as the real ones do.
#include "sim_tp.h"

#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <vector>

#include "include/FLAC/stream_decoder.h"
#include "include/FLAC/stream_encoder.h"
#include "include/ebur128_analyzer.h"
#include "include/opus.h"
#include "libAACdec/include/aacdecoder_lib.h"
#include "libAACenc/include/aacenc_lib.h"
#include "obr/renderer/obr_impl.h"
#include "src/dsp/read_wav_file.h"
#include "src/dsp/write_wav_file.h"

namespace simtp {
const char* const kSiteNames[kNumSites] = {
    "opus_enc_create", "opus_enc_ctl", "opus_encode", "opus_dec_create", "opus_decode",
    "flac_enc_new", "flac_enc_init", "flac_enc_process", "flac_enc_finish",
    "flac_dec_new", "flac_dec_init", "flac_dec_process",
    "aac_enc_open", "aac_enc_config", "aac_encode", "aac_dec_open", "aac_dec_fill", "aac_decode",
    "obr_add", "wav_read_header", "wav_write_header"};
bool (*fault_hook)(int) = nullptr;
long live_handles = 0;
int flac_hold_frames = 0;
}  // namespace simtp
using namespace simtp;  // NOLINT

namespace {
uint32_t Sum(const uint8_t* p, size_t n) {
  uint32_t h = 2166136261u;
  for (size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 16777619u;
  return h;
}
void Put32(uint8_t* p, uint32_t v) {
  p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v;
}
uint32_t Get32(const uint8_t* p) {
  return uint32_t{p[0]} << 24 | uint32_t{p[1]} << 16 | uint32_t{p[2]} << 8 | p[3];
}
int16_t FloatToI16(float f) {
  double d = std::lrint(static_cast<double>(f) * 32768.0);
  if (!(d == d)) d = 0;
  if (d > 32767) d = 32767;
  if (d < -32768) d = -32768;
  return static_cast<int16_t>(d);
}
// Generic 16-bit PCM packet: tag, channels, frames(2), checksum(4), samples.
constexpr int kHdr = 8;
int PackPcm16(uint8_t tag, int ch, int n, const int16_t* pcm, uint8_t* out, int max) {
  const int need = kHdr + 2 * ch * n;
  if (need > max) return -1;
  out[0] = tag; out[1] = ch; out[2] = n >> 8; out[3] = n;
  for (int i = 0; i < ch * n; ++i) {
    const uint16_t v = static_cast<uint16_t>(pcm[i]);
    out[kHdr + 2 * i] = v >> 8; out[kHdr + 2 * i + 1] = v;
  }
  Put32(out + 4, Sum(out + kHdr, need - kHdr));
  return need;
}
// -1: not a packet. -2: damaged payload. Otherwise frames per channel.
int UnpackPcm16(uint8_t tag, int ch, const uint8_t* in, int len, std::vector<int16_t>& pcm) {
  if (len < kHdr || in[0] != tag || in[1] != ch) return -1;
  const int n = in[2] << 8 | in[3];
  if (len != kHdr + 2 * ch * n) return -1;
  pcm.resize(static_cast<size_t>(ch) * n);
  for (int i = 0; i < ch * n; ++i)
    pcm[i] = static_cast<int16_t>(in[kHdr + 2 * i] << 8 | in[kHdr + 2 * i + 1]);
  return Get32(in + 4) == Sum(in + kHdr, len - kHdr) ? n : -2;
}
}  // namespace

// ---------------------------------------------------------------- Opus ----
struct OpusEncoder { opus_int32 fs; int ch; };
struct OpusDecoder { opus_int32 fs; int ch; std::deque<int16_t> fifo; };
static opus_int32 OpusLookahead(opus_int32 fs) { return fs / 1000 * 13 / 2; }
static bool OpusRate(opus_int32 fs) {
  return fs == 48000 || fs == 24000 || fs == 16000 || fs == 12000 || fs == 8000;
}
extern "C" {
OpusEncoder* opus_encoder_create(opus_int32 fs, int ch, int app, int* error) {
  if (!OpusRate(fs) || (ch != 1 && ch != 2) ||
      (app != OPUS_APPLICATION_VOIP && app != OPUS_APPLICATION_AUDIO &&
       app != OPUS_APPLICATION_RESTRICTED_LOWDELAY)) {
    if (error) *error = OPUS_BAD_ARG;
    return nullptr;
  }
  if (Fault(kOpusEncCreate)) {
    if (error) *error = OPUS_ALLOC_FAIL;
    return nullptr;
  }
  if (error) *error = OPUS_OK;
  ++live_handles;
  return new OpusEncoder{fs, ch};
}
void opus_encoder_destroy(OpusEncoder* st) {
  if (st) { --live_handles; delete st; }
}
int opus_encoder_ctl(OpusEncoder* st, int request, ...) {
  if (Fault(kOpusEncCtl)) return OPUS_INTERNAL_ERROR;
  va_list ap;
  va_start(ap, request);
  int ret = OPUS_OK;
  if (request == OPUS_SET_BITRATE_REQUEST) {
    const opus_int32 v = va_arg(ap, opus_int32);
    if (v != OPUS_AUTO && v != OPUS_BITRATE_MAX && v <= 0) ret = OPUS_BAD_ARG;
  } else if (request == OPUS_GET_LOOKAHEAD_REQUEST) {
    *va_arg(ap, opus_int32*) = OpusLookahead(st->fs);
  } else {
    ret = OPUS_UNIMPLEMENTED;
  }
  va_end(ap);
  return ret;
}
opus_int32 opus_encode(OpusEncoder* st, const opus_int16* pcm, int n, unsigned char* data, opus_int32 max) {
  if (Fault(kOpusEncode)) return OPUS_INTERNAL_ERROR;
  const int u = st->fs / 400;
  if (n != u && n != 2 * u && n != 4 * u && n != 8 * u && n != 16 * u && n != 24 * u &&
      n != 32 * u && n != 40 * u && n != 48 * u)
    return OPUS_BAD_ARG;
  const int r = PackPcm16('O', st->ch, n, pcm, data, max);
  return r < 0 ? OPUS_BUFFER_TOO_SMALL : r;
}
opus_int32 opus_encode_float(OpusEncoder* st, const float* pcm, int n, unsigned char* data, opus_int32 max) {
  std::vector<int16_t> v(static_cast<size_t>(n) * st->ch);
  for (size_t i = 0; i < v.size(); ++i) v[i] = FloatToI16(pcm[i]);
  return opus_encode(st, v.data(), n, data, max);
}
OpusDecoder* opus_decoder_create(opus_int32 fs, int ch, int* error) {
  if (!OpusRate(fs) || (ch != 1 && ch != 2)) {
    if (error) *error = OPUS_BAD_ARG;
    return nullptr;
  }
  if (Fault(kOpusDecCreate)) {
    if (error) *error = OPUS_ALLOC_FAIL;
    return nullptr;
  }
  if (error) *error = OPUS_OK;
  ++live_handles;
  auto* d = new OpusDecoder{fs, ch, {}};
  d->fifo.assign(static_cast<size_t>(OpusLookahead(fs)) * ch, 0);
  return d;
}
void opus_decoder_destroy(OpusDecoder* st) {
  if (st) { --live_handles; delete st; }
}
int opus_decode_float(OpusDecoder* st, const unsigned char* data, opus_int32 len, float* out, int max_n, int) {
  if (Fault(kOpusDecode)) return OPUS_INTERNAL_ERROR;
  std::vector<int16_t> pcm;
  int n;
  if (data == nullptr || len == 0) {  // Packet loss concealment.
    n = max_n;
    pcm.assign(static_cast<size_t>(n) * st->ch, 0);
  } else {
    n = UnpackPcm16('O', st->ch, data, len, pcm);
    if (n == -1) return OPUS_INVALID_PACKET;
    if (n == -2) n = static_cast<int>(pcm.size()) / st->ch;  // Decodes garbage.
    if (n > max_n) return OPUS_BUFFER_TOO_SMALL;
  }
  for (int16_t v : pcm) st->fifo.push_back(v);
  for (size_t i = 0; i < pcm.size(); ++i) {
    out[i] = st->fifo.front() / 32768.0f;
    st->fifo.pop_front();
  }
  return n;
}
}  // extern "C"

// ---------------------------------------------------------------- FLAC ----
const char* const FLAC__StreamEncoderInitStatusString[] = {
    "OK", "ENCODER_ERROR", "UNSUPPORTED_CONTAINER", "INVALID_CALLBACKS", "INVALID_NUMBER_OF_CHANNELS",
    "INVALID_BITS_PER_SAMPLE", "INVALID_SAMPLE_RATE", "INVALID_BLOCK_SIZE", "INVALID_MAX_LPC_ORDER",
    "INVALID_QLP_COEFF_PRECISION", "BLOCK_SIZE_TOO_SMALL_FOR_LPC_ORDER", "NOT_STREAMABLE",
    "INVALID_METADATA", "ALREADY_INITIALIZED"};
struct FLAC__StreamEncoder {
  uint32_t ch = 2, bps = 16, rate = 44100, block = 0;
  bool init = false, failed = false;
  std::vector<FLAC__int32> buf;   // Interleaved samples not yet framed.
  uint32_t next_frame = 0;
  FLAC__StreamEncoderWriteCallback write = nullptr;
  FLAC__StreamEncoderMetadataCallback meta = nullptr;
  void* client = nullptr;
};
namespace {
constexpr uint32_t kFlacHdr = 12;  // sync(2) block(2) ch bps frame(4) hdrsum(2)
bool FlacEmit(FLAC__StreamEncoder* e, uint32_t n) {
  const uint32_t bytes = (e->bps + 7) / 8;
  std::vector<uint8_t> out(kFlacHdr + static_cast<size_t>(n) * e->ch * bytes + 4);
  out[0] = 0xff; out[1] = 0xf8; out[2] = n >> 8; out[3] = n; out[4] = e->ch; out[5] = e->bps;
  Put32(&out[6], e->next_frame);
  const uint32_t hs = Sum(out.data(), 10);
  out[10] = hs >> 8; out[11] = hs;
  size_t p = kFlacHdr;
  for (size_t i = 0; i < static_cast<size_t>(n) * e->ch; ++i)
    for (uint32_t b = bytes; b-- > 0;) out[p++] = static_cast<uint32_t>(e->buf[i]) >> (8 * b);
  Put32(&out[p], Sum(out.data(), p));
  e->buf.erase(e->buf.begin(), e->buf.begin() + static_cast<size_t>(n) * e->ch);
  const auto st = e->write(e, out.data(), out.size(), n, e->next_frame++, e->client);
  if (st != FLAC__STREAM_ENCODER_WRITE_STATUS_OK) e->failed = true;
  return !e->failed;
}
}  // namespace
extern "C" {
FLAC__StreamEncoder* FLAC__stream_encoder_new(void) {
  if (Fault(kFlacEncNew)) return nullptr;
  ++live_handles;
  return new FLAC__StreamEncoder;
}
void FLAC__stream_encoder_delete(FLAC__StreamEncoder* e) {
  if (e) { --live_handles; delete e; }
}
FLAC__bool FLAC__stream_encoder_set_channels(FLAC__StreamEncoder* e, uint32_t v) { if (e->init) return 0; e->ch = v; return 1; }
FLAC__bool FLAC__stream_encoder_set_bits_per_sample(FLAC__StreamEncoder* e, uint32_t v) { if (e->init) return 0; e->bps = v; return 1; }
FLAC__bool FLAC__stream_encoder_set_sample_rate(FLAC__StreamEncoder* e, uint32_t v) { if (e->init) return 0; e->rate = v; return 1; }
FLAC__bool FLAC__stream_encoder_set_blocksize(FLAC__StreamEncoder* e, uint32_t v) { if (e->init) return 0; e->block = v; return 1; }
FLAC__bool FLAC__stream_encoder_set_total_samples_estimate(FLAC__StreamEncoder* e, FLAC__uint64) { return !e->init; }
FLAC__bool FLAC__stream_encoder_set_compression_level(FLAC__StreamEncoder* e, uint32_t) { return !e->init; }
FLAC__bool FLAC__stream_encoder_set_verify(FLAC__StreamEncoder* e, FLAC__bool) { return !e->init; }
FLAC__StreamEncoderInitStatus FLAC__stream_encoder_init_stream(
    FLAC__StreamEncoder* e, FLAC__StreamEncoderWriteCallback w, FLAC__StreamEncoderSeekCallback,
    FLAC__StreamEncoderTellCallback, FLAC__StreamEncoderMetadataCallback m, void* c) {
  if (e->init) return FLAC__STREAM_ENCODER_INIT_STATUS_ALREADY_INITIALIZED;
  if (w == nullptr) return FLAC__STREAM_ENCODER_INIT_STATUS_INVALID_CALLBACKS;
  if (e->ch == 0 || e->ch > 8) return FLAC__STREAM_ENCODER_INIT_STATUS_INVALID_NUMBER_OF_CHANNELS;
  if (e->bps < 4 || e->bps > 32) return FLAC__STREAM_ENCODER_INIT_STATUS_INVALID_BITS_PER_SAMPLE;
  if (e->rate == 0 || e->rate > 1048575) return FLAC__STREAM_ENCODER_INIT_STATUS_INVALID_SAMPLE_RATE;
  if (e->block < 16 || e->block > 65535) return FLAC__STREAM_ENCODER_INIT_STATUS_INVALID_BLOCK_SIZE;
  if (Fault(kFlacEncInit)) return FLAC__STREAM_ENCODER_INIT_STATUS_ENCODER_ERROR;
  e->write = w; e->meta = m; e->client = c; e->init = true;
  const uint8_t magic[4] = {'f', 'L', 'a', 'C'};
  if (w(e, magic, 4, 0, 0, c) != FLAC__STREAM_ENCODER_WRITE_STATUS_OK)
    return FLAC__STREAM_ENCODER_INIT_STATUS_ENCODER_ERROR;
  return FLAC__STREAM_ENCODER_INIT_STATUS_OK;
}
FLAC__bool FLAC__stream_encoder_process_interleaved(FLAC__StreamEncoder* e, const FLAC__int32 b[], uint32_t n) {
  if (!e->init || e->failed) return 0;
  if (Fault(kFlacEncProcess)) { e->failed = true; return 0; }
  e->buf.insert(e->buf.end(), b, b + static_cast<size_t>(n) * e->ch);
  // libFLAC keeps one sample of look-ahead: a block is only written once part
  // of the next one arrived. `flac_hold_frames` delays it further.
  while (e->buf.size() > static_cast<size_t>(e->block) * e->ch * (1 + simtp::flac_hold_frames))
    if (!FlacEmit(e, e->block)) return 0;
  return 1;
}
FLAC__bool FLAC__stream_encoder_finish(FLAC__StreamEncoder* e) {
  if (!e->init) return 1;
  bool ok = !e->failed;
  if (Fault(kFlacEncFinish)) { e->failed = true; ok = false; }
  while (ok && !e->buf.empty()) {
    uint32_t n = static_cast<uint32_t>(e->buf.size() / e->ch);
    if (n > e->block) n = e->block;
    ok = FlacEmit(e, n);
  }
  if (ok && e->meta) {
    FLAC__StreamMetadata m{FLAC__METADATA_TYPE_STREAMINFO, 1, 34};
    e->meta(e, &m, e->client);
  }
  e->init = false;
  return ok;
}
}  // extern "C"

struct FLAC__StreamDecoder {
  FLAC__StreamDecoderState state = FLAC__STREAM_DECODER_UNINITIALIZED;
  std::vector<uint8_t> in;
  FLAC__StreamDecoderReadCallback read = nullptr;
  FLAC__StreamDecoderWriteCallback write = nullptr;
  FLAC__StreamDecoderErrorCallback error = nullptr;
  void* client = nullptr;
};
namespace {
// Makes at least `n` bytes available; false at the end of the stream.
bool FlacNeed(FLAC__StreamDecoder* d, size_t n) {
  uint8_t tmp[8192];
  while (d->in.size() < n) {
    size_t got = sizeof(tmp);
    const auto s = d->read(d, tmp, &got, d->client);
    if (s == FLAC__STREAM_DECODER_READ_STATUS_ABORT) {
      d->state = FLAC__STREAM_DECODER_ABORTED;
      return false;
    }
    if (got == 0) {
      d->state = FLAC__STREAM_DECODER_END_OF_STREAM;
      return false;
    }
    d->in.insert(d->in.end(), tmp, tmp + got);
  }
  return true;
}
}  // namespace
extern "C" {
FLAC__StreamDecoder* FLAC__stream_decoder_new(void) {
  if (Fault(kFlacDecNew)) return nullptr;
  ++live_handles;
  return new FLAC__StreamDecoder;
}
void FLAC__stream_decoder_delete(FLAC__StreamDecoder* d) {
  if (d) { --live_handles; delete d; }
}
FLAC__StreamDecoderInitStatus FLAC__stream_decoder_init_stream(
    FLAC__StreamDecoder* d, FLAC__StreamDecoderReadCallback r, FLAC__StreamDecoderSeekCallback,
    FLAC__StreamDecoderTellCallback, FLAC__StreamDecoderLengthCallback, FLAC__StreamDecoderEofCallback,
    FLAC__StreamDecoderWriteCallback w, FLAC__StreamDecoderMetadataCallback, FLAC__StreamDecoderErrorCallback e,
    void* c) {
  if (d->state != FLAC__STREAM_DECODER_UNINITIALIZED || Fault(kFlacDecInit))
    return FLAC__STREAM_DECODER_INIT_STATUS_ERROR;
  d->read = r; d->write = w; d->error = e; d->client = c;
  d->state = FLAC__STREAM_DECODER_SEARCH_FOR_METADATA;
  return FLAC__STREAM_DECODER_INIT_STATUS_OK;
}
FLAC__bool FLAC__stream_decoder_finish(FLAC__StreamDecoder* d) {
  d->state = FLAC__STREAM_DECODER_UNINITIALIZED;
  d->in.clear();
  return 1;
}
FLAC__bool FLAC__stream_decoder_flush(FLAC__StreamDecoder* d) {
  if (d->state == FLAC__STREAM_DECODER_UNINITIALIZED) return 0;
  d->in.clear();
  d->state = FLAC__STREAM_DECODER_SEARCH_FOR_FRAME_SYNC;
  return 1;
}
FLAC__bool FLAC__stream_decoder_reset(FLAC__StreamDecoder* d) {
  if (!FLAC__stream_decoder_flush(d)) return 0;
  d->state = FLAC__STREAM_DECODER_SEARCH_FOR_METADATA;
  return 1;
}
FLAC__StreamDecoderState FLAC__stream_decoder_get_state(const FLAC__StreamDecoder* d) { return d->state; }
FLAC__bool FLAC__stream_decoder_process_single(FLAC__StreamDecoder* d) {
  switch (d->state) {
    case FLAC__STREAM_DECODER_END_OF_STREAM:
    case FLAC__STREAM_DECODER_ABORTED:
      return 1;
    case FLAC__STREAM_DECODER_SEARCH_FOR_METADATA:
    case FLAC__STREAM_DECODER_SEARCH_FOR_FRAME_SYNC:
      break;
    default:
      return 0;
  }
  if (Fault(kFlacDecProcess)) { d->state = FLAC__STREAM_DECODER_MEMORY_ALLOCATION_ERROR; return 0; }
  bool lost = false;
  for (;;) {
    // Frame sync.
    d->state = FLAC__STREAM_DECODER_SEARCH_FOR_FRAME_SYNC;
    for (;;) {
      if (!FlacNeed(d, 2)) return 1;
      if (d->in[0] == 0xff && d->in[1] == 0xf8) break;
      if (!lost) { lost = true; d->error(d, FLAC__STREAM_DECODER_ERROR_STATUS_LOST_SYNC, d->client); }
      d->in.erase(d->in.begin());
    }
    if (!FlacNeed(d, kFlacHdr)) return 1;
    const uint32_t hs = Sum(d->in.data(), 10);
    FLAC__Frame f{};
    f.header.blocksize = d->in[2] << 8 | d->in[3];
    f.header.channels = d->in[4];
    f.header.bits_per_sample = d->in[5];
    if (d->in[10] != uint8_t(hs >> 8) || d->in[11] != uint8_t(hs) || f.header.channels == 0 ||
        f.header.channels > 8 || f.header.bits_per_sample < 4 || f.header.bits_per_sample > 32) {
      d->error(d, FLAC__STREAM_DECODER_ERROR_STATUS_BAD_HEADER, d->client);
      d->in.erase(d->in.begin(), d->in.begin() + 2);
      continue;
    }
    const uint32_t bytes = (f.header.bits_per_sample + 7) / 8;
    const size_t body = kFlacHdr + static_cast<size_t>(f.header.blocksize) * f.header.channels * bytes;
    if (!FlacNeed(d, body + 4)) return 1;
    const bool good = Get32(&d->in[body]) == Sum(d->in.data(), body);
    if (!good) d->error(d, FLAC__STREAM_DECODER_ERROR_STATUS_FRAME_CRC_MISMATCH, d->client);
    std::vector<std::vector<FLAC__int32>> ch(f.header.channels, std::vector<FLAC__int32>(f.header.blocksize, 0));
    if (good) {
      size_t p = kFlacHdr;
      for (uint32_t t = 0; t < f.header.blocksize; ++t)
        for (uint32_t c = 0; c < f.header.channels; ++c) {
          uint32_t v = 0;
          for (uint32_t b = 0; b < bytes; ++b) v = v << 8 | d->in[p++];
          v <<= 32 - 8 * bytes;
          ch[c][t] = static_cast<int32_t>(v) >> (32 - 8 * bytes);
        }
    }
    d->in.erase(d->in.begin(), d->in.begin() + body + 4);
    std::vector<const FLAC__int32*> ptr;
    for (auto& c : ch) ptr.push_back(c.data());
    d->state = FLAC__STREAM_DECODER_SEARCH_FOR_FRAME_SYNC;
    if (d->write(d, &f, ptr.data(), d->client) != FLAC__STREAM_DECODER_WRITE_STATUS_CONTINUE) {
      d->state = FLAC__STREAM_DECODER_ABORTED;
      return 0;
    }
    return 1;
  }
}
}  // extern "C"

// ----------------------------------------------------------------- AAC ----
constexpr int kAacFrame = 1024, kAacDelay = 2048;
struct AACENCODER { UINT max_ch; UINT ch = 0; UINT rate = 0; bool init = false; };
struct AAC_DECODER_INSTANCE {
  CStreamInfo info{};
  std::vector<uint8_t> in;
  std::deque<int16_t> fifo;
  bool configured = false;
};
extern "C" {
AACENC_ERROR aacEncOpen(HANDLE_AACENCODER* h, UINT, UINT max_ch) {
  if (h == nullptr) return AACENC_INVALID_HANDLE;
  if (Fault(kAacEncOpen)) return AACENC_MEMORY_ERROR;
  ++live_handles;
  *h = new AACENCODER{max_ch};
  return AACENC_OK;
}
AACENC_ERROR aacEncClose(HANDLE_AACENCODER* h) {
  if (h == nullptr) return AACENC_INVALID_HANDLE;
  if (*h) { --live_handles; delete *h; *h = nullptr; }
  return AACENC_OK;
}
AACENC_ERROR aacEncoder_SetParam(HANDLE_AACENCODER h, AACENC_PARAM p, UINT v) {
  if (h == nullptr) return AACENC_INVALID_HANDLE;
  if (Fault(kAacEncConfig)) return AACENC_INVALID_CONFIG;
  switch (p) {
    case AACENC_CHANNELMODE:
      if (v < 1 || v > 2 || v > h->max_ch) return AACENC_INVALID_CONFIG;
      h->ch = v;
      break;
    case AACENC_SAMPLERATE:
      if (v < 8000 || v > 96000) return AACENC_INVALID_CONFIG;
      h->rate = v;
      break;
    case AACENC_BITRATEMODE:
      if (v > 5) return AACENC_INVALID_CONFIG;
      break;
    case AACENC_SIGNALING_MODE:
      if (v > 2) return AACENC_INVALID_CONFIG;
      break;
    default:
      break;
  }
  return AACENC_OK;
}
AACENC_ERROR aacEncInfo(HANDLE_AACENCODER h, AACENC_InfoStruct* i) {
  if (h == nullptr) return AACENC_INVALID_HANDLE;
  std::memset(i, 0, sizeof(*i));
  i->maxOutBufBytes = kHdr + 2 * kAacFrame * h->ch;
  i->inputChannels = h->ch;
  i->frameLength = kAacFrame;
  i->nDelay = i->nDelayCore = kAacDelay;
  return AACENC_OK;
}
AACENC_ERROR aacEncEncode(HANDLE_AACENCODER h, const AACENC_BufDesc* in, const AACENC_BufDesc* out,
                          const AACENC_InArgs* ia, AACENC_OutArgs* oa) {
  if (h == nullptr) return AACENC_INVALID_HANDLE;
  if (in == nullptr) {
    if (h->ch == 0 || h->rate == 0) return AACENC_INIT_ERROR;
    h->init = true;
    return AACENC_OK;
  }
  if (!h->init) return AACENC_INIT_ERROR;
  if (Fault(kAacEncode)) return AACENC_ENCODE_ERROR;
  const int want = kAacFrame * static_cast<int>(h->ch);
  oa->numInSamples = ia->numInSamples < want ? ia->numInSamples : want;
  oa->numAncBytes = 0;
  oa->numOutBytes = 0;
  if (oa->numInSamples < want) return AACENC_OK;
  const int r = PackPcm16('A', h->ch, kAacFrame, static_cast<const int16_t*>(in->bufs[0]),
                          static_cast<uint8_t*>(out->bufs[0]), out->bufSizes[0]);
  if (r < 0) return AACENC_ENCODE_ERROR;
  oa->numOutBytes = r;
  return AACENC_OK;
}
HANDLE_AACDECODER aacDecoder_Open(TRANSPORT_TYPE, UINT) {
  if (Fault(kAacDecOpen)) return nullptr;
  ++live_handles;
  return new AAC_DECODER_INSTANCE;
}
void aacDecoder_Close(HANDLE_AACDECODER h) {
  if (h) { --live_handles; delete h; }
}
AAC_DECODER_ERROR aacDecoder_ConfigRaw(HANDLE_AACDECODER h, UCHAR* conf[], const UINT length[]) {
  if (length[0] < 2) return AAC_DEC_UNSUPPORTED_FORMAT;
  // audioObjectType(5) samplingFrequencyIndex(4) [rate(24)] channelConfiguration(4)
  const UCHAR* c = conf[0];
  const int idx = (c[0] & 7) << 1 | c[1] >> 7;
  int chans;
  if (idx == 15) {
    if (length[0] < 5) return AAC_DEC_UNSUPPORTED_FORMAT;
    chans = (c[4] >> 3) & 15;
  } else {
    chans = (c[1] >> 3) & 15;
  }
  if (chans < 1 || chans > 2) return AAC_DEC_UNSUPPORTED_CHANNELCONFIG;
  h->info.numChannels = chans;
  h->info.frameSize = kAacFrame;
  h->configured = true;
  h->fifo.assign(static_cast<size_t>(kAacDelay) * chans, 0);
  return AAC_DEC_OK;
}
AAC_DECODER_ERROR aacDecoder_SetParam(HANDLE_AACDECODER, AACDEC_PARAM, INT) { return AAC_DEC_OK; }
AAC_DECODER_ERROR aacDecoder_Fill(HANDLE_AACDECODER h, UCHAR* buf[], const UINT size[], UINT* valid) {
  if (Fault(kAacDecFill)) return AAC_DEC_OUT_OF_MEMORY;
  h->in.clear();  // Raw access units: each fill replaces the buffer.
  const size_t room = 16384;
  const size_t take = *valid < room ? *valid : room;
  const UCHAR* from = buf[0] + (size[0] - *valid);
  h->in.insert(h->in.end(), from, from + take);
  *valid -= static_cast<UINT>(take);
  return AAC_DEC_OK;
}
AAC_DECODER_ERROR aacDecoder_DecodeFrame(HANDLE_AACDECODER h, INT_PCM* out, INT size, UINT) {
  std::vector<uint8_t> in = std::move(h->in);
  h->in.clear();
  if (Fault(kAacDecode)) return AAC_DEC_DECODE_FRAME_ERROR;
  if (in.empty()) return AAC_DEC_NOT_ENOUGH_BITS;
  if (!h->configured) return AAC_DEC_UNSUPPORTED_FORMAT;
  std::vector<int16_t> pcm;
  const int n = UnpackPcm16('A', h->info.numChannels, in.data(), static_cast<int>(in.size()), pcm);
  if (n == -1) return AAC_DEC_PARSE_ERROR;
  if (n == -2) return AAC_DEC_CRC_ERROR;
  if (n != kAacFrame) return AAC_DEC_PARSE_ERROR;
  if (static_cast<int>(pcm.size()) > size) return AAC_DEC_OUTPUT_BUFFER_TOO_SMALL;
  for (int16_t v : pcm) h->fifo.push_back(v);
  for (size_t i = 0; i < pcm.size(); ++i) { out[i] = h->fifo.front(); h->fifo.pop_front(); }
  return AAC_DEC_OK;
}
CStreamInfo* aacDecoder_GetStreamInfo(HANDLE_AACDECODER h) { return &h->info; }
}  // extern "C"

// ----------------------------------------------------------------- obr ----
namespace obr {
ObrImpl::ObrImpl(int n, int) : frames_(n) { ++live_handles; }
ObrImpl::~ObrImpl() { --live_handles; }
absl::Status ObrImpl::AddAudioElement(AudioElementType t) {
  if (Fault(kObrAdd)) return absl::InternalError("obr");
  switch (t) {
    case AudioElementType::k1OA: num_inputs_ = 4; break;
    case AudioElementType::k2OA: num_inputs_ = 9; break;
    case AudioElementType::k3OA: num_inputs_ = 16; break;
    case AudioElementType::k4OA: num_inputs_ = 25; break;
    case AudioElementType::kLayoutMono: num_inputs_ = 1; break;
    case AudioElementType::kLayoutStereo: num_inputs_ = 2; break;
    case AudioElementType::kLayout3_1_2_ch: num_inputs_ = 6; break;
    case AudioElementType::kLayout5_1_0_ch: num_inputs_ = 6; break;
    case AudioElementType::kLayout5_1_2_ch: num_inputs_ = 8; break;
    case AudioElementType::kLayout5_1_4_ch: num_inputs_ = 10; break;
    case AudioElementType::kLayout7_1_0_ch: num_inputs_ = 8; break;
    case AudioElementType::kLayout7_1_2_ch: num_inputs_ = 10; break;
    case AudioElementType::kLayout7_1_4_ch: num_inputs_ = 12; break;
    default: return absl::UnimplementedError("obr type");
  }
  return absl::OkStatus();
}
void ObrImpl::Process(const AudioBuffer& in, AudioBuffer* out) {
  for (size_t t = 0; t < static_cast<size_t>(frames_); ++t) {
    float m[2] = {0, 0};
    for (size_t c = 0; c < in.num_channels(); ++c) m[c & 1] += in[c].at(t) / (1.0f + c);
    for (int e = 0; e < 2; ++e) {
      (*out)[e].at(t) = 0.5f * m[e] + 0.25f * m[1 - e] + 0.125f * last_[e];
      last_[e] = m[e];
    }
  }
}
}  // namespace obr

// ------------------------------------------------------------ loudness ----
namespace loudness {
EbuR128Analyzer::EbuR128Analyzer(int32_t ch, const std::vector<float>& w, int32_t, bool tp)
    : num_channels_(ch), weights_(w), true_peak_(tp) {}
void EbuR128Analyzer::Process(const void* data, int64_t n, SampleFormat, SampleLayout) {
  const double* const* p = static_cast<const double* const*>(data);
  for (int32_t c = 0; c < num_channels_; ++c)
    for (int64_t t = 0; t < n; ++t) {
      energy_ += weights_[c] * p[c][t] * p[c][t];
      if (std::fabs(p[c][t]) > peak_) peak_ = std::fabs(p[c][t]);
    }
  n_ += n;
}
std::optional<float> EbuR128Analyzer::GetRelativeGatedIntegratedLoudness() const {
  if (n_ == 0 || energy_ <= 0) return std::nullopt;
  return static_cast<float>(-0.691 + 10 * std::log10(energy_ / n_));
}
float EbuR128Analyzer::digital_peak_dbfs() const { return static_cast<float>(20 * std::log10(peak_)); }
float EbuR128Analyzer::true_peak_dbfs() const { return true_peak_ ? digital_peak_dbfs() : 0.0f; }
}  // namespace loudness

// ----------------------------------------------------------------- wav ----
namespace {
bool RdN(FILE* f, uint8_t* p, size_t n) { return std::fread(p, 1, n, f) == n; }
uint32_t Le32(const uint8_t* p) { return p[0] | p[1] << 8 | p[2] << 16 | uint32_t{p[3]} << 24; }
uint32_t Le16(const uint8_t* p) { return p[0] | p[1] << 8; }
}  // namespace
extern "C" {
int ReadWavHeader(FILE* f, ReadWavInfo* info) {
  if (f == nullptr || info == nullptr) return 0;
  info->num_channels = 0;
  info->sample_rate_hz = 0;
  info->remaining_samples = 0;
  info->bit_depth = 0;
  if (Fault(kWavReadHeader)) return 0;
  uint8_t b[40];
  if (!RdN(f, b, 12) || std::memcmp(b, "RIFF", 4) != 0 || std::memcmp(b + 8, "WAVE", 4) != 0) return 0;
  bool have_fmt = false;
  for (;;) {
    if (!RdN(f, b, 8)) return 0;
    uint32_t size = Le32(b + 4);
    if (std::memcmp(b, "fmt ", 4) == 0) {
      if (size < 16) return 0;
      const uint32_t take = size < 40 ? size : 40;
      if (!RdN(f, b, take)) return 0;
      uint32_t rest = size - take + (size & 1);
      for (; rest > 0; --rest) if (std::fgetc(f) == EOF) return 0;
      uint32_t tag = Le16(b);
      const uint32_t ch = Le16(b + 2), rate = Le32(b + 4), align = Le16(b + 12), bits = Le16(b + 14);
      if (tag == 0xfffe && take >= 26) tag = Le16(b + 24);
      if (ch == 0 || rate == 0 || rate > 0x7fffffff || bits == 0 || bits % 8 != 0 || align != ch * bits / 8) return 0;
      info->num_channels = ch;
      info->sample_rate_hz = rate;
      info->bit_depth = bits;
      info->destination_alignment_bytes = 4;
      info->sample_format = ReadWavInfo::kInt32;
      if (tag == 1 && bits == 16) {
        info->encoding = ReadWavInfo::kPcm16Encoding;
        info->destination_alignment_bytes = 2;
        info->sample_format = ReadWavInfo::kInt16;
      } else if (tag == 1 && bits == 24) {
        info->encoding = ReadWavInfo::kPcm24Encoding;
      } else if (tag == 1 && bits == 32) {
        info->encoding = ReadWavInfo::kPcm32Encoding;
      } else if (tag == 3 && bits == 32) {
        info->encoding = ReadWavInfo::kIeeeFloat32Encoding;
        info->sample_format = ReadWavInfo::kFloat;
      } else if (tag == 3 && bits == 64) {
        info->encoding = ReadWavInfo::kIeeeFloat64Encoding;
        info->sample_format = ReadWavInfo::kFloat;
      } else {
        return 0;
      }
      have_fmt = true;
    } else if (std::memcmp(b, "data", 4) == 0) {
      if (!have_fmt) return 0;
      const uint32_t bytes = info->bit_depth / 8;
      info->remaining_samples = size / bytes;
      info->remaining_samples -= info->remaining_samples % info->num_channels;
      return 1;
    } else {
      uint64_t skip = uint64_t{size} + (size & 1);
      for (; skip > 0; --skip) if (std::fgetc(f) == EOF) return 0;
    }
  }
}
size_t ReadWavSamples(FILE* f, ReadWavInfo* info, void* samples, size_t num) {
  if (f == nullptr || info == nullptr || samples == nullptr || info->num_channels <= 0 ||
      info->remaining_samples < static_cast<size_t>(info->num_channels))
    return 0;
  if (num > info->remaining_samples) num = info->remaining_samples;
  num -= num % info->num_channels;
  const size_t bytes = info->bit_depth / 8;
  size_t got = 0;
  for (; got < num; ++got) {
    uint8_t b[8];
    if (!RdN(f, b, bytes)) break;
    if (info->encoding == ReadWavInfo::kIeeeFloat64Encoding) {
      double d;
      std::memcpy(&d, b, 8);
      static_cast<float*>(samples)[got] = static_cast<float>(d);
    } else if (info->destination_alignment_bytes == 2) {
      static_cast<int16_t*>(samples)[got] = static_cast<int16_t>(Le16(b));
    } else {
      uint32_t v = 0;
      for (size_t i = 0; i < bytes; ++i) v |= uint32_t{b[i]} << (8 * (4 - bytes + i));
      static_cast<uint32_t*>(samples)[got] = v;
    }
  }
  if (got != num) info->remaining_samples = 0; else info->remaining_samples -= got;
  return got - got % info->num_channels;
}
static int WriteHeader(FILE* f, size_t n, int rate, int ch, int bytes) {
  if (f == nullptr || rate <= 0 || ch < 0 || (ch ? n % ch : n) != 0 || n > (0xffffffffu - 60) / bytes) return 0;
  if (Fault(kWavWriteHeader)) return 0;
  // Like the real library: 44 bytes for 16-bit audio, the 80-byte extensible
  // form with a fact chunk otherwise.
  uint8_t h[80] = {};
  auto le32 = [](uint8_t* p, uint32_t v) { for (int i = 0; i < 4; ++i) p[i] = v >> (8 * i); };
  auto le16 = [](uint8_t* p, uint32_t v) { p[0] = v; p[1] = v >> 8; };
  const bool ext = bytes > 2;
  const size_t size = ext ? 80 : 44;
  std::memcpy(h, "RIFF", 4);
  le32(h + 4, static_cast<uint32_t>(size - 8 + n * bytes));
  std::memcpy(h + 8, "WAVEfmt ", 8);
  le32(h + 16, ext ? 40 : 16);
  le16(h + 20, ext ? 0xfffe : 1);
  le16(h + 22, ch);
  le32(h + 24, rate);
  le32(h + 28, rate * ch * bytes);
  le16(h + 32, ch * bytes);
  le16(h + 34, 8 * bytes);
  if (ext) {
    static const uint8_t kGuid[14] = {0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xaa, 0, 0x38, 0x9b, 0x71};
    le16(h + 36, 22);
    le16(h + 38, 8 * bytes);
    le16(h + 44, 1);
    std::memcpy(h + 46, kGuid, 14);
    std::memcpy(h + 60, "fact", 4);
    le32(h + 64, 4);
    le32(h + 68, ch ? static_cast<uint32_t>(n / ch) : 0);
  }
  std::memcpy(h + size - 8, "data", 4);
  le32(h + size - 4, static_cast<uint32_t>(n * bytes));
  return std::fwrite(h, 1, size, f) == size;
}
int WriteWavHeader(FILE* f, size_t n, int r, int c) { return WriteHeader(f, n, r, c, 2); }
int WriteWavHeader24Bit(FILE* f, size_t n, int r, int c) { return WriteHeader(f, n, r, c, 3); }
int WriteWavHeader32Bit(FILE* f, size_t n, int r, int c) { return WriteHeader(f, n, r, c, 4); }
}  // extern "C"
