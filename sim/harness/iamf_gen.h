// An independent writer of IAMF bitstreams, with the model of what it wrote.
// Nothing here uses the repository's OBU classes: the bits follow the IAMF
// specification, so that what the repository reads can be judged.
#ifndef VERIF_HARNESS_IAMF_GEN_H_
#define VERIF_HARNESS_IAMF_GEN_H_
#include <array>
#include <cstdint>
#include <cstring>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "core.h"

namespace dst::gen {
using Bytes = std::vector<uint8_t>;
using Pcm = std::vector<std::vector<int32_t>>;  // (channel, time), left-justified

// Non-zero: the number of bytes of every ULEB128 value.
inline int fixed_leb = 0;
struct FixedLeb {
  explicit FixedLeb(int n) { fixed_leb = n; }
  ~FixedLeb() { fixed_leb = 0; }
};
struct BitW {
  Bytes b;
  uint64_t pad = 0;  // non-zero: some ULEB128 values get more bytes than needed
  int used = 0;      // bits used in the last byte (0: aligned)
  void Put(uint64_t v, int n) {
    while (n--) {
      if (used == 0) b.push_back(0);
      b.back() |= ((v >> n) & 1) << (7 - used);
      used = (used + 1) & 7;
    }
  }
  void Uleb(uint32_t v) {
    int extra = 0;
    if (pad) { pad = Ctx::Mix(pad); if (pad % 5 == 0) extra = 1 + pad / 5 % 3; }
    Bytes e;
    do { e.push_back(v & 127); v >>= 7; } while (v);
    while (extra-- && e.size() < 8) e.push_back(0);
    while (static_cast<int>(e.size()) < fixed_leb) e.push_back(0);
    for (size_t i = 0; i + 1 < e.size(); ++i) e[i] |= 128;
    Raw(e);
  }
  void Raw(const Bytes& r) { for (uint8_t x : r) Put(x, 8); }
  void Str(const std::string& s) { for (unsigned char x : s) Put(x, 8); Put(0, 8); }
};

// OBU types.
enum { kCodec = 0, kElement = 1, kMix = 2, kParam = 3, kDelim = 4, kFrame = 5, kFrame0 = 6, kMeta = 24, kReserved25 = 25, kSeq = 31 };

struct Obu {
  int type = 0;
  bool redundant = false, flag = false;
  std::optional<Bytes> ext;
  uint32_t trim_end = 0, trim_start = 0;
  Bytes payload;
  Bytes Write(uint64_t pad) const {
    BitW body;
    body.pad = pad;
    const bool trims = flag && type >= kFrame && type < kMeta;
    if (trims) { body.Uleb(trim_end); body.Uleb(trim_start); }
    if (ext) { body.Uleb(ext->size()); body.Raw(*ext); }
    body.Raw(payload);
    BitW w;
    w.pad = pad ? Ctx::Mix(pad + 1) : 0;
    w.Put(type, 5); w.Put(redundant, 1); w.Put(flag, 1); w.Put(ext.has_value(), 1);
    w.Uleb(body.b.size());
    w.Raw(body.b);
    return w.b;
  }
};

struct ParamDef {
  uint32_t type = 0;  // 0 mix gain, 1 demixing, 2 recon gain, 3.. positions, if any; other: opaque
  uint32_t id = 0, rate = 48000;
  int mode = 1, reserved = 0;
  uint32_t duration = 0, csd = 0;
  std::vector<uint32_t> sub;
  int16_t gain = 0;
  int dmode = 0, dres = 0, w = 0, wres = 0;
  Bytes ext;
  // The default position as the user gives it: polar, 8 bit or 16 bit
  // Cartesian coordinates, once or twice. Angles are carried clipped.
  std::vector<int> pos;
  void Write(BitW& o) const {
    if (type > 2 && pos.empty()) { o.Uleb(ext.size()); o.Raw(ext); return; }
    o.Uleb(id); o.Uleb(rate); o.Put(mode, 1); o.Put(reserved, 7);
    if (mode == 0) {
      o.Uleb(duration); o.Uleb(csd);
      if (csd == 0) { o.Uleb(sub.size()); for (uint32_t s : sub) o.Uleb(s); }
    }
    if (type == 0) o.Put(static_cast<uint16_t>(gain), 16);
    if (type == 1) { o.Put(dmode, 3); o.Put(dres, 5); o.Put(w, 4); o.Put(wres, 4); }
    for (size_t i = 0; i < pos.size(); ++i) {
      const int axis = i % 3, kind = (type - 3) % 3;  // 0 polar, 1 cart8, 2 cart16
      int v = pos[i];
      if (kind == 0 && axis < 2) { const int lim = axis == 0 ? 180 : 90; v = v < -lim ? -lim : v > lim ? lim : v; }
      const int bits = kind == 1 ? 8 : kind == 2 ? 16 : 9 - axis;
      o.Put(static_cast<uint32_t>(v) & ((1u << bits) - 1), bits);
    }
  }
};
inline std::vector<uint32_t> SubDurations(uint32_t duration, uint32_t csd, const std::vector<uint32_t>& sub) {
  if (csd == 0) return sub;
  std::vector<uint32_t> r;
  for (uint32_t left = duration; left;) { const uint32_t d = left < csd ? left : csd; r.push_back(d); left -= d; }
  return r;
}

constexpr uint32_t Tag(const char* t) { return uint32_t(uint8_t(t[0])) << 24 | uint32_t(uint8_t(t[1])) << 16 | uint32_t(uint8_t(t[2])) << 8 | uint8_t(t[3]); }
enum CodecKind { kLpcm, kFlac, kOpus, kAac };
constexpr uint32_t kAacRates[] = {96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350};

struct Codec {
  CodecKind kind = kLpcm;
  uint32_t id = 0, spf = 8, rate = 48000;
  int bits = 16;
  bool little = true;
  int flag_bits = 1;  // LPCM sample_format_flags as coded
  // Opus
  int opus_version = 1;
  uint16_t pre_skip = 312;
  uint32_t input_rate = 48000;
  // FLAC
  uint32_t min_frame = 0, max_frame = 0;
  uint64_t total = 0;
  Bytes md5 = Bytes(16, 0);
  std::vector<std::pair<int, Bytes>> blocks;  // further metadata blocks
  // AAC
  uint32_t buffer_size = 0, max_bitrate = 0, avg_bitrate = 0;
  int freq_idx = 3;
  Bytes aac_ext_inner, aac_ext_outer;

  uint32_t FourCc() const { return Tag(kind == kLpcm ? "ipcm" : kind == kFlac ? "fLaC" : kind == kOpus ? "Opus" : "mp4a"); }
  int Roll() const { return kind == kOpus ? -static_cast<int>((3840 + spf - 1) / spf) : kind == kAac ? -1 : 0; }
  bool Lossless() const { return kind == kLpcm || kind == kFlac; }
  Obu Write(uint64_t pad) const {
    BitW o;
    o.pad = pad;
    o.Uleb(id); o.Put(FourCc(), 32); o.Uleb(spf); o.Put(static_cast<uint16_t>(Roll()), 16);
    switch (kind) {
      case kLpcm: o.Put(flag_bits, 8); o.Put(bits, 8); o.Put(rate, 32); break;
      case kOpus:
        o.Put(opus_version, 8); o.Put(2, 8); o.Put(pre_skip, 16); o.Put(input_rate, 32); o.Put(0, 16); o.Put(0, 8);
        break;
      case kFlac:
        o.Put(blocks.empty(), 1); o.Put(0, 7); o.Put(34, 24);
        o.Put(spf, 16); o.Put(spf, 16); o.Put(min_frame, 24); o.Put(max_frame, 24);
        o.Put(rate, 20); o.Put(1, 3); o.Put(bits - 1, 5); o.Put(total, 36); o.Raw(md5);
        for (size_t i = 0; i < blocks.size(); ++i) {
          o.Put(i + 1 == blocks.size(), 1); o.Put(blocks[i].first, 7); o.Put(blocks[i].second.size(), 24); o.Raw(blocks[i].second);
        }
        break;
      case kAac: {
        BitW a;  // AudioSpecificConfig
        a.Put(2, 5); a.Put(freq_idx, 4); a.Put(2, 4); a.Put(0, 3);
        a.Raw(aac_ext_inner);
        BitW d;
        d.Put(0x40, 8); d.Put(5, 6); d.Put(0, 1); d.Put(1, 1); d.Put(buffer_size, 24); d.Put(max_bitrate, 32); d.Put(avg_bitrate, 32);
        d.Put(5, 8); d.Put(a.b.size(), 8); d.Raw(a.b);
        d.Raw(aac_ext_outer);
        o.Put(4, 8); o.Put(d.b.size(), 8); o.Raw(d.b);
        break;
      }
    }
    return {.type = kCodec, .payload = o.b};
  }
};

struct Layer {
  int layout = 1;  // loudspeaker_layout
  int expanded = 0;
  bool og = false, rg = false;
  int reserved = 0, substreams = 1, coupled = 1, og_flag = 0, og_res = 0;
  int16_t og_gain = 0;
};
struct Element {
  uint32_t id = 0, codec_id = 0;
  int type = 0;  // 0 channel, 1 scene, 2 object
  int reserved = 0;
  std::vector<uint32_t> substreams;
  std::vector<std::vector<std::string>> labels;  // per substream, channel-based only
  std::vector<ParamDef> params;
  std::vector<Layer> layers;
  int layers_res = 0;
  int ambi_mode = 0, ambi_out = 0, ambi_coupled = 0;
  std::vector<uint8_t> mapping;
  std::vector<int16_t> matrix;
  int num_objects = 1;
  Bytes ext;
  // Channels carried by substream i.
  int Channels(size_t i) const {
    if (type == 0) return labels[i].size();
    if (type == 1) return ambi_mode == 1 && static_cast<int>(i) < ambi_coupled ? 2 : 1;
    return num_objects;
  }
  int TotalChannels() const { int n = 0; for (size_t i = 0; i < substreams.size(); ++i) n += Channels(i); return n; }
  Obu Write(uint64_t pad) const {
    BitW o;
    o.pad = pad;
    o.Uleb(id); o.Put(type, 3); o.Put(reserved, 5); o.Uleb(codec_id); o.Uleb(substreams.size());
    for (uint32_t s : substreams) o.Uleb(s);
    o.Uleb(params.size());
    for (auto& p : params) { o.Uleb(p.type); p.Write(o); }
    if (type == 0) {
      o.Put(layers.size(), 3); o.Put(layers_res, 5);
      for (auto& l : layers) {
        o.Put(l.layout, 4); o.Put(l.og, 1); o.Put(l.rg, 1); o.Put(l.reserved, 2); o.Put(l.substreams, 8); o.Put(l.coupled, 8);
        if (l.og) { o.Put(l.og_flag, 6); o.Put(l.og_res, 2); o.Put(static_cast<uint16_t>(l.og_gain), 16); }
        if (l.layout == 15) o.Put(l.expanded, 8);
      }
    } else if (type == 1) {
      o.Uleb(ambi_mode); o.Put(ambi_out, 8); o.Put(substreams.size(), 8);
      if (ambi_mode == 1) { o.Put(ambi_coupled, 8); for (int16_t m : matrix) o.Put(static_cast<uint16_t>(m), 16); }
      else for (uint8_t m : mapping) o.Put(m, 8);
    } else if (type == 2) {
      o.Put(1 + ext.size(), 8); o.Put(num_objects, 8); o.Raw(ext);
    } else {
      o.Uleb(ext.size()); o.Raw(ext);
    }
    return {.type = kElement, .payload = o.b};
  }
};

struct MixElement {
  uint32_t id = 0;
  std::vector<std::string> labels;
  int mode = 0, profile = 0, res = 0;
  Bytes ext;         // what follows in the rendering config extension
  bool raw = false;  // `ext` is the whole extension
  std::vector<ParamDef> positions;
  int offset = -1;  // type of the element gain offset, if any
  std::vector<int16_t> offset_gain;
  Bytes offset_ext;
  ParamDef gain;
};
struct Loudness {
  int info = 0;
  int16_t integrated = 0, peak = 0, true_peak = 0;
  std::vector<std::pair<int, int16_t>> anchored;
  Bytes ext;
};
struct MixLayout {
  int type = 2, ss = 0, res = 0;
  Loudness loud;
};
struct SubMix {
  std::vector<MixElement> elements;
  ParamDef out_gain;
  std::vector<MixLayout> layouts;
};
struct Mix {
  uint32_t id = 0;
  std::vector<std::string> langs, labels;
  std::vector<SubMix> subs;
  bool has_tags = false;
  std::vector<std::pair<std::string, std::string>> tags;
  std::optional<Bytes> optional_fields;
  Obu Write(uint64_t pad) const {
    BitW o;
    o.pad = pad;
    o.Uleb(id); o.Uleb(langs.size());
    for (auto& s : langs) o.Str(s);
    for (auto& s : labels) o.Str(s);
    o.Uleb(subs.size());
    for (auto& s : subs) {
      o.Uleb(s.elements.size());
      for (auto& e : s.elements) {
        o.Uleb(e.id);
        for (auto& l : e.labels) o.Str(l);
        o.Put(e.mode, 2); o.Put(e.offset >= 0, 1); o.Put(e.profile, 2); o.Put(e.res, 3);
        BitW x;
        x.pad = pad;
        if (!e.raw && !(e.positions.empty() && e.offset < 0 && e.ext.empty())) {
          x.Uleb(e.positions.size());
          for (auto& p : e.positions) { x.Uleb(p.type); p.Write(x); }
          if (e.offset >= 0) {
            x.Put(e.offset, 8);
            for (int16_t g : e.offset_gain) x.Put(static_cast<uint16_t>(g), 16);
            if (e.offset > 1) { x.Uleb(e.offset_ext.size()); x.Raw(e.offset_ext); }
          }
        }
        x.Raw(e.ext);
        o.Uleb(x.b.size()); o.Raw(x.b);
        e.gain.Write(o);
      }
      s.out_gain.Write(o);
      o.Uleb(s.layouts.size());
      for (auto& l : s.layouts) {
        o.Put(l.type, 2);
        if (l.type == 2) { o.Put(l.ss, 4); o.Put(l.res & 3, 2); } else o.Put(l.res, 6);
        const Loudness& q = l.loud;
        o.Put(q.info, 8); o.Put(static_cast<uint16_t>(q.integrated), 16); o.Put(static_cast<uint16_t>(q.peak), 16);
        if (q.info & 1) o.Put(static_cast<uint16_t>(q.true_peak), 16);
        if (q.info & 2) { o.Put(q.anchored.size(), 8); for (auto& a : q.anchored) { o.Put(a.first, 8); o.Put(static_cast<uint16_t>(a.second), 16); } }
        if (q.info & ~3) { o.Uleb(q.ext.size()); o.Raw(q.ext); }
      }
    }
    if (has_tags) { o.Put(tags.size(), 8); for (auto& t : tags) { o.Str(t.first); o.Str(t.second); } }
    if (optional_fields) { o.Uleb(optional_fields->size()); o.Raw(*optional_fields); }
    return {.type = kMix, .flag = optional_fields.has_value(), .payload = o.b};
  }
};

struct Sub {  // one subblock of a parameter block
  uint32_t duration = 0;
  int anim = 0;
  int16_t start = 0, end = 0, control = 0;
  int rel = 0;
  int dmode = 0, dres = 0;
  std::vector<std::optional<std::pair<uint32_t, std::vector<uint8_t>>>> recon;  // per layer
};
struct Block {
  const ParamDef* def = nullptr;
  uint32_t duration = 0, csd = 0;
  std::vector<Sub> subs;
  Obu Write(uint64_t pad) const {
    BitW o;
    o.pad = pad;
    o.Uleb(def->id);
    if (def->mode == 1) { o.Uleb(duration); o.Uleb(csd); if (csd == 0) o.Uleb(subs.size()); }
    for (auto& s : subs) {
      if (def->mode == 1 && csd == 0) o.Uleb(s.duration);
      if (def->type == 0) {
        o.Uleb(s.anim); o.Put(static_cast<uint16_t>(s.start), 16);
        if (s.anim >= 1) o.Put(static_cast<uint16_t>(s.end), 16);
        if (s.anim == 2) { o.Put(static_cast<uint16_t>(s.control), 16); o.Put(s.rel, 8); }
      } else if (def->type == 1) {
        o.Put(s.dmode, 3); o.Put(s.dres, 5);
      } else {
        for (auto& l : s.recon) if (l) { o.Uleb(l->first); o.Raw(l->second); }
      }
    }
    return {.type = kParam, .payload = o.b};
  }
};

struct Frame {
  uint32_t substream = 0;
  const Element* element = nullptr;
  const Codec* codec = nullptr;
  uint32_t trim_start = 0, trim_end = 0;
  Pcm pcm;
  Bytes payload;
  Obu Write(uint64_t pad, bool explicit_id) const {
    Obu o;
    o.flag = trim_start || trim_end;
    o.trim_start = trim_start;
    o.trim_end = trim_end;
    if (substream < 18 && !explicit_id) { o.type = kFrame0 + substream; o.payload = payload; return o; }
    BitW w;
    w.pad = pad;
    w.Uleb(substream); w.Raw(payload);
    o.type = kFrame;
    o.payload = w.b;
    return o;
  }
};

// One OBU as it stands in the stream.
struct Piece {
  enum What { kDescriptor, kRedundant, kJunk, kTd, kBlock, kAudio } what;
  Bytes bytes;
  int tu = -1;        // temporal unit it belongs to
  int index = -1;     // into Stream::blocks / frames
};

struct Stream {
  int primary = 0, additional = 0;
  std::vector<Codec> codecs;
  std::vector<Element> elements;
  std::vector<Mix> mixes;
  std::vector<Block> blocks;
  std::vector<Frame> frames;
  std::vector<Piece> pieces;  // descriptors, then temporal units
  size_t num_descriptor_pieces = 0;
  int num_tus = 0;
  bool delimiters = false;

  const Codec& CodecOf(const Element& e) const {
    for (auto& c : codecs) if (c.id == e.codec_id) return c;
    return codecs[0];
  }
  Bytes Descriptors() const { Bytes b; for (size_t i = 0; i < num_descriptor_pieces; ++i) Add(b, pieces[i].bytes); return b; }
  Bytes Data() const { Bytes b; for (size_t i = num_descriptor_pieces; i < pieces.size(); ++i) Add(b, pieces[i].bytes); return b; }
  Bytes All() const { Bytes b = Descriptors(), d = Data(); Add(b, d); return b; }
  // Bytes of each temporal unit (pieces outside any unit go to the unit before).
  std::vector<Bytes> Tus() const {
    std::vector<Bytes> r(num_tus);
    for (size_t i = num_descriptor_pieces; i < pieces.size(); ++i) if (num_tus) Add(r[pieces[i].tu < 0 ? 0 : pieces[i].tu], pieces[i].bytes);
    return r;
  }
  static void Add(Bytes& b, const Bytes& x) { b.insert(b.end(), x.begin(), x.end()); }
};

// ------------------------------------------------------------- content ----
inline uint32_t Sum(const uint8_t* p, size_t n) {
  uint32_t h = 2166136261u;
  for (size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 16777619u;
  return h;
}
inline void Be(Bytes& b, uint32_t v, int n) { while (n--) b.push_back(v >> (8 * n)); }

inline Bytes CodedFrame(const Codec& k, const Pcm& p, uint32_t frame) {
  Bytes b;
  if (p.empty()) return b;
  if (k.kind == kLpcm) {
    const int n = k.bits / 8;
    for (size_t t = 0; t < p[0].size(); ++t)
      for (const auto& ch : p)
        for (int i = 0; i < n; ++i) b.push_back(static_cast<uint32_t>(ch[t]) >> (k.little ? 32 - k.bits + 8 * i : 24 - 8 * i));
    return b;
  }
  if (k.kind == kFlac) {
    b = {0xff, 0xf8};
    Be(b, p[0].size(), 2);
    b.push_back(p.size());
    b.push_back(k.bits);
    Be(b, frame, 4);
    Be(b, Sum(b.data(), b.size()) & 0xffff, 2);
    for (size_t t = 0; t < p[0].size(); ++t)
      for (const auto& ch : p) Be(b, static_cast<uint32_t>(ch[t] >> (32 - k.bits)), (k.bits + 7) / 8);
    Be(b, Sum(b.data(), b.size()), 4);
    return b;
  }
  Bytes pay;
  for (size_t t = 0; t < p[0].size(); ++t)
    for (const auto& ch : p) Be(pay, static_cast<uint32_t>(ch[t]) >> 16, 2);
  b = {static_cast<uint8_t>(k.kind == kOpus ? 'O' : 'A'), static_cast<uint8_t>(p.size())};
  Be(b, p[0].size(), 2);
  Be(b, Sum(pay.data(), pay.size()), 4);
  b.insert(b.end(), pay.begin(), pay.end());
  return b;
}

// A sample that identifies its place: stream, substream, channel and time.
inline int32_t Sample(uint64_t base, uint32_t substream, int ch, uint64_t t, int bits, int mode) {
  uint32_t v = static_cast<uint32_t>(Ctx::Mix(base ^ (uint64_t{substream} * 0x9e3779b1u + ch * 0x85ebca77u) ^ (t << 20)) >> 11);
  if (mode == 1) v = (v & 1) ? 0x7fffffffu : 0x80000000u;
  if (mode == 2) v = static_cast<uint32_t>(static_cast<int32_t>(v) >> 3);  // quiet enough to be mixed
  if (bits < 32) v &= ~0u << (32 - bits);
  return static_cast<int32_t>(v);
}

// -------------------------------------------------------------- layouts ---
// Channels of the loudspeaker layouts 0..9, in the order of their playback
// layout, and the coupled / non-coupled substreams that carry them.
struct LayoutInfo {
  int surround, lfe, height;
  int ss;  // sound system with the same channels; -1: binaural
  std::vector<std::string> order;
};
inline const LayoutInfo& Info(int layout) {
  static const std::vector<LayoutInfo>* t = new std::vector<LayoutInfo>{
      {1, 0, 0, 12, {"M"}},
      {2, 0, 0, 0, {"L", "R"}},
      {5, 1, 0, 1, {"L", "R", "C", "LFE", "Ls", "Rs"}},
      {5, 1, 2, 2, {"L", "R", "C", "LFE", "Ls", "Rs", "Ltf", "Rtf"}},
      {5, 1, 4, 3, {"L", "R", "C", "LFE", "Ls", "Rs", "Ltf", "Rtf", "Ltb", "Rtb"}},
      {7, 1, 0, 8, {"L", "R", "C", "LFE", "Lss", "Rss", "Lrs", "Rrs"}},
      {7, 1, 2, 10, {"L", "R", "C", "LFE", "Lss", "Rss", "Lrs", "Rrs", "Ltf", "Rtf"}},
      {7, 1, 4, 9, {"L", "R", "C", "LFE", "Lss", "Rss", "Lrs", "Rrs", "Ltf", "Rtf", "Ltb", "Rtb"}},
      {3, 1, 2, 11, {"L", "R", "C", "LFE", "Ltf", "Rtf"}},
      {2, 0, 0, -1, {"L", "R"}},
  };
  return (*t)[layout];
}
struct ExpandedInfo { std::vector<std::string> coupled, single; int profile; };
inline const ExpandedInfo& Expanded(int e) {
  static const std::vector<ExpandedInfo>* t = new std::vector<ExpandedInfo>{
      {{}, {"LFE"}, 2}, {{"Ls", "Rs"}, {}, 2}, {{"Lss", "Rss"}, {}, 2}, {{"Lrs", "Rrs"}, {}, 2}, {{"Ltf", "Rtf"}, {}, 2}, {{"Ltb", "Rtb"}, {}, 2},
      {{"Ltf", "Rtf", "Ltb", "Rtb"}, {}, 2}, {{"L", "R"}, {"C"}, 2},
      {{"FLc", "FRc", "FL", "FR", "SiL", "SiR", "BL", "BR", "TpFL", "TpFR", "TpSiL", "TpSiR", "TpBL", "TpBR"}, {"FC", "LFE"}, 2},
      {{"FL", "FR"}, {}, 2}, {{"SiL", "SiR"}, {}, 2}, {{"TpSiL", "TpSiR"}, {}, 2}, {{"TpFL", "TpFR", "TpSiL", "TpSiR", "TpBL", "TpBR"}, {}, 2},
      {{"FLc", "FRc", "FL", "FR", "SiL", "SiR", "BL", "BR", "TpFL", "TpFR", "TpSiL", "TpSiR", "TpBL", "TpBR", "BtFL", "BtFR"}, {"FC", "BC", "TpFC", "TpC", "TpBC", "BtFC", "LFE", "LFE2"}, 3},
      {{}, {"LFE", "LFE2"}, 3}, {{"BtFL", "BtFR"}, {"BtFC"}, 3},
      {{"L", "R", "Lss", "Rss", "Lrs", "Rrs", "Ltf", "Rtf", "Ltb", "Rtb", "BtFL", "BtFR", "BtBL", "BtBR"}, {"C", "TpC", "LFE"}, 3},
      {{"BtFL", "BtFR", "BtBL", "BtBR"}, {}, 3}, {{}, {"TpC"}, 3}, {{"Ltf", "Rtf", "Ltb", "Rtb"}, {"TpC"}, 3},
  };
  return (*t)[e];
}

// Adds the substreams of one layer to the element.
inline void AddLayer(Element& e, int layout, int expanded, uint32_t& next_id, const std::function<uint32_t()>& fresh) {
  Layer l;
  l.layout = layout;
  l.expanded = expanded;
  std::vector<std::string> c, s;
  if (layout == 15) {
    c = Expanded(expanded).coupled;
    s = Expanded(expanded).single;
  } else if (e.layers.empty()) {
    const auto& i = Info(layout);
    if (i.surround == 1) s = {"M"};
    else if (i.surround == 7) c = {"L", "R", "Lss", "Rss", "Lrs", "Rrs"};
    else if (i.surround == 5) c = {"L", "R", "Ls", "Rs"};
    else c = {"L", "R"};
    if (i.height >= 2) c.insert(c.end(), {"Ltf", "Rtf"});
    if (i.height == 4) c.insert(c.end(), {"Ltb", "Rtb"});
    if (i.surround >= 3) s.push_back("C");
    if (i.lfe) s.push_back("LFE");
  } else {
    const auto &a = Info(e.layers.back().layout), &b = Info(layout);
    for (int k = a.surround + 1; k <= b.surround; ++k) {
      if (k == 3) s.push_back("C");
      if (k == 5) c.insert(c.end(), {"L5", "R5"});
      if (k == 7) c.insert(c.end(), {"Lss", "Rss"});
    }
    if (b.height > a.height) {
      c.insert(c.end(), {"Ltf", "Rtf"});
      if (a.height == 0 && b.height == 4) c.insert(c.end(), {"Ltb", "Rtb"});
    }
    if (b.lfe > a.lfe) s.push_back("LFE");
    if (a.surround < 2 && b.surround >= 2) s.push_back("L2");
  }
  (void)next_id;
  for (size_t i = 0; i + 1 < c.size(); i += 2) { e.substreams.push_back(fresh()); e.labels.push_back({c[i], c[i + 1]}); }
  for (auto& x : s) { e.substreams.push_back(fresh()); e.labels.push_back({x}); }
  l.coupled = c.size() / 2;
  l.substreams = l.coupled + s.size();
  e.layers.push_back(l);
}

// ------------------------------------------------------------ generator ---
struct Knobs {
  bool decodable = true;     // a decoder for simple..base-enhanced plays every mix
  bool lossless = false;     // only LPCM and FLAC
  bool unity = false;        // no gain but 0 dB anywhere in mix 0
  bool plain_first = false;  // mix 0 plays one single-layer channel-based element
  bool encodable = false;    // can be described to the encoder; frames are drawn elsewhere
  bool junk = true;          // redundant copies, reserved OBUs, extensions, padding
  int max_tus = 5;
  uint32_t max_spf = 12;
};

inline std::string DrawString(Ctx& c) {
  static const char* kS[] = {"", "en-us", "a", "\"quoted\" \\ back", "tab\tnl\nbell\a", "na\xc3\xafve \xe2\x82\xac", "x y z",
                             "\x01\x02\x1f\x7f", "</script>", "long long long long long long long long long long long long long long label"};
  return kS[c.Pick(10)];
}
inline Bytes DrawBytes(Ctx& c, size_t n) {
  Bytes b(n);
  const uint64_t s = n ? c.Bits() : 0;
  for (size_t i = 0; i < n; ++i) b[i] = Ctx::Mix(s + i);
  return b;
}
inline int16_t DrawGain(Ctx& c) {
  static const int16_t kG[] = {0, -256, 256, -768, 128, -1536, 37, -32768, 32767, -3000};
  return kG[c.Weighted({6, 3, 2, 2, 2, 1, 1, 1, 0, 1})];
}

inline Codec DrawCodec(Ctx& c, const Knobs& k, uint32_t id) {
  Codec o;
  o.id = id;
  o.kind = static_cast<CodecKind>(k.lossless ? c.Weighted({3, 2}) : c.Weighted({4, 2, 2, 1}));
  switch (o.kind) {
    case kLpcm:
      o.spf = 1 + c.Pick(k.max_spf);
      if (c.Pick(10) == 9) o.spf = 1 + c.Pick(600);
      o.bits = c.OneOf<int>({16, 24, 32});
      o.rate = c.OneOf<uint32_t>({48000, 44100, 16000, 32000, 96000});
      o.little = c.Pick(2) == 0;
      o.flag_bits = o.little;
      break;
    case kFlac:
      o.spf = 16 + c.Pick(10);
      o.bits = c.OneOf<int>({16, 24, 32});
      o.rate = c.OneOf<uint32_t>({48000, 44100, 16000, 88200, 192000, 8000});
      if (c.Pick(2)) {
        o.total = c.Pick(3) == 2 ? 0xfffffffffull - c.Pick(4) : c.Pick(100000);
        if (!k.encodable) { o.min_frame = c.Pick(1 << 24); o.max_frame = c.Pick(1 << 24); o.md5 = DrawBytes(c, 16); }
        for (uint32_t n = c.Pick(3); n; --n) o.blocks.emplace_back(1 + (k.decodable ? c.Pick(6) : c.Pick(8) < 7 ? c.Pick(6) : c.Pick(126)), DrawBytes(c, c.Pick(40)));
      }
      break;
    case kOpus:
      o.spf = c.OneOf<uint32_t>({120, 240, 480});
      if (k.encodable) break;  // the encoder's own delay, no resampling
      o.pre_skip = c.OneOf<int>({312, 0, 3840, 1});
      o.input_rate = c.OneOf<uint32_t>({48000, 16000, 44100, 0});
      break;
    case kAac:
      o.spf = 1024;
      o.freq_idx = k.decodable ? c.OneOf<int>({3, 4, 8, 0}) : (3 + c.Pick(13)) % 13;
      o.rate = kAacRates[o.freq_idx];
      o.buffer_size = c.Pick(1 << 24);
      o.max_bitrate = c.Bits();
      o.avg_bitrate = c.Bits();
      if (k.encodable) break;
      if (c.Pick(4) == 3) o.aac_ext_inner = DrawBytes(c, c.Pick(5));
      if (c.Pick(4) == 3) o.aac_ext_outer = DrawBytes(c, c.Pick(5));
      break;
  }
  return o;
}

// Generates a stream. All pointers inside stay valid while it is not copied.
class Generator {
 public:
  Generator(Ctx& c, Knobs k) : c_(c), k_(k) {}
  void Run(Stream& s) {
    Descriptors(s);
    Units(s);
  }
  void Descriptors(Stream& s) {
    profile_ = k_.decodable ? static_cast<int>(c_.Weighted({1, 2, 3})) : static_cast<int>(c_.Pick(6));
    s.primary = profile_;
    s.additional = c_.Pick(3) == 2 ? c_.Pick(6) : profile_;
    sparse_ids_ = c_.Pick(3) == 2;
    s.codecs.push_back(DrawCodec(c_, k_, Id(0)));
    const bool second = !k_.decodable && c_.Pick(4) == 3;
    if (second) s.codecs.push_back(DrawCodec(c_, k_, Id(0)));
    if (k_.encodable && c_.Pick(4) == 3) {  // of another delay; the frames last as long
      Codec o;
      o.id = Id(0);
      o.kind = s.codecs[0].spf >= 16 && c_.Pick(2) ? kFlac : kLpcm;
      o.spf = s.codecs[0].spf;
      o.rate = s.codecs[0].kind == kOpus ? 48000 : s.codecs[0].rate;
      o.bits = c_.OneOf<int>({16, 24, 32});
      o.flag_bits = o.little = o.kind == kLpcm && c_.Pick(2);
      static const std::set<uint32_t> kLpcmRates = {16000, 32000, 44100, 48000, 96000};
      if (o.kind == kFlac || kLpcmRates.count(o.rate)) s.codecs.push_back(o);
      if (s.codecs.size() == 2 && c_.Pick(2)) std::swap(s.codecs[0], s.codecs[1]);
    }
    static const int kMaxEl[] = {1, 2, 3, 3, 3, 3};
    const int max_ch = profile_ == 0 ? 16 : profile_ == 1 || profile_ == 3 || profile_ == 4 ? 18 : 28;
    const int n_el = 1 + c_.Pick(k_.decodable ? 3 : 4);
    s.elements.reserve(n_el);
    for (int i = 0; i < n_el; ++i) s.elements.push_back(DrawElement(s, i, max_ch));
    const int n_mix = 1 + c_.Weighted({4, 2, 1});
    s.mixes.reserve(n_mix);
    for (int i = 0; i < n_mix; ++i) s.mixes.push_back(DrawMix(s, i, kMaxEl[profile_], max_ch));
    // Write.
    BitW q;
    q.Raw({'i', 'a', 'm', 'f', static_cast<uint8_t>(s.primary), static_cast<uint8_t>(s.additional)});
    std::vector<Obu> obus;
    obus.push_back({.type = kSeq, .payload = q.b});
    for (auto& x : s.codecs) obus.push_back(x.Write(Pad()));
    for (auto& x : s.elements) obus.push_back(x.Write(Pad()));
    for (auto& x : s.mixes) obus.push_back(x.Write(Pad()));
    for (size_t i = 0; i < obus.size(); ++i) {
      if (k_.junk && i && c_.Pick(12) == 11) s.pieces.push_back({Piece::kJunk, Junk().Write(0)});
      if (k_.junk && obus[i].type != kMix && c_.Pick(12) == 11) obus[i].payload = Extended(obus[i].payload);
      if (k_.junk && c_.Pick(12) == 11) obus[i].ext = DrawBytes(c_, c_.Pick(9));
      s.pieces.push_back({Piece::kDescriptor, obus[i].Write(Pad())});
      if (k_.junk) { Obu r = obus[i]; r.redundant = true; redundant_.push_back(r.Write(0)); }
    }
    s.num_descriptor_pieces = s.pieces.size();
  }
  void Units(Stream& s) {
    s.num_tus = c_.Pick(8) == 7 ? 0 : 1 + c_.Pick(k_.max_tus);
    s.delimiters = c_.Pick(3) == 2;
    const uint64_t base = c_.Bits();
    content_ = c_.Pick(4);
    // Which parameters get a block in every unit.
    std::vector<const ParamDef*> with_blocks;
    std::set<uint32_t> seen;
    auto consider = [&](const ParamDef& p) {
      if (p.type > 2 || !seen.insert(p.id).second) return;
      // One block per unit: the definition must last exactly one unit.
      if (c_.Pick(2) == 1) with_blocks.push_back(&p);
    };
    for (auto& e : s.elements) for (auto& p : e.params) consider(p);
    for (auto& m : s.mixes) for (auto& b : m.subs) { for (auto& e : b.elements) consider(e.gain); consider(b.out_gain); }
    size_t n_frames = 0;
    for (auto& e : s.elements) n_frames += e.substreams.size();
    s.frames.reserve(n_frames * s.num_tus);
    s.blocks.reserve(with_blocks.size() * s.num_tus);
    // Trims: whole units may vanish at either end.
    const uint32_t spf = s.codecs[0].spf;
    uint32_t cut_start = 0, cut_end = 0;
    if (s.num_tus && c_.Pick(3) == 2) {
      cut_start = c_.Pick(4) == 3 ? c_.Pick(spf * 2 + 1) : c_.Pick(spf);
      cut_end = c_.Pick(4) == 3 ? c_.Pick(spf * 2 + 1) : c_.Pick(spf);
      const uint64_t total = uint64_t{spf} * s.num_tus;
      if (uint64_t{cut_start} + cut_end > total) cut_end = cut_start = 0;
    }
    for (int t = 0; t < s.num_tus; ++t) {
      if (s.delimiters) s.pieces.push_back({Piece::kTd, Obu{.type = kDelim}.Write(Pad()), t});
      if (k_.junk && c_.Pick(10) == 9) for (auto& r : redundant_) s.pieces.push_back({Piece::kRedundant, r, t});
      MaybeJunk(s, t);
      for (const ParamDef* p : with_blocks) {
        s.blocks.push_back(DrawBlock(s, *p));
        Obu o = s.blocks.back().Write(Pad());
        MaybeExt(o);
        s.pieces.push_back({Piece::kBlock, o.Write(Pad()), t, static_cast<int>(s.blocks.size()) - 1});
        MaybeJunk(s, t);
      }
      // Frames of a unit may come in any order; the same trims on all.
      std::vector<std::pair<const Element*, size_t>> order;
      for (auto& e : s.elements) for (size_t i = 0; i < e.substreams.size(); ++i) order.emplace_back(&e, i);
      if (c_.Pick(4) == 3) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[c_.Pick(i)]);
      for (auto& [e, i] : order) {
        Frame f;
        f.substream = e->substreams[i];
        f.element = e;
        f.codec = &s.CodecOf(*e);
        const int64_t t0 = int64_t{t} * spf, end = int64_t{spf} * s.num_tus;
        f.trim_start = std::clamp<int64_t>(int64_t{cut_start} - t0, 0, spf);
        f.trim_end = std::clamp<int64_t>(t0 + spf - (end - cut_end), 0, spf);
        const int ch = e->Channels(i);
        f.pcm.assign(ch, std::vector<int32_t>(f.codec->spf));
        for (int x = 0; x < ch; ++x)
          for (uint32_t n = 0; n < f.codec->spf; ++n)
            f.pcm[x][n] = Sample(base, f.substream, x, uint64_t(t) * f.codec->spf + n, f.codec->Lossless() ? f.codec->bits : 16, content_);
        f.payload = CodedFrame(*f.codec, f.pcm, t);
        s.frames.push_back(f);
        Obu o = f.Write(Pad(), k_.junk && c_.Pick(8) == 7);
        MaybeExt(o);
        s.pieces.push_back({Piece::kAudio, o.Write(Pad()), t, static_cast<int>(s.frames.size()) - 1});
        MaybeJunk(s, t);
      }
    }
  }

  Block DrawBlock(const Stream& s, const ParamDef& p) {
    Block b;
    b.def = &p;
    std::vector<uint32_t> sub;
    if (p.mode == 0) {
      b.duration = p.duration;
      b.csd = p.csd;
      sub = SubDurations(p.duration, p.csd, p.sub);
    } else {
      b.duration = s.codecs[0].spf;
      DrawSplit(b.duration, b.csd, sub);
      sub = SubDurations(b.duration, b.csd, sub);
    }
    for (uint32_t d : sub) {
      Sub x;
      x.duration = d;
      if (p.type == 0) {
        x.anim = c_.Pick(3);
        if (!k_.unity) { x.start = DrawGain(c_); x.end = DrawGain(c_); x.control = DrawGain(c_); }
        x.rel = c_.Pick(256);
      } else if (p.type == 1) {
        x.dmode = c_.OneOf<int>({0, 1, 2, 4, 5, 6});
        x.dres = (k_.junk || k_.encodable) && c_.Pick(8) == 7 ? c_.Pick(32) : 0;
      } else {
        for (auto& e : s.elements) {
          bool mine = false;
          for (auto& q : e.params) mine |= &q == &p;
          if (!mine) continue;
          for (auto& l : e.layers) {
            if (!l.rg) { x.recon.emplace_back(); continue; }
            const uint32_t flag = c_.Pick(1 << 12);
            std::vector<uint8_t> v;
            for (int bit = 0; bit < 12; ++bit) if (flag >> bit & 1) v.push_back(c_.Pick(256));
            x.recon.emplace_back(std::make_pair(flag, v));
          }
        }
      }
      b.subs.push_back(x);
    }
    return b;
  }

 private:
  uint32_t Id(int kind) {
    auto& used = used_[kind];
    uint32_t v = used.size();
    if (sparse_ids_) v = c_.Pick(3) == 2 ? 0xffffffffu - c_.Pick(1000) : c_.Pick(300);
    while (!used.insert(v).second) ++v;
    return v;
  }
  uint64_t Pad() { return k_.junk && c_.Pick(10) == 9 ? 1 + c_.Bits() : 0; }
  Obu Junk() {
    Obu o;
    o.type = k_.decodable || c_.Pick(2) ? kReserved25 + static_cast<int>(c_.Pick(6)) : kMeta;
    o.payload = DrawBytes(c_, c_.Pick(20));
    if (c_.Pick(4) == 3) o.ext = DrawBytes(c_, c_.Pick(5));
    return o;
  }
  void MaybeJunk(Stream& s, int t) {
    if (k_.junk && c_.Pick(16) == 15) s.pieces.push_back({Piece::kJunk, Junk().Write(0), t});
  }
  void MaybeExt(Obu& o) { if (k_.junk && c_.Pick(12) == 11) o.ext = DrawBytes(c_, c_.Pick(9)); }
  // Bytes a future version might append to a descriptor are to be ignored.
  Bytes Extended(const Bytes& p) { Bytes r = p, x = DrawBytes(c_, 1 + c_.Pick(6)); r.insert(r.end(), x.begin(), x.end()); return r; }

  ParamDef DrawDef(uint32_t type, const Codec& codec) {
    ParamDef p;
    p.type = type;
    p.id = Id(3);
    p.rate = codec.kind == kOpus ? 48000 : codec.rate;
    if (!k_.decodable && c_.Pick(4) == 3) p.rate = 1 + c_.Pick(1000000);
    p.reserved = (k_.junk || k_.encodable) && c_.Pick(8) == 7 ? c_.Pick(128) : 0;
    p.mode = type == 1 || type == 2 ? 0 : 1 - c_.Pick(2);
    if (p.mode == 0) {
      p.duration = codec.spf;
      if (type == 1 || type == 2) p.csd = codec.spf;
      else DrawSplit(codec.spf, p.csd, p.sub);
    }
    if (type > 2) {
      for (uint32_t n = type > 5 ? 2 : 1; n; --n)
        switch ((type - 3) % 3) {
          case 0: p.pos.push_back(static_cast<int>(c_.Pick(512)) - 256); p.pos.push_back(static_cast<int>(c_.Pick(256)) - 128); p.pos.push_back(c_.Pick(128));
            if (k_.encodable && c_.Pick(4) == 3) p.pos[p.pos.size() - 3] *= 301, p.pos[p.pos.size() - 2] *= 301;
            break;
          case 1: for (int i = 0; i < 3; ++i) p.pos.push_back(static_cast<int8_t>(c_.Pick(256))); break;
          default: for (int i = 0; i < 3; ++i) p.pos.push_back(static_cast<int16_t>(c_.Pick(65536))); break;
        }
    }
    if (type == 0) p.gain = k_.unity ? 0 : DrawGain(c_);
    if (type == 1) { p.dmode = c_.OneOf<int>({0, 1, 2, 4, 5, 6}); p.w = c_.Pick(11); if ((k_.junk || k_.encodable) && c_.Pick(8) == 7) { p.dres = c_.Pick(32); p.wres = c_.Pick(16); } }
    return p;
  }
  void DrawSplit(uint32_t total, uint32_t& csd, std::vector<uint32_t>& sub) {
    csd = total;
    sub.clear();
    if (total > 1 && c_.Pick(2)) csd = 1 + c_.Pick(total - 1);
    if (csd != total && (total + csd - 1) / csd > 20) csd = (total + 19) / 20;
    if (c_.Pick(3) == 2) {  // explicit subblock durations
      csd = 0;
      uint32_t left = total;
      while (left && sub.size() < 6) { const uint32_t d = 1 + c_.Pick(left); sub.push_back(d); left -= d; }
      if (left) sub.push_back(left);
      if (sub.size() == 1) { csd = 0; }
    }
  }
  Element DrawElement(const Stream& s, int index, int max_ch) {
    Element e;
    e.id = Id(1);
    const Codec& codec = s.codecs[index % s.codecs.size()];
    e.codec_id = codec.id;
    e.reserved = (k_.junk || k_.encodable) && c_.Pick(8) == 7 ? c_.Pick(32) : 0;
    const bool plain = k_.plain_first && index == 0;
    uint32_t unused = 0;
    auto fresh = [this] { return Id(2); };
    const int kind = plain ? 0 : c_.Weighted({4, 2, 1, 2, 1});
    auto fits = [&](int layout) { return static_cast<int>(Info(layout).order.size()) <= max_ch; };
    if (kind == 0 || (kind == 3 && profile_ < 2)) {  // single layer
      int l = c_.OneOf<int>({1, 0, 2, 3, 4, 5, 6, 7, 8, 9});
      if (!fits(l)) l = 1;
      AddLayer(e, l, 0, unused, fresh);
    } else if (kind == 1) {  // scalable
      static const std::vector<std::vector<int>> kChains = {{1, 2}, {1, 5}, {0, 1}, {1, 2, 7}, {1, 8, 4}, {8, 3, 7}, {2, 3}, {0, 1, 2, 4}, {1, 8, 2 + 1, 6}, {1, 1}};
      for (int l : c_.OneOf(kChains)) AddLayer(e, l, 0, unused, fresh);
      if (k_.encodable) {  // the encoder wants them exactly where they are of use
        if (!codec.Lossless()) {
          e.params.push_back(DrawDef(2, codec));
          for (size_t i = 1; i < e.layers.size(); ++i) e.layers[i].rg = true;
        }
      } else if (codec.Lossless() == false || c_.Pick(3) == 2)
        if (c_.Pick(2)) {
          e.params.push_back(DrawDef(2, codec));
          bool any = false;
          for (size_t i = 1; i < e.layers.size(); ++i) any |= e.layers[i].rg = c_.Pick(3) != 2;
          if (!any) e.layers.back().rg = true;
        }
      if (k_.encodable || c_.Pick(3) != 2) e.params.push_back(DrawDef(1, codec));
    } else if (kind == 2 || (!k_.decodable && kind == 4 && c_.Pick(2))) {
      if (kind == 4) {
        e.type = 2;
        e.num_objects = 1 + c_.Pick(2);
        e.substreams.push_back(Id(2));
        e.ext = DrawBytes(c_, c_.Pick(4));
      } else {
        DrawAmbisonics(e, max_ch);
      }
    } else if (kind == 3) {
      const int x = c_.Pick(k_.decodable ? 13 : 20);
      AddLayer(e, 15, x, unused, fresh);
    } else {
      DrawAmbisonics(e, max_ch);
    }
    for (auto& l : e.layers) {
      if (!k_.unity && c_.Pick(4) == 3) { l.og = true; l.og_flag = c_.Pick(64); l.og_gain = DrawGain(c_); }
      if ((k_.junk || k_.encodable) && c_.Pick(10) == 9) { l.reserved = c_.Pick(4); l.og_res = c_.Pick(4); }
    }
    if ((k_.junk || k_.encodable) && c_.Pick(10) == 9) e.layers_res = c_.Pick(32);
    if ((k_.junk || k_.encodable) && c_.Pick(8) == 7) { ParamDef p; p.type = k_.encodable ? 0xffffffffu : 9 + c_.Pick(5); p.ext = DrawBytes(c_, c_.Pick(9)); e.params.push_back(p); }
    return e;
  }
  void DrawAmbisonics(Element& e, int max_ch) {
    e.type = 1;
    e.ambi_mode = c_.Pick(2);
    const int n = c_.Weighted({3, 2, 2, 1});
    e.ambi_out = (n + 1) * (n + 1);
    if (e.ambi_out > max_ch) e.ambi_out = 4;
    if (e.ambi_mode == 0) {
      // Every substream is used at least once; some channels may be missing.
      const int subs = c_.Pick(3) == 2 ? 1 + c_.Pick(e.ambi_out) : e.ambi_out;
      std::vector<uint8_t> m;
      for (int i = 0; i < subs; ++i) m.push_back(i);
      while (static_cast<int>(m.size()) < e.ambi_out) m.push_back(k_.encodable || c_.Pick(2) ? 255 : c_.Pick(subs));
      if (c_.Pick(2)) for (size_t i = m.size(); i > 1; --i) std::swap(m[i - 1], m[c_.Pick(i)]);
      e.mapping = m;
      for (int i = 0; i < subs; ++i) e.substreams.push_back(Id(2));
    } else {
      const int total = e.ambi_out;
      int coupled = c_.Pick(total / 2 + 1), single = total - 2 * coupled;
      if (c_.Pick(3) == 2) { coupled = c_.Pick(total / 2 + 1); single = coupled ? c_.Pick(total - 2 * coupled + 1) : 1; }
      e.ambi_coupled = coupled;
      for (int i = 0; i < coupled + single; ++i) e.substreams.push_back(Id(2));
      const int in = 2 * coupled + single;
      const uint64_t seed = c_.Bits();
      const int kind = c_.Pick(2);
      for (int i = 0; i < in; ++i)
        for (int o = 0; o < e.ambi_out; ++o)
          e.matrix.push_back(kind == 0 ? (i == o ? 32767 : 0) : static_cast<int16_t>(Ctx::Mix(seed + i * 64 + o)) / 4);
    }
  }
  Mix DrawMix(const Stream& s, int index, int max_el, int max_ch) {
    Mix m;
    m.id = Id(4);
    for (uint32_t n = c_.Pick(3); n; --n) { m.langs.push_back("lang" + std::to_string(n) + (c_.Pick(4) == 3 ? DrawString(c_) : "")); m.labels.push_back(DrawString(c_)); }
    const int n_sub = k_.decodable ? 1 : 1 + static_cast<int>(c_.Weighted({4, 1}));
    // Elements are used once per mix at most.
    std::vector<int> pool;
    for (size_t i = 0; i < s.elements.size(); ++i) pool.push_back(i);
    for (size_t i = pool.size(); i > 1; --i) if (!(k_.plain_first && index == 0)) std::swap(pool[i - 1], pool[c_.Pick(i)]);
    int channels = 0;
    for (int b = 0; b < n_sub && !pool.empty(); ++b) {
      SubMix sub;
      int n_el = 1 + c_.Weighted({3, 2, 1});
      if (k_.plain_first && index == 0) n_el = 1;
      for (int i = 0; i < n_el && !pool.empty(); ++i) {
        const Element& e = s.elements[pool.front()];
        if (!sub.elements.empty() && (channels + e.TotalChannels() > max_ch || static_cast<int>(sub.elements.size()) >= max_el)) break;
        if (!sub.elements.empty() && e.codec_id != FindElement(s, sub.elements[0].id).codec_id) break;
        pool.erase(pool.begin());
        channels += e.TotalChannels();
        MixElement x;
        x.id = e.id;
        for (size_t n = 0; n < m.langs.size(); ++n) x.labels.push_back(DrawString(c_));
        x.mode = c_.Pick(k_.decodable ? 2 : 4);
        x.profile = c_.Pick(4);
        DrawRendering(x, s.CodecOf(e));
        x.gain = DrawDef(0, s.CodecOf(e));
        sub.elements.push_back(x);
      }
      sub.out_gain = DrawDef(0, s.CodecOf(FindElement(s, sub.elements[0].id)));
      std::set<int> have;
      const int n_layouts = 1 + c_.Pick(3);
      for (int i = 0; i < n_layouts; ++i) {
        MixLayout l;
        int v = i == 0 && (k_.encodable || c_.Pick(5) != 4) ? 0 : static_cast<int>(c_.Pick(k_.decodable ? 15 : 19));  // 14: binaural
        if (!have.insert(v).second) continue;
        if (v == 14) l.type = 3;
        else if (v == 18) l.ss = 14;
        else if (v > 14) { l.type = v - 15 == 2 ? 2 : v - 15; l.ss = 15; }
        else l.ss = v;
        if (l.type < 2) l.ss = 0;
        if ((k_.junk || k_.encodable) && c_.Pick(8) == 7) l.res = c_.Pick(l.type == 2 ? 4 : 64);
        DrawLoudness(l.loud);
        sub.layouts.push_back(l);
      }
      m.subs.push_back(sub);
    }
    if (c_.Pick(4) == 3) {
      m.has_tags = true;
      for (uint32_t n = c_.Pick(3); n; --n) m.tags.emplace_back("tag" + std::to_string(n), DrawString(c_));
      if (c_.Pick(3) == 2) m.tags.emplace_back("content_language", c_.OneOf<const char*>({"eng", "und", "qaa"}));
      if (c_.Pick(3) == 2) {
        m.optional_fields = Bytes{};
        for (int i = 0; i < 2; ++i) m.optional_fields->push_back(k_.encodable ? 255 * c_.Pick(2) : c_.Pick(256));
        const Bytes rest = DrawBytes(c_, c_.Pick(5));
        m.optional_fields->insert(m.optional_fields->end(), rest.begin(), rest.end());
      }
    }
    return m;
  }
  void DrawRendering(MixElement& x, const Codec& codec) {
    if (c_.Pick(6) != 5) return;
    if (k_.junk || k_.encodable) { x.res = c_.Pick(8); x.ext = DrawBytes(c_, c_.Pick(7)); }
    if (k_.junk && c_.Pick(3) == 2) {
      x.raw = true;
      if (x.ext.empty()) return;
      // The extension opens with a number of parameter definitions: none, or
      // one of a kind to come, when all of it is to be skipped.
      x.ext[0] = 0;
      if (c_.Pick(2)) { const Bytes b = DrawBytes(c_, c_.Pick(5)); x.ext = {1, static_cast<uint8_t>(9 + c_.Pick(60)), static_cast<uint8_t>(b.size())}; x.ext.insert(x.ext.end(), b.begin(), b.end()); }
      x.offset = x.ext[0] && c_.Pick(2) ? 0 : -1;
      return;
    }
    for (uint32_t n = c_.Pick(3); n; --n) x.positions.push_back(DrawDef(3 + c_.Pick(6), codec));
    switch (c_.Pick(4)) {
      case 1: x.offset = 0; x.offset_gain = {DrawGain(c_)}; break;
      case 2: {
        x.offset = 1;
        std::vector<int16_t> g;
        for (int i = 0; i < 3; ++i) g.push_back(DrawGain(c_));
        std::sort(g.begin(), g.end());
        x.offset_gain = {g[1], g[0], g[2]};
        break;
      }
      case 3:
        if (k_.encodable) break;
        x.offset = 2 + c_.Pick(254);
        x.offset_ext = DrawBytes(c_, c_.Pick(6));
        break;
    }
  }
  void DrawLoudness(Loudness& q) {
    q.integrated = static_cast<int16_t>(c_.Pick(65536));
    q.peak = static_cast<int16_t>(c_.Pick(65536));
    q.info = c_.Pick(2) ? c_.Pick(4) : 0;
    if ((k_.junk || k_.encodable) && c_.Pick(8) == 7) { q.info |= (1 + c_.Pick(63)) << 2; q.ext = DrawBytes(c_, c_.Pick(6)); }
    if (q.info & 1) q.true_peak = static_cast<int16_t>(c_.Pick(65536));
    if (q.info & 2) for (uint32_t n = c_.Pick(4), i = 0; i < n; ++i) q.anchored.emplace_back(k_.encodable ? c_.Pick(3) : c_.Pick(2) ? i : 3 - i % 3 + 3 * i, static_cast<int16_t>(c_.Pick(65536)));
    std::set<int> seen;
    std::vector<std::pair<int, int16_t>> u;
    for (auto& a : q.anchored) if (seen.insert(a.first).second) u.push_back(a);
    q.anchored = u;
  }
  static const Element& FindElement(const Stream& s, uint32_t id) {
    for (auto& e : s.elements) if (e.id == id) return e;
    return s.elements[0];
  }

  Ctx& c_;
  const Knobs k_;
  int profile_ = 0, content_ = 0;
  bool sparse_ids_ = false;
  std::map<int, std::set<uint32_t>> used_;
  std::vector<Bytes> redundant_;
};
}  // namespace dst::gen
#endif
