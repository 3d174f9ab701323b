// A01: ADM (BW64) files are read, split and converted faithfully or refused.
#include <cmath>
#include <cstdlib>
#include <filesystem>
#include <istream>
#include <map>
#include <memory>

#include "core.h"
#include "iamf/cli/adm_to_user_metadata/adm/adm_elements.h"
#include "iamf/cli/adm_to_user_metadata/adm/bw64_reader.h"
#include "iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.h"
#include "iamf/cli/adm_to_user_metadata/app/adm_to_user_metadata_main_lib.h"
#include "iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.h"
#include "iamf/cli/proto/user_metadata.pb.h"
#include "iamf/obu/ia_sequence_header.h"
#include "wav_model.h"

namespace dst {
namespace {
namespace adm = iamf_tools::adm_to_user_metadata;
using iamf_tools::ProfileVersion;

struct Rng {
  uint64_t s;
  uint64_t Next() { return s = Ctx::Mix(s); }
  uint32_t operator()(uint32_t n) { return n ? (Next() >> 20) % n : 0; }
};

// ------------------------------------------------------------ the storage --
// A virtual file: pieces of content, zeros elsewhere. Reads in blocks, and
// fails, or shrinks, at a drawn operation.
struct VirtualFile {
  std::map<uint64_t, Bytes> pieces;
  uint64_t size = 0;
  void Append(const Bytes& b) { if (!b.empty()) pieces[size] = b; size += b.size(); }
  void Skip(uint64_t n) { size += n; }
  uint8_t At(uint64_t at) const {
    auto it = pieces.upper_bound(at);
    if (it == pieces.begin()) return 0;
    --it;
    return at - it->first < it->second.size() ? it->second[at - it->first] : 0;
  }
};

enum StreamFault { kNone, kThrow, kSeekFails, kShrink };

class SimBuf : public std::streambuf {
 public:
  SimBuf(const VirtualFile& f, size_t block, bool past_end) : f_(f), size_(f.size), block_(block), past_end_(past_end), buf_(block) {}
  StreamFault fault = kNone;
  int64_t fault_at = -1;
  uint64_t shrink_to = 0;
  bool hit = false;
  int64_t ops = 0;

 protected:
  int_type underflow() override {
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    Op();
    if (Now(kThrow)) throw std::ios_base::failure("simulated read error");
    if (pos_ >= size_) return traits_type::eof();
    const size_t n = std::min<uint64_t>(block_, size_ - pos_);
    for (size_t i = 0; i < n; ++i) buf_[i] = f_.At(pos_ + i);
    start_ = pos_;
    pos_ += n;
    setg(buf_.data(), buf_.data(), buf_.data() + n);
    return traits_type::to_int_type(*gptr());
  }
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override {
    const off_type here = pos_ - (egptr() - gptr());
    if (dir == std::ios_base::cur && off == 0) return here;  // tell
    Op();
    if (Now(kSeekFails)) return -1;
    const off_type to = off + (dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? here : (off_type)size_);
    if (to < 0 || (!past_end_ && (uint64_t)to > size_)) return -1;
    pos_ = to;
    setg(nullptr, nullptr, nullptr);
    return to;
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }

 private:
  void Op() {
    if (ops++ == fault_at && fault == kShrink && shrink_to < size_) { size_ = shrink_to; hit = true; }
  }
  bool Now(StreamFault k) {
    if (fault != k || ops - 1 < fault_at || hit) return false;
    return hit = true;
  }
  const VirtualFile& f_;
  uint64_t size_, pos_ = 0, start_ = 0;
  size_t block_;
  bool past_end_;
  std::vector<char> buf_;
};

// -------------------------------------------------------------- the model --
struct Layout { const char* pack; int channels; int substreams; };
const Layout kLayouts[] = {{"AP_00010001", 1, 1}, {"AP_00010002", 2, 1}, {"AP_00010003", 6, 4}, {"AP_00010004", 8, 5},
                           {"AP_00010005", 10, 6}, {"AP_0001000f", 8, 5}, {"AP_00010017", 12, 7}, {"AP_00050001", 2, 1},
                           {"AP_00040001", 4, 4}, {"AP_00040002", 9, 9}, {"AP_00040003", 16, 16}};

std::string Escape(const std::string& s) {
  std::string o;
  for (char ch : s) {
    if (ch == '&') o += "&amp;";
    else if (ch == '<') o += "&lt;";
    else if (ch == '>') o += "&gt;";
    else if (ch == '"') o += "&quot;";
    else if (ch == '\'') o += "&apos;";
    else o += ch;
  }
  return o;
}

// Writes XML with the freedom the format allows.
struct Xml {
  Rng r;
  int variety;  // 0: plain
  std::string Ws() {
    if (!variety) return "";
    static const char* k[] = {"", "\n", "\n    ", "  ", "\t", "<!-- comment <a> & more -->", "\r\n"};
    return k[r(7)];
  }
  // Text content equal to `s`.
  std::string Text(const std::string& s) {
    if (variety == 0) return Escape(s);
    std::string o;
    for (size_t i = 0; i < s.size();) {
      const uint32_t k = r(variety > 1 ? 6 : 40);
      size_t n = 1 + r(4);
      while (i + n < s.size() && (s[i + n] & 0xc0) == 0x80) ++n;  // keep UTF-8 sequences whole
      const std::string part = s.substr(i, n);
      i += part.size();
      if (k == 0 && (part[0] & 0x80) == 0) {
        o += Fmt(r(2) ? "&#%d;" : "&#x%x;", part[0]) + Escape(part.substr(1));
      } else if (k == 1 && part.find("]") == std::string::npos) {
        o += "<![CDATA[" + part + "]]>";
      } else if (k == 2) {
        o += "<!-- x -->" + Escape(part);
      } else {
        o += Escape(part);
      }
    }
    return o;
  }
  std::string Attrs(std::vector<std::pair<std::string, std::string>> a) {
    if (variety)
      for (size_t i = a.size(); i > 1; --i) std::swap(a[i - 1], a[r(i)]);
    std::string o;
    for (auto& [k, v] : a) {
      const char q = variety && r(2) ? '\'' : '"';
      o += (variety && r(3) == 0 ? "\n " : " ") + k + "=" + q + Escape(v) + q;
    }
    return o;
  }
  std::string Leaf(const std::string& tag, const std::string& text, const std::string& attrs = "") {
    return Ws() + "<" + tag + attrs + ">" + Text(text) + "</" + tag + ">" + Ws();
  }
  std::string Number(const std::string& tag, const std::string& text, const std::string& attrs = "") {
    const bool pad = variety && r(3) == 0;
    return Ws() + "<" + tag + attrs + ">" + (pad ? "\n   " : "") + Text(text) + (pad ? "\n " : "") + "</" + tag + ">" + Ws();
  }
  std::string Open(const std::string& tag, const std::vector<std::pair<std::string, std::string>>& a) {
    return Ws() + "<" + tag + Attrs(a) + ">" + Ws();
  }
};

struct Case {
  adm::ADM adm;        // as the XML says, before removal of objects
  std::vector<std::vector<std::string>> groups;  // top-level elements per kind
  std::string xml;
  bool dolby = false;
  int channels = 0, bits = 16, rate = 48000;
  uint64_t ticks = 0;
  Bytes data;
  bool has_block_gain = false;
};

std::string RandomText(Rng& r, int style) {
  static const char* k[] = {"a", "B", "7", "_", " ", "&", "<", ">", "\"", "'", "\xc3\xa9", "\xe6\x97\xa5", ":", "-", ".", "]"};
  std::string s = "n";
  const uint32_t n = style == 2 ? 200 + r(3000) : r(style ? 24 : 8);
  for (uint32_t i = 0; i < n; ++i) s += style ? k[r(16)] : k[r(4)];
  return s;
}

// A multiple of 1/256 that Q7.8 can hold, as text.
std::string Q78Text(Rng& r, float* v) {
  const int q = static_cast<int>(r(4) ? r(4096) : r(65536)) - (r(2) ? 2048 : 0);
  const int qq = std::min(32767, std::max(-32768, q));
  *v = qq / 256.0f;
  return Fmt(r(2) ? "%.8f" : "%.12g", *v);
}

std::string TimeText(uint64_t micro10, adm::BlockTime* t) {  // in units of 10 us
  const int h = micro10 / 360000000, m = micro10 / 6000000 % 60;
  const std::string sec = Fmt("%02d.%05d", int(micro10 / 100000 % 60), int(micro10 % 100000));
  t->hour = h;
  t->minute = m;
  t->second = strtod(sec.c_str(), nullptr);
  return Fmt("%02d:%02d:", h, m) + sec;
}

void AddProgramme(Case& k, Xml& x, adm::AudioProgramme p, const std::string& loud_i, const std::string& loud_t,
                  const std::string& loud_d) {
  std::string s = x.Open("audioProgramme", {{"audioProgrammeID", p.id}, {"audioProgrammeName", p.name},
                                            {"audioProgrammeLabel", p.audio_programme_label}, {"start", "00:00:00.00000"}});
  std::vector<std::string> parts;
  std::string refs;
  for (auto& id : p.audio_content_id_refs) refs += x.Leaf("audioContentIDRef", id);
  parts.push_back(refs);
  std::string l = x.Open("loudnessMetadata", {{"loudnessMethod", "ITU-R BS.1770"}});
  if (!loud_i.empty()) l += x.Number("integratedLoudness", loud_i);
  if (!loud_t.empty()) l += x.Number("maxTruePeak", loud_t);
  if (!loud_d.empty()) l += x.Number("dialogueLoudness", loud_d, " dialogueLoudnessType=\"1\"");
  parts.push_back(l + "</loudnessMetadata>");
  if (!p.authoring_information.reference_layout.audio_pack_format_id_ref.empty())
    parts.push_back(x.Open("authoringInformation", {}) + x.Open("referenceLayout", {}) +
                    x.Leaf("audioPackFormatIDRef", p.authoring_information.reference_layout.audio_pack_format_id_ref[0]) +
                    "</referenceLayout></authoringInformation>");
  if (x.variety && x.r(2)) std::swap(parts.front(), parts.back());
  for (auto& q : parts) s += q;
  k.groups[0].push_back(s + "</audioProgramme>");
  k.adm.audio_programmes.push_back(p);
}

void AddContent(Case& k, Xml& x, adm::AudioContent p) {
  std::string s = x.Open("audioContent", {{"audioContentID", p.id}, {"audioContentName", p.name}});
  if (x.variety) s += x.Leaf("dialogue", "0", " nonDialogueContentKind=\"0\"");
  for (auto& id : p.audio_object_id_ref) s += x.Leaf("audioObjectIDRef", id);
  k.groups[1].push_back(s + "</audioContent>");
  k.adm.audio_contents.push_back(p);
}

void AddObject(Case& k, Xml& x, adm::AudioObject p, bool has_label, const std::string& gain, bool has_importance) {
  std::vector<std::pair<std::string, std::string>> a = {{"audioObjectID", p.id}, {"audioObjectName", p.name}, {"interact", "0"}};
  if (has_importance) a.push_back({"importance", Fmt("%d", p.importance)});
  std::string s = x.Open("audioObject", a);
  std::vector<std::string> parts(5);
  for (auto& id : p.audio_pack_format_id_refs) parts[0] += x.Leaf("audioPackFormatIDRef", id);
  for (auto& id : p.audio_track_uid_ref) parts[1] += x.Leaf("audioTrackUIDRef", id);
  for (auto& id : p.audio_comple_object_id_ref) parts[2] += x.Leaf("audioComplementaryObjectIDRef", id);
  if (!gain.empty()) parts[3] = x.Number("gain", gain);
  if (has_label) parts[4] = x.Leaf("audioObjectLabel", p.audio_object_label, " language=\"en\"");
  if (x.variety)
    for (size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[x.r(i)]);
  for (auto& q : parts) s += q;
  k.groups[2].push_back(s + "</audioObject>");
  k.adm.audio_objects.push_back(p);
}

void AddPack(Case& k, Xml& x, adm::AudioPackFormat p) {
  std::string s = x.Open("audioPackFormat", {{"audioPackFormatID", p.id}, {"audioPackFormatName", p.name}, {"typeLabel", p.audio_pack_label}});
  for (auto& [id, unused] : p.audio_channel_format_id_refs_map) s += x.Leaf("audioChannelFormatIDRef", id);
  k.groups[3].push_back(s + "</audioPackFormat>");
  k.adm.audio_packs.push_back(p);
}

struct BlockText { std::string rtime, duration, x, y, z; };

void AddChannel(Case& k, Xml& x, adm::AudioChannelFormat p, const std::vector<BlockText>& blocks) {
  std::string s = x.Open("audioChannelFormat", {{"audioChannelFormatID", p.id}, {"audioChannelFormatName", p.name}, {"typeLabel", p.audio_channel_label}});
  for (size_t i = 0; i < blocks.size(); ++i) {
    const auto& b = blocks[i];
    std::vector<std::pair<std::string, std::string>> a = {{"audioBlockFormatID", p.audio_blocks[i].id}};
    if (!b.rtime.empty()) a.push_back({"rtime", b.rtime});
    if (!b.duration.empty()) a.push_back({"duration", b.duration});
    s += x.Open("audioBlockFormat", a);
    if (x.variety) s += x.Leaf("cartesian", "1");
    std::vector<std::string> parts = {x.Number("position", b.x, " coordinate=\"X\""), x.Number("position", b.y, x.variety ? " coordinate='Y'" : " coordinate=\"Y\""),
                                      x.Number("position", b.z, " coordinate=\"Z\"")};
    if (x.variety)
      for (size_t j = parts.size(); j > 1; --j) std::swap(parts[j - 1], parts[x.r(j)]);
    for (auto& q : parts) s += q;
    if (k.has_block_gain) s += x.Number("gain", "0.5");
    s += "</audioBlockFormat>";
  }
  k.groups[4].push_back(s + "</audioChannelFormat>");
  k.adm.audio_channels.push_back(p);
}

std::string FloatText(Rng& r, float* v) {
  const double d = (static_cast<int>(r(2001)) - 1000) / 1000.0;
  const std::string t = r(3) == 0 ? Fmt("%.1f", d) : r(2) ? Fmt("%.6f", d) : Fmt("%g", d);
  *v = strtof(t.c_str(), nullptr);
  return t;
}

// Assembles the document; `merge` mixes the kinds, keeping each kind's order.
void FinishXml(Case& k, Xml& x, bool merge) {
  std::string body;
  auto noise = [&] {
    if (!x.variety || x.r(4)) return std::string();
    switch (x.r(3)) {
      case 0: return std::string("<audioStreamFormat audioStreamFormatID=\"AS_1\"><audioChannelFormatIDRef>AC_00019999</audioChannelFormatIDRef>"
                                 "<audioPackFormatIDRef>AP_00019999</audioPackFormatIDRef><audioTrackFormatIDRef>AT_1</audioTrackFormatIDRef></audioStreamFormat>");
      case 1: return std::string("<audioTrackFormat audioTrackFormatID=\"AT_1\"><audioStreamFormatIDRef>AS_1</audioStreamFormatIDRef></audioTrackFormat>");
      default: return std::string("<audioTrackUID UID=\"ATU_00000001\"><audioPackFormatIDRef>AP_00010009</audioPackFormatIDRef>"
                                  "<audioTrackUIDRef>ATU_9</audioTrackUIDRef></audioTrackUID>");
    }
  };
  std::vector<size_t> next(5, 0);
  for (;;) {
    std::vector<int> left;
    for (int g = 0; g < 5; ++g)
      if (next[g] < k.groups[g].size()) left.push_back(g);
    if (left.empty()) break;
    const int g = merge ? left[x.r(left.size())] : left[0];
    body += noise() + k.groups[g][next[g]++] + x.Ws();
  }
  k.xml = std::string("<?xml version=\"1.0\" encoding=\"UTF-8\"?>") + x.Ws() + "<ebuCoreMain xmlns=\"urn:ebu\"><coreMetadata><format><audioFormatExtended version=\"ITU-R_BS.2076-2\">" +
          body + noise() + "</audioFormatExtended></format></coreMetadata></ebuCoreMain>" + x.Ws();
  for (auto& p : k.adm.audio_packs)
    for (auto& [id, index] : p.audio_channel_format_id_refs_map) {
      index = static_cast<size_t>(-1);
      for (size_t i = 0; i < k.adm.audio_channels.size(); ++i)
        if (k.adm.audio_channels[i].id == id) { index = i; break; }
    }
}

bool KnownDolbyLayout(const std::string& s) {
  static const std::set<std::string> k = {"L,R", "L,R,C", "L,R,C,Ls,Rs", "L,R,C,LFE,Ls,Rs", "L,R,C,Lss,Rss,Lrs,Rrs", "L,R,C,LFE,Lss,Rss,Lrs,Rrs",
                                          "L,R,C,Lss,Rss,Lrs,Rrs,Lts,Rts", "L,R,C,LFE,Lss,Rss,Lrs,Rrs,Lts,Rts"};
  return k.count(s);
}
const std::map<std::string, std::string>& Speakers() {
  static const std::map<std::string, std::string> k = {
      {"L", "RoomCentricLeft"}, {"R", "RoomCentricRight"}, {"C", "RoomCentricCenter"}, {"LFE", "RoomCentricLFE"},
      {"Lss", "RoomCentricLeftSideSurround"}, {"Rss", "RoomCentricRightSideSurround"}, {"Lrs", "RoomCentricLeftRearSurround"},
      {"Rrs", "RoomCentricRightRearSurround"}, {"Lts", "RoomCentricLeftTopSurround"}, {"Rts", "RoomCentricRightTopSurround"},
      {"Ls", "RoomCentricLeftSurround"}, {"Rs", "RoomCentricRightSurround"}};
  return k;
}

bool ObjectUsable(const adm::ADM& a, const adm::AudioObject& o, bool dolby) {
  if (o.audio_pack_format_id_refs.empty()) return true;
  const std::string& id = o.audio_pack_format_id_refs[0];
  if (!dolby) {
    for (const auto& l : kLayouts)
      if (id == l.pack) return true;
    return false;
  }
  if (id.size() < 11) return false;
  const std::string type = id.substr(3, 4);
  if (type != "0001" && type != "0003") return false;
  if (o.audio_pack_format_id_refs.size() != 1) return false;
  const adm::AudioPackFormat* pack = nullptr;
  for (const auto& p : a.audio_packs)
    if (p.id == id && pack == nullptr) pack = &p;
  if (pack == nullptr) return false;
  if (type == "0003") return o.audio_track_uid_ref.size() == 1 && pack->audio_channel_format_id_refs_map.size() == 1;
  if (o.audio_track_uid_ref.size() > 10 || pack->audio_channel_format_id_refs_map.size() > 10) return false;
  std::string codes;
  for (const auto& [cid, index] : pack->audio_channel_format_id_refs_map) {
    if (index >= a.audio_channels.size()) return false;
    std::string code;
    for (const auto& [k, v] : Speakers())
      if (v == a.audio_channels[index].name) code = k;
    if (code.empty()) return false;
    codes += (codes.empty() ? "" : ",") + code;
  }
  return KnownDolbyLayout(codes);
}

adm::ADM ExpectedAdm(const Case& k, bool dolby, int threshold) {
  adm::ADM a = k.adm;
  a.file_type = dolby ? adm::kAdmFileTypeDolby : adm::kAdmFileTypeDefault;
  a.audio_objects.clear();
  for (const auto& o : k.adm.audio_objects)
    if (o.importance >= threshold && ObjectUsable(k.adm, o, dolby)) a.audio_objects.push_back(o);
  return a;
}

std::string Join(const std::vector<std::string>& v) {
  std::string o;
  for (auto& s : v) o += s + "|";
  return o;
}
// Empty when equal, else what differs.
std::string Diff(const adm::ADM& a, const adm::ADM& b, bool block_gain) {
  if (a.file_type != b.file_type) return "file type";
  if (a.audio_programmes.size() != b.audio_programmes.size()) return "number of programmes";
  if (a.audio_contents.size() != b.audio_contents.size()) return "number of contents";
  if (a.audio_objects.size() != b.audio_objects.size()) return Fmt("number of objects: %zu, want %zu", a.audio_objects.size(), b.audio_objects.size());
  if (a.audio_packs.size() != b.audio_packs.size()) return "number of packs";
  if (a.audio_channels.size() != b.audio_channels.size()) return "number of channels";
  for (size_t i = 0; i < a.audio_programmes.size(); ++i) {
    const auto &x = a.audio_programmes[i], &y = b.audio_programmes[i];
    if (x.id != y.id || x.name != y.name || x.audio_programme_label != y.audio_programme_label) return Fmt("attributes of programme %zu", i);
    if (x.audio_content_id_refs != y.audio_content_id_refs) return Fmt("contents of programme %zu: %s, want %s", i, Join(x.audio_content_id_refs).c_str(), Join(y.audio_content_id_refs).c_str());
    if (x.loudness_metadata.integrated_loudness != y.loudness_metadata.integrated_loudness || x.loudness_metadata.max_true_peak != y.loudness_metadata.max_true_peak ||
        x.loudness_metadata.dialogue_loudness != y.loudness_metadata.dialogue_loudness) return Fmt("loudness of programme %zu", i);
    if (x.authoring_information.reference_layout.audio_pack_format_id_ref != y.authoring_information.reference_layout.audio_pack_format_id_ref) return Fmt("reference layout of programme %zu", i);
  }
  for (size_t i = 0; i < a.audio_contents.size(); ++i) {
    const auto &x = a.audio_contents[i], &y = b.audio_contents[i];
    if (x.id != y.id || x.name != y.name || x.audio_object_id_ref != y.audio_object_id_ref) return Fmt("content %zu", i);
  }
  for (size_t i = 0; i < a.audio_objects.size(); ++i) {
    const auto &x = a.audio_objects[i], &y = b.audio_objects[i];
    if (x.id != y.id || x.name != y.name) return Fmt("identity of object %zu", i);
    if (x.audio_object_label != y.audio_object_label) return Fmt("label of object %zu (%zu bytes, want %zu)", i, x.audio_object_label.size(), y.audio_object_label.size());
    if (x.importance != y.importance) return Fmt("importance of object %zu", i);
    if (x.gain != y.gain) return Fmt("gain of object %zu: %g, want %g", i, x.gain, y.gain);
    if (x.audio_pack_format_id_refs != y.audio_pack_format_id_refs || x.audio_comple_object_id_ref != y.audio_comple_object_id_ref ||
        x.audio_track_uid_ref != y.audio_track_uid_ref) return Fmt("references of object %zu", i);
  }
  for (size_t i = 0; i < a.audio_packs.size(); ++i) {
    const auto &x = a.audio_packs[i], &y = b.audio_packs[i];
    if (x.id != y.id || x.name != y.name || x.audio_pack_label != y.audio_pack_label) return Fmt("attributes of pack %zu", i);
    if (x.audio_channel_format_id_refs_map != y.audio_channel_format_id_refs_map) return Fmt("channel references of pack %zu", i);
  }
  for (size_t i = 0; i < a.audio_channels.size(); ++i) {
    const auto &x = a.audio_channels[i], &y = b.audio_channels[i];
    if (x.id != y.id || x.name != y.name || x.audio_channel_label != y.audio_channel_label) return Fmt("attributes of channel %zu", i);
    if (x.audio_blocks.size() != y.audio_blocks.size()) return Fmt("number of blocks of channel %zu", i);
    for (size_t j = 0; j < x.audio_blocks.size(); ++j) {
      const auto &p = x.audio_blocks[j], &q = y.audio_blocks[j];
      auto time = [](const adm::BlockTime& s, const adm::BlockTime& t) { return s.hour == t.hour && s.minute == t.minute && s.second == t.second; };
      if (p.id != q.id || !time(p.rtime, q.rtime) || !time(p.duration, q.duration)) return Fmt("times of block %zu of channel %zu", j, i);
      if (p.position.x != q.position.x || p.position.y != q.position.y || p.position.z != q.position.z) return Fmt("position of block %zu of channel %zu", j, i);
      if (!block_gain && p.gain != q.gain) return Fmt("gain of block %zu of channel %zu", j, i);
    }
  }
  return "";
}

// ------------------------------------------------------------- generation --
void FillSamples(Case& k, Rng& r, bool quiet) {
  k.data.clear();
  for (uint64_t i = 0; i < k.ticks * k.channels; ++i) {
    const uint64_t v = r.Next();
    // quiet: at most 2^-5 of full scale, so that sums do not clip.
    const int32_t s = quiet ? static_cast<int32_t>(v >> 20) >> 5 : static_cast<int32_t>(v >> 20);
    PutLe(k.data, static_cast<uint32_t>(s) >> (32 - k.bits), k.bits / 8);
  }
}

void RandomProgrammes(Ctx& c, Case& k, Xml& x, int text_style, int max_refs, bool dangling) {
  Rng& r = x.r;
  const int contents = k.adm.audio_objects.empty() ? 0 : c.Pick(4);
  for (int i = 0; i < contents; ++i) {
    adm::AudioContent p;
    p.id = Fmt("ACO_%04d", 1001 + i);
    p.name = RandomText(r, text_style);
    const int n = 1 + c.Pick(max_refs);
    for (int j = 0; j < n; ++j) p.audio_object_id_ref.push_back(dangling && r(8) == 0 ? "AO_none" : k.adm.audio_objects[r(k.adm.audio_objects.size())].id);
    AddContent(k, x, p);
  }
  const int programmes = contents == 0 ? 0 : c.Pick(4);
  for (int i = 0; i < programmes; ++i) {
    adm::AudioProgramme p;
    p.id = Fmt("APR_%04d", 1001 + i);
    p.name = RandomText(r, text_style);
    if (r(2)) p.audio_programme_label = RandomText(r, text_style);
    const int n = 1 + c.Pick(2);
    for (int j = 0; j < n; ++j) p.audio_content_id_refs.push_back(dangling && r(8) == 0 ? "ACO_none" : k.adm.audio_contents[r(contents)].id);
    std::string li, lt, ld;
    float v;
    if (r(3)) { li = Q78Text(r, &v); p.loudness_metadata.integrated_loudness = v; }
    if (r(2)) { lt = Q78Text(r, &v); p.loudness_metadata.max_true_peak = v; }
    if (r(2)) { ld = Q78Text(r, &v); p.loudness_metadata.dialogue_loudness = v; }
    if (r(2)) p.authoring_information.reference_layout.audio_pack_format_id_ref = {kLayouts[r(11)].pack};
    AddProgramme(k, x, p, li, lt, ld);
  }
}

// Objects of common-definition layouts.
void MakeDefault(Ctx& c, Case& k, Xml& x, bool for_split) {
  Rng& r = x.r;
  const int style = c.Weighted({4, 3, 1});
  const int n = for_split ? 1 + c.Pick(4) : c.Pick(5);
  int tracks = 0;
  std::vector<uint32_t> suffix;  // ids are unique, in any order
  for (int i = 0; i < n; ++i) suffix.push_back(1001 + i);
  if (x.variety)
    for (size_t i = suffix.size(); i > 1; --i) std::swap(suffix[i - 1], suffix[r(i)]);
  for (int i = 0; i < n; ++i) {
    adm::AudioObject o;
    o.id = Fmt("AO_%04u", suffix[i]);
    o.name = RandomText(r, style);
    const Layout& l = kLayouts[c.Pick(11)];
    const bool odd_pack = c.Pick(8) == 7;
    if (odd_pack) {
      static const char* bad[] = {"AP_0001ffff", "AP_00011001", "AP_00010006", "AP_0003", "AP_00030001", "x", "AP_00040004", "AP_00050002", "AP_0001000F"};
      o.audio_pack_format_id_refs = {bad[r(9)]};
    } else {
      o.audio_pack_format_id_refs = {l.pack};
    }
    if (!for_split && r(5) == 0) o.audio_pack_format_id_refs.push_back("AP_00010002");
    if (!for_split && r(9) == 0) o.audio_pack_format_id_refs.clear();
    const int nt = for_split ? l.channels : r(4);
    for (int j = 0; j < nt; ++j) o.audio_track_uid_ref.push_back(Fmt("ATU_%08x", ++tracks));
    if (c.Pick(5) == 4) {
      const int m = 1 + r(2);
      for (int j = 0; j < m; ++j) {
        const std::string id = r(6) == 0 ? "AO_9999" : Fmt("AO_%04u", 1001 + r(n));
        if (id != o.id && (o.audio_comple_object_id_ref.empty() || o.audio_comple_object_id_ref[0] != id)) o.audio_comple_object_id_ref.push_back(id);
      }
    }
    std::string gain;
    if (r(2)) { float v; gain = Q78Text(r, &v); o.gain = v; }
    const bool label = r(2);
    if (label) o.audio_object_label = RandomText(r, style);
    const bool imp = r(2);
    if (imp) o.importance = r(11);
    AddObject(k, x, o, label, gain, imp);
  }
  k.channels = std::max(1, tracks + (c.Pick(6) == 5 ? (int)c.Pick(3) : 0));
  RandomProgrammes(c, k, x, style, for_split ? 2 : 4, !for_split);
}

// Channels, packs and objects in Dolby style. Times are in units of 10 us.
void MakeDolby(Ctx& c, Case& k, Xml& x, bool for_split, uint64_t total10us) {
  Rng& r = x.r;
  const int style = c.Weighted({4, 3, 1});
  static const std::vector<std::vector<const char*>> beds = {
      {"L", "R"}, {"L", "R", "C"}, {"L", "R", "C", "Ls", "Rs"}, {"L", "R", "C", "LFE", "Ls", "Rs"}, {"L", "R", "C", "Lss", "Rss", "Lrs", "Rrs"},
      {"L", "R", "C", "LFE", "Lss", "Rss", "Lrs", "Rrs"}, {"L", "R", "C", "LFE", "Lss", "Rss", "Lrs", "Rrs", "Lts", "Rts"}};
  const int nb = c.Pick(3), no = (nb == 0 ? 1 : 0) + c.Pick(4);
  int tracks = 0, channel = 0, object = 0;
  auto add_channel = [&](const std::string& name, const char* type) {
    adm::AudioChannelFormat ch;
    ch.id = Fmt("AC_%s%04x", type, 0x1001 + channel++);
    ch.name = name;
    if (r(2)) ch.audio_channel_label = type;
    std::vector<BlockText> texts;
    // Blocks start at 0 and cover the whole duration.
    std::vector<uint64_t> starts = {0};
    const int more = c.Pick(4);
    const uint64_t ms = total10us / 100;
    for (int i = 0; i < more && ms > 1; ++i) starts.push_back(100 * (1 + r(std::min<uint64_t>(ms - 1, 100000))));
    std::sort(starts.begin(), starts.end());
    starts.erase(std::unique(starts.begin(), starts.end()), starts.end());
    while (starts.size() > 1 && starts.back() >= total10us) starts.pop_back();
    for (size_t i = 0; i < starts.size(); ++i) {
      adm::AudioBlockFormat b;
      b.id = Fmt("AB_%s%04x_%08x", type, 0x1000 + channel, int(i + 1));
      BlockText t;
      if (starts.size() > 1 || r(2)) {
        t.rtime = TimeText(starts[i], &b.rtime);
        t.duration = TimeText((i + 1 < starts.size() ? starts[i + 1] : total10us) - starts[i], &b.duration);
      }
      t.x = FloatText(r, &b.position.x);
      t.y = FloatText(r, &b.position.y);
      t.z = FloatText(r, &b.position.z);
      texts.push_back(t);
      ch.audio_blocks.push_back(b);
    }
    AddChannel(k, x, ch, texts);
    return ch.id;
  };
  auto add_object = [&](const std::vector<std::string>& channels, const char* type) {
    adm::AudioPackFormat p;
    p.id = Fmt("AP_%s%04x", type, 0x1001 + object);
    p.name = RandomText(r, style);
    if (r(2)) p.audio_pack_label = type;
    for (auto& id : channels) p.audio_channel_format_id_refs_map.push_back({id, 0});
    adm::AudioObject o;
    o.id = Fmt("AO_%04x", 0x1001 + object++);
    o.name = RandomText(r, style);
    o.audio_pack_format_id_refs = {p.id};
    for (size_t i = 0; i < channels.size(); ++i) o.audio_track_uid_ref.push_back(Fmt("ATU_%08x", ++tracks));
    if (!for_split) {
      if (r(6) == 0) p.audio_channel_format_id_refs_map.push_back({r(2) ? "AC_none" : channels[0], 0});
      if (r(6) == 0) o.audio_pack_format_id_refs = {r(2) ? "AP_00011fff" : r(2) ? "AP_00040001" : "AP_1"};
      if (r(6) == 0) o.audio_track_uid_ref.push_back(Fmt("ATU_%08x", ++tracks));
    }
    std::string gain;
    if (r(2)) { float v; gain = Q78Text(r, &v); o.gain = v; }
    const bool label = r(2), imp = !for_split && r(2);
    if (label) o.audio_object_label = RandomText(r, style);
    if (imp) o.importance = r(11);
    AddPack(k, x, p);
    AddObject(k, x, o, label, gain, imp);
  };
  for (int i = 0; i < nb; ++i) {
    std::vector<std::string> ids;
    for (const char* s : beds[c.Pick(beds.size())]) ids.push_back(add_channel(Speakers().at(s), "0001"));
    add_object(ids, "0001");
  }
  for (int i = 0; i < no; ++i) add_object({add_channel(RandomText(r, 0), "0003")}, "0003");
  k.channels = channel;
  RandomProgrammes(c, k, x, style, for_split ? 2 : 4, !for_split);
}

struct FileModel {
  VirtualFile file;
  std::map<std::string, std::pair<uint64_t, uint64_t>> chunks;  // name -> size, header offset
  std::map<std::string, bool> duplicate;
  uint64_t fmt_end = 0, axml_end = 0, dbmd_header_end = 0, data_at = 0;
};

struct FileSpec {
  uint16_t format_tag = 1, block_align = 0;
  uint32_t avg = 0;
  int fmt_extra = 0;
  bool omit_fmt = false, omit_axml = false;
  uint64_t data_size = 0;    // may be more than the content: sparse
  int64_t axml_claim = -1;   // size field
  std::string riff = "RIFF", wave = "WAVE";
  int fmt_size = -1;
};

FileModel MakeFile(Ctx& c, const Case& k, const FileSpec& s, bool simple) {
  FileModel m;
  std::vector<std::string> order = {"fmt ", "data", "axml"};
  if (k.dolby) order.push_back("dbmd");
  if (s.omit_fmt) order.erase(std::find(order.begin(), order.end(), "fmt "));
  if (s.omit_axml) order.erase(std::find(order.begin(), order.end(), "axml"));
  Rng r{c.Bits()};
  if (!simple) {
    const int extra = c.Pick(4);
    static const char* names[] = {"chna", "bext", "LIST", "JUNK", "ds64", "cue ", "\x01\x02\x03\x04"};
    for (int i = 0; i < extra; ++i) order.insert(order.begin() + r(order.size() + 1), names[r(7)]);
    if (c.Pick(3) == 2)
      for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r(i)]);
  }
  Bytes head;
  PutTag(head, s.riff.c_str());
  PutLe(head, r.Next(), 4);  // not relied upon
  PutTag(head, s.wave.c_str());
  m.file.Append(head);
  std::set<std::string> seen;
  for (const auto& name : order) {
    Bytes body;
    uint64_t size = 0, claim = 0;
    if (name == "fmt ") {
      PutLe(body, s.format_tag, 2);
      PutLe(body, k.channels, 2);
      PutLe(body, k.rate, 4);
      PutLe(body, s.avg, 4);
      PutLe(body, s.block_align, 2);
      PutLe(body, k.bits, 2);
      for (int i = 0; i < s.fmt_extra; ++i) body.push_back(r.Next());
      if (s.fmt_size >= 0) body.resize(s.fmt_size);
    } else if (name == "axml") {
      body.assign(k.xml.begin(), k.xml.end());
    } else if (name == "data") {
      body = k.data;
    } else {
      body.resize(r(40));
      for (auto& b : body) b = r.Next();
    }
    size = claim = body.size();
    if (name == "data" && s.data_size) size = claim = s.data_size;
    if (name == "axml" && s.axml_claim >= 0) claim = s.axml_claim;
    const uint64_t at = m.file.size;
    Bytes h;
    PutTag(h, name.c_str());
    PutLe(h, claim, 4);
    m.file.Append(h);
    m.duplicate[name] = seen.count(name);
    seen.insert(name);
    m.chunks[name] = {claim, at};
    if (name == "dbmd") m.dbmd_header_end = m.file.size;
    if (name == "data") m.data_at = m.file.size;
    m.file.Append(body);
    if (size > body.size()) m.file.Skip(size - body.size());
    if (name == "fmt ") m.fmt_end = at + 8 + 16;
    if (name == "axml") m.axml_end = m.file.size;
    if (size & 1) m.file.Append({static_cast<uint8_t>(r.Next())});
  }
  if (!simple && c.Pick(8) == 7) m.file.Append(Bytes(1 + r(7), 0x20));  // less than a header
  return m;
}

// ---------------------------------------------------------- checks: parse --
void CheckParsed(Ctx& c, const absl::StatusOr<adm::Bw64Reader>& got, const Case& k, const FileModel& m, const FileSpec& s,
                 int threshold, bool may_lack, const char* when) {
  const auto& f = got->format_info_;
  c.Check(f.format_tag == s.format_tag && f.num_channels == k.channels && f.samples_per_sec == (uint32_t)k.rate &&
              f.avg_bytes_per_sec == s.avg && f.block_align == s.block_align && f.bits_per_sample == k.bits,
          "format", Fmt("the format fields differ from the fmt chunk (%s)", when));
  const bool dolby = may_lack ? got->adm_.file_type == adm::kAdmFileTypeDolby : k.dolby;
  const std::string d = Diff(got->adm_, ExpectedAdm(k, dolby, threshold), k.has_block_gain);
  c.Check(d.empty(), "adm", Fmt("%s differs from the document (%s)", d.c_str(), when));
  for (const auto& [name, info] : m.chunks) {
    if (m.duplicate.at(name)) continue;
    const auto have = got->GetChunkInfo(name);
    if (!have.ok() && may_lack) continue;
    c.Check(have.ok(), "chunk-missing", Fmt("chunk '%s' is not found (%s)", name.c_str(), when));
    c.Check(have->size == info.first && have->offset == info.second, "chunk-info",
            Fmt("chunk '%s': size %zu at %zu, want %llu at %llu (%s)", name.c_str(), have->size, have->offset,
                (unsigned long long)info.first, (unsigned long long)info.second, when));
  }
  for (const char* name : {"none", "fmt", "DATA", "RIFF", "WAVE"})
    c.Check(!got->GetChunkInfo(name).ok(), "chunk-invented", Fmt("chunk '%s' is found (%s)", name, when));
}

void ParseRun(Ctx& c) {
  Case k;
  k.groups.resize(5);
  k.dolby = c.Pick(3) == 2;
  Xml x{Rng{c.Bits()}, (int)c.Pick(3)};
  k.has_block_gain = k.dolby && c.Pick(8) == 7;
  if (k.dolby) {
    MakeDolby(c, k, x, false, 1 + c.Pick(10000000));
    k.bits = 24;
    k.rate = c.Pick(2) ? 96000 : 48000;
  } else {
    MakeDefault(c, k, x, false);
    k.bits = c.OneOf<int>({16, 24, 32});
    k.rate = c.OneOf<int>({48000, 44100, 16000, 192000});
    k.channels = 1 + c.Pick(40);
  }
  FinishXml(k, x, c.Pick(2));
  FileSpec s;
  s.format_tag = c.Pick(3) ? 1 : 0xfffe;
  s.block_align = k.channels * k.bits / 8;
  s.avg = s.block_align * k.rate;
  s.fmt_extra = c.OneOf<int>({0, 2, 24, 3});
  k.ticks = c.Pick(4);
  Rng dr{c.Bits()};
  FillSamples(k, dr, false);
  const uint32_t big = c.Weighted({6, 1, 1, 1});
  if (big == 1) s.data_size = (1ull << 31) + c.Pick(5) - 2;
  if (big == 2) s.data_size = 0xffffffffull - c.Pick(3);
  if (big == 3) s.data_size = 1 + k.data.size() + c.Pick(1u << 20);
  int threshold = c.OneOf<int>({0, 5, 10, 11, -1});

  // Damage which must be refused.
  const uint32_t damage = c.Weighted({12, 1, 1, 1, 1, 1, 1, 1, 1, 2});
  const char* what = "";
  switch (damage) {
    case 1: s.riff = c.OneOf<std::string>({"RF64", "BW64", "riff", "FORM"}); what = "not a RIFF file"; break;
    case 2: s.wave = c.OneOf<std::string>({"AVI ", "wave", "WAV "}); what = "not a WAVE file"; break;
    case 3: s.omit_fmt = true; what = "no fmt chunk"; break;
    case 4: s.omit_axml = true; what = "no axml chunk"; break;
    case 5: s.fmt_size = c.Pick(16); what = "short fmt chunk"; break;
    case 6: s.data_size = 0; s.axml_claim = c.Pick(2) ? 0x10000001ll + c.Pick(100) : (int64_t)0xffffffff; what = "axml too large"; break;
    case 7:
      if (c.Pick(3) == 0) { k.channels = 0; what = "no channels"; }
      else if (c.Pick(2)) { k.rate = 0; what = "no sample rate"; }
      else { k.bits = c.OneOf<int>({0, 8, 12, 20, 25, 64}); what = "unsupported bit depth"; }
      break;
    case 8:
      if (!k.dolby) { what = ""; break; }
      if (c.Pick(2)) { k.bits = 16; what = "Dolby file of 16 bits"; } else { k.rate = 44100; what = "Dolby file of 44.1 kHz"; }
      break;
    case 9: {
      const size_t at = k.xml.rfind("</audioFormatExtended>");
      static const std::pair<const char*, const char*> bad[] = {
          {"<audioObject audioObjectID='z' importance='high'></audioObject>", "importance is no number"},
          {"<audioObject audioObjectID='z'><gain>loud</gain></audioObject>", "gain is no number"},
          {"<audioObject audioObjectID='z'><gain>1 2</gain></audioObject>", "gain is two numbers"},
          {"<audioProgramme><loudnessMetadata><integratedLoudness>--</integratedLoudness></loudnessMetadata></audioProgramme>", "loudness is no number"},
          {"<audioProgramme><loudnessMetadata><maxTruePeak>x</maxTruePeak></loudnessMetadata></audioProgramme>", "true peak is no number"},
          {"<audioProgramme><loudnessMetadata><dialogueLoudness>1,5</dialogueLoudness></loudnessMetadata></audioProgramme>", "dialogue loudness is no number"},
          {"<audioChannelFormat><audioBlockFormat rtime='00:00'></audioBlockFormat></audioChannelFormat>", "short time"},
          {"<audioChannelFormat><audioBlockFormat rtime='aa:00:00.0'></audioBlockFormat></audioChannelFormat>", "hour is no number"},
          {"<audioChannelFormat><audioBlockFormat duration='00:bb:00.0'></audioBlockFormat></audioChannelFormat>", "minute is no number"},
          {"<audioChannelFormat><audioBlockFormat duration='00:00:cc.0'></audioBlockFormat></audioChannelFormat>", "second is no number"},
          {"<audioChannelFormat><audioBlockFormat duration='00:00:-1.0'></audioBlockFormat></audioChannelFormat>", "negative time"},
          {"<audioChannelFormat><audioBlockFormat duration='00:00:nan'></audioBlockFormat></audioChannelFormat>", "time is no number"},
          {"<audioChannelFormat><audioBlockFormat><position coordinate='X'>left</position></audioBlockFormat></audioChannelFormat>", "position is no number"},
          {"<audioObject audioObjectID='z'>", "unclosed element"},
          {"</audioObject>", "unopened element"},
          {"<a b='1' b='2'/>", "duplicate attribute"},
          {"&undefined;", "undefined entity"},
          {"<a>\x01</a>", "control character"}};
      const uint32_t i = c.Pick(21);
      if (i < 18) {
        k.xml.insert(at, bad[i].first);
        what = bad[i].second;
      } else if (i == 18) {
        k.xml.insert(k.xml.find("?>") + 2, "<!DOCTYPE a [<!ENTITY b \"c\">]>");
        what = "entity declaration";
      } else if (i == 19) {
        k.xml.resize(k.xml.size() - k.xml.size() / (2 + c.Pick(5)));
        k.xml.erase(k.xml.find_last_of('<'));
        what = "truncated document";
      } else {
        k.xml += "<again></again>";
        what = "two root elements";
      }
      break;
    }
    default: break;
  }
  FileModel m = MakeFile(c, k, s, false);
  const bool must_fail = *what != 0;
  if (must_fail) { c.Fault("damaged-file"); c.Count(what); }

  const uint32_t fault = c.Weighted({4, 2, 2, 2, 2});
  const bool past_end = c.Pick(2);
  const size_t block = c.OneOf<size_t>({4096, 1, 7, 64, 1000, 65536});
  int64_t truncated = -1;
  if (fault == 4 && m.file.size) {
    // Around the interesting places or anywhere.
    const uint64_t spots[] = {m.fmt_end, m.axml_end, m.dbmd_header_end, m.data_at, m.file.size, 12};
    uint64_t at = c.Pick(2) ? spots[c.Pick(6)] - c.Pick(10) : Ctx::Mix(c.Bits()) % m.file.size;
    if (at < m.file.size) { truncated = at; m.file.size = at; c.Fault("file-truncated"); }
  }
  c.NoteBytes("xml", k.xml.data(), k.xml.size());
  SimBuf buf(m.file, block, past_end);
  if (fault >= 1 && fault <= 3) {
    buf.fault = static_cast<StreamFault>(fault);
    buf.fault_at = c.Pick(c.Pick(2) ? 12 : 200);
    buf.shrink_to = m.file.size ? Ctx::Mix(c.Bits()) % m.file.size : 0;
  }
  std::istream in(&buf);
  SetStepBudget(60000000);
  const auto got = adm::Bw64Reader::BuildFromStream(threshold, in);
  if (buf.hit) c.Fault(fault == 1 ? "read-fails" : fault == 2 ? "seek-fails" : "file-shrinks");
  c.Note("parse", got.ok(), damage);
  c.State(damage | (fault << 4) | (got.ok() << 8) | (big << 9) | ((uint64_t)k.dolby << 11) | ((uint64_t)k.adm.audio_objects.size() << 12));
  c.nontrivial = true;
  if (must_fail) {
    if (damage == 8 && (truncated >= 0 || fault == 3)) return;  // the dbmd chunk may be gone
    c.Check(!got.ok(), "damage-accepted", Fmt("a file with a defect is accepted: %s", what));
    return;
  }
  if (buf.hit || truncated >= 0) {
    if (!got.ok()) return;
    if (truncated >= 0) {
      c.Check((uint64_t)truncated >= m.fmt_end && (uint64_t)truncated >= m.axml_end, "truncation-accepted", "a file cut within its fmt or axml chunk is accepted");
      if (k.dolby && (uint64_t)truncated >= m.dbmd_header_end)
        c.Check(got->adm_.file_type == adm::kAdmFileTypeDolby, "file-type", "a Dolby file cut behind the dbmd header is taken for another");
    }
    // A read or seek failure may lose nothing; a cut may lose later chunks.
    CheckParsed(c, got, k, m, s, threshold, truncated >= 0 || fault == 3, "with a fault");
    return;
  }
  c.Check(got.ok(), "refused", Fmt("a good file is refused: %s", std::string(got.status().message()).substr(0, 120).c_str()));
  CheckParsed(c, got, k, m, s, threshold, false, "no fault");
}

// ---------------------------------------------------------- checks: split --
int32_t SampleOf(const Case& k, uint64_t tick, int ch) {
  return static_cast<int32_t>(static_cast<uint32_t>(GetLe(&k.data[(tick * k.channels + ch) * (k.bits / 8)], k.bits / 8)) << (32 - k.bits));
}

std::vector<std::string> ListDir(const std::string& d) {
  std::vector<std::string> v;
  for (const auto& e : std::filesystem::directory_iterator(d)) v.push_back(e.path().filename().string());
  std::sort(v.begin(), v.end());
  return v;
}

WavModel ReadModel(Ctx& c, const std::string& path) {
  Bytes b;
  c.Check(ReadWholeFile(path, &b), "file-missing", Fmt("%s does not exist", std::filesystem::path(path).filename().c_str()));
  WavModel w;
  std::string why;
  c.Check(ParseWav(b, &w, &why), "file-malformed", Fmt("%s: %s", std::filesystem::path(path).filename().c_str(), why.c_str()));
  c.Check(w.data.size() == w.data_size, "file-malformed", "the data chunk is longer than the file");
  return w;
}

void Encode3OA(double x, double y, double z, double out[16]) {
  const double az = -atan2(x, y), el = atan2(z, hypot(x, y));
  const double g = 1.0 / std::max(sqrt(x * x + y * y + z * z), 0.5);
  const double X = cos(el) * cos(az), Y = cos(el) * sin(az), Z = sin(el);
  const double k[16] = {1, Y, Z, X, sqrt(3) * X * Y, sqrt(3) * Y * Z, (3 * Z * Z - 1) / 2, sqrt(3) * X * Z, sqrt(3) / 2 * (X * X - Y * Y),
                        sqrt(5.0 / 8) * Y * (3 * X * X - Y * Y), sqrt(15) * X * Y * Z, sqrt(3.0 / 8) * Y * (5 * Z * Z - 1), Z * (5 * Z * Z - 3) / 2,
                        sqrt(3.0 / 8) * X * (5 * Z * Z - 1), sqrt(15) / 2 * Z * (X * X - Y * Y), sqrt(5.0 / 8) * X * (X * X - 3 * Y * Y)};
  for (int i = 0; i < 16; ++i) out[i] = g * k[i];
}
double Seconds(const adm::BlockTime& t) { return t.hour * 3600.0 + t.minute * 60.0 + t.second; }

// The mixes a programme stands for: one object of each group.
std::vector<std::vector<std::string>> MixesOf(const adm::ADM& a, const adm::AudioProgramme& p) {
  auto find = [&](const std::string& id) -> const adm::AudioObject* {
    for (const auto& o : a.audio_objects)
      if (o.id == id) return &o;
    return nullptr;
  };
  std::set<std::string> covered;
  std::vector<std::vector<std::string>> groups;
  for (const auto& cid : p.audio_content_id_refs)
    for (const auto& content : a.audio_contents) {
      if (content.id != cid) continue;
      for (const auto& oid : content.audio_object_id_ref) {
        const auto* o = find(oid);
        if (o == nullptr || covered.count(oid)) continue;
        std::vector<std::string> g = {oid};
        for (const auto& alt : o->audio_comple_object_id_ref)
          if (find(alt) != nullptr) { g.push_back(alt); covered.insert(alt); }
        groups.push_back(g);
      }
    }
  if (groups.size() > 2) return {};
  std::vector<std::vector<std::string>> mixes = {{}};
  for (const auto& g : groups) {
    std::vector<std::vector<std::string>> next;
    for (const auto& mix : mixes)
      for (const auto& o : g) { next.push_back(mix); next.back().push_back(o); }
    mixes = next;
  }
  for (auto& mix : mixes) std::sort(mix.begin(), mix.end());
  std::sort(mixes.begin(), mixes.end());
  return mixes;
}

const Layout* LayoutOf(const std::string& pack) {
  static const Layout lfe = {"AP_00011FFF", 1, 1};
  for (const auto& l : kLayouts)
    if (pack == l.pack) return &l;
  return pack == lfe.pack ? &lfe : nullptr;
}

// `objects`: the objects the WAV files stand for, in the order of the files.
void CheckMetadata(Ctx& c, const iamf_tools_cli_proto::UserMetadata& m, const Case& k, adm::ADM a, const std::string& prefix, int frame_ms, bool enhanced) {
  c.Check(m.test_vector_metadata().file_name_prefix() == prefix, "metadata", "wrong file name prefix");
  c.Check(m.ia_sequence_header_metadata_size() == 1 && m.codec_config_metadata_size() == 1, "metadata", "not one sequence header and one codec config");
  using namespace iamf_tools_cli_proto;
  const auto profile = enhanced ? PROFILE_VERSION_BASE_ENHANCED : PROFILE_VERSION_BASE;
  c.Check(m.ia_sequence_header_metadata(0).primary_profile() == profile, "metadata-profile", "wrong profile");
  const auto& cc = m.codec_config_metadata(0).codec_config();
  c.Check(cc.num_samples_per_frame() == (uint32_t)((uint64_t)frame_ms * k.rate / 1000), "metadata-frame", Fmt("%u samples per frame for %d ms", cc.num_samples_per_frame(), frame_ms));
  c.Check(cc.decoder_config_lpcm().sample_rate() == (uint32_t)k.rate && cc.decoder_config_lpcm().sample_size() == (uint32_t)k.bits, "metadata-codec", "wrong LPCM parameters");
  std::map<uint32_t, std::string> wav_of, object_of;
  std::map<uint32_t, const AudioElementObuMetadata*> element;
  for (const auto& e : m.audio_element_metadata()) {
    c.Check(element.insert({e.audio_element_id(), &e}).second, "metadata-elements", "two audio elements share an id");
    c.Check(e.codec_config_id() == m.codec_config_metadata(0).codec_config_id(), "metadata-elements", "unknown codec config");
  }
  for (const auto& f : m.audio_frame_metadata()) {
    c.Check(wav_of.insert({f.audio_element_id(), f.wav_filename()}).second, "metadata-frames", "two WAV files for an audio element");
    c.Check(element.count(f.audio_element_id()), "metadata-frames", "a WAV file for an unknown audio element");
    size_t index = a.audio_objects.size();
    for (size_t i = 0; i < a.audio_objects.size(); ++i)
      if (f.wav_filename() == prefix + Fmt("_converted%zu.wav", i + 1)) index = i;
    c.Check(index < a.audio_objects.size(), "metadata-frames", Fmt("unknown WAV file %s", f.wav_filename().c_str()));
    const auto& o = a.audio_objects[index];
    object_of[f.audio_element_id()] = o.id;
    const Layout* l = LayoutOf(o.audio_pack_format_id_refs[0]);
    c.Check(f.channel_metadatas_size() == l->channels, "metadata-channels",
            Fmt("audio element %u takes %d channels of %s, which has %d", f.audio_element_id(), f.channel_metadatas_size(), f.wav_filename().c_str(), l->channels));
    std::set<uint32_t> ids;
    for (const auto& ch : f.channel_metadatas()) ids.insert(ch.channel_id());
    c.Check((int)ids.size() == l->channels && *ids.rbegin() == (uint32_t)l->channels - 1, "metadata-channels", "channel ids are not 0..n-1");
    c.Check((int)element[f.audio_element_id()]->audio_substream_ids_size() == l->substreams, "metadata-substreams",
            Fmt("audio element of object %s has %d substreams, want %d", o.id.c_str(), element[f.audio_element_id()]->audio_substream_ids_size(), l->substreams));
    c.Check(f.samples_to_trim_at_start() == 0 && f.samples_to_trim_at_end() == 0, "metadata-frames", "samples are trimmed");
  }
  c.Check(wav_of.size() == element.size(), "metadata-frames", "an audio element has no WAV file");
  std::set<uint64_t> substreams;
  for (const auto& [id, e] : element)
    for (auto sid : e->audio_substream_ids()) c.Check(substreams.insert(sid).second, "metadata-substreams", "a substream id is used twice");
  // Mixes.
  std::vector<std::pair<const adm::AudioProgramme*, std::vector<std::vector<std::string>>>> want;
  if (a.audio_programmes.empty()) {
    want.push_back({nullptr, {{a.audio_objects[0].id}}});
  } else {
    for (const auto& p : a.audio_programmes) want.push_back({&p, MixesOf(a, p)});
  }
  int at = 0;
  std::set<uint32_t> mix_ids;
  for (const auto& [p, mixes] : want) {
    std::vector<std::vector<std::string>> have;
    for (size_t i = 0; i < mixes.size(); ++i, ++at) {
      c.Check(at < m.mix_presentation_metadata_size(), "metadata-mixes", "a mix of a programme is missing");
      const auto& mp = m.mix_presentation_metadata(at);
      c.Check(mix_ids.insert(mp.mix_presentation_id()).second, "metadata-mixes", "two mixes share an id");
      c.Check(mp.sub_mixes_size() == 1, "metadata-mixes", "not one sub-mix");
      std::vector<std::string> ids;
      for (const auto& se : mp.sub_mixes(0).audio_elements()) {
        c.Check(object_of.count(se.audio_element_id()), "metadata-mixes", "a mix refers to an unknown audio element");
        const std::string& oid = object_of[se.audio_element_id()];
        ids.push_back(oid);
        for (const auto& o : a.audio_objects)
          if (o.id == oid) {
            c.Check(se.element_mix_gain().default_mix_gain() == std::lround(o.gain * 256), "metadata-gain", Fmt("gain of object %s", oid.c_str()));
            c.Check(se.localized_element_annotations_size() == 1 && se.localized_element_annotations(0) == o.audio_object_label, "metadata-label", Fmt("label of object %s", oid.c_str()));
          }
      }
      std::sort(ids.begin(), ids.end());
      have.push_back(ids);
      c.Check(mp.sub_mixes(0).layouts_size() >= 1, "metadata-layouts", "no layout");
      for (const auto& l : mp.sub_mixes(0).layouts()) {
        const adm::LoudnessMetadata loud = p ? p->loudness_metadata : adm::LoudnessMetadata();
        c.Check(l.loudness().integrated_loudness() == std::lround(loud.integrated_loudness * 256), "metadata-loudness", "integrated loudness");
        if (loud.max_true_peak) c.Check(l.loudness().true_peak() == std::lround(*loud.max_true_peak * 256), "metadata-loudness", "true peak");
        bool has_tp = false, has_al = false;
        for (auto b : l.loudness().info_type_bit_masks()) { has_tp |= b == LOUDNESS_INFO_TYPE_TRUE_PEAK; has_al |= b == LOUDNESS_INFO_TYPE_ANCHORED_LOUDNESS; }
        c.Check(has_tp == loud.max_true_peak.has_value() && has_al == loud.dialogue_loudness.has_value(), "metadata-loudness", "kinds of loudness");
        if (has_al) c.Check(l.loudness().anchored_loudness().anchor_elements_size() == 1 &&
                            l.loudness().anchored_loudness().anchor_elements(0).anchored_loudness() == std::lround(*loud.dialogue_loudness * 256), "metadata-loudness", "dialogue loudness");
      }
    }
    std::sort(have.begin(), have.end());
    c.Check(have == mixes, "metadata-mixes", Fmt("the mixes of programme %s do not consist of its objects", p ? p->id.c_str() : "(none)"));
  }
  c.Check(at == m.mix_presentation_metadata_size(), "metadata-mixes", "there are more mixes than the programmes have");
}

void SplitRun(Ctx& c) {
  Case k;
  k.groups.resize(5);
  k.dolby = c.Pick(2);
  const bool enhanced = c.Pick(2);
  Xml x{Rng{c.Bits()}, (int)c.Pick(3)};
  int threshold = 0;
  if (k.dolby) {
    k.bits = 24;
    k.rate = c.Pick(4) == 3 ? 96000 : 48000;
    const int per_ms = k.rate / 1000;
    const uint64_t ms = 1 + c.Pick(c.Pick(3) ? 12 : 60);
    k.ticks = ms * per_ms + (c.Pick(3) == 2 ? c.Pick(per_ms) : 0);
    MakeDolby(c, k, x, true, (k.ticks * 100000 + k.rate / 2) / k.rate);
  } else {
    MakeDefault(c, k, x, true);
    k.bits = c.OneOf<int>({16, 24, 32});
    k.rate = c.OneOf<int>({48000, 44100, 16000});
    k.ticks = c.Pick(c.Pick(4) ? 40 : 1200);
    threshold = c.OneOf<int>({0, 5, 10, -3, 20});
  }
  Rng dr{c.Bits()};
  FillSamples(k, dr, k.dolby);
  const int clamped = std::min(10, std::max(0, threshold));
  // Defects of the document which only the split can notice.
  const char* what = "";
  const uint32_t damage = c.Weighted({10, 1, 1, 1, 1});
  FileSpec s;
  if (damage == 1 && k.channels > 1) {
    --k.channels;  // the last track has no channel; for Dolby one more channel format than needed
    FillSamples(k, dr, k.dolby);
    if (!k.dolby) what = "object track beyond the channels";
  } else if (damage == 2 && k.dolby) {
    ++k.channels;
    FillSamples(k, dr, true);
    what = "more channels than channel formats";
  } else if (damage == 3 && k.channels * k.bits > 8 && k.ticks > 0) {
    k.data.resize(k.data.size() - 1 - c.Pick(k.channels * k.bits / 8 - 1));
    what = "data is not a whole number of frames";
  } else if (damage == 4 && k.dolby) {
    Xml x2{Rng{c.Bits()}, 0};
    // A channel of its own without blocks, in front of the others.
    k.groups[4].insert(k.groups[4].begin(), "<audioChannelFormat audioChannelFormatID=\"AC_none\" audioChannelFormatName=\"x\"></audioChannelFormat>");
    what = "channel format without blocks";
  }
  FinishXml(k, x, c.Pick(2));
  adm::ADM a = ExpectedAdm(k, k.dolby, clamped);
  if (!k.dolby && damage == 1) {
    int first = 0;
    bool beyond = false;
    for (const auto& o : k.adm.audio_objects) {
      first += o.audio_track_uid_ref.size();
      for (const auto& kept : a.audio_objects)
        if (kept.id == o.id && first > k.channels && !o.audio_track_uid_ref.empty()) beyond = true;
    }
    if (!beyond) what = "";
  }
  s.format_tag = c.Pick(2) ? 0xfffe : 1;
  s.block_align = k.channels * k.bits / 8;
  s.avg = s.block_align * k.rate;
  s.fmt_extra = c.OneOf<int>({0, 24});
  FileModel m = MakeFile(c, k, s, c.Pick(2) == 0);
  std::vector<int> lfe;
  if (k.dolby) {
    if (enhanced)
      for (int i = 0; i < k.channels && i < (int)k.adm.audio_channels.size(); ++i)
        if (k.adm.audio_channels[i].name == "RoomCentricLFE") lfe.push_back(i);
    if ((int)lfe.size() == k.channels) what = "only LFE channels";
    if (a.audio_objects.size() < 1 + lfe.size()) {
      // Fewer objects than WAV files: refused after the split, not claimed.
      c.Note("too-few-objects");
      return;
    }
  } else if (a.audio_objects.empty()) {
    what = "no objects";
  }
  if (*what) { c.Fault("damaged-file"); c.Count(what); }

  const std::string out = ScratchDir() + "/out", tmp = ScratchDir() + "/tmp";
  std::filesystem::create_directories(out);
  std::filesystem::create_directories(tmp);
  setenv("TMPDIR", tmp.c_str(), 1);
  const std::string prefix = c.Pick(2) ? "p" : "a.b";
  const int frame_ms = c.OneOf<int>({20, 10, 1, 40});

  c.NoteBytes("xml", k.xml.data(), k.xml.size());
  SimBuf buf(m.file, c.OneOf<size_t>({65536, 4096, 1, 13, 300}), c.Pick(2));
  const uint32_t fault = c.Weighted({5, 1, 1, 1, 3});
  bool io_fault = false;
  if (fault >= 1 && fault <= 3) {
    buf.fault = static_cast<StreamFault>(fault);
    // Towards the end of the file most of the time: during the split.
    buf.fault_at = c.Pick(c.Pick(2) ? 60 : 3000);
    buf.shrink_to = c.Pick(2) && m.data_at < m.file.size ? m.data_at + Ctx::Mix(c.Bits()) % (m.file.size - m.data_at) : Ctx::Mix(c.Bits()) % m.file.size;
  }
  const uint32_t io_rate = 1 + c.Pick(40);
  auto io = [&](IoOp op, size_t len) {
    IoDecision d;
    if (fault != 4 || op == IoOp::kRemove || io_fault || c.Pick(io_rate + 1) != io_rate) return d;
    switch (op) {
      case IoOp::kOpen: d.err = 24; c.Fault("open-fails"); break;
      case IoOp::kWrite:
        if (c.Pick(2) && len > 1) { d.allow = c.Pick(len - 1); c.Fault("short-write-disk-full"); }
        else { d.err = 28; c.Fault("write-fails"); }
        break;
      case IoOp::kRead: d.err = 5; c.Fault("read-fails"); break;
      case IoOp::kSeek: d.err = 5; c.Fault("seek-fails"); break;
      case IoOp::kClose: d.err = 5; c.Fault("delayed-write-error-at-close"); break;
      default: return d;
    }
    io_fault = true;
    return d;
  };
  std::istream in(&buf);
  SetStepBudget(400000000);
  absl::StatusOr<iamf_tools_cli_proto::UserMetadata> got = absl::UnknownError("");
  {
    IoFaults f(io);
    got = adm::GenerateUserMetadataAndSpliceWavFiles(prefix, frame_ms, threshold, out, in, enhanced ? ProfileVersion::kIamfBaseEnhancedProfile : ProfileVersion::kIamfBaseProfile);
  }
  if (buf.hit) c.Fault(fault == 1 ? "input-read-fails" : fault == 2 ? "input-seek-fails" : "input-shrinks");
  c.Note("split", got.ok(), k.dolby);
  c.State(k.dolby | (enhanced << 1) | (got.ok() << 2) | (damage << 3) | (fault << 6) | ((uint64_t)(io_fault | buf.hit) << 9) | ((uint64_t)a.audio_objects.size() << 10) | ((uint64_t)lfe.size() << 14));
  c.nontrivial = true;
  c.Check(ListDir(tmp).empty(), "temporary-left", "a temporary file is left behind");
  if (!got.ok()) {
    c.Check(*what || io_fault || buf.hit, "refused", Fmt("a good file is refused: %s", std::string(got.status().message()).substr(0, 160).c_str()));
    const auto left = ListDir(out);
    c.Check(left.empty(), "partial-output", Fmt("%zu files are left after a failure, e.g. %s", left.size(), left.empty() ? "" : left[0].c_str()));
    return;
  }
  c.Check(!*what, "damage-accepted", Fmt("a file with a defect is converted: %s", what));
  // Everything is there, whatever failed on the way.
  std::vector<std::string> names;
  c.SimTime(double(k.ticks) / k.rate);
  if (!k.dolby) {
    std::map<std::string, int> first;
    int t = 0;
    for (const auto& o : k.adm.audio_objects) { first[o.id] = t; t += o.audio_track_uid_ref.size(); }
    for (size_t i = 0; i < a.audio_objects.size(); ++i) {
      const auto& o = a.audio_objects[i];
      names.push_back(prefix + Fmt("_converted%zu.wav", i + 1));
      const WavModel w = ReadModel(c, out + "/" + names.back());
      const int n = o.audio_track_uid_ref.size();
      c.Check(w.channels == n && w.rate == k.rate && w.bits == k.bits, "split-format", Fmt("format of file %zu", i + 1));
      c.Check(w.samples.size() == k.ticks * n, "split-samples", Fmt("file %zu has %zu samples, want %zu", i + 1, w.samples.size(), (size_t)k.ticks * n));
      for (uint64_t tick = 0; tick < k.ticks; ++tick)
        for (int ch = 0; ch < n; ++ch)
          c.Check(w.samples[tick * n + ch] == SampleOf(k, tick, first[o.id] + ch), "split-samples",
                  Fmt("file %zu, channel %d, tick %llu is not channel %d of the input", i + 1, ch, (unsigned long long)tick, first[o.id] + ch));
      c.NoteBytes("wav", w.data.data(), w.data.size());
    }
  } else {
    names.push_back(prefix + "_converted1.wav");
    for (size_t i = 0; i < lfe.size(); ++i) {
      names.push_back(prefix + Fmt("_converted%zu.wav", i + 2));
      const WavModel w = ReadModel(c, out + "/" + names.back());
      c.Check(w.channels == 1 && w.rate == k.rate && w.bits == k.bits && w.samples.size() == k.ticks, "lfe-format", Fmt("format or length of LFE file %zu", i + 2));
      for (uint64_t tick = 0; tick < k.ticks; ++tick)
        c.Check(w.samples[tick] == SampleOf(k, tick, lfe[i]), "lfe-samples", Fmt("LFE file %zu, tick %llu", i + 2, (unsigned long long)tick));
    }
    const WavModel w = ReadModel(c, out + "/" + names[0]);
    c.Check(w.channels == 16 && w.rate == k.rate && w.bits == k.bits, "ambisonics-format", "the 3OA file has the wrong format");
    c.Check(w.samples.size() == k.ticks * 16, "ambisonics-length", Fmt("the 3OA file has %zu ticks, want %llu", w.samples.size() / 16, (unsigned long long)k.ticks));
    c.NoteBytes("wav", w.data.data(), w.data.size());
    std::vector<std::vector<std::vector<double>>> gains(k.channels);
    std::vector<std::vector<double>> starts(k.channels);
    std::vector<bool> near(k.ticks + 2, false);
    for (int ch = 0; ch < k.channels; ++ch)
      for (const auto& b : k.adm.audio_channels[ch].audio_blocks) {
        double g[16];
        Encode3OA(b.position.x, b.position.y, b.position.z, g);
        gains[ch].push_back(std::vector<double>(g, g + 16));
        starts[ch].push_back(Seconds(b.rtime) * k.rate);
        const int64_t at = std::llround(starts[ch].back());
        if (at > 0)
          for (int64_t i = at - 1; i <= at + 1; ++i)
            if (i >= 0 && i < (int64_t)near.size()) near[i] = true;
      }
    std::set<int> is_lfe(lfe.begin(), lfe.end());
    for (uint64_t tick = 0; tick < k.ticks; ++tick) {
      if (near[tick]) continue;
      double want[16] = {0};
      for (int ch = 0; ch < k.channels; ++ch) {
        if (is_lfe.count(ch)) continue;
        size_t b = 0;
        while (b + 1 < starts[ch].size() && starts[ch][b + 1] <= tick + 0.5) ++b;
        const double v = SampleOf(k, tick, ch) / 2147483648.0;
        for (int i = 0; i < 16; ++i) want[i] += v * gains[ch][b][i];
      }
      for (int i = 0; i < 16; ++i) {
        const double have = w.samples[tick * 16 + i] / 2147483648.0;
        if (std::abs(want[i]) > 0.98) continue;
        c.Check(std::abs(have - want[i]) < 4e-6, "ambisonics-samples",
                Fmt("3OA channel %d, tick %llu: %.8f, want %.8f", i, (unsigned long long)tick, have, want[i]));
      }
    }
    a.audio_objects.resize(1 + lfe.size());
    a.audio_objects[0].audio_pack_format_id_refs = {"AP_00040003"};
    for (size_t i = 0; i < lfe.size(); ++i) a.audio_objects[i + 1].audio_pack_format_id_refs = {"AP_00011FFF"};
  }
  std::sort(names.begin(), names.end());
  c.Check(ListDir(out) == names, "extra-files", "the output directory has other files than the expected ones");
  CheckMetadata(c, *got, k, a, prefix, frame_ms, enhanced);
  // The metadata file is complete or its failure is reported.
  if (c.Pick(3) == 2) {
    bool failed = false;
    bool ok;
    const bool binary = c.Pick(2);
    {
      IoFaults f([&](IoOp op, size_t) {
        IoDecision d;
        if ((op == IoOp::kWrite || op == IoOp::kOpen || op == IoOp::kClose) && c.Pick(5) == 4) { d.err = 28; failed = true; c.Fault("metadata-write-fails"); }
        return d;
      });
      ok = adm::UserMetadataGenerator::WriteUserMetadataToFile(binary, out, *got).ok();
    }
    c.Check(ok == !failed, "metadata-file", failed ? "a failed write of the metadata file is reported as success" : "the metadata file cannot be written");
    if (ok) {
      Bytes b;
      c.Check(ReadWholeFile(out + "/" + prefix + (binary ? ".binpb" : ".textproto"), &b), "metadata-file", "the metadata file is missing");
      iamf_tools_cli_proto::UserMetadata back;
      if (binary) {
        c.Check(back.ParseFromArray(b.data(), b.size()) && back.SerializeAsString() == got->SerializeAsString(), "metadata-file", "the metadata file differs");
      } else {
        c.Check(std::string(b.begin(), b.end()) == got->DebugString(), "metadata-file", "the metadata file differs");
      }
    }
  }
}

// Arbitrary damage: no crash, no hang.
void MutationRun(Ctx& c) {
  Case k;
  k.groups.resize(5);
  k.dolby = c.Pick(2);
  Xml x{Rng{c.Bits()}, (int)c.Pick(2)};
  k.ticks = 48;
  if (k.dolby) { k.bits = 24; MakeDolby(c, k, x, true, 100); } else { MakeDefault(c, k, x, true); }
  Rng dr{c.Bits()};
  FillSamples(k, dr, true);
  FinishXml(k, x, false);
  FileSpec s;
  s.block_align = k.channels * k.bits / 8;
  FileModel m = MakeFile(c, k, s, true);
  Bytes all;
  for (const auto& [at, b] : m.file.pieces) { all.resize(at); all.insert(all.end(), b.begin(), b.end()); }
  const int n = 1 + c.Pick(6);
  for (int i = 0; i < n; ++i) {
    const size_t at = c.Pick(3) == 2 ? c.Pick(60) % all.size() : Ctx::Mix(c.Bits()) % all.size();
    switch (c.Pick(4)) {
      case 0: all[at] ^= 1 << c.Pick(8); break;
      case 1: all[at] = "0123456789<>/\"&;: -.A"[c.Pick(21)]; break;
      case 2: {  // copy a piece elsewhere
        const size_t from = Ctx::Mix(c.Bits()) % all.size(), len = std::min<size_t>(c.Pick(200), all.size() - from);
        const Bytes piece(all.begin() + from, all.begin() + from + len);
        all.insert(all.begin() + at, piece.begin(), piece.end());
        break;
      }
      default: all.erase(all.begin() + at, all.begin() + std::min<size_t>(all.size(), at + 1 + c.Pick(40)));
    }
    if (all.size() < 64) all.resize(64);
  }
  c.Fault("file-corrupted");
  VirtualFile f;
  f.Append(all);
  SimBuf buf(f, 512, true);
  std::istream in(&buf);
  const std::string out = ScratchDir() + "/out", tmp = ScratchDir() + "/tmp";
  std::filesystem::create_directories(out);
  std::filesystem::create_directories(tmp);
  setenv("TMPDIR", tmp.c_str(), 1);
  SetStepBudget(400000000);
  const auto got = adm::GenerateUserMetadataAndSpliceWavFiles("p", 20, 0, out, in, c.Pick(2) ? ProfileVersion::kIamfBaseEnhancedProfile : ProfileVersion::kIamfBaseProfile);
  c.Note("mutated", got.ok());
  c.Check(ListDir(tmp).empty(), "temporary-left", "a temporary file is left behind");
  c.nontrivial = true;
}

void Run(Ctx& c) {
  switch (c.Weighted({5, 4, 1})) {
    case 0: ParseRun(c); break;
    case 1: SplitRun(c); break;
    default: MutationRun(c);
  }
}
DST_PROPERTY(A01)({"A01", "", Run, 20000, 400000,
  "each run writes a drawn ADM document and BW64 file (chunk order, sizes up to 4 GiB, XML form, defects, truncation drawn) to simulated storage and reads, splits or converts it while reads, seeks, writes, opens and closes fail at drawn points; non-trivial: every run",
  {"iamf/cli/adm_to_user_metadata/adm/*", "iamf/cli/adm_to_user_metadata/app/adm_to_user_metadata_main_lib.cc", "iamf/cli/adm_to_user_metadata/iamf/*", "iamf/cli/ambisonic_encoder/*", "iamf/cli/user_metadata_builder/*", "iamf/cli/wav_writer.cc", "expat", "libstdc++ streams", "protobuf"},
  {"input stream: in-memory std::streambuf", "disk: stdio and file calls intercepted", "audio_to_tactile WAV header/sample functions"}});
}  // namespace
}  // namespace dst
