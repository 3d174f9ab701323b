// Independent reader/writer of RIFF WAV bytes, for the oracles.
#ifndef VERIF_WAV_MODEL_H_
#define VERIF_WAV_MODEL_H_
#include <cstring>
#include <fstream>
#include <iterator>
#include <string>
#include <vector>
namespace dst {
using Bytes = std::vector<uint8_t>;
inline bool ReadWholeFile(const std::string& path, Bytes* out) {
  std::ifstream f(path, std::ios::binary);
  if (!f) return false;
  out->assign((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  return true;
}
inline void WriteWholeFile(const std::string& path, const Bytes& b) {
  std::ofstream f(path, std::ios::binary);
  f.write(reinterpret_cast<const char*>(b.data()), b.size());
}
inline void PutLe(Bytes& b, uint64_t v, int n) {
  for (int i = 0; i < n; ++i) b.push_back((v >> (8 * i)) & 0xff);
}
inline void PutTag(Bytes& b, const char* t) { b.insert(b.end(), t, t + 4); }
inline uint64_t GetLe(const uint8_t* p, int n) {
  uint64_t v = 0;
  for (int i = n; i-- > 0;) v = v << 8 | p[i];
  return v;
}
struct WavModel {
  int channels = 0, rate = 0, bits = 0, format = 1;
  uint32_t riff_size = 0, data_size = 0;
  Bytes data;         // bytes of the data chunk present
  std::vector<int32_t> samples;  // interleaved, left-justified (integer PCM)
};
// Canonical layout only: RIFF/WAVE, chunks, data.
inline bool ParseWav(const Bytes& b, WavModel* w, std::string* why) {
  auto fail = [&](const char* m) { *why = m; return false; };
  if (b.size() < 12 || memcmp(b.data(), "RIFF", 4) || memcmp(b.data() + 8, "WAVE", 4)) return fail("no RIFF/WAVE");
  w->riff_size = GetLe(&b[4], 4);
  size_t at = 12;
  bool fmt = false;
  while (at + 8 <= b.size()) {
    const uint32_t size = GetLe(&b[at + 4], 4);
    const uint8_t* p = b.data() + at + 8;
    if (!memcmp(&b[at], "fmt ", 4)) {
      if (size < 16 || at + 8 + size > b.size()) return fail("bad fmt chunk");
      w->format = GetLe(p, 2);
      w->channels = GetLe(p + 2, 2);
      w->rate = GetLe(p + 4, 4);
      w->bits = GetLe(p + 14, 2);
      if (GetLe(p + 12, 2) != (uint64_t)w->channels * w->bits / 8) return fail("bad block align");
      if (GetLe(p + 8, 4) != (uint64_t)w->channels * w->bits / 8 * w->rate) return fail("bad byte rate");
      fmt = true;
    } else if (!memcmp(&b[at], "data", 4)) {
      if (!fmt) return fail("data before fmt");
      w->data_size = size;
      w->data.assign(p, p + std::min<size_t>(size, b.size() - at - 8));
      const int n = w->bits / 8;
      for (size_t i = 0; i + n <= w->data.size(); i += n)
        w->samples.push_back(static_cast<int32_t>(GetLe(&w->data[i], n) << (32 - w->bits)));
      return true;
    }
    at += 8 + size + (size & 1);
  }
  return fail("no data chunk");
}
inline Bytes MakeWav(int channels, int rate, int bits, const std::vector<int32_t>& interleaved) {
  Bytes b;
  const int n = bits / 8;
  PutTag(b, "RIFF");
  PutLe(b, 36 + interleaved.size() * n, 4);
  PutTag(b, "WAVE");
  PutTag(b, "fmt ");
  PutLe(b, 16, 4);
  PutLe(b, 1, 2);
  PutLe(b, channels, 2);
  PutLe(b, rate, 4);
  PutLe(b, (uint64_t)rate * channels * n, 4);
  PutLe(b, channels * n, 2);
  PutLe(b, bits, 2);
  PutTag(b, "data");
  PutLe(b, interleaved.size() * n, 4);
  for (int32_t s : interleaved) PutLe(b, static_cast<uint32_t>(s) >> (32 - bits), n);
  return b;
}
}  // namespace dst
#endif
