// The gains of the loudspeaker renderers and the channel orders, stated
// independently of the library's tables.
#ifndef VERIF_HARNESS_GAINS_MODEL_H_
#define VERIF_HARNESS_GAINS_MODEL_H_
#include <cstdlib>
#include <map>
#include <string>
#include <vector>

namespace dst::gains {
using Matrix = std::vector<std::vector<double>>;  // [input][output]
struct GoldenRow { const char* in; const char* out; int rows, cols; const char* vals; };
inline const GoldenRow kGolden[] = {
#include "gains_golden.inc"
};
constexpr int kNumGolden = sizeof(kGolden) / sizeof(*kGolden);
inline Matrix Parse(const GoldenRow& g) {
  std::vector<double> v;
  for (const char* s = g.vals; *s;) {
    char* e;
    if (*s == 'z') { v.insert(v.end(), strtol(s + 1, &e, 10), 0.0); } else { v.push_back(strtod(s, &e)); }
    for (s = e; *s == ' '; ++s) {}
  }
  Matrix m(g.rows, std::vector<double>(g.cols));
  for (int i = 0; i < g.rows; ++i) for (int j = 0; j < g.cols; ++j) m[i][j] = v.at(i * g.cols + j);
  return m;
}
inline const Matrix* Find(const std::string& in, const std::string& out) {
  static const auto* all = [] {
    auto* m = new std::map<std::pair<std::string, std::string>, Matrix>;
    for (auto& g : kGolden) (*m)[{g.in, g.out}] = Parse(g);
    return m;
  }();
  auto it = all->find({in, out});
  return it == all->end() ? nullptr : &it->second;
}
// Loudspeaker layouts 0..9 and sound systems 0..14.
inline const char* LayoutKey(int layout) {
  constexpr const char* k[] = {"0+1+0", "0+2+0", "0+5+0", "2+5+0", "4+5+0", "0+7+0", "7.1.2", "4+7+0", "3.1.2", ""};
  return k[layout];
}
inline const char* SystemKey(int ss) {
  constexpr const char* k[] = {"0+2+0", "0+5+0", "2+5+0", "4+5+0", "4+5+1", "3+7+0", "4+9+0", "9+10+3", "0+7+0", "4+7+0", "7.1.2", "3.1.2", "0+1+0", "9.1.6", "7.1.5.4"};
  return k[ss];
}
inline int SystemChannels(int ss) {
  constexpr int n[] = {2, 6, 8, 10, 11, 12, 14, 24, 8, 12, 10, 6, 1, 16, 17};
  return n[ss];
}
// The sound system a loudspeaker layout is, -1 for none.
inline int SystemOfLayout(int layout) {
  constexpr int s[] = {12, 0, 1, 2, 3, 8, 10, 9, 11, -1};
  return s[layout];
}
// The sound system an expanded layout is a part of.
inline int SystemOfExpanded(int e) { return e == 1 ? 3 : e <= 7 ? 9 : e <= 12 ? 13 : e <= 15 ? 7 : 14; }
}  // namespace dst::gains
#endif
