// Force-included (after the prelude) in the sources of command line programs,
// whose main() is renamed: flags become private to the program and go back to
// their defaults on every start, so that one process can run a program many
// times and several programs may define flags of the same name.
#ifndef VERIF_SIM_FLAGS_H_
#define VERIF_SIM_FLAGS_H_
#include <cstring>
#include <string>
#include <vector>

#include "absl/flags/flag.h"
#include "absl/flags/marshalling.h"
#include "absl/flags/parse.h"
#include "absl/flags/usage.h"
namespace {  // one registry per program
struct VerifFlagBase {
  const char* name;
  virtual ~VerifFlagBase() = default;
  virtual void ResetToDefault() = 0;
  virtual bool Set(const std::string& text) = 0;
  virtual bool IsBool() const = 0;
};
std::vector<VerifFlagBase*>& VerifFlagRegistry() {
  static auto* r = new std::vector<VerifFlagBase*>;
  return *r;
}
template <typename T>
struct VerifFlag : VerifFlagBase {
  VerifFlag(const char* n, T d) : def(d), value(d) {
    name = n;
    VerifFlagRegistry().push_back(this);
  }
  void ResetToDefault() override { value = def; }
  bool Set(const std::string& text) override {
    std::string error;
    return absl::ParseFlag(text, &value, &error);
  }
  bool IsBool() const override { return std::is_same_v<T, bool>; }
  T def, value;
};
struct VerifFlagExit { int code; };
std::vector<char*> VerifParse(int argc, char** argv) {
  for (auto* f : VerifFlagRegistry()) f->ResetToDefault();
  std::vector<char*> rest;
  for (int i = 0; i < argc; ++i) {
    std::string a = argv[i];
    if (i == 0 || a.rfind("--", 0) != 0) {
      rest.push_back(argv[i]);
      continue;
    }
    a = a.substr(2);
    std::string v;
    const auto eq = a.find('=');
    bool has = eq != std::string::npos;
    if (has) {
      v = a.substr(eq + 1);
      a = a.substr(0, eq);
    }
    bool found = false;
    for (auto* f : VerifFlagRegistry()) {
      if (a == f->name) {
        if (!has) v = f->IsBool() ? "true" : (i + 1 < argc ? argv[++i] : "");
        if (!f->Set(v)) throw VerifFlagExit{1};
        found = true;
      }
    }
    if (!found) throw VerifFlagExit{1};
  }
  return rest;
}
}  // namespace
namespace absl {
inline namespace debian3 {
template <typename T>
T VerifGetFlag(const VerifFlag<T>& f) { return f.value; }
static std::vector<char*> VerifParseCommandLine(int argc, char** argv) {
  return VerifParse(argc, argv);
}
static void VerifSetUsage(absl::string_view) {}
}  // namespace debian3
}  // namespace absl
#undef ABSL_FLAG
#define ABSL_FLAG(T, n, d, help) static VerifFlag<T> FLAGS_##n(#n, d)
#define GetFlag VerifGetFlag
#define ParseCommandLine VerifParseCommandLine
#define SetProgramUsageMessage VerifSetUsage
#endif
