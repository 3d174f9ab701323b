// Deterministic-simulation core. A run is a pure function of
// (property, salt, choices): every schedule, delay, size, content and fault
// decision is drawn with Ctx::Pick and recorded, so that a run is replayed and
// minimised by editing its list of choices. Choice 0 is always the simplest
// alternative (no fault, no preemption, smallest size).
#ifndef VERIF_HARNESS_CORE_H_
#define VERIF_HARNESS_CORE_H_
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

extern "C" unsigned long verif_hash_salt;

namespace dst {

// Memory of the simulator's own bookkeeping comes from outside the heap, so
// that heap growth during a run is the system's (leak oracle).
void* ArenaAlloc(size_t n);
template <typename T>
struct ArenaAllocator {
  using value_type = T;
  ArenaAllocator() = default;
  template <typename U>
  ArenaAllocator(const ArenaAllocator<U>&) {}
  T* allocate(size_t n) { return static_cast<T*>(ArenaAlloc(n * sizeof(T))); }
  void deallocate(T*, size_t) {}
  bool operator==(const ArenaAllocator&) const { return true; }
};
using AString = std::basic_string<char, std::char_traits<char>, ArenaAllocator<char>>;
template <typename T>
using AVector = std::vector<T, ArenaAllocator<T>>;
using ACounts = std::map<AString, uint64_t, std::less<>, ArenaAllocator<std::pair<const AString, uint64_t>>>;
using ASet = std::set<uint64_t, std::less<>, ArenaAllocator<uint64_t>>;

struct Violation {
  std::string oracle;  // stable name of the oracle that failed
  std::string detail;
};

class Ctx {
 public:
  explicit Ctx(uint64_t seed) : rng_(seed) {}
  explicit Ctx(const std::vector<uint32_t>& replay)
      : rng_(0), replaying_(true), in_(replay.begin(), replay.end()) {}

  // Uniform in [0, n). n == 0 is treated as 1.
  uint32_t Pick(uint32_t n);
  // Index into `weights`; weights[0] is the simplest alternative.
  uint32_t Weighted(std::initializer_list<uint32_t> weights);
  // True with probability num/den.
  bool Chance(uint32_t num, uint32_t den);
  // In [lo, hi].
  int64_t Range(int64_t lo, int64_t hi) { return lo + Pick(static_cast<uint32_t>(hi - lo + 1)); }
  template <typename T>
  const T& OneOf(const std::vector<T>& v) { return v[Pick(v.size())]; }
  // Content that is not worth shrinking: derived from one recorded choice.
  uint64_t Bits() { return Mix(Pick(0xffffffffu)); }

  // Adds to the history: the hash is the identity of the execution.
  void Note(const char* what, uint64_t a = 0, uint64_t b = 0);
  void NoteBytes(const char* what, const void* p, size_t n);
  void Log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  // An abstract state reached (measure of exploration).
  void State(uint64_t s) { states.insert(s); }
  void Fault(const char* kind) { ++faults[AString(kind)]; ++nfaults; Note(kind); }
  void Count(const char* what, uint64_t n = 1) { counters[AString(what)] += n; }
  void SimTime(double seconds) { sim_seconds += seconds; }

  [[noreturn]] void Fail(const std::string& oracle, const std::string& detail);
  void Check(bool ok, const char* oracle, const std::string& detail) {
    if (!ok) Fail(oracle, detail);
  }

  static uint64_t Mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
  }

  AVector<uint32_t> choices;
  uint64_t hash = 1469598103934665603ull;
  uint64_t notes = 0;
  ACounts faults;
  uint64_t nfaults = 0;
  ASet states;
  ACounts counters;
  double sim_seconds = 0;
  bool nontrivial = false;  // the run exercised the property's mechanism
  bool verbose = false;
  AVector<AString> log;

 private:
  uint32_t Record(uint32_t v);
  uint64_t Next() { return rng_ = Mix(rng_ + 0x632be59bd9b4e019ull); }
  uint64_t rng_;
  bool replaying_ = false;
  AVector<uint32_t> in_;
  size_t pos_ = 0;
};

struct Property {
  const char* id;
  const char* statement;
  void (*run)(Ctx&);
  int quick_runs;      // runs in the quick tier
  int thorough_runs;   // runs in the thorough tier
  const char* rule;    // what counts as a non-trivial run
  std::vector<std::string> real;
  std::vector<std::string> stub;
  bool check_leaks = true;
  bool fork_each = false;  // every run starts from the state of a fresh process
};
std::vector<Property>& Properties();
struct Register {
  explicit Register(Property p) { Properties().push_back(std::move(p)); }
};

// Steps of simulated execution (basic-block edges of repository code).
uint64_t Steps();
uint64_t EdgesCovered();
uint64_t EdgesTotal();
void SetStepBudget(uint64_t steps);

// Private scratch directory of this run: removed when the run ends.
const std::string& ScratchDir();

// ------------------------------------------------------------ I/O seam ----
enum class IoOp { kOpen, kRead, kWrite, kClose, kSeek, kRemove };
struct IoDecision {
  int err = 0;               // errno to fail with; 0: no failure
  size_t allow = SIZE_MAX;   // short transfer: at most this many bytes
};
// Installed around calls into the system under test.
class IoFaults {
 public:
  using Fn = std::function<IoDecision(IoOp op, size_t len)>;
  explicit IoFaults(Fn fn);
  ~IoFaults();
  IoFaults(const IoFaults&) = delete;
};

// ------------------------------------------------------- codec fault seam --
class CodecFaults {
 public:
  using Fn = std::function<bool(int site)>;
  explicit CodecFaults(Fn fn);
  ~CodecFaults();
  CodecFaults(const CodecFaults&) = delete;
};

// ------------------------------------------------------ allocation seam ----
// Largest single request and total bytes requested since the last call.
struct AllocStats { size_t max_request; size_t total; };
AllocStats TakeAllocStats();

// --------------------------------------------------------- task scheduler --
// Runs the tasks to completion one at a time, switching only where the
// schedule (drawn from ctx) says so: at mutex operations and after a drawn
// number of basic blocks of repository code.
// Returns false on deadlock.
bool RunTasks(Ctx& ctx, const std::vector<std::function<void()>>& tasks,
              const char* deadlock_oracle);
bool InTask();
// Explicit scheduling point for harness code inside a task.
void TaskYield();

uint64_t HashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
std::string Hex(const void* p, size_t n, size_t max = 24);
std::string Fmt(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
}  // namespace dst

#define DST_PROPERTY(ID) static ::dst::Register dst_register_##ID
#endif
