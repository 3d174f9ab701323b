#include "core.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cxxabi.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>

#include "rt_hooks.h"
#include "sim_tp.h"

namespace verif_sched {
void (*mutex_lock_hook)(void*) = nullptr;
void (*mutex_unlock_hook)(void*) = nullptr;
}  // namespace verif_sched
namespace verif_log {
void (*fatal_hook)(const char*, int, const char*) = nullptr;
}

namespace dst {
namespace {
constexpr uint64_t kDefaultStepBudget = 600ull * 1000 * 1000;
constexpr size_t kArena = size_t{4} << 30;
char* g_arena = nullptr;
size_t g_arena_pos = 0;

struct Shm {
  volatile uint64_t run;
  volatile uint32_t active;
  volatile uint32_t nchoices;
  volatile uint64_t hash;
  volatile uint64_t steps;
  volatile uint64_t nfaults;
  volatile uint32_t have_violation;
  char oracle[160];
  char detail[8192];
  char log[1 << 16];
  volatile uint32_t log_len;
  uint32_t choices[1 << 20];
};
Shm* g_shm = nullptr;
Shm g_dummy_shm_unused [[maybe_unused]] = {};

Shm* MapShm(const std::string& path) {
  const int fd = open(path.c_str(), O_RDWR | O_CREAT, 0600);
  if (fd < 0 || ftruncate(fd, sizeof(Shm)) != 0) { perror("shm"); _exit(3); }
  void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  return static_cast<Shm*>(p);
}
void CopyStr(char* dst, size_t cap, const char* s) {
  size_t n = strlen(s);
  if (n >= cap) n = cap - 1;
  memcpy(dst, s, n);
  dst[n] = 0;
}
void SetViolation(const char* oracle, const char* detail) {
  if (!g_shm || g_shm->have_violation) return;
  CopyStr(g_shm->oracle, sizeof g_shm->oracle, oracle);
  CopyStr(g_shm->detail, sizeof g_shm->detail, detail);
  g_shm->have_violation = 1;
}
[[noreturn]] void Die(const char* oracle, const char* detail, int code) {
  SetViolation(oracle, detail);
  _exit(code);
}
}  // namespace

void* ArenaAlloc(size_t n) {
  if (!g_arena) {
    g_arena = static_cast<char*>(mmap(nullptr, kArena, PROT_READ | PROT_WRITE,
                                      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  }
  n = (n + 15) & ~size_t{15};
  if (g_arena_pos + n > kArena) Die("harness-arena", "arena exhausted", 3);
  void* p = g_arena + g_arena_pos;
  g_arena_pos += n;
  return p;
}

std::vector<Property>& Properties() {
  static auto* v = new std::vector<Property>;
  return *v;
}

// -------------------------------------------------------------------- Ctx --
uint32_t Ctx::Record(uint32_t v) {
  if (g_shm && choices.size() < (1u << 20)) {
    g_shm->choices[choices.size()] = v;
    g_shm->nchoices = choices.size() + 1;
  }
  choices.push_back(v);
  if (choices.size() >= (1u << 20)) Die("harness-choices", "too many choices", 3);
  return v;
}
uint32_t Ctx::Pick(uint32_t n) {
  if (n == 0) n = 1;
  uint32_t v = 0;
  if (replaying_) {
    if (pos_ < in_.size()) v = in_[pos_++] % n;
  } else {
    v = Next() % n;
  }
  return Record(v);
}
uint32_t Ctx::Weighted(std::initializer_list<uint32_t> weights) {
  uint32_t total = 0;
  for (uint32_t w : weights) total += w;
  uint32_t v = Pick(total), i = 0;
  for (uint32_t w : weights) {
    if (v < w) return i;
    v -= w;
    ++i;
  }
  return 0;
}
bool Ctx::Chance(uint32_t num, uint32_t den) { return Pick(den) >= den - num; }

uint64_t HashBytes(const void* p, size_t n, uint64_t h) {
  const uint8_t* b = static_cast<const uint8_t*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
  return h;
}
void Ctx::Note(const char* what, uint64_t a, uint64_t b) {
  hash = HashBytes(what, strlen(what), hash);
  hash = HashBytes(&a, sizeof a, hash);
  hash = HashBytes(&b, sizeof b, hash);
  ++notes;
  if (g_shm) g_shm->hash = hash;
  if (verbose) Log("%s %llu %llu", what, (unsigned long long)a, (unsigned long long)b);
}
void Ctx::NoteBytes(const char* what, const void* p, size_t n) { Note(what, n, HashBytes(p, n)); }
void Ctx::Log(const char* fmt, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (g_shm) {
    const size_t n = strlen(buf), at = g_shm->log_len;
    if (at + n + 1 < sizeof g_shm->log) {
      memcpy(g_shm->log + at, buf, n);
      g_shm->log[at + n] = '\n';
      g_shm->log_len = at + n + 1;
    }
  }
}
void Ctx::Fail(const std::string& oracle, const std::string& detail) {
  throw Violation{oracle, detail};
}

std::string Hex(const void* p, size_t n, size_t max) {
  std::string s;
  char b[4];
  for (size_t i = 0; i < n && i < max; ++i) {
    snprintf(b, sizeof b, "%02x", static_cast<const uint8_t*>(p)[i]);
    s += b;
  }
  if (n > max) s += "..";
  return s;
}
std::string Fmt(const char* fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}

uint64_t Steps() { return rt::steps; }
uint64_t EdgesTotal() { return rt::num_edges; }
uint64_t EdgesCovered() {
  uint64_t n = 0;
  for (uint32_t i = 1; i <= rt::num_edges; ++i) n += rt::edge_map[i];
  return n;
}
void SetStepBudget(uint64_t s) { rt::step_limit = rt::steps + s; }

namespace {
std::string g_scratch;
void RemoveScratch() {
  if (!g_scratch.empty()) {
    std::error_code ec;
    std::filesystem::remove_all(g_scratch, ec);
    g_scratch.clear();
  }
}
}  // namespace
const std::string& ScratchDir() {
  if (g_scratch.empty()) {
    // Same path length and shape in every process; the name never reaches the
    // recorded history.
    const char* base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    char b[128];
    snprintf(b, sizeof b, "%s/verif_dst_%07d", base, (int)getpid());
    g_scratch = b;
    std::error_code ec;
    std::filesystem::remove_all(g_scratch, ec);
    std::filesystem::create_directories(g_scratch, ec);
  }
  return g_scratch;
}

// -------------------------------------------------------------------- I/O --
namespace {
const IoFaults::Fn* g_io = nullptr;
int IoTrampoline(rt::Op op, int, size_t len, size_t* allow) {
  if (!g_io) return 0;
  IoDecision d = (*g_io)(static_cast<IoOp>(op), len);
  if (d.allow < *allow) *allow = d.allow;
  return d.err;
}
IoFaults::Fn g_io_storage;
const CodecFaults::Fn* g_codec = nullptr;
CodecFaults::Fn g_codec_storage;
bool CodecTrampoline(int site) { return g_codec && (*g_codec)(site); }
}  // namespace
IoFaults::IoFaults(Fn fn) {
  g_io_storage = std::move(fn);
  g_io = &g_io_storage;
  rt::io_fn = IoTrampoline;
}
IoFaults::~IoFaults() {
  rt::io_fn = nullptr;
  g_io = nullptr;
  g_io_storage = nullptr;
}
CodecFaults::CodecFaults(Fn fn) {
  g_codec_storage = std::move(fn);
  g_codec = &g_codec_storage;
  simtp::fault_hook = CodecTrampoline;
}
CodecFaults::~CodecFaults() {
  simtp::fault_hook = nullptr;
  g_codec = nullptr;
  g_codec_storage = nullptr;
}
AllocStats TakeAllocStats() {
  AllocStats s{rt::alloc_max, rt::alloc_total};
  rt::alloc_max = rt::alloc_total = 0;
  return s;
}

// -------------------------------------------------------------- scheduler --
namespace {
struct Scheduler;
struct Task {
  Scheduler* s;
  int index;
  pthread_t th;
  const std::function<void()>* fn;
  bool done = false;
  void* waiting_on = nullptr;
  bool violated = false;
  Violation v;
};
struct Scheduler {
  Ctx* ctx;
  std::vector<Task> tasks;
  int current = -1;
  pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
  pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
  std::map<void*, int> owner;  // mutex -> task
  uint32_t mode = 0;
  const char* oracle = "";
  uint64_t switches = 0;
  bool abandoned = false;  // a task failed: the others stay where they are
};
Scheduler* g_sched = nullptr;
thread_local int t_task = -1;

void DrawCountdown() {
  // How many basic blocks of repository code until the next preemption.
  Ctx& c = *g_sched->ctx;
  // Long executions are preempted less often as they go on.
  const uint32_t coarser = c.choices.size() > 120000 ? 2 : c.choices.size() > 60000 ? 1 : 0;
  const uint32_t mode = g_sched->mode ? std::min<uint32_t>(3, g_sched->mode + coarser) : 0;
  if (mode == 0) { rt::countdown = 0; return; }
  const uint32_t most = mode == 1 ? 40 : mode == 2 ? 2000 : 60000;
  const uint32_t v = c.Pick(16 * most);
  rt::countdown = v == 0 ? 0 : 1 + v % most;  // 0: not before the next blocking call
}
void WaitTurn(Scheduler& s, int me) {
  while (s.abandoned || s.current != me) pthread_cond_wait(&s.cv, &s.mu);
}
// Chooses the next task; called with mu held by the running task. The first
// choice is to go on, or the next task in turn when this one gives way.
int ChooseNext(int me, bool gives_way) {
  std::vector<int> runnable;
  Scheduler& s = *g_sched;
  ++rt::io_mute;
  const int n = s.tasks.size();
  for (int k = gives_way ? 1 : 0; k < n + (gives_way ? 1 : 0); ++k) {
    const int i = (me + k) % n;
    if (!s.tasks[i].done && !s.tasks[i].waiting_on) runnable.push_back(i);
  }
  --rt::io_mute;
  if (runnable.empty()) return -1;
  if (runnable.size() == 1) return runnable[0];
  return runnable[s.ctx->Pick(runnable.size())];
}
void SwitchFrom(int me, bool gives_way = false) {
  Scheduler& s = *g_sched;
  pthread_mutex_lock(&s.mu);
  const int next = ChooseNext(me, gives_way);
  if (next == -1) {
    bool all_done = true;
    for (auto& t : s.tasks) all_done &= t.done;
    if (!all_done) Die(s.oracle, "no task can run: deadlock", 42);
    s.current = -2;
    pthread_cond_broadcast(&s.cv);
  } else if (next != me) {
    ++s.switches;
    s.ctx->Note("switch", next);
    DrawCountdown();
    s.current = next;
    pthread_cond_broadcast(&s.cv);
    if (!s.tasks[me].done) WaitTurn(s, me);
  } else {
    DrawCountdown();
  }
  pthread_mutex_unlock(&s.mu);
}
void LockHook(void* m) {
  Scheduler* s = g_sched;
  if (!s || t_task < 0) return;
  SwitchFrom(t_task);  // scheduling point before the acquisition
  for (;;) {
    auto it = s->owner.find(m);
    if (it == s->owner.end()) break;
    if (it->second == t_task) Die(s->oracle, "mutex locked twice by one thread", 42);
    s->tasks[t_task].waiting_on = m;
    SwitchFrom(t_task);
  }
  s->owner[m] = t_task;
}
void UnlockHook(void* m) {
  Scheduler* s = g_sched;
  if (!s || t_task < 0) return;
  s->owner.erase(m);
  for (auto& t : s->tasks)
    if (t.waiting_on == m) t.waiting_on = nullptr;
  SwitchFrom(t_task);
}
void OnCountdown() {
  if (!g_sched || t_task < 0) return;
  static thread_local bool busy = false;
  if (busy) return;
  busy = true;
  SwitchFrom(t_task);
  busy = false;
}
void* TaskMain(void* arg) {
  const int me = static_cast<Task*>(arg)->index;
  t_task = me;
  Scheduler& s = *static_cast<Task*>(arg)->s;
  pthread_mutex_lock(&s.mu);
  WaitTurn(s, me);
  pthread_mutex_unlock(&s.mu);
  try {
    (*s.tasks[me].fn)();
  } catch (const Violation& v) {
    s.tasks[me].violated = true;
    s.tasks[me].v = v;
  } catch (const std::exception& e) {
    s.tasks[me].violated = true;
    s.tasks[me].v = Violation{"abnormal-termination", std::string("exception: ") + e.what()};
  }
  s.tasks[me].done = true;
  if (s.tasks[me].violated) {
    // The other tasks may be waiting for this one: they are not resumed.
    pthread_mutex_lock(&s.mu);
    s.abandoned = true;
    s.current = -2;
    pthread_cond_broadcast(&s.cv);
    pthread_mutex_unlock(&s.mu);
    return nullptr;
  }
  SwitchFrom(me);
  return nullptr;
}
}  // namespace

// Function-local statics: while one task initialises one, the others wait for
// it under the scheduler's control. One task runs at a time.
bool g_guards_schedule = false;  // initialisation is itself a scheduling point
extern "C" char __executable_start, _end;
// Libraries outside the simulation may be initialised already.
static bool Schedules(void* guard) { return g_guards_schedule && guard >= &__executable_start && guard < &_end; }
extern "C" int __cxa_guard_acquire(__cxxabiv1::__guard* guard) {
  volatile char* done = reinterpret_cast<volatile char*>(guard);
  if (*done) return 0;
  Scheduler* s = g_sched;
  if (!s || t_task < 0) return 1;
  if (Schedules(guard)) SwitchFrom(t_task);
  while (!*done && s->owner.count(guard)) {
    if (s->owner[guard] == t_task) Die(s->oracle, "a static needs itself to be initialised", 42);
    s->tasks[t_task].waiting_on = guard;
    SwitchFrom(t_task);
  }
  if (*done) return 0;
  s->owner[guard] = t_task;
  return 1;
}
static void GuardLeave(__cxxabiv1::__guard* guard) {
  Scheduler* s = g_sched;
  if (!s || t_task < 0) return;
  s->owner.erase(guard);
  for (auto& t : s->tasks)
    if (t.waiting_on == guard) t.waiting_on = nullptr;
  if (Schedules(guard)) SwitchFrom(t_task);
}
extern "C" void __cxa_guard_release(__cxxabiv1::__guard* guard) noexcept {
  *reinterpret_cast<volatile char*>(guard) = 1;
  GuardLeave(guard);
}
extern "C" void __cxa_guard_abort(__cxxabiv1::__guard* guard) noexcept { GuardLeave(guard); }

bool InTask() { return t_task >= 0; }
void TaskYield() {
  if (g_sched && t_task >= 0) SwitchFrom(t_task, true);
}
bool RunTasks(Ctx& ctx, const std::vector<std::function<void()>>& tasks, const char* oracle) {
  Scheduler* const sp = new Scheduler;  // kept when threads stay behind
  Scheduler& s = *sp;
  s.ctx = &ctx;
  s.oracle = oracle;
  s.mode = ctx.Pick(4);
  s.tasks.resize(tasks.size());
  g_sched = &s;
  verif_sched::mutex_lock_hook = LockHook;
  verif_sched::mutex_unlock_hook = UnlockHook;
  rt::on_countdown = OnCountdown;
  for (size_t i = 0; i < tasks.size(); ++i) {
    s.tasks[i].s = sp;
    s.tasks[i].index = i;
    s.tasks[i].fn = &tasks[i];
    pthread_create(&s.tasks[i].th, nullptr, TaskMain, &s.tasks[i]);
  }
  pthread_mutex_lock(&s.mu);
  const int first = ctx.Pick(tasks.size());
  DrawCountdown();
  s.current = first;
  pthread_cond_broadcast(&s.cv);
  while (s.current != -2) pthread_cond_wait(&s.cv, &s.mu);
  pthread_mutex_unlock(&s.mu);
  for (auto& t : s.tasks)
    if (s.abandoned && !t.violated) pthread_detach(t.th);
    else pthread_join(t.th, nullptr);
  rt::countdown = 0;
  rt::on_countdown = nullptr;
  verif_sched::mutex_lock_hook = nullptr;
  verif_sched::mutex_unlock_hook = nullptr;
  g_sched = nullptr;
  ctx.Count("context_switches", s.switches);
  for (auto& t : s.tasks)
    if (t.violated) throw Violation(t.v);
  delete sp;
  return true;
}

// ----------------------------------------------------------------- running --
namespace {
uint64_t RunSeed(uint64_t seed, uint64_t i) { return Ctx::Mix(Ctx::Mix(seed) ^ (i * 0x9e3779b97f4a7c15ull + 17)); }

const Property* g_prop = nullptr;
constexpr size_t kLiveLimit = size_t{3} << 30;

void FatalHook(const char* file, int line, const char* msg) {
  char b[2048];
  const char* f = strstr(file, "iamf/");
  snprintf(b, sizeof b, "aborting check in %s: %s (line %d)", f ? f : file, msg, line);
  Die("abort", b, 43);
}
void AsanReport(const char* r) {
  char oracle[160] = "memory-error", detail[6000];
  const char* k = strstr(r, "ERROR: AddressSanitizer: ");
  if (k) {
    k += strlen("ERROR: AddressSanitizer: ");
    size_t n = strcspn(k, " \n");
    if (n > 60) n = 60;
    snprintf(oracle, sizeof oracle, "memory-error-%.*s", (int)n, k);
  }
  const char* sum = strstr(r, "SUMMARY:");
  snprintf(detail, sizeof detail, "%.*s | %.3000s", sum ? (int)strcspn(sum, "\n") : 0, sum ? sum : "", r);
  SetViolation(oracle, detail);
}
void DeathCallback() {
  if (g_shm && g_shm->active) SetViolation("memory-error", "sanitizer stopped the process");
}
void OnStepLimit() { Die("no-progress", "step budget exceeded: a call does not return within bounded work", 42); }
void OnTerminate() {
  std::string what = "std::terminate";
  if (auto e = std::current_exception()) {
    try {
      std::rethrow_exception(e);
    } catch (const Violation& v) {
      Die(v.oracle.c_str(), v.detail.c_str(), 42);
    } catch (const std::exception& x) {
      what += std::string(": ") + x.what();
    } catch (...) {
    }
  }
  Die("abnormal-termination", what.c_str(), 43);
}
void OnAlarm(int) { Die("no-progress", "wall-clock watchdog: a call does not return", 42); }

struct RunResult {
  bool violated = false;
  Violation v;
};

// Executes one run. On return g_shm holds choices and hash.
uint64_t OpenFds() {
  uint64_t m = 0;
  for (int i = 0; i < 64; ++i)
    if (fcntl(i, F_GETFD) != -1) m |= uint64_t{1} << i;
  return m;
}
RunResult Execute(const Property& p, Ctx& ctx, bool check_live_handles) {
  RunResult r;
  const uint64_t fds = OpenFds();
  g_shm->nchoices = 0;
  g_shm->log_len = 0;
  g_shm->have_violation = 0;
  g_shm->hash = ctx.hash;
  rt::steps = 0;
  rt::step_limit = kDefaultStepBudget;
  rt::countdown = 0;
  simtp::live_handles = 0;
  simtp::flac_hold_frames = 0;
  g_guards_schedule = p.fork_each;
  alarm(150);
  try {
    p.run(ctx);
    if (check_live_handles && p.check_leaks && simtp::live_handles != 0)
      ctx.Fail("leaked-handles", Fmt("%ld codec/resampler handles still open", simtp::live_handles));
    if (check_live_handles && p.check_leaks && OpenFds() != fds) {
      const uint64_t now = OpenFds();
      int fd = 0;
      while (!(((now ^ fds) >> fd) & 1)) ++fd;
      char name[200] = "";
      const ssize_t len = readlink(Fmt("/proc/self/fd/%d", fd).c_str(), name, sizeof name - 1);
      if (len > 0) name[len] = 0;
      const char* base = strrchr(name, '/');
      ctx.Fail("leaked-file", Fmt("file descriptor %d (%s) is %s after the run", fd, base ? base + 1 : name, (now >> fd) & 1 ? "still open" : "closed"));
    }
  } catch (const Violation& v) {
    r.violated = true;
    r.v = v;
  } catch (const std::exception& e) {
    r.violated = true;
    r.v = Violation{"abnormal-termination", std::string("uncaught exception: ") + e.what()};
  }
  alarm(0);
  simtp::fault_hook = nullptr;
  rt::io_fn = nullptr;
  g_shm->steps = rt::steps;
  g_shm->nfaults = ctx.nfaults;
  g_shm->hash = ctx.hash;
  RemoveScratch();
  return r;
}

void ChildSetup() {
  rt::InstallAllocHooks();
  rt::alloc_track = true;
  rt::SetErrorReportCallback(AsanReport);
  rt::SetDeathCallback(DeathCallback);
  rt::on_step_limit = OnStepLimit;
  rt::on_heap_limit = [] { Die("heap-limit", "more than 3.5 GB of heap in use", 43); };
  verif_log::fatal_hook = FatalHook;
  std::set_terminate(OnTerminate);
  signal(SIGALRM, OnAlarm);
  signal(SIGPIPE, SIG_IGN);
}

// Leak oracle: heap growth that repeats each time the same run is repeated.
bool Leaks(const Property& p, const std::vector<uint32_t>& choices, size_t* bytes) {
  size_t least = SIZE_MAX;
  for (int i = 0; i < 3; ++i) {
    const size_t mark = g_arena_pos;
    const size_t before = rt::CurrentAllocated();
    bool bad;
    {
      Ctx c(choices);
      RunResult r = Execute(p, c, true);
      bad = r.violated;
    }
    const size_t after = rt::CurrentAllocated();
    g_arena_pos = mark;
    if (bad || after <= before) return false;
    least = std::min(least, after - before);
  }
  *bytes = least;
  return true;
}

struct Totals {
  uint64_t runs = 0, nontrivial = 0, steps = 0, nfaults = 0, leak_reruns = 0, determinism = 0;
  uint64_t choices = 0, with_faults = 0;
  double sim_seconds = 0;
  std::map<std::string, uint64_t> faults, counters;
  std::set<uint64_t> states, hashes, nontrivial_hashes;
  std::vector<uint8_t> edges;
  std::vector<std::string> samples;
  void Merge(std::istream& in);
  void Write(std::ostream& out) const;
};
void Totals::Write(std::ostream& o) const {
  o << "runs " << runs << ' ' << nontrivial << ' ' << steps << ' ' << nfaults << ' ' << leak_reruns << ' '
    << determinism << ' ' << choices << ' ' << with_faults << ' ' << sim_seconds << '\n';
  for (auto& [k, v] : faults) o << "fault " << v << ' ' << k << '\n';
  for (auto& [k, v] : counters) o << "counter " << v << ' ' << k << '\n';
  for (auto s : states) o << "state " << s << '\n';
  for (auto s : hashes) o << "hash " << s << '\n';
  for (auto s : nontrivial_hashes) o << "nthash " << s << '\n';
  for (auto& s : samples) o << "sample " << s << '\n';
  o << "edges ";
  for (auto e : edges) o << char('0' + (e ? 1 : 0));
  o << "\nend\n";
}
void Totals::Merge(std::istream& in) {
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "runs") {
      uint64_t v[8];
      double d;
      for (auto& x : v) is >> x;
      is >> d;
      runs += v[0]; nontrivial += v[1]; steps += v[2]; nfaults += v[3];
      leak_reruns += v[4]; determinism += v[5]; choices += v[6]; with_faults += v[7];
      sim_seconds += d;
    } else if (k == "fault" || k == "counter") {
      uint64_t v;
      is >> v;
      is.get();
      std::string name;
      std::getline(is, name);
      (k == "fault" ? faults : counters)[name] += v;
    } else if (k == "state" || k == "hash" || k == "nthash") {
      uint64_t v;
      is >> v;
      (k == "state" ? states : k == "hash" ? hashes : nontrivial_hashes).insert(v);
    } else if (k == "sample") {
      if (samples.size() < 6) samples.push_back(line.substr(7));
    } else if (k == "edges") {
      std::string b;
      is >> b;
      if (edges.size() < b.size()) edges.resize(b.size());
      for (size_t i = 0; i < b.size(); ++i) edges[i] |= b[i] == '1';
    }
  }
}

const Property* FindProp(const std::string& id) {
  for (auto& p : Properties())
    if (id == p.id) return &p;
  fprintf(stderr, "unknown property %s\n", id.c_str());
  exit(3);
}

int WorkerLoop(const Property& p, uint64_t seed, uint64_t from, uint64_t to, const std::string& out);
// One run per forked child: nothing an earlier run initialised is there.
int ForkingWorker(const Property& p, uint64_t seed, uint64_t from, uint64_t to, const std::string& out) {
  Totals t;
  auto in_child = [](const std::function<int()>& fn) {
    const pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      _exit(fn());
    }
    if (pid < 0) _exit(3);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    if (WIFSIGNALED(st)) {
      signal(WTERMSIG(st), SIG_DFL);
      kill(getpid(), WTERMSIG(st));
    }
    if (WEXITSTATUS(st) != 0) _exit(WEXITSTATUS(st));
  };
  for (uint64_t i = from; i < to; ++i) {
    in_child([&] { return WorkerLoop(p, seed, i, i + 1, out); });
    if (i % 16 == 3) {  // the same choices give the same history
      const uint64_t hash = g_shm->hash;
      const std::vector<uint32_t> choices(g_shm->choices, g_shm->choices + g_shm->nchoices);
      ++t.determinism;
      in_child([&] {
        g_prop = &p;
        ChildSetup();
        g_shm->active = 1;
        Ctx again(choices);
        const RunResult r = Execute(p, again, true);
        if (r.violated || again.hash != hash)
          Die("not-a-function-of-the-choices", r.violated ? ("when repeated: " + r.v.oracle + ": " + r.v.detail).c_str() : "repeating the run gives a different history", 45);
        return 0;
      });
      g_shm->active = 0;
    }
    std::ifstream f(out);
    t.Merge(f);
  }
  std::ofstream f(out);
  t.Write(f);
  f.close();
  return f ? 0 : 3;
}
// Worker: runs indexes [from, to). Exit: 0 ok; 42..44 violation (shm).
int Worker(const Property& p, uint64_t seed, uint64_t from, uint64_t to, const std::string& out) {
  return p.fork_each ? ForkingWorker(p, seed, from, to, out) : WorkerLoop(p, seed, from, to, out);
}
int WorkerLoop(const Property& p, uint64_t seed, uint64_t from, uint64_t to, const std::string& out) {
  g_prop = &p;
  ChildSetup();
  Totals t;
  for (uint64_t i = from; i < to; ++i) {
    const size_t mark = g_arena_pos;
    const size_t before = rt::CurrentAllocated();
    size_t after;
    uint64_t hash = 0;
    std::vector<uint32_t> choices;
    {
      g_shm->run = i;
      g_shm->active = 1;
      Ctx c(RunSeed(seed, i));
      RunResult r = Execute(p, c, true);
      after = rt::CurrentAllocated();
      if (r.violated) Die(r.v.oracle.c_str(), r.v.detail.c_str(), 42);
      ++t.runs;
      t.nontrivial += c.nontrivial;
      t.steps += rt::steps;
      t.nfaults += c.nfaults;
      t.with_faults += c.nfaults != 0;
      t.choices += c.choices.size();
      t.sim_seconds += c.sim_seconds;
      for (auto& [k, v] : c.faults) t.faults[std::string(k.c_str())] += v;
      for (auto& [k, v] : c.counters) t.counters[std::string(k.c_str())] += v;
      t.states.insert(c.states.begin(), c.states.end());
      t.hashes.insert(c.hash);
      if (c.nontrivial) t.nontrivial_hashes.insert(c.hash);
      choices.assign(c.choices.begin(), c.choices.end());
      hash = c.hash;
      if (t.samples.empty() && c.nontrivial) {
        std::string s = Fmt("run %llu (seed %llu): %zu choices, %llu steps, %llu faults, history hash %016llx; first choices:",
                            (unsigned long long)i, (unsigned long long)seed, choices.size(),
                            (unsigned long long)rt::steps, (unsigned long long)c.nfaults, (unsigned long long)hash);
        for (size_t k = 0; k < choices.size() && k < 24; ++k) s += Fmt(" %u", choices[k]);
        t.samples.push_back(s);
      }
      // The same choices must give the same history.
      if (i % 16 == 3 && !p.fork_each) {
        Ctx again(choices);
        RunResult r2 = Execute(p, again, true);
        ++t.determinism;
        if (r2.violated || again.hash != hash) {
          Die("depends-on-process-history",
              r2.violated ? ("repeating the run in the same process: " + r2.v.oracle + ": " + r2.v.detail).c_str()
                          : "repeating the run in the same process gives a different history", 45);
        }
      }
    }
    if (p.check_leaks && after > before && (!p.fork_each || i % 8 == 0)) {
      size_t bytes = 0;
      ++t.leak_reruns;
      // Restore what the parent needs to see if this is a leak.
      if (Leaks(p, choices, &bytes))
        Die("leak", Fmt("heap grows by at least %zu bytes each time the run is repeated", bytes).c_str(), 42);
    }
    if (p.fork_each) {  // what the parent repeats
      g_shm->hash = hash;
      g_shm->nchoices = choices.size();
      std::copy(choices.begin(), choices.end(), g_shm->choices);
    }
    g_arena_pos = mark;
    g_shm->active = 0;
  }
  t.edges.assign(rt::edge_map + 1, rt::edge_map + 1 + rt::num_edges);
  std::ofstream f(out);
  t.Write(f);
  f.close();
  return f ? 0 : 3;
}

// ------------------------------------------------------------------ replay --
struct Replay {
  std::string prop, mode = "choices";  // choices | twice | seeds | leak
  uint64_t salt = 1, seed = 0, from = 0, to = 0;
  std::vector<uint32_t> choices;
  std::string oracle, detail, log;
};
bool ReadReplay(const std::string& path, Replay* r) {
  std::ifstream f(path);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "property") is >> r->prop;
    else if (k == "mode") is >> r->mode;
    else if (k == "salt") is >> r->salt;
    else if (k == "seed") is >> r->seed;
    else if (k == "runs") is >> r->from >> r->to;
    else if (k == "choices") { uint32_t v; while (is >> v) r->choices.push_back(v); }
    else if (k == "oracle") is >> r->oracle;
    else if (k == "end") break;
  }
  return !r->prop.empty();
}
void WriteReplay(const std::string& path, const Replay& r) {
  std::ofstream f(path);
  f << "property " << r.prop << "\nmode " << r.mode << "\nsalt " << r.salt << "\n";
  if (r.mode == "seeds") f << "seed " << r.seed << "\nruns " << r.from << ' ' << r.to << "\n";
  f << "choices";
  for (auto c : r.choices) f << ' ' << c;
  f << "\noracle " << r.oracle << "\nend\n\n# " << r.oracle << ": " << r.detail
    << "\n# history of the minimised run:\n";
  std::istringstream is(r.log);
  std::string l;
  while (std::getline(is, l)) f << "#   " << l << "\n";
}
// In a fresh process: executes the replay. Exit 0 no violation, 42+ violation.
int DoReplay(const Replay& r) {
  const Property& p = *FindProp(r.prop);
  g_prop = &p;
  ChildSetup();
  g_shm->active = 1;
  if (r.mode == "seeds") {
    for (uint64_t i = r.from; i < r.to; ++i) {
      const size_t mark = g_arena_pos;
      {
        g_shm->run = i;
        Ctx c(RunSeed(r.seed, i));
        c.verbose = i + 1 == r.to;
        RunResult x = Execute(p, c, true);
        if (x.violated) Die(x.v.oracle.c_str(), x.v.detail.c_str(), 42);
      }
      g_arena_pos = mark;
    }
    return 0;
  }
  uint64_t hash;
  {
    Ctx c(r.choices);
    c.verbose = true;
    RunResult x = Execute(p, c, true);
    if (x.violated) Die(x.v.oracle.c_str(), x.v.detail.c_str(), 42);
    hash = c.hash;
  }
  if (r.mode == "twice") {
    Ctx c(r.choices);
    c.verbose = true;
    RunResult x = Execute(p, c, true);
    if (x.violated || c.hash != hash)
      Die("depends-on-process-history",
          x.violated ? ("repeating the run in the same process: " + x.v.oracle + ": " + x.v.detail).c_str()
                     : "repeating the run in the same process gives a different history", 42);
  }
  if (r.mode == "leak") {
    size_t bytes = 0;
    if (Leaks(p, r.choices, &bytes))
      Die("leak", Fmt("heap grows by at least %zu bytes each time the run is repeated", bytes).c_str(), 42);
  }
  return 0;
}

// ------------------------------------------------------------------ parent --
double Now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
std::string g_self, g_work;

pid_t Spawn(const std::vector<std::string>& args, uint64_t salt, const std::string& errfile) {
  std::vector<char*> av;
  for (auto& a : args) av.push_back(const_cast<char*>(a.c_str()));
  av.push_back(nullptr);
  const std::string env = "VERIF_SALT=" + std::to_string(salt);
  const std::string sym = "PATH=/usr/bin:/bin";
  const std::string tz = "LC_ALL=C";
  char* ev[] = {const_cast<char*>(env.c_str()), const_cast<char*>(sym.c_str()), const_cast<char*>(tz.c_str()), nullptr};
  const pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    const int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (!getenv("VERIF_KEEP_STDERR")) dup2(fd, 2);
    dup2(fd, 1);
    const int in = open("/dev/null", O_RDONLY);
    dup2(in, 0);
    execve(g_self.c_str(), av.data(), ev);
    _exit(99);
  }
  return pid;
}
struct Outcome {
  int status = 0;  // 0 ok, 1 violation, 2 harness error
  std::string oracle, detail, log;
  uint64_t hash = 0, run = 0;
  std::vector<uint32_t> choices;
  int code = 0;
};
Outcome Collect(int wstatus, Shm* shm) {
  Outcome o;
  o.run = shm->run;
  o.hash = shm->hash;
  o.choices.assign(shm->choices, shm->choices + shm->nchoices);
  o.log.assign(shm->log, shm->log_len);
  if (WIFEXITED(wstatus)) {
    o.code = WEXITSTATUS(wstatus);
    if (o.code == 0) return o;
    if (o.code == 3 || o.code == 99) { o.status = 2; }
    else o.status = 1;
  } else {
    o.status = 1;
    o.code = 128 + WTERMSIG(wstatus);
  }
  if (shm->have_violation) {
    o.oracle = shm->oracle;
    o.detail = shm->detail;
  } else {
    o.oracle = o.code >= 128 ? "abnormal-termination" : "memory-error";
    o.detail = Fmt("process ended with code %d", o.code);
  }
  return o;
}
// Runs replays in parallel fresh processes.
std::vector<Outcome> RunReplays(const std::vector<Replay>& rs) {
  std::vector<Outcome> out(rs.size());
  std::map<pid_t, size_t> pids;
  std::vector<Shm*> shms(rs.size());
  for (size_t i = 0; i < rs.size(); ++i) {
    const std::string b = g_work + "/m" + std::to_string(i);
    WriteReplay(b + ".replay", rs[i]);
    unlink((b + ".shm").c_str());
    shms[i] = MapShm(b + ".shm");
    pids[Spawn({g_self, "inner", b + ".replay", b + ".shm"}, rs[i].salt, b + ".err")] = i;
  }
  while (!pids.empty()) {
    int st;
    const pid_t p = wait(&st);
    auto it = pids.find(p);
    if (it == pids.end()) continue;
    out[it->second] = Collect(st, shms[it->second]);
    pids.erase(it);
  }
  for (auto* s : shms) munmap(s, sizeof(Shm));
  return out;
}

struct Known { std::string prop, oracle, match, text; };
std::vector<Known> LoadKnown(const std::string& path) {
  // lines: known: property=<id> oracle=<name> match="<substring of detail>" <what fails>
  std::vector<Known> v;
  std::ifstream f(path);
  std::string line;
  while (std::getline(f, line)) {
    if (line.rfind("known:", 0) != 0) continue;
    Known k;
    auto get = [&](const std::string& key) {
      auto at = line.find(key + "=");
      if (at == std::string::npos) return std::string();
      at += key.size() + 1;
      if (line[at] == '"') {
        auto e = line.find('"', at + 1);
        return line.substr(at + 1, e - at - 1);
      }
      return line.substr(at, line.find(' ', at) - at);
    };
    k.prop = get("property");
    k.oracle = get("oracle");
    k.match = get("match");
    auto at = line.rfind("\" ");
    k.text = at == std::string::npos ? line : line.substr(at + 2);
    v.push_back(k);
  }
  return v;
}
std::string JsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c >= 0x7f) o += Fmt("\\u%04x", c);
    else o += c;
  }
  return o + "\"";
}

int RunCheck(const Property& p, const std::string& tier, uint64_t seed, const std::string& evidence,
             const std::string& known_path, const std::string& replay_dir, double cap_s, uint64_t runs, int jobs) {
  const double t0 = Now();
  const uint64_t kChunk = std::max<uint64_t>(4, std::min<uint64_t>(100, runs / (jobs * 6) + 1));
  auto known = LoadKnown(known_path);
  std::set<std::string> known_seen;
  Totals total;
  struct Slot { pid_t pid = 0; uint64_t from = 0, to = 0; Shm* shm = nullptr; uint64_t salt = 1; int no = 0; bool killed = false; };
  std::vector<Slot> slots(jobs);
  for (int i = 0; i < jobs; ++i) {
    slots[i].no = i;
    slots[i].shm = MapShm(g_work + "/s" + std::to_string(i) + ".shm");
  }
  std::vector<std::pair<uint64_t, uint64_t>> pending;  // continuation chunks
  uint64_t next = 0;
  bool have = false;
  Outcome worst;
  uint64_t worst_salt = 0, worst_from = 0;
  bool harness_error = false;
  std::string harness_detail;
  bool capped = false;
  auto launch = [&](Slot& s, uint64_t from, uint64_t to, uint64_t salt) {
    s.from = from;
    s.to = to;
    s.salt = salt;
    s.killed = false;
    memset((void*)s.shm, 0, offsetof(Shm, choices));
    const std::string b = g_work + "/s" + std::to_string(s.no);
    unlink((b + ".out").c_str());
    s.pid = Spawn({g_self, "worker", p.id, std::to_string(seed), std::to_string(from), std::to_string(to),
                   b + ".shm", b + ".out"}, salt, b + ".err");
  };
  for (;;) {
    bool busy = false;
    for (auto& s : slots) {
      if (!s.pid && !have && !harness_error) {
        if (!pending.empty()) {
          auto [f, t] = pending.back();
          pending.pop_back();
          launch(s, f, t, Ctx::Mix(seed ^ Ctx::Mix(f / kChunk)) | 1);
        } else if (next < runs) {
          if (Now() - t0 > cap_s) {
            capped = true;
            next = runs;
          } else {
            const uint64_t to = std::min(runs, next + kChunk);
            launch(s, next, to, Ctx::Mix(seed ^ Ctx::Mix(next / kChunk)) | 1);
            next = to;
          }
        }
      }
      busy |= s.pid != 0;
    }
    if (!busy) break;
    int st;
    const pid_t pid = wait(&st);
    for (auto& s : slots) {
      if (s.pid != pid) continue;
      s.pid = 0;
      if (s.killed) break;
      Outcome o = Collect(st, s.shm);
      if (o.status == 0) {
        std::ifstream f(g_work + "/s" + std::to_string(s.no) + ".out");
        total.Merge(f);
        break;
      }
      if (o.status == 2) {
        harness_error = true;
        harness_detail = o.oracle + ": " + o.detail + " in run " + std::to_string(o.run);
        break;
      }
      bool is_known = false;
      for (auto& k : known) {
        if (k.prop == p.id && k.oracle == o.oracle && o.detail.find(k.match) != std::string::npos) {
          is_known = true;
          known_seen.insert(k.text);
          break;
        }
      }
      if (is_known) {
        total.counters["runs_ended_by_known_finding"]++;
        total.runs++;
        if (o.run + 1 < s.to) pending.push_back({o.run + 1, s.to});
        break;
      }
      if (!have || o.run < worst.run) {
        have = true;
        worst = o;
        worst_salt = s.salt;
        worst_from = s.from;
        for (auto& z : slots)
          if (z.pid && z.from > worst.run) { z.killed = true; kill(z.pid, SIGKILL); }
      }
      break;
    }
    // A killed later chunk is collected as a violation with a larger index: ignored.
  }
  if (harness_error && !have) {
    printf("ERROR property=%s harness: %s\n", p.id, harness_detail.c_str());
    return 3;
  }
  double min_s = 0;
  std::string replay_path;
  Replay rep;
  uint64_t minimise_runs = 0;
  if (have) {
    const double m0 = Now();
    rep.prop = p.id;
    rep.salt = worst_salt;
    rep.choices = worst.choices;
    rep.oracle = worst.oracle;
    rep.detail = worst.detail;
    if (worst.oracle == "leak") rep.mode = "leak";
    if (worst.oracle == "depends-on-process-history") rep.mode = "twice";
    auto same = [&](const Outcome& o) { return o.status == 1 && o.oracle == rep.oracle; };
    auto first = RunReplays({rep, rep});
    bool reproduced = same(first[0]) && same(first[1]) && first[0].hash == first[1].hash;
    if (!reproduced && first[0].status == 1 && first[1].status == 1 && first[0].oracle == first[1].oracle &&
        first[0].hash == first[1].hash) {
      rep.oracle = first[0].oracle;  // e.g. fails on the first execution in a fresh process
      rep.detail = first[0].detail;
      if (rep.mode == "twice" && rep.oracle != "depends-on-process-history") rep.mode = "choices";
      reproduced = true;
    }
    if (!reproduced) {
      rep.mode = "seeds";
      rep.seed = seed;
      rep.from = worst_from;
      rep.to = worst.run + 1;
      auto two = RunReplays({rep, rep});
      if (same(two[0]) && same(two[1]) && two[0].hash == two[1].hash) {
        reproduced = true;
        rep.log = two[0].log;
        rep.detail = two[0].detail;
      }
    } else {
      // Minimise the choice list.
      std::vector<uint32_t> best = first[0].choices.empty() ? rep.choices : first[0].choices;
      Outcome last = first[0];
      const double budget = 45;
      auto try_batch = [&](const std::vector<std::vector<uint32_t>>& cands) -> int {
        for (size_t at = 0; at < cands.size(); at += jobs) {
          std::vector<Replay> rs;
          for (size_t i = at; i < cands.size() && i < at + jobs; ++i) {
            Replay r = rep;
            r.choices = cands[i];
            rs.push_back(r);
          }
          minimise_runs += rs.size();
          auto os = RunReplays(rs);
          for (size_t i = 0; i < os.size(); ++i) {
            if (same(os[i])) {
              auto trim = os[i].choices.size() < cands[at + i].size() && !os[i].choices.empty() ? os[i].choices : cands[at + i];
              if (trim.size() < best.size() || (trim.size() == best.size() && trim < best)) {
                best = trim;
                last = os[i];
                return 1;
              }
            }
          }
          if (Now() - m0 > budget) return -1;
        }
        return 0;
      };
      bool progress = true;
      while (progress && Now() - m0 < budget) {
        progress = false;
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
          for (;;) {
            std::vector<std::vector<uint32_t>> cands;
            for (size_t at = 0; at < best.size(); at += len) {
              const size_t e = std::min(best.size(), at + len);
              std::vector<uint32_t> z = best;
              bool nz = false;
              for (size_t k = at; k < e; ++k) nz |= z[k] != 0, z[k] = 0;
              std::vector<uint32_t> d(best.begin(), best.begin() + at);
              d.insert(d.end(), best.begin() + e, best.end());
              cands.push_back(d);
              if (nz) cands.push_back(z);
            }
            if (cands.size() > 400) cands.resize(400);
            const int r = try_batch(cands);
            if (r > 0) { progress = true; if (Now() - m0 < budget) continue; }
            break;
          }
          if (Now() - m0 > budget || len == 1) break;
        }
        std::vector<std::vector<uint32_t>> cands;
        for (size_t k = 0; k < best.size() && cands.size() < 200; ++k) {
          if (best[k] > 1) {
            auto d = best;
            d[k] /= 2;
            cands.push_back(d);
            d[k] = best[k] - 1;
            cands.push_back(d);
          }
        }
        if (!cands.empty() && try_batch(cands) > 0) progress = true;
      }
      rep.choices = best;
      rep.detail = last.detail;
      auto fin = RunReplays({rep, rep});
      reproduced = same(fin[0]) && same(fin[1]) && fin[0].hash == fin[1].hash;
      rep.log = fin[0].log;
      rep.detail = fin[0].detail;
    }
    min_s = Now() - m0;
    if (!reproduced) {
      static int attempts = 0;
      if (++attempts == 1) {
        // Possibly disturbed from outside the simulation: the whole campaign
        // is repeated once; a second failure of any kind that does not
        // reproduce is an error of the check.
        fprintf(stderr, "note: run %llu failed (%s: %s) but does not reproduce; repeating the campaign\n",
                (unsigned long long)worst.run, worst.oracle.c_str(), worst.detail.c_str());
        std::filesystem::create_directories(replay_dir);
        WriteReplay(replay_dir + "/" + std::string(p.id) + "_unreproduced.txt", rep);
        return RunCheck(p, tier, seed, evidence, known_path, replay_dir, cap_s, runs, jobs);
      }
      printf("ERROR property=%s: run %llu failed (%s: %s) but does not reproduce from its recorded choices\n", p.id,
             (unsigned long long)worst.run, worst.oracle.c_str(), worst.detail.c_str());
      std::filesystem::create_directories(replay_dir);
      WriteReplay(replay_dir + "/" + std::string(p.id) + "_unreproduced.txt", rep);
      return 3;
    }
    std::filesystem::create_directories(replay_dir);
    replay_path = replay_dir + "/" + p.id + "_" + Fmt("%016llx", (unsigned long long)HashBytes(rep.choices.data(), rep.choices.size() * 4)) + ".txt";
    WriteReplay(replay_path, rep);
  }
  const double wall = Now() - t0;
  // Evidence.
  uint64_t edges = 0;
  for (auto e : total.edges) edges += e;
  std::ofstream f(evidence);
  f << "{\n \"property\": " << JsonStr(p.id) << ",\n \"tier\": " << JsonStr(tier) << ",\n \"seed\": " << seed
    << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << total.runs
    << ",\n  \"distinct_nontrivial\": " << total.nontrivial_hashes.size() << ",\n  \"rule\": " << JsonStr(p.rule)
    << ",\n  \"samples\": [";
  for (size_t i = 0; i < total.samples.size(); ++i) f << (i ? ", " : "") << JsonStr(total.samples[i]);
  const double explore = std::max(0.001, wall - min_s);
  f << "],\n  \"simulated_runs\": " << total.runs << ",\n  \"seeds_per_hour\": " << (uint64_t)(total.runs / explore * 3600)
    << ",\n  \"run_indexes\": \"0.." << (runs ? runs - 1 : 0) << " of base seed " << seed << (capped ? " (stopped early by the time cap)" : "") << "\""
    << ",\n  \"simulated_steps_basic_blocks\": " << total.steps
    << ",\n  \"simulated_audio_seconds\": " << total.sim_seconds
    << ",\n  \"scheduler_choices\": " << total.choices
    << ",\n  \"distinct_histories\": " << total.hashes.size() << ",\n  \"distinct_states\": " << total.states.size()
    << ",\n  \"basic_block_edges_reached\": " << edges << ",\n  \"basic_block_edges_total\": " << total.edges.size()
    << ",\n  \"runs_with_faults\": " << total.with_faults << ",\n  \"faults_injected\": {";
  bool c = false;
  for (auto& [k, v] : total.faults) f << (c ? ", " : "") << JsonStr(k) << ": " << v, c = true;
  f << "},\n  \"counters\": {";
  c = false;
  for (auto& [k, v] : total.counters) f << (c ? ", " : "") << JsonStr(k) << ": " << v, c = true;
  f << "},\n  \"repeated_for_determinism\": " << total.determinism << ",\n  \"repeated_for_leaks\": " << total.leak_reruns
    << ",\n  \"minimisation_runs\": " << minimise_runs << ",\n  \"real_components\": [";
  for (size_t i = 0; i < p.real.size(); ++i) f << (i ? ", " : "") << JsonStr(p.real[i]);
  f << "],\n  \"stub_components\": [";
  for (size_t i = 0; i < p.stub.size(); ++i) f << (i ? ", " : "") << JsonStr(p.stub[i]);
  f << "]\n },\n \"assumptions\": [\"" << "codec and DSP libraries are simulated stand-ins with the same interfaces\", "
    << "\"one machine word size and little-endian host\"],\n \"wall_s\": " << Fmt("%.2f", wall)
    << ",\n \"violations\": " << (have ? 1 : 0) << "\n}\n";
  f.close();
  // Every listed finding of this property is announced, seen in this run or not.
  for (auto& k : known)
    if (k.prop == p.id) printf("KNOWN-FINDING: property=%s %s\n", p.id, k.text.c_str());
  printf("property %s: %llu runs, %zu distinct histories, %zu distinct non-trivial, %zu states, %llu faults, %.1f s\n", p.id,
         (unsigned long long)total.runs, total.hashes.size(), total.nontrivial_hashes.size(), total.states.size(),
         (unsigned long long)total.nfaults, wall);
  if (have) {
    printf("run %llu of seed %llu: %s: %s\n", (unsigned long long)worst.run, (unsigned long long)seed,
           rep.oracle.c_str(), rep.detail.substr(0, 1500).c_str());
    printf("minimised to %zu choices (%zu recorded) in %.1f s\n", rep.choices.size(), worst.choices.size(), min_s);
    printf("VIOLATION property=%s replay=%s\n", p.id, replay_path.c_str());
    return 1;
  }
  return 0;
}
}  // namespace
}  // namespace dst

int main(int argc, char** argv) {
  using namespace dst;
  char self[4096];
  const ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
  if (n <= 0) return 3;
  self[n] = 0;
  g_self = self;
  auto usage = [] {
    fprintf(stderr, "usage: dst list | run --prop ID [--tier T --seed N --evidence F --known F --replays D --cap S --runs N --jobs N] | replay FILE\n");
    return 3;
  };
  if (argc < 2) return usage();
  const std::string cmd = argv[1];
  if (cmd == "list") {
    for (auto& p : Properties()) printf("%s %d %d\n", p.id, p.quick_runs, p.thorough_runs);
    return 0;
  }
  if (cmd == "worker") {
    g_shm = MapShm(argv[6]);
    const int rc = Worker(*FindProp(argv[2]), strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), strtoull(argv[5], 0, 10), argv[7]);
    fflush(nullptr);
    _exit(rc);
  }
  if (cmd == "inner") {
    Replay r;
    if (!ReadReplay(argv[2], &r)) _exit(3);
    g_shm = MapShm(argv[3]);
    const int rc = DoReplay(r);
    _exit(rc);
  }
  std::map<std::string, std::string> o;
  char work[] = "/tmp/verif_dst_work_XXXXXX";
  if (!mkdtemp(work)) return 3;
  g_work = work;
  int rc = 3;
  if (cmd == "replay" && argc >= 3) {
    Replay r;
    if (!ReadReplay(argv[2], &r)) return 3;
    auto out = RunReplays({r});
    std::ifstream err(g_work + "/m0.err");
    if (argc >= 4) std::cout << err.rdbuf();
    printf("%s", out[0].log.c_str());
    if (out[0].status == 1) {
      printf("%s: %s\n", out[0].oracle.c_str(), out[0].detail.c_str());
      printf("VIOLATION property=%s replay=%s\n", r.prop.c_str(), argv[2]);
      rc = 1;
    } else {
      printf("no violation\n");
      rc = out[0].status == 0 ? 0 : 3;
    }
  } else if (cmd == "run") {
    for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
    if (!o.count("--prop")) return usage();
    const Property& p = *FindProp(o["--prop"]);
    const std::string tier = o.count("--tier") ? o["--tier"] : "quick";
    const uint64_t runs = o.count("--runs") ? strtoull(o["--runs"].c_str(), 0, 10)
                                            : (tier == "thorough" ? p.thorough_runs : p.quick_runs);
    const double cap = o.count("--cap") ? atof(o["--cap"].c_str()) : (tier == "thorough" ? 3600 : 120);
    const int jobs = o.count("--jobs") ? atoi(o["--jobs"].c_str()) : (int)sysconf(_SC_NPROCESSORS_ONLN);
    rc = RunCheck(p, tier, o.count("--seed") ? strtoull(o["--seed"].c_str(), 0, 10) : 1,
                  o.count("--evidence") ? o["--evidence"] : "/dev/null", o["--known"],
                  o.count("--replays") ? o["--replays"] : "/tmp", cap, runs, jobs);
  }
  std::error_code ec;
  std::filesystem::remove_all(g_work, ec);
  fflush(nullptr);
  _exit(rc);
}
