// Runtime hooks below the harness: basic-block tracing, libc I/O seam, hash
// salt, sanitizer callbacks. Compiled without tracing and without the prelude.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt_hooks.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

extern "C" unsigned long verif_hash_salt;
unsigned long verif_hash_salt = 0x51ed270b9f652295ul;
// Constant for the life of the process, unlike verif_hash_salt.
extern "C" unsigned long verif_seed_salt;
unsigned long verif_seed_salt = 0x51ed270b9f652295ul;

namespace {
__attribute__((constructor(101))) void SetSalt() {
  const char* s = getenv("VERIF_SALT");
  if (s) verif_hash_salt = verif_seed_salt = strtoul(s, nullptr, 0) | 1;
}
}  // namespace

namespace rt {
uint64_t steps = 0;
uint64_t step_limit = UINT64_MAX;
uint64_t countdown = 0;
void (*on_step_limit)() = nullptr;
void (*on_heap_limit)() = nullptr;
void (*on_countdown)() = nullptr;
uint8_t* edge_map = nullptr;
uint32_t num_edges = 0;
IoFn io_fn = nullptr;
thread_local int io_mute = 0;
int (*mem_hook)(size_t) = nullptr;
size_t alloc_max = 0, alloc_total = 0;
bool alloc_track = false;
}  // namespace rt

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
  if (start == stop || *start) return;
  for (uint32_t* p = start; p < stop; ++p) *p = ++rt::num_edges;
  static uint8_t* map = nullptr;
  map = static_cast<uint8_t*>(realloc(map, rt::num_edges + 1));
  memset(map, 0, rt::num_edges + 1);
  rt::edge_map = map;
}
void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
  if (rt::edge_map) rt::edge_map[*guard] = 1;
  if (++rt::steps >= rt::step_limit) {
    rt::step_limit = UINT64_MAX;
    if (rt::on_step_limit) rt::on_step_limit();
  }
  if (rt::countdown && --rt::countdown == 0 && rt::on_countdown) rt::on_countdown();
}
// No RSS limit here: it starts a thread that opens /proc files at its own
// pace, which the descriptor oracle then sees. MallocHook limits the heap.
const char* __asan_default_options() {
  return "exitcode=44:detect_leaks=0:allocator_may_return_null=0:"
         "max_allocation_size_mb=6000:handle_abort=1:"
         "detect_stack_use_after_return=0:malloc_context_size=8:"
         "detect_container_overflow=0:quarantine_size_mb=64:"
         "allocator_release_to_os_interval_ms=-1:symbolize=1:alloc_dealloc_mismatch=0";
}
const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=44"; }
}

// ---------------------------------------------------------------- libc I/O --
namespace {
int Ask(rt::Op op, int fd, size_t len, size_t* allow) {
  *allow = len;
  if (!rt::io_fn || rt::io_mute) return 0;
  if (fd >= 0 && fd <= 2) return 0;
  ++rt::io_mute;
  int e = rt::io_fn(op, fd, len, allow);
  --rt::io_mute;
  return e;
}
template <typename F>
F Real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
}  // namespace

extern "C" {
// libstdc++'s basic_file uses these directly.
ssize_t write(int fd, const void* b, size_t n) {
  size_t allow;
  if (int e = Ask(rt::kWrite, fd, n, &allow)) { errno = e; return -1; }
  return syscall(SYS_write, fd, b, allow < n ? allow : n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  size_t total = 0, allow;
  for (int i = 0; i < c; ++i) total += v[i].iov_len;
  if (int e = Ask(rt::kWrite, fd, total, &allow)) { errno = e; return -1; }
  if (allow >= total) return syscall(SYS_writev, fd, v, c);
  // A short write: only the first bytes.
  ssize_t done = 0;
  for (int i = 0; i < c && allow; ++i) {
    const size_t n = v[i].iov_len < allow ? v[i].iov_len : allow;
    if (!n) continue;
    const ssize_t r = syscall(SYS_write, fd, v[i].iov_base, n);
    if (r < 0) return done ? done : r;
    done += r;
    allow -= n;
  }
  return done;
}
ssize_t read(int fd, void* b, size_t n) {
  size_t allow;
  if (int e = Ask(rt::kRead, fd, n, &allow)) { errno = e; return -1; }
  return syscall(SYS_read, fd, b, allow < n ? allow : n);
}
FILE* fopen64(const char* p, const char* m) {
  static auto real = Real<FILE* (*)(const char*, const char*)>("fopen64");
  size_t allow;
  if (int e = Ask(rt::kOpen, -1, 0, &allow)) { errno = e; return nullptr; }
  return real(p, m);
}
FILE* fopen(const char* p, const char* m) {
  static auto real = Real<FILE* (*)(const char*, const char*)>("fopen");
  size_t allow;
  if (int e = Ask(rt::kOpen, -1, 0, &allow)) { errno = e; return nullptr; }
  return real(p, m);
}
size_t fwrite(const void* b, size_t s, size_t n, FILE* f) {
  static auto real = Real<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite");
  if (f == stdout || f == stderr) return real(b, s, n, f);
  size_t allow;
  if (int e = Ask(rt::kWrite, fileno(f), s * n, &allow)) { errno = e; return 0; }
  if (allow >= s * n) return real(b, s, n, f);
  real(b, 1, allow, f);
  errno = ENOSPC;
  return s ? allow / s : 0;
}
size_t fread(void* b, size_t s, size_t n, FILE* f) {
  static auto real = Real<size_t (*)(void*, size_t, size_t, FILE*)>("fread");
  size_t allow;
  if (int e = Ask(rt::kRead, fileno(f), s * n, &allow)) { f->_flags |= 0x20; errno = e; return 0; }  // ferror()
  if (allow >= s * n) return real(b, s, n, f);
  const size_t r = real(b, 1, allow, f);
  return s ? r / s : 0;
}
int fseek(FILE* f, long o, int w) {
  static auto real = Real<int (*)(FILE*, long, int)>("fseek");
  size_t allow;
  if (int e = Ask(rt::kSeek, fileno(f), 0, &allow)) { errno = e; return -1; }
  return real(f, o, w);
}
off_t lseek(int fd, off_t o, int w) noexcept {
  size_t allow;
  if (int e = Ask(rt::kSeek, fd, 0, &allow)) { errno = e; return -1; }
  return syscall(SYS_lseek, fd, o, w);
}
int fflush(FILE* f) {
  static auto real = Real<int (*)(FILE*)>("fflush");
  if (f == nullptr || f == stdout || f == stderr) return real(f);
  size_t allow;
  if (int e = Ask(rt::kClose, fileno(f), 1, &allow)) { errno = e; return EOF; }
  return real(f);
}
int fclose(FILE* f) {
  static auto real = Real<int (*)(FILE*)>("fclose");
  size_t allow;
  if (f && rt::io_fn && !rt::io_mute) {
    const int e = Ask(rt::kClose, fileno(f), 0, &allow);
    const int r = real(f);
    if (e) { errno = e; return EOF; }
    return r;
  }
  return real(f);
}
int remove(const char* p) {
  static auto real = Real<int (*)(const char*)>("remove");
  size_t allow;
  if (int e = Ask(rt::kRemove, -1, 0, &allow)) { errno = e; return -1; }
  return real(p);
}
}

namespace rt {
size_t CurrentAllocated() { return __sanitizer_get_current_allocated_bytes(); }
namespace {
constexpr size_t kHeapLimit = size_t{3500} << 20;
unsigned alloc_calls = 0;
void MallocHook(const volatile void*, size_t n) {
  if ((n > (1 << 20) || ++alloc_calls % 8192 == 0) && on_heap_limit && CurrentAllocated() > kHeapLimit) on_heap_limit();
  if (!alloc_track) return;
  alloc_total += n;
  if (n > alloc_max) alloc_max = n;
}
void FreeHook(const volatile void*) {}
}  // namespace
void InstallAllocHooks() { __sanitizer_install_malloc_and_free_hooks(MallocHook, FreeHook); }
void SetErrorReportCallback(void (*cb)(const char*)) { __asan_set_error_report_callback(cb); }
void SetDeathCallback(void (*cb)()) { __sanitizer_set_death_callback(cb); }
}  // namespace rt
