// Force-included (and precompiled) ahead of every source file of the
// repository. After Abseil's own users of absl::Mutex have been seen, the name
// is redirected to a mutex whose blocking and wake-up order the simulator owns:
// every Lock and Unlock is a scheduling point (harness/sched.h). With no
// simulated task running it is uncontended.
#ifndef VERIF_PRELUDE_H_
#define VERIF_PRELUDE_H_
#include <google/protobuf/message.h>

#include <algorithm>
#include <array>
#include <cstdint>
#include <fstream>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <variant>
#include <vector>

#include "absl/base/thread_annotations.h"
#include "absl/container/btree_map.h"
#include "absl/container/flat_hash_map.h"
#include "absl/container/flat_hash_set.h"
#include "absl/container/node_hash_map.h"
#include "absl/flags/flag.h"
#include "absl/flags/parse.h"
#include "absl/flags/usage.h"
#include "absl/functional/any_invocable.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/cord.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/strings/str_join.h"
#include "absl/synchronization/mutex.h"
#include "absl/types/span.h"
namespace google {
namespace protobuf {
template <typename Sink>
void AbslStringify(Sink& sink, const Message& m) {
  sink.Append(absl::string_view(m.ShortDebugString()));
}
}  // namespace protobuf
}  // namespace google
namespace verif_sched {
// Set by the simulator. The lock hook returns once the caller owns the mutex.
extern void (*mutex_lock_hook)(void* mutex);
extern void (*mutex_unlock_hook)(void* mutex);
}  // namespace verif_sched
namespace absl {
inline namespace debian3 {
class ABSL_LOCKABLE VerifSimMutex {
 public:
  VerifSimMutex() = default;
  VerifSimMutex(const VerifSimMutex&) = delete;
  VerifSimMutex& operator=(const VerifSimMutex&) = delete;
  void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() {
    if (verif_sched::mutex_lock_hook) verif_sched::mutex_lock_hook(this);
  }
  void Unlock() ABSL_UNLOCK_FUNCTION() {
    if (verif_sched::mutex_unlock_hook) verif_sched::mutex_unlock_hook(this);
  }
  void lock() { Lock(); }
  void unlock() { Unlock(); }
  void ReaderLock() { Lock(); }
  void ReaderUnlock() { Unlock(); }
  void WriterLock() { Lock(); }
  void WriterUnlock() { Unlock(); }
  void AssertHeld() const {}
  void AssertReaderHeld() const {}
};
class ABSL_SCOPED_LOCKABLE VerifSimMutexLock {
 public:
  explicit VerifSimMutexLock(VerifSimMutex& m) : m_(m) { m_.Lock(); }
  explicit VerifSimMutexLock(VerifSimMutex* m) : m_(*m) { m_.Lock(); }
  VerifSimMutexLock(const VerifSimMutexLock&) = delete;
  ~VerifSimMutexLock() { m_.Unlock(); }

 private:
  VerifSimMutex& m_;
};
}  // namespace debian3
}  // namespace absl
#define Mutex VerifSimMutex
#define MutexLock VerifSimMutexLock
#define ReaderMutexLock VerifSimMutexLock
#define WriterMutexLock VerifSimMutexLock
#endif
