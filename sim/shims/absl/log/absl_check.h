// Build shim (harness only): aborting checks, as the real ones.
#ifndef VERIF_SHIM_ABSL_LOG_ABSL_CHECK_H_
#define VERIF_SHIM_ABSL_LOG_ABSL_CHECK_H_
#include "absl/log/absl_log.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
namespace verif_log {
inline const absl::Status& AsStatus(const absl::Status& s) { return s; }
template <typename T>
const absl::Status& AsStatus(const absl::StatusOr<T>& s) {
  return s.status();
}
}  // namespace verif_log
#define VERIF_CHECK_IMPL(c, text) \
  switch (0)                      \
  case 0:                         \
  default:                        \
    (c) ? (void)0                 \
        : ::verif_log::VoidifyFatal() && \
              ::verif_log::Fatal(__FILE__, __LINE__, "CHECK failed: " text " ")
#define ABSL_CHECK(c) VERIF_CHECK_IMPL((c), #c)
#define ABSL_CHECK_EQ(a, b) VERIF_CHECK_IMPL(((a) == (b)), #a " == " #b)
#define ABSL_CHECK_NE(a, b) VERIF_CHECK_IMPL(((a) != (b)), #a " != " #b)
#define ABSL_CHECK_LE(a, b) VERIF_CHECK_IMPL(((a) <= (b)), #a " <= " #b)
#define ABSL_CHECK_LT(a, b) VERIF_CHECK_IMPL(((a) < (b)), #a " < " #b)
#define ABSL_CHECK_GE(a, b) VERIF_CHECK_IMPL(((a) >= (b)), #a " >= " #b)
#define ABSL_CHECK_GT(a, b) VERIF_CHECK_IMPL(((a) > (b)), #a " > " #b)
#define ABSL_CHECK_OK(s) VERIF_CHECK_IMPL((::verif_log::AsStatus(s).ok()), #s)
// The harness is a debug build for these.
#define ABSL_DCHECK(c) ABSL_CHECK(c)
#define ABSL_DCHECK_EQ(a, b) ABSL_CHECK_EQ(a, b)
#define ABSL_DCHECK_NE(a, b) ABSL_CHECK_NE(a, b)
#define ABSL_DCHECK_LE(a, b) ABSL_CHECK_LE(a, b)
#define ABSL_DCHECK_LT(a, b) ABSL_CHECK_LT(a, b)
#define ABSL_DCHECK_GE(a, b) ABSL_CHECK_GE(a, b)
#define ABSL_DCHECK_GT(a, b) ABSL_CHECK_GT(a, b)
#endif
