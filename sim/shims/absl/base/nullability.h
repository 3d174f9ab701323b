// Build shim (harness only): the sandbox's Abseil predates this header.
#ifndef VERIF_SHIM_ABSL_BASE_NULLABILITY_H_
#define VERIF_SHIM_ABSL_BASE_NULLABILITY_H_
#define absl_nonnull
#define absl_nullable
#define absl_nullability_unknown
#define ABSL_POINTERS_DEFAULT_NONNULL
#endif
