#include "absl/log/absl_check.h"
#define CHECK(c) ABSL_CHECK(c)
#define CHECK_OK(c) ABSL_CHECK_OK(c)
