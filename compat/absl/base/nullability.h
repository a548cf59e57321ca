#ifndef VERIF_COMPAT_ABSL_NULLABILITY_H_
#define VERIF_COMPAT_ABSL_NULLABILITY_H_
#include "absl/base/attributes.h"
#define absl_nullable
#define absl_nonnull
#define absl_nullability_unknown
#define ABSL_POINTERS_DEFAULT_NONNULL
#ifndef ABSL_NULLABILITY_COMPATIBLE
#define ABSL_NULLABILITY_COMPATIBLE
#endif
#endif
