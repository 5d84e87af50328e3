// Stand-in for Abseil's nullability annotations, which the installed Abseil predates; they have no effect on semantics.
#ifndef VT_NULLABILITY
#define VT_NULLABILITY
#define absl_nonnull
#define absl_nullable
#define absl_nullability_unknown
#endif
