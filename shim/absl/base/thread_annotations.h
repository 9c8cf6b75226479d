#ifndef SHIM_ABSL_BASE_THREAD_ANNOTATIONS_H_
#define SHIM_ABSL_BASE_THREAD_ANNOTATIONS_H_
#define ABSL_GUARDED_BY(x)
#define ABSL_PT_GUARDED_BY(x)
#define ABSL_EXCLUSIVE_LOCKS_REQUIRED(...)
#define ABSL_SHARED_LOCKS_REQUIRED(...)
#define ABSL_LOCKS_EXCLUDED(...)
#define ABSL_NO_THREAD_SAFETY_ANALYSIS
#define ABSL_LOCKABLE
#define ABSL_SCOPED_LOCKABLE
#endif
