#pragma once
#define absl_nullable
#define absl_nonnull
