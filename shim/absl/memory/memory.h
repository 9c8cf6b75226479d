#pragma once
#include <memory>
namespace absl { using std::make_unique; template <typename T> auto WrapUnique(T* p) { return std::unique_ptr<T>(p); } }
