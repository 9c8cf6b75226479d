#pragma once
#include <initializer_list>
#include "gtest/gtest.h"
#include "absl/hash/hash.h"
namespace absl {
template <typename C>
testing::AssertionResult VerifyTypeImplementsAbslHashCorrectly(const C& values) {
  for (const auto& a : values) {
    for (const auto& b : values) {
      if ((a == b) != (HashOf(a) == HashOf(b))) { return testing::AssertionFailure() << "hash and == disagree"; }
    }
  }
  return testing::AssertionSuccess();
}
template <typename T>
testing::AssertionResult VerifyTypeImplementsAbslHashCorrectly(std::initializer_list<T> values) {
  return VerifyTypeImplementsAbslHashCorrectly(std::vector<T>(values));
}
}
