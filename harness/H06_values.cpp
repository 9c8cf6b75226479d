// Reads "algo seed hex" lines, prints the C++ value of each.
#include <iostream>
#include <string>
#include "mbo/hash/hash.h"
int main() {
  std::string algo, hex;
  std::string seed;
  while (std::cin >> algo >> seed >> hex) {
    std::string d;
    if (hex != "-") { for (std::size_t i = 0; i + 1 < hex.size(); i += 2) { d += static_cast<char>(std::stoi(hex.substr(i, 2), nullptr, 16)); } }
    const bool def = seed == "default";
    const std::uint64_t s = def ? 0 : std::stoull(seed);
    std::uint64_t v = 0;
    if (algo == "dumbo") { v = def ? mbo::hash::dumbo::GetHash64(d) : mbo::hash::dumbo::GetHash64(d, s); }
    else if (algo == "mumbo") { v = def ? mbo::hash::mumbo::GetHash64(d) : mbo::hash::mumbo::GetHash64(d, s); }
    else if (algo == "fnv1a") { v = def ? mbo::hash::fnv1a::GetHash64(d) : mbo::hash::fnv1a::GetHash64(d, s); }
    else if (algo == "fambo") { v = def ? mbo::hash::fambo::Algorithm::GetHash64(d) : mbo::hash::fambo::GetHash64(d, s); }
    else if (algo == "murmur3") { v = def ? mbo::hash::murmur3::Algorithm::GetHash64(d) : mbo::hash::murmur3::GetHash64(d, s); }
    else if (algo == "siphash") { v = mbo::hash::siphash::Algorithm::GetHash64(d); }
    std::cout << v << "\n";
  }
}
