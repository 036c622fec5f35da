#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <iostream>
namespace seal {
enum class scheme_type : uint8_t { none = 0, bfv = 1, ckks = 2 };
struct EncryptionParameters { EncryptionParameters(scheme_type s = scheme_type::none) : s_(s) {} scheme_type s_; };
struct Ciphertext { uint64_t id = 0; };
struct GaloisKeys { uint64_t id = 0; };
}  // namespace seal
