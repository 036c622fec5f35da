// Stand-in for SealPIR: no cryptography, but the same interface. It records what it is asked to do and
// moves the only clock that the runner can read by the durations of the scenario.
#pragma once
#include <cassert>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "seal/seal.h"
using namespace std;

struct PirParams {
  bool enable_symmetric = false, enable_batching = false, enable_mswitching = false;
  uint64_t ele_num = 0, ele_size = 0, elements_per_plaintext = 0, num_of_plaintexts = 0;
  uint32_t d = 0;
  vector<uint64_t> nvec;
  uint64_t slot_count = 0;
};
using PirQuery = vector<vector<seal::Ciphertext>>;
using PirReply = vector<seal::Ciphertext>;

namespace lab {
void Log(const string &json);
void Spend(const char *what);
}  // namespace lab

void gen_encryption_params(uint32_t n, uint32_t logt, seal::EncryptionParameters &p);
void verify_encryption_params(const seal::EncryptionParameters &p);
void gen_pir_params(uint64_t ele_num, uint64_t ele_size, uint32_t d, const seal::EncryptionParameters &e, PirParams &p,
                    bool symmetric = false, bool batching = true, bool mswitching = true);
void print_pir_params(const PirParams &p);
void print_seal_params(const seal::EncryptionParameters &p);
