#pragma once
#include "pir.hpp"
class PIRServer {
 public:
  PIRServer(const seal::EncryptionParameters &e, const PirParams &p);
  void set_database(const unique_ptr<const uint8_t[]> &bytes, uint64_t ele_num, uint64_t ele_size);
  void preprocess_database();
  void set_galois_key(uint32_t client, seal::GaloisKeys keys);
  PirReply generate_reply(PirQuery &query, uint32_t client);
 private:
  PirParams p_;
};
