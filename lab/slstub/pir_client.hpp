#pragma once
#include "pir.hpp"
class PIRClient {
 public:
  PIRClient(const seal::EncryptionParameters &e, const PirParams &p);
  PirQuery generate_query(uint64_t index);
  vector<uint8_t> decode_reply(PirReply &reply, uint64_t offset);
  vector<uint8_t> decode_reply(PirReply &&reply, uint64_t offset) { return decode_reply(reply, offset); }
  seal::GaloisKeys generate_galois_keys();
  uint64_t get_fv_index(uint64_t element);
  uint64_t get_fv_offset(uint64_t element);
 private:
  PirParams p_;
};
