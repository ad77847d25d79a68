// The only door to the code under test.
#pragma once
#include <cstddef>
#include <cstdint>
struct Api {
  size_t n, pklen, sklen, siglen, b_bytes, t_bytes, h_bytes;
  void (*keygen)(uint8_t* pk, uint8_t* sk);
  void (*keygen_mat)(void* B, void* T, void* h, double sigma, void* rng);
  void (*ntru_gen)(int32_t* f, int32_t* g, int32_t* F, int32_t* G, void* rng);
  bool (*sign_sk)(const uint8_t* sk, const uint8_t* msg, size_t mlen, uint8_t* sig);
  void (*recompute_G)(const int32_t* f, const int32_t* g, const int32_t* F, int32_t* G);
  void (*matrix)(const int32_t* f, const int32_t* g, const int32_t* F, const int32_t* G, void* B);
  void (*tree)(const void* B, void* T);
  void (*sign_bt)(const void* B, const void* T, const uint8_t* msg, size_t mlen, uint8_t* sig, void* rng);
  bool (*verify)(const uint8_t* pk, const uint8_t* msg, size_t mlen, uint8_t* sig);
  bool (*verify_h)(const void* h, const uint8_t* msg, size_t mlen, const uint8_t* sig);
  bool (*dec_pk)(const uint8_t* pk, void* h);
  void (*enc_pk)(const void* h, uint8_t* pk);
  bool (*dec_sk)(const uint8_t* sk, int32_t* f, int32_t* g, int32_t* F);
  void (*enc_sk)(const int32_t* f, const int32_t* g, const int32_t* F, uint8_t* sk);
  bool (*dec_sig)(const uint8_t* sig, int32_t* s2);
  bool (*enc_sig)(const int32_t* s2, uint8_t* sig);
  void (*h_get)(const void* h, uint16_t* v);
  void (*h_set)(void* h, const uint16_t* v);
};
extern const Api* const api512;
extern const Api* const api1024;
// generator and sampler (instantiated in the 512 unit)
size_t t_rng_size();
void* t_rng_new(void* mem);
void t_rng_del(void*);
void t_rng_read(void*, uint8_t*, size_t);
int32_t t_samplerz(double mu, double sigma, double sigmin, void* rng);
void t_samplerz_arr(double mu, double sigma, double sigmin, const uint8_t* p, size_t n, int64_t* z, int64_t* used);
