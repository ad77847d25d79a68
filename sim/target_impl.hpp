// Compiled once per parameter set, with instrumentation; includes /repo/include.
#include "falcon.hpp"
#include "target.hpp"

namespace {
template<size_t N>
struct T_ {
  using C = fft::cmplx;
  static constexpr int32_t beta2 = N == 512 ? 34034726 : 70265242;
  static constexpr size_t slen = N == 512 ? 666 : 1280;
#ifndef SIM_NO_KEYGEN
  static void keygen(uint8_t* pk, uint8_t* sk) { falcon::keygen<N>(pk, sk); }
  static void keygen_mat(void* B, void* T, void* h, double s, void* r)
  {
    ::keygen::keygen<N>((C*)B, (C*)T, (ff::ff_t*)h, s, *(prng::prng_t*)r);
  }
  static void ntru(int32_t* f, int32_t* g, int32_t* F, int32_t* G, void* r) { ntru_gen::ntru_gen<N>(f, g, F, G, *(prng::prng_t*)r); }
#else
  static constexpr auto keygen = nullptr;
  static constexpr auto keygen_mat = nullptr;
  static constexpr auto ntru = nullptr;
#endif
  static bool sign_sk(const uint8_t* sk, const uint8_t* m, size_t l, uint8_t* s) { return falcon::sign<N>(sk, m, l, s); }
  static void recG(const int32_t* f, const int32_t* g, const int32_t* F, int32_t* G) { (void)falcon::recompute_G<N>(f, g, F, G); }
  static void matrix(const int32_t* f, const int32_t* g, const int32_t* F, const int32_t* G, void* B) { falcon::compute_matrix_B<N>(f, g, F, G, (C*)B); }
  static void tree(const void* B, void* T) { falcon::compute_falcon_tree<N>((const C*)B, (C*)T); }
  static void sign_bt(const void* B, const void* T, const uint8_t* m, size_t l, uint8_t* s, void* r)
  {
    falcon::sign<N>((const C*)B, (const C*)T, m, l, s, *(prng::prng_t*)r);
  }
  static bool verify(const uint8_t* pk, const uint8_t* m, size_t l, uint8_t* s) { return falcon::verify<N>(pk, m, l, s); }
  static bool verify_h(const void* h, const uint8_t* m, size_t l, const uint8_t* s) { return verification::verify<N, beta2>((const ff::ff_t*)h, m, l, s); }
  static bool dec_pk(const uint8_t* pk, void* h) { return decoding::decode_pkey<N>(pk, (ff::ff_t*)h); }
  static void enc_pk(const void* h, uint8_t* pk) { encoding::encode_pkey<N>((const ff::ff_t*)h, pk); }
  static bool dec_sk(const uint8_t* sk, int32_t* f, int32_t* g, int32_t* F) { return decoding::decode_skey<N>(sk, f, g, F); }
  static void enc_sk(const int32_t* f, const int32_t* g, const int32_t* F, uint8_t* sk) { encoding::encode_skey<N>(f, g, F, sk); }
  static bool dec_sig(const uint8_t* s, int32_t* p) { return decoding::decompress_sig<N, slen>(s, p); }
  static bool enc_sig(const int32_t* p, uint8_t* s) { return encoding::compress_sig<N, slen>(p, s); }
  static void h_get(const void* h, uint16_t* v) { for (size_t i = 0; i < N; i++) v[i] = (uint16_t)((const ff::ff_t*)h)[i].v; }
  static void h_set(void* h, const uint16_t* v) { for (size_t i = 0; i < N; i++) ((ff::ff_t*)h)[i].v = v[i]; }
  static constexpr Api api{ N, falcon_utils::compute_pkey_len<N>(), falcon_utils::compute_skey_len<N>(), falcon_utils::compute_sig_len<N>(),
    sizeof(C) * 4 * N, sizeof(C) * N * (log2<N>() + 1), sizeof(ff::ff_t) * N,
    keygen, keygen_mat, ntru, sign_sk, recG, matrix, tree, sign_bt, verify, verify_h, dec_pk, enc_pk, dec_sk, enc_sk, dec_sig, enc_sig, h_get, h_set };
};
}
