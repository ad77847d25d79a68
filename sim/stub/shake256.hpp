#pragma once
// Stand-in for the git submodule sha3 (itzmeanjan/sha3), which is empty in this
// checkout.  It is a complete SHAKE256 (FIPS 202) with the interface that
// /repo/include uses, plus the simulator's seam: every random byte that the
// library draws (shake256<false>::read) and every hash step passes through
// simseam::*, which the simulator defines.  With no simulator task bound to the
// calling thread, the seam functions leave data untouched.
#include <cstddef>
#include <cstdint>
#include <cstring>

namespace simseam {
// Called after `len` real XOF bytes were written to `out` by a seeded (PRNG)
// instance.  May overwrite them (steering), record them and/or preempt.
void on_random(uint8_t* out, size_t len);
// Called when a PRNG instance absorbs its seed.
void on_seed(const uint8_t* seed, size_t len);
// Called on hash activity of the incremental (message) instance.
void on_hash();
}

namespace shake256 {

constexpr size_t rate = 1600 - 2 * 256; // bits

namespace detail {
inline constexpr uint64_t rotl(const uint64_t x, const unsigned r)
{
  return r == 0 ? x : ((x << r) | (x >> (64 - r)));
}

#if defined(__clang__)
__attribute__((no_sanitize("coverage", "address", "undefined")))
#endif
inline void keccak_f(uint64_t a[25])
{
  static constexpr uint64_t RC[24] = {
    0x0000000000000001ull, 0x0000000000008082ull, 0x800000000000808aull, 0x8000000080008000ull,
    0x000000000000808bull, 0x0000000080000001ull, 0x8000000080008081ull, 0x8000000000008009ull,
    0x000000000000008aull, 0x0000000000000088ull, 0x0000000080008009ull, 0x000000008000000aull,
    0x000000008000808bull, 0x800000000000008bull, 0x8000000000008089ull, 0x8000000000008003ull,
    0x8000000000008002ull, 0x8000000000000080ull, 0x000000000000800aull, 0x800000008000000aull,
    0x8000000080008081ull, 0x8000000000008080ull, 0x0000000080000001ull, 0x8000000080008008ull
  };
  static constexpr unsigned R[25] = { 0,  1,  62, 28, 27, 36, 44, 6,  55, 20, 3,  10, 43,
                                      25, 39, 41, 45, 15, 21, 8,  18, 2,  61, 56, 14 };
  for (int rnd = 0; rnd < 24; rnd++) {
    uint64_t c[5], b[25];
    for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
    for (int x = 0; x < 5; x++) {
      const uint64_t d = c[(x + 4) % 5] ^ rotl(c[(x + 1) % 5], 1);
      for (int y = 0; y < 25; y += 5) a[y + x] ^= d;
    }
    for (int x = 0; x < 5; x++)
      for (int y = 0; y < 5; y++)
        b[((2 * x + 3 * y) % 5) * 5 + y] = rotl(a[y * 5 + x], R[y * 5 + x]);
    for (int y = 0; y < 5; y++)
      for (int x = 0; x < 5; x++)
        a[y * 5 + x] = b[y * 5 + x] ^ (~b[y * 5 + (x + 1) % 5] & b[y * 5 + (x + 2) % 5]);
    a[0] ^= RC[rnd];
  }
}
}

template<const bool incremental = false>
struct shake256
{
private:
  uint64_t st[25]{};
  size_t off = 0;
  bool squeezing = false;
  // Inputs beyond `dense` bytes: of each further MiB only the first KiB is
  // absorbed, and at the end the last 256 bytes and the length, however the
  // input was divided.  (Lets messages of many GiB be simulated.)
  static constexpr size_t dense = 1ul << 19;
  size_t total = 0;
  uint8_t last[256]{};
  // A sponge is a generator's if it is not incremental, or absorbed less than
  // the 40 salt bytes that every message hash begins with.
  bool generator = !incremental;

  void xor_byte(const size_t i, const uint8_t b) { st[i >> 3] ^= static_cast<uint64_t>(b) << ((i & 7) * 8); }
  uint8_t get_byte(const size_t i) const { return static_cast<uint8_t>(st[i >> 3] >> ((i & 7) * 8)); }

#if defined(__clang__)
  __attribute__((no_sanitize("coverage")))
#endif
  void absorb_(const uint8_t* const msg, const size_t len)
  {
    size_t i = 0;
    if (total < dense) {
      const size_t k = len < dense - total ? len : dense - total;
      block_(msg, k);
      i = k;
    }
    while (i < len) {
      const size_t in = (total + i) & ((1ul << 20) - 1);
      size_t k = in < 1024 ? 1024 - in : (1ul << 20) - in;
      if (k > len - i) k = len - i;
      if (in < 1024) block_(msg + i, k);
      i += k;
    }
    for (size_t j = len > sizeof(last) ? len - sizeof(last) : 0; j < len; j++) last[(total + j) % sizeof(last)] = msg[j];
    total += len;
  }

#if defined(__clang__)
  __attribute__((no_sanitize("coverage")))
#endif
  void block_(const uint8_t* const msg, const size_t len)
  {
    for (size_t i = 0; i < len; i++) {
      xor_byte(off++, msg[i]);
      if (off == rate / 8) {
        detail::keccak_f(st);
        off = 0;
      }
    }
  }

#if defined(__clang__)
  __attribute__((no_sanitize("coverage")))
#endif
  void finalize_()
  {
    if (total > dense) {
      for (size_t i = 0; i < sizeof(last); i++) block_(last + (total + i) % sizeof(last), 1);
      for (size_t i = 0; i < 8; i++) {
        const uint8_t b = static_cast<uint8_t>(total >> (8 * i));
        block_(&b, 1);
      }
    }
    xor_byte(off, 0x1f);
    xor_byte(rate / 8 - 1, 0x80);
    detail::keccak_f(st);
    off = 0;
    squeezing = true;
  }

#if defined(__clang__)
  __attribute__((no_sanitize("coverage")))
#endif
  void squeeze_(uint8_t* const out, const size_t len)
  {
    for (size_t i = 0; i < len; i++) {
      if (off == rate / 8) {
        detail::keccak_f(st);
        off = 0;
      }
      out[i] = get_byte(off++);
    }
  }

public:
  shake256() = default;

  // non-incremental
  void hash(const uint8_t* const msg, const size_t mlen)
    requires(!incremental)
  {
    std::memset(st, 0, sizeof(st));
    off = 0;
    total = 0;
    squeezing = false;
    simseam::on_seed(msg, mlen);
    absorb_(msg, mlen);
    finalize_();
  }

  // incremental
  void absorb(const uint8_t* const msg, const size_t mlen)
    requires(incremental)
  {
    if (!squeezing) {
      simseam::on_hash();
      absorb_(msg, mlen);
    }
  }
  void finalize()
    requires(incremental)
  {
    if (squeezing) return;
    if (total < 40) {
      generator = true;
      simseam::on_seed(last, total);
    }
    finalize_();
  }

  void read(uint8_t* const dig, const size_t dlen)
  {
    squeeze_(dig, dlen);
    if (generator) {
      simseam::on_random(dig, dlen);
    } else {
      simseam::on_hash();
    }
  }
};

}
