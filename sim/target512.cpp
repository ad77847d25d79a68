#include "target_impl.hpp"
const Api* const api512 = &T_<512>::api;
size_t t_rng_size() { return sizeof(prng::prng_t); }
void* t_rng_new(void* mem) { return new (mem) prng::prng_t(); }
void t_rng_del(void* r) { ((prng::prng_t*)r)->~prng_t(); }
void t_rng_read(void* r, uint8_t* p, size_t n) { ((prng::prng_t*)r)->read(p, n); }
int32_t t_samplerz(double mu, double sigma, double sigmin, void* rng) { return samplerz::samplerz(mu, sigma, sigmin, *(prng::prng_t*)rng); }
void t_samplerz_arr(double mu, double sigma, double sigmin, const uint8_t* p, size_t n, int64_t* z, int64_t* used)
{
  const auto r = samplerz::samplerz(mu, sigma, sigmin, p, n);
  *z = r.first;
  *used = (int64_t)r.second;
}
