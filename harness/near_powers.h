// Decimals next to every power of two (and the limits of the types): rounding there carries into the exponent.
#ifndef VERIF_NEAR_POWERS_H_
#define VERIF_NEAR_POWERS_H_
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
template <class F>
uint64_t near_powers(unsigned shard, unsigned nshards, bool all, F f) {
  uint64_t n = 0;
  char b[96], t[96];
  for (int k = -1077 + (int)shard; k <= 1026; k += (int)nshards)
    for (int digits = 1; digits <= 19; digits++) {
      if (!all && digits != 17 && digits != 16 && digits != 9 && digits != 8 && digits != 19 && digits != 1 + (k + 1077) % 15) continue;
      snprintf(b, sizeof b, "%.*Le", digits - 1, ldexpl(1, k));
      uint64_t m = 0;
      char* p = b;
      for (; *p && *p != 'e'; p++)
        if (*p >= '0' && *p <= '9') m = m * 10 + (uint64_t)(*p - '0');
      const int e = atoi(p + 1) - (digits - 1);
      for (int d = -3; d <= 3; d++) {
        snprintf(t, sizeof t, "%llue%d", (unsigned long long)(m + (uint64_t)(int64_t)d), e);
        f(t);
        n++;
      }
    }
  // 9, 99, 999, ... at every exponent
  for (int e = -345 + (int)shard; e <= 310; e += (int)nshards)
    for (int digits = 1; digits <= 19; digits++) {
      memset(t, '9', (size_t)digits);
      snprintf(t + digits, sizeof t - (size_t)digits, "e%d", e);
      f(t);
      n++;
    }
  return n;
}
#endif
