/* Hashing (C11): ranges of exactly their size (AddressSanitizer watches), at all alignments and with other surroundings; integers in pairs. */
#include "drv.h"
#include <reactor.h>

static uint64_t unshift(uint64_t y, int s)
{
  uint64_t x = y;
  for (int i = 0; i < 64 / s + 1; i++)
    x = y ^ (x >> s);
  return x;
}

static void pair(uint64_t a, uint64_t b)
{
  if (a == b)
    return;
  if (hash_uint64(a) == hash_uint64(b))
    {
      note("%016llx %016llx", (unsigned long long) a, (unsigned long long) b);
      fail("two different integers have the same hash");
    }
}

static int cmp(const void *a, const void *b)
{
  uint64_t x = **(uint64_t **) a, y = **(uint64_t **) b;
  return x < y ? -1 : x > y;
}

static void many(void)
{
  enum { N = 1 << 14 };
  static uint64_t v[N], h[N], *o[N];
  int kind = below(4), sh = below(50);
  uint64_t base = rnd();
  for (int i = 0; i < N; i++)
    {
      v[i] = kind == 0 ? (uint64_t) i << sh : kind == 1 ? base + i : kind == 2 ? rnd() : unshift((uint64_t) i << sh, 33);
      h[i] = hash_uint64(v[i]);
      o[i] = &h[i];
    }
  qsort(o, N, sizeof *o, cmp);
  for (int i = 1; i < N; i++)
    if (*o[i] == *o[i - 1])
      pair(v[o[i] - h], v[o[i - 1] - h]);
}

static void one(void)
{
  size_t n = chance(3) ? below(20) : chance(2) ? below(140) : below(600), pad = below(40);
  uint8_t *a = malloc(n ? n : 1), *b = malloc(pad + n + 70), *c;
  uint64_t h, x;

  if (drv_iter < 700)
    n = drv_iter;
  else if (chance(200))
    n = chance(2) ? (1ul << (10 + below(8))) + below(9) - 4 : below(200000);
  free(a);
  free(b);
  a = malloc(n);
  b = malloc(pad + n + 70);
  drv_hlen = 0;
  note("%zu bytes", n);
  for (size_t i = 0; i < n; i++)
    a[i] = chance(8) ? 0 : rnd();
  c = malloc(n);
  memcpy(c, a, n);
  h = hash_data(a, n);
  expect(!memcmp(a, c, n), "the bytes are changed");
  free(c);
  for (int k = 0; k < 9; k++)
    {
      size_t at = k < 8 ? k : pad;
      if (at > pad + 60)
        continue;
      for (size_t i = 0; i < pad + n + 70; i++)
        b[i] = rnd();
      if (at + n <= pad + n + 70)
        memcpy(b + at, a, n);
      expect(hash_data(b + at, n) == h, "equal contents hash differently (at offset %zu)", at);
    }
  expect(hash_data(a, n) == h, "the same bytes hash differently later");
  /* ends exactly at the end of its allocation, at an odd address */
  c = malloc(n + 3);
  memcpy(c + 3, a, n);
  expect(hash_data(c + 3, n) == h, "equal contents hash differently at another address");
  free(c);
  /* strings */
  for (size_t i = 0; i < n; i++)
    if (!a[i])
      a[i] = 1 + below(255);
  c = malloc(n + 1);
  memcpy(c, a, n);
  c[n] = 0;
  expect(hash_string((char *) c) == hash_data(a, n), "a string of %zu characters hashes unlike its characters", n);
  free(c);
  free(a);
  free(b);
  /* integers */
  drv_hlen = 0;
  x = chance(2) ? rnd() : rnd() >> below(64);
  for (int i = 0; i < 64; i++)
    {
      pair(x, x ^ (1ull << i));
      pair(x, x + (1ull << i));
      pair(x, ~x);
      pair(x, x << 1 | x >> 63);
      if (i)
        for (int k = 60; k < 64; k++)
          pair(x, unshift(x ^ (x >> i) ^ (1ull << k), i));
    }
  if (chance(8) || drv_iter < 4)
    many();
}

int main(int argc, char **argv) { return drv_main(argc, argv, one); }
