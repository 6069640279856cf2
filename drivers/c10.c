#include "drv.h"
#include <reactor.h>

static void test(uint32_t n)
{
  char ref[16], out[32];
  int len = snprintf(ref, sizeof ref, "%u", n);
  drv_hlen = 0;
  note("n=%u ", n);
  expect(utility_u32_len(n) == (size_t) len, "length %zu of %u", utility_u32_len(n), n);
  memset(out, 'x', sizeof out);
  utility_u32_sprint(n, out + 16);
  expect(!memcmp(out + 16 - len, ref, len), "sprint of %u gives %.*s", n, len, out + 16 - len);
  for (int i = 0; i < 32; i++)
    expect((i >= 16 - len && i < 16) || out[i] == 'x', "sprint of %u writes at %d", n, i - 16);
  memset(out, 'x', sizeof out);
  utility_u32_toa(n, out + 8);
  expect(!memcmp(out + 8, ref, len + 1), "toa of %u", n);
  for (int i = 0; i < 32; i++)
    expect((i >= 8 && i <= 8 + len) || out[i] == 'x', "toa of %u writes at %d", n, i - 8);
}

static void one(void)
{
  uint64_t p = 1;
  if (drv_iter == 0)
    {
      for (int i = 0; i <= 10; i++, p *= 10)
        for (int64_t d = -200; d <= 200; d++)
          if ((int64_t) p + d >= 0 && (int64_t) p + d <= UINT32_MAX)
            test(p + d);
      for (uint64_t i = 0; i <= 20000; i++)
        test(i);
      for (int i = 0; i < 32; i++)
        for (int d = -2; d <= 2; d++)
          test((1u << i) + d);
      return;
    }
  for (int i = 0; i < 2000; i++)
    test(rnd() >> below(64));
}

int main(int argc, char **argv) { return drv_main(argc, argv, one); }
