#define DRV_ALLOC
#include "drv.h"
#include <reactor.h>

static long first(unsigned char *t, size_t n, size_t from, unsigned char *p, size_t m)
{
  for (size_t i = from; m && i + m <= n; i++)
    {
      size_t k = 0;
      while (k < m && t[i + k] == p[k])
        k++;
      if (k == m)
        return i;
    }
  return -1;
}

static void one(void)
{
  long live = drv_live;
  unsigned char t[512], p[16], r[16], out[8192];
  size_t n = below(chance(3) ? 400 : 24), m = below(chance(3) ? 5 : 3), rn = below(5), o = 0;
  int alpha = 1 + below(3);
  string s;
  data d, q;
  long j;

  for (size_t i = 0; i < n; i++) t[i] = chance(30) ? 0 : 'a' + below(alpha);
  for (size_t i = 0; i < m; i++) p[i] = chance(30) ? 0 : 'a' + below(alpha);
  for (size_t i = 0; i < rn; i++) r[i] = chance(20) ? 0 : 'a' + below(alpha);
  if (chance(3) && m <= n)     /* occurrence at the very end */
    memcpy(t + n - m, p, m);
  s = string_append_data(string_null(), data_construct((char *) t, n));
  if (chance(4) && n)
    s = string_allocate(s, n + below(100));
  d = data_construct((char *) p, m);
  note("text(%zu)=%.*s pattern(%zu)=%.*s replacement(%zu)=%.*s ", n, (int) n, t, m, (int) m, p, rn, (int) rn, r);
  for (int i = 0; i < 4; i++)
    {
      size_t pos = i == 3 ? n : below(n + 1);
      q = string_find_at_data(s, pos, d);
      j = first(t, n, pos, p, m);
      expect(j < 0 ? data_base(q) == 0 && data_size(q) == 0 : data_base(q) == s + j && data_size(q) == m, "find at %zu gives %ld size %zu instead of %ld", pos, data_base(q) ? (long) ((char *) data_base(q) - s) : -1L, data_size(q), j);
    }
  q = string_find_data(s, d);
  j = first(t, n, 0, p, m);
  expect(j < 0 ? data_base(q) == 0 && data_size(q) == 0 : data_base(q) == s + j && data_size(q) == m, "find");
  expect(string_size(s) == n && !memcmp(s, t, n), "find changes the text");
  if (chance(2))
    {
      note("replace ");
      s = string_replace_data(s, d, data_construct((char *) r, rn));
      if (j >= 0)
        {
          memcpy(out, t, j); o = j;
          memcpy(out + o, r, rn); o += rn;
          memcpy(out + o, t + j + m, n - j - m); o += n - j - m;
        }
      else
        memcpy(out, t, o = n);
    }
  else
    {
      size_t at = 0;
      note("replace all ");
      s = string_replace_all_data(s, d, data_construct((char *) r, rn));
      while ((j = first(t, n, at, p, m)) >= 0)
        {
          memcpy(out + o, t + at, j - at); o += j - at;
          memcpy(out + o, r, rn); o += rn;
          at = j + m;
        }
      memcpy(out + o, t + at, n - at); o += n - at;
    }
  expect(string_size(s) == o, "result has %zu bytes instead of %zu: %.*s", string_size(s), o, (int) string_size(s), s);
  expect(!memcmp(s, out, o), "result is %.*s instead of %.*s", (int) o, s, (int) o, out);
  expect(s[o] == 0 && string_capacity(s) >= o, "result is not a well formed string");
  string_free(s);
  expect(drv_live == live, "%ld allocations leaked", drv_live - live);
}

int main(int argc, char **argv) { return drv_main(argc, argv, one); }
