#define DRV_ALLOC
#include "drv.h"
#include <reactor.h>

#define MAXN 100000
static unsigned char m[MAXN * 2], known[MAXN * 2];
static size_t n;

static void verify(string s, const char *what)
{
  expect(string_size(s) == n, "%s: size %zu instead of %zu", what, string_size(s), n);
  expect(string_capacity(s) >= n, "%s: capacity %zu below size %zu", what, string_capacity(s), n);
  expect(s[n] == 0, "%s: not terminated", what);
  for (size_t i = 0; i < n; i++)
    expect(!known[i] || (unsigned char) s[i] == m[i], "%s: byte %zu of %zu is %02x instead of %02x", what, i, n, (unsigned char) s[i], m[i]);
  expect(data_base(string_data(s)) == s && data_size(string_data(s)) == n, "%s: data", what);
  expect(!!string_empty(s) == (n == 0), "%s: empty", what);
  expect(string_size(string_null()) == 0 && string_capacity(string_null()) == 0 && *string_null() == 0, "%s: the shared empty string was modified", what);
}

static void one(void)
{
  long live = drv_live;
  int steps = 1 + below(30), big = chance(8) ? 3000 : chance(3) ? 100 : 10;
  string s = string_null(), t;

  n = 0;
  verify(s, "null");
  for (int i = 0; i < steps; i++)
    {
      size_t k = below(big), pos = below(n + 1);
      unsigned char *src = __real_malloc(k);
      for (size_t j = 0; j < k; j++)
        src[j] = chance(3) ? 0 : rnd();
      if (n + k > MAXN)
        k = 0;
      switch (below(9))
        {
        case 0: case 1: case 2:
          {
            int op = below(3);
            pos = op == 0 ? pos : op == 1 ? n : 0;
            note("%s(%zu,%zu) ", op == 0 ? "insert" : op == 1 ? "append" : "prepend", pos, k);
            data d = data_construct((char *) src, k);
            s = op == 0 ? string_insert_data(s, pos, d) : op == 1 ? string_append_data(s, d) : string_prepend_data(s, d);
            memmove(m + pos + k, m + pos, n - pos);
            memmove(known + pos + k, known + pos, n - pos);
            memcpy(m + pos, src, k);
            memset(known + pos, 1, k);
            n += k;
            verify(s, "insert");
            break;
          }
        case 3: case 4:
          k = chance(4) ? n - pos : below(n - pos + 1);
          note("erase(%zu,%zu) ", pos, k);
          s = string_erase_data(s, data_construct(s + pos, k));
          memmove(m + pos, m + pos + k, n - pos - k);
          memmove(known + pos, known + pos + k, n - pos - k);
          n -= k;
          verify(s, "erase");
          break;
        case 5:
          k = chance(2) ? below(n + 1) : chance(4) ? 0 : k;
          note("resize(%zu) ", k);
          s = string_resize(s, k);
          for (size_t j = n; j < k; j++)
            known[j] = 0;
          n = k;
          verify(s, "resize");
          break;
        case 6:
          note("allocate(%zu) ", k);
          s = string_allocate(s, k);
          expect(string_capacity(s) >= k, "allocate: capacity");
          verify(s, "allocate");
          break;
        case 7:
          note("copy ");
          t = string_copy(s);
          expect(t != s || s == string_null(), "copy is the same object");
          expect(string_size(t) == n && !memcmp(s, t, n), "copy differs");
          expect(!!string_equal(s, t), "copy is not equal");
          if (n)
            {
              pos = below(n);
              t[pos] ^= 1 << below(8);
              expect(!string_equal(s, t), "different strings are equal (byte %zu of %zu)", pos, n);
              t[pos] = s[pos];
              t = string_append_data(t, data_construct("x", 1));
              expect(!string_equal(s, t) && !string_equal(t, s), "strings of different lengths are equal");
            }
          if (chance(2))
            {
              string_free(s);
              s = t;
              if (n)
                s = string_resize(s, n);
            }
          else
            string_free(t);
          verify(s, "copy");
          break;
        case 8:
          if (!chance(4))
            break;
          note("free ");
          string_free(s);
          expect(drv_live == live, "free leaves %ld allocations", drv_live - live);
          s = string_null();
          n = 0;
          verify(s, "free");
          break;
        }
      __real_free(src);
    }
  string_free(s);
  string_free(string_null());
  expect(drv_live == live, "%ld allocations leaked", drv_live - live);
  n = 0;
  verify(string_null(), "end");
}

int main(int argc, char **argv) { return drv_main(argc, argv, one); }
