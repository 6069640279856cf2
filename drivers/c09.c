#include "drv.h"
#include <reactor.h>

/* slices over exactly sized heap blocks, so that ASan sees any access outside them */
static void one(void)
{
  size_t n = below(chance(4) ? 300 : 24), m = below(chance(4) ? 300 : 24), k;
  char *a = malloc(n), *b;
  data d, e;

  for (size_t i = 0; i < n; i++)
    a[i] = chance(3) ? rnd() : "ab\0\xff"[below(4)];
  if (chance(2))
    m = chance(2) ? n : below(n + 1);
  b = malloc(m);
  for (size_t i = 0; i < m; i++)
    b[i] = i < n ? a[i] : (char) rnd();
  if (m && chance(2))
    b[chance(2) ? m - 1 : below(m)] ^= 1 << below(8);
  note("n=%zu m=%zu ", n, m);
  d = data_construct(a, n);
  e = data_construct(b, m);
  expect(data_base(d) == a && data_size(d) == n, "construct");
  expect(!!data_empty(d) == (n == 0), "empty");
  {
    int same = n == m, pre = n <= m;
    for (size_t i = 0; i < n && i < m; i++)
      if (a[i] != b[i])
        same = pre = 0;
    expect(!!data_equal(d, e) == same, "equal is %d, expected %d", data_equal(d, e), same);
    expect(!!data_equal(e, d) == same, "equal is not symmetric");
    expect(!!data_prefix(d, e) == pre, "prefix is %d, expected %d", data_prefix(d, e), pre);
  }
  k = below(n + 1);
  e = data_consume(d, k);
  expect(data_base(e) == a + k && data_size(e) == n - k, "consume");
  expect(data_offset(d, e) == k, "offset");
  m = below(n - k + 1);
  e = data_select(d, k, m);
  expect(data_base(e) == a + k && data_size(e) == m, "select");
  e = data_null();
  expect(data_base(e) == 0 && data_size(e) == 0, "null");
  {
    char *s = malloc(n + 1);
    for (size_t i = 0; i < n; i++)
      s[i] = 1 + below(255);
    s[n] = 0;
    e = data_string(s);
    expect(data_base(e) == s && data_size(e) == n, "string");
    free(s);
  }
  e = data_alloc(n);
  expect(data_size(e) == n, "alloc");
  for (size_t i = 0; i < n; i++)
    {
      expect(((char *) data_base(e))[i] == 0, "alloc is not zero filled");
      ((char *) data_base(e))[i] = 1;
    }
  data_free(e);
  {
    char *out = malloc(2 * n + 3);
    pointer p = (pointer) out, q;
    memset(out, 0x5a, 2 * n + 3);
    pointer_push(&p, data_construct(a, n));
    expect((char *) p == out + n, "push advances by %td, expected %zu", (char *) p - out, n);
    q = p;
    pointer_push_byte(&p, 0xc3);
    expect((char *) p == (char *) q + 1, "push_byte advances");
    pointer_move(&p, 1);
    expect((char *) p == (char *) q + 2, "move");
    pointer_push(&p, data_construct(a, n));
    expect((char *) p == out + 2 * n + 2, "second push advances");
    for (size_t i = 0; i < n; i++)
      expect(out[i] == a[i] && out[n + 2 + i] == a[i], "pushed byte %zu", i);
    expect((unsigned char) out[n] == 0xc3 && out[n + 1] == 0x5a && out[2 * n + 2] == 0x5a, "other bytes");
    free(out);
  }
  free(a);
  free(b);
}

int main(int argc, char **argv) { return drv_main(argc, argv, one); }
