#define DRV_ALLOC
#include "drv.h"
#include <reactor/buffer.h>

static void one(void)
{
  unsigned char *m = 0;     /* the abstract sequence; known[i]: is byte i specified */
  unsigned char *known = 0;
  size_t n = 0, cap = 0;
  long live = drv_live;
  buffer b;
  int steps = 1 + below(40), big = chance(8) ? 3000 : chance(3) ? 200 : 20;

  m = __real_malloc(1 << 20);
  known = __real_malloc(1 << 20);
  buffer_construct(&b);
  for (int i = 0; i < steps && n < 300000; i++)
    {
      size_t k = below(big), pos = n ? below(n + 1) : 0, c;
      if (chance(4))
        pos = n;
      switch (below(9))
        {
        case 0:
          note("reserve(%zu) ", k);
          buffer_reserve(&b, k);
          expect(buffer_capacity(&b) >= k, "reserve(%zu): capacity %zu", k, buffer_capacity(&b));
          break;
        case 1:
          k = chance(2) ? below(n + 1) : k;
          note("resize(%zu) ", k);
          buffer_resize(&b, k);
          for (size_t j = n; j < k; j++)
            known[j] = 0;
          n = k;
          break;
        case 2:
          note("compact ");
          buffer_compact(&b);
          expect(buffer_capacity(&b) == n, "compact: capacity %zu of size %zu", buffer_capacity(&b), n);
          break;
        case 3: case 4: case 5:
          {
            unsigned char *s = __real_malloc(k);
            for (size_t j = 0; j < k; j++)
              s[j] = rnd();
            note("insert(%zu,%zu) ", pos, k);
            buffer_insert(&b, pos, s, k);
            memmove(m + pos + k, m + pos, n - pos);
            memmove(known + pos + k, known + pos, n - pos);
            memcpy(m + pos, s, k);
            memset(known + pos, 1, k);
            n += k;
            __real_free(s);
            break;
          }
        case 6:
          {
            unsigned char *s;
            k = below(12);
            c = below(7);
            s = __real_malloc(k);
            for (size_t j = 0; j < k; j++)
              s[j] = rnd();
            note("insert_fill(%zu,%zu,%zu) ", pos, c, k);
            buffer_insert_fill(&b, pos, c, s, k);
            memmove(m + pos + k * c, m + pos, n - pos);
            memmove(known + pos + k * c, known + pos, n - pos);
            for (size_t j = 0; j < c; j++)
              memcpy(m + pos + j * k, s, k);
            memset(known + pos, 1, k * c);
            n += k * c;
            __real_free(s);
            break;
          }
        case 7:
          k = below(n - pos + 1);
          note("erase(%zu,%zu) ", pos, k);
          buffer_erase(&b, pos, k);
          memmove(m + pos, m + pos + k, n - pos - k);
          memmove(known + pos, known + pos + k, n - pos - k);
          n -= k;
          break;
        case 8:
          if (!chance(4))
            break;
          note("clear ");
          buffer_clear(&b);
          n = 0;
          expect(buffer_capacity(&b) == 0 && drv_live == live, "clear leaves storage behind");
          break;
        }
      cap = buffer_capacity(&b);
      expect(buffer_size(&b) == n, "size %zu, expected %zu", buffer_size(&b), n);
      expect(cap >= n, "capacity %zu below size %zu", cap, n);
      for (size_t j = 0; j < n; j++)
        expect(!known[j] || ((unsigned char *) buffer_data(&b))[j] == m[j], "byte %zu is %d, expected %d", j, ((unsigned char *) buffer_data(&b))[j], m[j]);
      if (cap && chance(4))
        {
          /* all of the reported capacity is usable storage; the spare part holds nothing of the sequence */
          volatile unsigned char *p = buffer_data(&b);
          for (size_t j = n; j < cap; j++)
            p[j] = 0xa5;
        }
      expect(drv_live - live <= 1, "%ld allocations for one buffer", drv_live - live);
    }
  buffer_destruct(&b);
  buffer_destruct(&b);
  expect(drv_live == live, "storage leaked or released twice");
  __real_free(m);
  __real_free(known);
}

int main(int argc, char **argv) { return drv_main(argc, argv, one); }
