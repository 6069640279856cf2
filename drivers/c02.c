#define DRV_ALLOC
#include "drv.h"
#include <reactor/buffer.h>
#include <reactor/vector.h>

static size_t es;
static unsigned char *expected_release[20000];
static size_t nexp, nrel;

static void release(void *p)
{
  expect(nrel < nexp, "an element that was not removed is released (%zu releases)", nrel + 1);
  expect(!memcmp(p, expected_release[nrel], es), "release %zu gets the wrong element or a damaged one", nrel);
  nrel++;
}

static void one(void)
{
  static unsigned char m[200000], q[4096];
  size_t n = 0;
  long live = drv_live;
  vector v;
  int steps = 1 + below(40);

  es = chance(3) ? 1 + below(64) : (size_t[]){1, 2, 3, 4, 8, 16, 24}[below(7)];
  note("object_size=%zu ", es);
  vector_construct(&v, es);
  for (int i = 0; i < steps && n < 1000; i++)
    {
      size_t pos = below(n + 1), k, last;
      vector_release *r = chance(3) ? 0 : release;
      unsigned char *src = __real_malloc(es * 20);
      for (size_t j = 0; j < es * 20; j++)
        src[j] = rnd();
      nexp = nrel = 0;
      if (chance(4))
        pos = n;
      switch (below(12))
        {
        case 0: case 1:
          note("push_back ");
          vector_push_back(&v, src);
          memcpy(m + n * es, src, es);
          n++;
          break;
        case 2: case 3:
          note("insert(%zu) ", pos);
          vector_insert(&v, pos, src);
          memmove(m + (pos + 1) * es, m + pos * es, (n - pos) * es);
          memcpy(m + pos * es, src, es);
          n++;
          break;
        case 4:
          k = below(20);
          note("insert_range(%zu,%zu) ", pos, k);
          vector_insert_range(&v, pos, src, src + k * es);
          memmove(m + (pos + k) * es, m + pos * es, (n - pos) * es);
          memcpy(m + pos * es, src, k * es);
          n += k;
          break;
        case 5:
          k = below(20);
          note("insert_fill(%zu,%zu) ", pos, k);
          vector_insert_fill(&v, pos, k, src);
          memmove(m + (pos + k) * es, m + pos * es, (n - pos) * es);
          for (size_t j = 0; j < k; j++)
            memcpy(m + (pos + j) * es, src, es);
          n += k;
          break;
        case 6: case 7:
          if (!n)
            break;
          pos = below(n);
          if (chance(3))
            pos = n - 1;
          memcpy(q, m + pos * es, es);
          expected_release[nexp++] = q;
          if (pos == n - 1 && chance(2))
            {
              note("pop_back(%d) ", !!r);
              vector_pop_back(&v, r);
            }
          else
            {
              note("erase(%zu,%d) ", pos, !!r);
              vector_erase(&v, pos, r);
            }
          memmove(m + pos * es, m + (pos + 1) * es, (n - pos - 1) * es);
          n--;
          if (r)
            expect(nrel == nexp, "%zu of %zu removed elements released", nrel, nexp);
          break;
        case 8:
          {
            unsigned char *copy;
            last = pos + below(n - pos + 1);
            copy = __real_malloc((last - pos) * es + 1);
            memcpy(copy, m + pos * es, (last - pos) * es);
            for (size_t j = 0; j < last - pos; j++)
              expected_release[nexp++] = copy + j * es;
            note("erase_range(%zu,%zu,%d) ", pos, last, !!r);
            vector_erase_range(&v, pos, last, r);
            if (r)
              expect(nrel == nexp, "%zu of %zu removed elements released", nrel, nexp);
            memmove(m + pos * es, m + last * es, (n - last) * es);
            n -= last - pos;
            __real_free(copy);
            break;
          }
        case 9:
          k = below(100);
          note("reserve(%zu) ", k);
          vector_reserve(&v, k);
          expect(vector_capacity(&v) >= k, "reserve");
          break;
        case 10:
          note("shrink ");
          vector_shrink_to_fit(&v);
          break;
        case 11:
          if (!chance(4))
            break;
          note("clear(%d) ", !!r);
          for (size_t j = 0; j < n; j++)
            expected_release[nexp++] = m + j * es;
          vector_clear(&v, r);
          if (r)
            expect(nrel == nexp, "%zu of %zu removed elements released", nrel, nexp);
          n = 0;
          expect(drv_live == live, "clear keeps storage");
          break;
        }
      __real_free(src);
      expect(vector_size(&v) == n, "size %zu, expected %zu", vector_size(&v), n);
      expect(!!vector_empty(&v) == (n == 0), "emptiness");
      expect(vector_capacity(&v) >= n, "capacity");
      for (size_t j = 0; j < n; j++)
        expect(!memcmp(vector_at(&v, j), m + j * es, es), "element %zu differs", j);
      if (n)
        {
          expect(!memcmp(vector_front(&v), m, es), "front");
          expect(!memcmp(vector_back(&v), m + (n - 1) * es, es), "back");
          expect(vector_data(&v) == vector_at(&v, 0), "data");
        }
    }
  nexp = nrel = 0;
  for (size_t j = 0; j < n; j++)
    expected_release[nexp++] = m + j * es;
  vector_destruct(&v, release);
  expect(nrel == n, "destruct releases %zu of %zu", nrel, n);
  expect(drv_live == live, "storage leaked or released twice");
}

int main(int argc, char **argv) { return drv_main(argc, argv, one); }
