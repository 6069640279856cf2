#define DRV_ALLOC
#include "drv.h"
#include <reactor/list.h>

#define N 3
static size_t es;
static list l[N];
static struct { void *p; uint64_t tag; } m[N][2000];
static size_t n[N];
static uint64_t tags, want_tag;
static void *want_obj, *seq[2000];
static uint64_t seqtag[2000];
static size_t nrel, nseq;

static void fill(unsigned char *p, uint64_t tag)
{
  for (size_t i = 0; i < es; i++)
    p[i] = (tag * 1315423911u + i * 2654435761u) >> 7;
}
static void intact(void *p, uint64_t tag, const char *when)
{
  unsigned char b[300];
  fill(b, tag);
  expect(!memcmp(b, p, es), "element content damaged (%s)", when);
}
static void release(void *p)
{
  expect(nrel < nseq, "release of an element that was not erased");
  expect(p == seq[nrel], "release %zu gets the wrong element", nrel);
  intact(p, seqtag[nrel], "release");
  nrel++;
}
static int compare(void *key, void *obj)
{
  unsigned char b[300];
  (void) obj;
  fill(b, *(uint64_t *) key);
  return memcmp(b, obj, es) ? (chance(2) ? 1 : -1) : 0;
}
static void verify(int a)
{
  void *p;
  size_t i;

  expect(!!list_empty(&l[a]) == (n[a] == 0), "emptiness");
  for (p = list_front(&l[a]), i = 0; p != list_end(&l[a]); p = list_next(p), i++)
    {
      expect(i < n[a] && p == m[a][i].p, "forward walk of list %d differs at %zu", a, i);
      intact(p, m[a][i].tag, "walk");
    }
  expect(i == n[a], "forward walk of list %d visits %zu of %zu", a, i, n[a]);
  for (p = list_back(&l[a]), i = n[a]; p != list_end(&l[a]); p = list_previous(p), i--)
    expect(i > 0 && p == m[a][i - 1].p, "backward walk of list %d differs at %zu", a, i);
  expect(i == 0, "backward walk of list %d visits too few", a);
}
static void ins(int a, size_t i, void *p, uint64_t t)
{
  memmove(&m[a][i + 1], &m[a][i], (n[a] - i) * sizeof m[a][0]);
  m[a][i].p = p;
  m[a][i].tag = t;
  n[a]++;
}
static void del(int a, size_t i)
{
  memmove(&m[a][i], &m[a][i + 1], (n[a] - i - 1) * sizeof m[a][0]);
  n[a]--;
}
static void *at(int a, size_t i) { return i == n[a] ? list_end(&l[a]) : m[a][i].p; }

static void one(void)
{
  long live = drv_live;
  int steps = 1 + below(60);
  unsigned char src[300];

  es = chance(3) ? 1 + below(200) : 8;
  note("size=%zu ", es);
  for (int a = 0; a < N; a++)
    {
      list_construct(&l[a]);
      n[a] = 0;
    }
  for (int s = 0; s < steps; s++)
    {
      int a = below(N), b = below(N);
      size_t i = below(n[a] + 1), j;
      uint64_t t = tags++;
      void *p;
      list_release *r = chance(3) ? 0 : release;

      nrel = nseq = 0;
      fill(src, t);
      switch (below(8))
        {
        case 0:
          note("push_back(%d) ", a);
          ins(a, n[a], list_push_back(&l[a], src, es), t);
          break;
        case 1:
          note("push_front(%d) ", a);
          ins(a, 0, list_push_front(&l[a], src, es), t);
          break;
        case 2:
          note("insert(%d,%zu) ", a, i);
          if (chance(4))
            {
              unsigned char z[300] = {0};
              p = list_insert(at(a, i), 0, es);
              expect(!memcmp(p, z, es), "element without source is not zero");
              memcpy(p, src, es);
            }
          else
            p = list_insert(at(a, i), src, es);
          ins(a, i, p, t);
          break;
        case 3: case 4:
          if (!n[b])
            break;
          j = below(n[b]);
          note("splice(%d,%zu <- %d,%zu) ", a, i, b, j);
          p = m[b][j].p;
          t = m[b][j].tag;
          list_splice(at(a, i), p);
          if (a == b && (i == j || i == j + 1))
            break;
          del(b, j);
          if (a == b && i > j)
            i--;
          ins(a, i, p, t);
          break;
        case 5:
          if (!n[a])
            break;
          i = below(n[a]);
          note("erase(%d,%zu,%d) ", a, i, !!r);
          seq[0] = m[a][i].p;
          seqtag[0] = m[a][i].tag;
          nseq = 1;
          list_erase(m[a][i].p, r);
          expect(!r || nrel == 1, "erase releases %zu elements", nrel);
          del(a, i);
          break;
        case 6:
          if (!n[a])
            break;
          i = below(n[a]);
          note("find(%d,%zu) ", a, i);
          p = list_find(&l[a], compare, &m[a][i].tag);
          for (j = 0; j < n[a] && memcmp(m[a][j].p, m[a][i].p, es); j++);
          expect(p == m[a][j].p, "find returns the wrong element");
          {
            int found = 0;
            for (j = 0; j < n[a]; j++)
              found |= !memcmp(m[a][j].p, src, es);
            if (!found)
              expect(list_find(&l[a], compare, &t) == NULL, "find invents an element");
          }
          break;
        case 7:
          if (!chance(4))
            break;
          note("clear(%d,%d) ", a, !!r);
          for (nseq = 0; nseq < n[a]; nseq++)
            {
              seq[nseq] = m[a][nseq].p;
              seqtag[nseq] = m[a][nseq].tag;
            }
          list_clear(&l[a], r);
          expect(!r || nrel == nseq, "clear releases %zu of %zu", nrel, nseq);
          n[a] = 0;
          break;
        }
      for (int c = 0; c < N; c++)
        verify(c);
    }
  for (int a = 0; a < N; a++)
    {
      nrel = 0;
      for (nseq = 0; nseq < n[a]; nseq++)
        {
          seq[nseq] = m[a][nseq].p;
          seqtag[nseq] = m[a][nseq].tag;
        }
      list_destruct(&l[a], release);
      expect(nrel == nseq, "destruct releases %zu of %zu", nrel, nseq);
    }
  expect(drv_live == live, "element memory leaked or freed twice");
}

int main(int argc, char **argv) { return drv_main(argc, argv, one); }
