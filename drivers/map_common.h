/* model-based driver for both hash tables: KEY_T, key(i) gives the i-th key (a fresh copy for maps),
   M(name) the real function; every key of a small colliding universe is looked up after every step */
#define MAXU 96
static size_t nu;
static struct { int in; uintptr_t val; KEY_T stored; int released; } mod[MAXU];
static size_t count, nrel;
static T mp;

static void release(ENTRY *e)
{
  size_t i = find(e->key);
  expect(i < nu, "release of an entry that was never stored");
  expect(mod[i].val == e->value, "release: wrong value for key %zu", i);
  mod[i].released++;
  nrel++;
}
static uintptr_t extra_val;
static size_t extra_key;
static void release_new(ENTRY *e)
{
  expect(find(e->key) == extra_key && e->value == extra_val, "rejected entry released with the wrong content");
  nrel++;
}
static void verify(void)
{
  static int seen[MAXU];
  ENTRY *e;
  size_t n = 0;

  expect(M(size)(&mp) == count, "size %zu, expected %zu", M(size)(&mp), count);
  for (size_t i = 0; i < nu; i++)
    {
      uintptr_t v = M(at)(&mp, key(i));
      expect(v == (mod[i].in ? mod[i].val : 0), "lookup of key %zu gives %lx, expected %lx", i, (long) v, (long) (mod[i].in ? mod[i].val : 0));
      seen[i] = 0;
    }
  FOREACH(&mp, e)
    {
      size_t i = find(e->key);
      expect(i < nu && mod[i].in && !seen[i], "enumeration yields a wrong or repeated key");
      expect(e->value == mod[i].val, "enumeration yields a wrong value");
      expect(SAMEKEY(e->key, mod[i].stored), "stored key pointer changed");
      seen[i] = 1;
      n++;
    }
  expect(n == count, "enumeration yields %zu of %zu", n, count);
}
static void reset(void)
{
  nrel = 0;
  for (size_t i = 0; i < nu; i++)
    mod[i].released = 0;
}
static void all_released(const char *what, int rel)
{
  for (size_t i = 0; i < nu; i++)
    expect(mod[i].released == (rel ? mod[i].in : 0), "%s: key %zu released %d times", what, i, mod[i].released);
  for (size_t i = 0; i < nu; i++)
    mod[i].in = 0;
  count = 0;
}
static void one(void)
{
  long live = drv_live;
  size_t steps = 5 + below(chance(4) ? 300 : 60);
  int grow = below(3);

  universe();
  for (size_t i = 0; i < nu; i++)
    mod[i].in = 0;
  count = 0;
  M(construct)(&mp);
  expect(drv_live == live + 1, "construct: one allocation");
  verify();
  for (size_t s = 0; s < steps; s++)
    {
      size_t i = below(nu);
      int r = !chance(3);
      uintptr_t v = 1 + below(1u << 30);

      reset();
      switch (below(grow == 0 ? 20 : 12))
        {
        default:
          note("insert(%zu) ", i);
          extra_key = i;
          extra_val = v;
          {
            KEY_T k = key(i);
            M(insert)(&mp, k, v, r ? release_new : 0);
            expect(nrel == (r && mod[i].in), "insert: %zu releases", nrel);
            if (!mod[i].in)
              {
                mod[i].in = 1;
                mod[i].val = v;
                mod[i].stored = k;
                count++;
              }
          }
          break;
        case 0: case 1: case 2: case 3:
          note("erase(%zu,%d) ", i, r);
          M(erase)(&mp, key(i), r ? release : 0);
          expect(nrel == (size_t) (r && mod[i].in), "erase: %zu releases", nrel);
          if (mod[i].in)
            {
              expect(mod[i].released == r, "erase: the wrong entry is released");
              mod[i].in = 0;
              count--;
            }
          break;
        case 4:
          i = below(chance(3) ? 200 : 30);
          note("reserve(%zu) ", i);
          M(reserve)(&mp, i);
          break;
        case 5:
          if (!chance(6))
            break;
          note("clear(%d) ", r);
          M(clear)(&mp, r ? release : 0);
          all_released("clear", r);
          break;
        }
      expect(drv_live == live + 1, "%ld allocations", drv_live - live);
      verify();
    }
  {
    int r = chance(2);
    reset();
    M(destruct)(&mp, r ? release : 0);
    all_released("destruct", r);
  }
  expect(drv_live == live, "memory leaked or freed twice");
}
int main(int argc, char **argv) { return drv_main(argc, argv, one); }
