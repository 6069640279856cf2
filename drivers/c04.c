#define DRV_ALLOC
#include "drv.h"
#include <reactor/hash.h>
#include <reactor/map.h>
#include <reactor/mapi.h>
#define KEY_T uintptr_t
#define ENTRY mapi_entry
#define T mapi
#define M(x) mapi_##x
#define FOREACH mapi_foreach
#define SAMEKEY(a, b) ((a) == (b))
static uintptr_t keys[96];
static size_t nu_keys(void);
static size_t find(uintptr_t k) { for (size_t i = 0; i < nu_keys(); i++) if (keys[i] == k) return i; return nu_keys(); }
static uintptr_t key(size_t i) { return keys[i]; }
static void universe(void);
#include "map_common.h"
static size_t nu_keys(void) { return nu; }
/* keys whose home slots cluster, also around the end of the table */
static void universe(void)
{
  int mode = below(4);
  uintptr_t k;

  nu = 0;
  size_t want = mode == 3 ? 20 + below(70) : 4 + below(12), base = below(64);
  while (nu < want)
    {
      k = chance(2) ? rnd() : 1 + below(100000);
      if (!k || find(k) < nu)
        continue;
      if (mode < 2 && ((hash_uint64(k) - base) & 15) > 3)
        continue;
      if (mode == 2 && ((hash_uint64(k) - 61) & 63) > 5)
        continue;
      keys[nu++] = k;
    }
}
