#define DRV_ALLOC
#include "drv.h"
#include <reactor/hash.h>
#include <reactor/map.h>
#include <reactor/maps.h>
#define KEY_T char *
#define ENTRY maps_entry
#define T maps
#define M(x) maps_##x
#define FOREACH maps_foreach
#define SAMEKEY(a, b) ((a) == (b))
static char keys[96][4][48];
static size_t nu_keys(void);
static size_t find(char *k) { size_t i; if (!k) fail("null key"); for (i = 0; i < nu_keys(); i++) if (!strcmp(keys[i][0], k)) break; return i; }
/* equal content at one of several addresses */
static char *key(size_t i) { return keys[i][below(4)]; }
static void universe(void);
#include "map_common.h"
static size_t nu_keys(void) { return nu; }
static void universe(void)
{
  int mode = below(4), shape = below(3);
  char k[48];

  nu = 0;
  size_t want = mode == 3 ? 20 + below(70) : 4 + below(12), base = below(64);
  while (nu < want)
    {
      if (shape == 0)
        snprintf(k, sizeof k, "%lx", (long) below(1 << 20));
      else
        {
          size_t n = below(shape == 1 ? 4 : 40), i;
          for (i = 0; i < n; i++)
            k[i] = shape == 1 ? 1 + below(255) : "ab"[below(2)];
          k[n] = 0;
        }
      if (find(k) < nu)
        continue;
      if (mode < 2 && ((hash_string(k) - base) & 15) > 3)
        continue;
      if (mode == 2 && ((hash_string(k) - 61) & 63) > 5)
        continue;
      for (int j = 0; j < 4; j++)
        strcpy(keys[nu][j], k);
      nu++;
    }
}
