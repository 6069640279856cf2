#include "drv.h"
#include <reactor.h>
#include <ctype.h>

static data mk(const char *like, size_t n)
{
  char *p = malloc(n ? n : 1);     /* exact size: an over-read is reported */
  for (size_t i = 0; i < n; i++)
    {
      static const char tok[] = "abcXYZ-_@`[{!~019";
      p[i] = like ? like[i] : tok[below(sizeof tok - 1)];
      if (like && chance(2))
        p[i] = isupper(p[i]) ? tolower(p[i]) : toupper(p[i]);
    }
  return data_construct(p, n);
}
static int same(data a, data b)
{
  if (a.size != b.size)
    return 0;
  for (size_t i = 0; i < a.size; i++)
    {
      unsigned char x = ((unsigned char *) a.base)[i], y = ((unsigned char *) b.base)[i];
      x = x >= 'A' && x <= 'Z' ? x + 32 : x;
      y = y >= 'A' && y <= 'Z' ? y + 32 : y;
      if (x != y)
        return 0;
    }
  return 1;
}

static void one(void)
{
  size_t count = below(chance(3) ? 17 : 6), want = count;
  http_field *f = malloc(count * sizeof *f + 1);
  data name = mk(0, below(chance(5) ? 40 : 6)), r;

  for (size_t i = 0; i < count; i++)
    {
      f[i].name = chance(2) ? mk(name.base, chance(3) && name.size ? name.size - 1 : name.size) : mk(0, below(6));
      if (chance(3) && f[i].name.size)
        ((char *) f[i].name.base)[below(f[i].name.size)] ^= chance(2) ? 0x20 : 1 + below(30);
      for (size_t k = 0; k < f[i].name.size; k++)
        if (!((char *) f[i].name.base)[k])
          ((char *) f[i].name.base)[k] = 'q';
      f[i].value = mk(0, below(5));
      if (want == count && same(f[i].name, name))
        want = i;
      note("field %zu: %.*s ", i, (int) f[i].name.size, (char *) f[i].name.base);
    }
  note("name: %.*s ", (int) name.size, (char *) name.base);
  r = http_field_lookup(f, count, name);
  if (want < count)
    expect(r.base == f[want].value.base && r.size == f[want].value.size, "lookup does not return field %zu", want);
  else
    expect(r.base == 0 && r.size == 0, "lookup returns something");
  for (size_t i = 0; i < count; i++)
    {
      free((void *) f[i].name.base);
      free((void *) f[i].value.base);
    }
  free((void *) name.base);
  free(f);
}

int main(int argc, char **argv) { return drv_main(argc, argv, one); }
