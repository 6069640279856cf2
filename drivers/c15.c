#include "drv.h"
#include <reactor.h>

static unsigned char *bytes(size_t n)
{
  unsigned char *p = malloc(n ? n : 1);
  for (size_t i = 0; i < n; i++)
    p[i] = chance(9) ? rnd() : 'a' + below(26);
  return p;
}
static data mk(int big)
{
  size_t n = chance(4) ? 0 : chance(3) ? below(100) : below(big);
  return data_construct((char *) bytes(n), n);
}
static unsigned char ref[1 << 18];
static size_t rn;
static void lit(const char *s) { memcpy(ref + rn, s, strlen(s)); rn += strlen(s); }
static void dat(data d) { memcpy(ref + rn, data_base(d), data_size(d)); rn += data_size(d); }
static void num(size_t v) { rn += sprintf((char *) ref + rn, "%zu", v); }

static void one(void)
{
  stream s;
  data a[5];
  size_t pending;

  stream_construct(&s, 0, 0);
  rn = 0;
  for (int msg = 0, count = 1 + below(3); msg < count; msg++)
    {
      if (chance(3))
        {
          data d = mk(20);
          stream_write(&s, d);
          dat(d);
          free((void *) data_base(d));
        }
      pending = rn;
      for (int i = 0; i < 5; i++)
        a[i] = mk(i == 4 ? (chance(20) ? 120000 : 12000) : 40);
      if (chance(6))
        {
          static const size_t edge[] = {1, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 10001};
          free((void *) data_base(a[4]));
          size_t n = edge[below(13)];
          a[4] = data_construct((char *) bytes(n), n);
        }
      if (rn > 100000)
        a[4].size = a[4].size % 100;
      if (chance(2))
        {
          note("request(method %zu, target %zu, host %zu, type %zu, body %zu) ", a[0].size, a[1].size, a[2].size, a[3].size, a[4].size);
          http_write_request(&s, a[0], a[1], a[2], a[3], a[4]);
          dat(a[0]); lit(" "); dat(a[1]); lit(" HTTP/1.1\r\nHost: "); dat(a[2]); lit("\r\n");
          if (a[4].size)
            {
              lit("Content-Type: "); dat(a[3]); lit("\r\nContent-Length: "); num(a[4].size); lit("\r\n");
            }
          lit("\r\n"); dat(a[4]);
        }
      else
        {
          note("response(status %zu, date %zu, type %zu, body %zu) ", a[0].size, a[1].size, a[3].size, a[4].size);
          http_write_response(&s, a[0], a[1], a[3], a[4]);
          lit("HTTP/1.1 "); dat(a[0]); lit("\r\nServer: reactor\r\nDate: "); dat(a[1]); lit("\r\n");
          if (a[3].size)
            {
              lit("Content-Type: "); dat(a[3]); lit("\r\n");
            }
          lit("Content-Length: "); num(a[4].size); lit("\r\n\r\n"); dat(a[4]);
        }
      expect(buffer_size(&s.output) == rn, "the message takes %zd bytes instead of %zu", (ssize_t) (buffer_size(&s.output) - pending), rn - pending);
      for (size_t i = 0; i < rn; i++)
        expect(((unsigned char *) buffer_data(&s.output))[i] == ref[i], "byte %zd of the message is %02x instead of %02x", (ssize_t) (i - pending), ((unsigned char *) buffer_data(&s.output))[i], ref[i]);
      expect(buffer_size(&s.input) == 0, "input changes");
      for (int i = 0; i < 5; i++)
        free((void *) data_base(a[i]));
      if (rn > 100000)
        break;
    }
  buffer_destruct(&s.output);
  buffer_destruct(&s.input);

  /* field construction and writing on their own */
  {
    data n = mk(30), v = mk(30);
    size_t len = n.size + v.size + 4;
    unsigned char *out = malloc(len);
    pointer p = out;
    http_field f = http_field_construct(n, v);
    expect(f.name.base == n.base && f.name.size == n.size && f.value.base == v.base && f.value.size == v.size, "field construct");
    http_field_push(&p, f);
    rn = 0;
    dat(n); lit(": "); dat(v); lit("\r\n");
    expect(p == out + len && !memcmp(out, ref, len), "field push");
    free(out);
    free((void *) n.base);
    free((void *) v.base);
  }
}

int main(int argc, char **argv) { return drv_main(argc, argv, one); }
