/* Chunked bodies (C30): decoded in pieces of exactly their size, against a decoder that looks at one byte at a time. */
#include "drv.h"
#include <picohttpparser/picohttpparser.h>

typedef struct { int st, digits, trailer; unsigned long long left; } ref;
enum { SIZE, EXT, DATA, CRLF, HEAD, MIDDLE };

static int hex(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }

/* one byte: 0 goes on, 1 data, 2 the end, -1 invalid */
static int ref_byte(ref *r, int c)
{
  switch (r->st)
    {
    case SIZE:
      if (hex(c) >= 0)
        {
          if (r->digits == 16)
            return -1;
          r->digits++;
          r->left = r->left << 4 | hex(c);
          return 0;
        }
      if (!r->digits)
        return -1;
      r->digits = 0;
      r->st = EXT;
      /* fall through */
    case EXT:
      if (c != '\n')
        return 0;
      if (r->left)
        r->st = DATA;
      else if (r->trailer)
        r->st = HEAD;
      else
        return 2;
      return 0;
    case DATA:
      if (!--r->left)
        r->st = CRLF;
      return 1;
    case CRLF:
      if (c == '\r')
        return 0;
      if (c != '\n')
        return -1;
      r->st = SIZE;
      return 0;
    case HEAD:
      if (c == '\r')
        return 0;
      if (c == '\n')
        return 2;
      r->st = MIDDLE;
      return 0;
    default:
      if (c == '\n')
        r->st = HEAD;
      return 0;
    }
}

static uint8_t in[1 << 18];
static size_t n;

static void put(const char *s) { while (*s) in[n++] = *s++; }
static void junk(int k) { while (k--) in[n++] = chance(3) ? "\r 0aF;=\x80\xff\0"[below(10)] : chance(2) ? rnd() : 32 + below(95); }

static void eol(void) { put(chance(8) ? "\n" : chance(20) ? "\r\r\n" : "\r\n"); }

static void size(unsigned long long v)
{
  char b[64], f[16];
  sprintf(f, chance(2) ? "%%0%dllx" : "%%0%dllX", chance(3) ? 1 + (int) below(chance(6) ? 18 : 16) : 1);
  sprintf(b, f, v);
  put(b);
}

static void make(int trailer)
{
  int chunks = below(6);
  n = 0;
  while (chunks--)
    {
      size_t k = chance(4) ? 1 : chance(30) ? below(70000) : 1 + below(chance(4) ? 300 : 20);
      if (n + k + 3000 > sizeof in)
        break;
      size(k);
      if (chance(3))
        junk(below(20));
      eol();
      if (chance(2))
        junk(k);
      else
        for (size_t i = 0; i < k; i++)
          in[n++] = rnd();
      eol();
    }
  if (chance(12))
    size(chance(2) ? ~0ull >> (4 * below(4)) : rnd());
  else if (!chance(16))
    size(0);
  if (chance(4))
    junk(below(20));
  eol();
  if (trailer || chance(8))
    {
      for (int k = below(4); k; k--)
        {
          if (chance(4))
            put("\r");
          junk(1 + below(12));
          eol();
        }
      eol();
    }
  if (chance(2))
    junk(below(40));
  if (chance(6) && n)
    n = below(n + 1);
  for (int k = chance(3) ? below(3) : 0; n && k; k--)
    in[below(n)] = chance(2) ? "\r\n0fF \0G/:@`g"[below(13)] : rnd();
}

static int mode, nst;

/* decodes input of known end piece by piece */
static void run(int trailer)
{
  struct phr_chunked_decoder d = {0};
  ref r = {.trailer = trailer};
  size_t at = 0, empty = 0;

  d.consume_trailer = trailer ? 1 + (chance(4) ? below(100) : 0) : 0;
  while (1)
    {
      size_t k = mode == 0 ? n - at : mode == 1 ? 1 : mode == 2 ? (at ? n - at : (size_t) nst) : chance(10) ? 0 : chance(2) ? 1 + below(4) : 1 + below(60);
      size_t got, outn = 0, i, endat = 0;
      int res = 0;
      uint8_t *p, *out, *copy;
      ssize_t ret;

      if (k > n - at)
        k = n - at;
      if (!k && (empty++ > 3 || mode != 3))
        break;
      p = malloc(k);
      copy = malloc(k);
      out = malloc(k);
      memcpy(p, in + at, k);
      memcpy(copy, p, k);
      for (i = 0; i < k; i++)
        {
          res = ref_byte(&r, copy[i]);
          if (res == 1)
            out[outn++] = copy[i];
          if (res == 2 || res < 0)
            break;
        }
      endat = res == 2 ? i + 1 : k;
      got = k;
      drv_hlen = 0;
      note("piece of %zu at %zu of %zu, trailer %d;", k, at, n, trailer);
      for (i = 0; i < k && i < 300; i++)
        note(" %02x", copy[i]);
      ret = phr_decode_chunked(&d, (char *) p, &got);
      if (res < 0)
        {
          expect(ret == -1, "invalid framing gives %zd", ret);
          free(p); free(copy); free(out);
          return;
        }
      expect(got == outn, "%zu bytes of data are reported as %zu", outn, got);
      expect(!memcmp(p, out, outn), "the data is not what the chunks hold");
      if (res == 2)
        {
          expect(ret == (ssize_t) (k - endat), "%zu bytes after the body are reported as %zd", k - endat, ret);
          expect(!memcmp(p + got, copy + endat, k - endat), "the bytes after the body are changed");
          free(p); free(copy); free(out);
          return;
        }
      expect(ret == -2, "an incomplete body gives %zd", ret);
      expect(!!d.consume_trailer == trailer, "the setting for trailers changes");
      at += k;
      free(p); free(copy); free(out);
      if (at >= n && mode != 3)
        break;
    }
}

static void one(void)
{
  int trailer = chance(2);
  make(trailer);
  mode = 0;
  run(trailer);
  mode = 1;
  if (n < 3000)
    run(trailer);
  mode = 2;
  for (nst = 1; nst < (int) n && nst < 200; nst += n < 60 ? 1 : 1 + below(5))
    run(trailer);
  mode = 3;
  run(trailer);
}

int main(int argc, char **argv) { return drv_main(argc, argv, one); }
