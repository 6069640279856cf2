/* Message heads (C12, C13, C14): random heads, near-heads and all their prefixes, in buffers of exactly their size, against a
   reference parser written from the grammar.  Both builds of the parser run: with SSE 4.2 (through http.c) and without. */
#include "drv.h"
#include <reactor.h>
#undef __SSE4_2__
#define phr_parse_request portable_parse_request
#define phr_parse_response portable_parse_response
#define phr_parse_headers portable_parse_headers
#define phr_decode_chunked portable_decode_chunked
#define phr_decode_chunked_is_in_data portable_decode_chunked_is_in_data
#include <picohttpparser/picohttpparser.c>

#ifndef PROP
#define PROP 13
#endif
#define MAXF 24
#define GUARD ((void *) 0x5a5a5a5a5a5a5a5aul)

typedef struct { ssize_t r; size_t mo, ml, to, tl, count; int code, doomed; struct { ssize_t no; size_t nl, vo, vl; } f[MAXF]; } res;

/* ------------------------------------------------------------ the reference */
static const uint8_t *in;
static size_t len;
static int get(size_t i) { return i < len ? in[i] : -1; }
static int is_tok(int c)
{
  return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c > 0 && c < 128 && strchr("!#$%&'*+-.^_`|~", c) != NULL);
}
static int is_ctl(int c) { return (c >= 0 && c < 32) || c == 127; }

/* end of the line beginning at i: -2, -1 or the next line; *e is where its text ends */
static ssize_t ref_line(size_t i, size_t *e)
{
  for (; get(i) >= 0 && (!is_ctl(get(i)) || get(i) == 9); i++);
  *e = i;
  if (get(i) < 0)
    return -2;
  if (get(i) == '\r')
    return get(i + 1) < 0 ? -2 : get(i + 1) == '\n' ? (ssize_t) i + 2 : -1;
  return get(i) == '\n' ? (ssize_t) i + 1 : -1;
}

static ssize_t ref_fields(res *o, size_t i, size_t room)
{
  ssize_t n;
  size_t e, v;

  for (o->count = 0;; o->count++)
    {
      if (get(i) < 0)
        return -2;
      if (get(i) == '\r' || get(i) == '\n')
        {
          ssize_t r = ref_line(i, &e);
          return r;
        }
      if (o->count == room)
        return -1;
      v = i;
      if (o->count && (get(i) == ' ' || get(i) == '\t'))
        {
          o->f[o->count].no = -1;
          o->f[o->count].nl = 0;
        }
      else
        {
          for (; get(v) >= 0 && is_tok(get(v)); v++);
          if (get(v) < 0)
            return -2;
          if (get(v) != ':' || v == i)
            return -1;
          o->f[o->count].no = i;
          o->f[o->count].nl = v - i;
          for (v++; get(v) == ' ' || get(v) == '\t'; v++);
          if (get(v) < 0)
            return -2;
        }
      n = ref_line(v, &e);
      if (n < 0)
        return n;
      while (e > v && (get(e - 1) == ' ' || get(e - 1) == '\t'))
        e--;
      o->f[o->count].vo = v;
      o->f[o->count].vl = e - v;
      i = n;
    }
}

static ssize_t ref_version(res *o, size_t i)
{
  for (int k = 0; k < 8; k++)
    if (get(i + k) >= 0 && (k < 7 ? get(i + k) != "HTTP/1."[k] : get(i + k) < '0' || get(i + k) > '9'))
      o->doomed = 1;
  if (i + 9 > len)
    return -2;
  return o->doomed ? -1 : (ssize_t) i + 8;
}

static ssize_t ref_word(size_t i)
{
  for (; get(i) >= 0 && get(i) != ' ' && !is_ctl(get(i)); i++);
  return get(i) < 0 ? -2 : get(i) == ' ' ? (ssize_t) i : -1;
}

static ssize_t ref_request(res *o, size_t room)
{
  size_t i = 0, e;
  ssize_t r;

  if (get(0) < 0)
    return -2;
  if (get(0) == '\r')
    {
      if (get(1) < 0)
        return -2;
      if (get(1) != '\n')
        return -1;
      i = 2;
    }
  else if (get(0) == '\n')
    i = 1;
  if ((r = ref_word(i)) < 0)
    return r;
  o->mo = i;
  o->ml = r - i;
  o->doomed = o->ml == 0;
  for (i = r; get(i) == ' '; i++);
  if (get(i) < 0)
    return -2;
  if ((r = ref_word(i)) < 0)
    return r;
  o->to = i;
  o->tl = r - i;
  for (i = r; get(i) == ' '; i++);
  if (get(i) < 0)
    return -2;
  if (o->doomed)
    return -1;
  if ((r = ref_version(o, i)) < 0)
    return r;
  o->doomed = 0;
  i = r;
  if (get(i) != '\r' && get(i) != '\n')
    return -1;
  if ((r = ref_line(i, &e)) < 0)
    return r;
  return ref_fields(o, r, room);
}

static ssize_t ref_response(res *o, size_t room)
{
  size_t i, e;
  ssize_t r;

  if ((r = ref_version(o, 0)) < 0)
    return r;
  if (get(r) != ' ')
    return -1;
  for (i = r; get(i) == ' '; i++);
  if (i + 4 > len)
    {
      for (int k = 0; k < 3; k++)
        if (get(i + k) >= 0 && (get(i + k) < '0' || get(i + k) > '9'))
          o->doomed = 1;
      return -2;
    }
  for (int k = 0; k < 3; k++)
    {
      if (get(i + k) < '0' || get(i + k) > '9')
        return -1;
      o->code = o->code * 10 + get(i + k) - '0';
    }
  i += 3;
  o->doomed = get(i) != ' ' && get(i) != '\r' && get(i) != '\n';
  if ((r = ref_line(i, &e)) < 0)
    return r;
  if (o->doomed)
    return -1;
  for (; i < e && get(i) == ' '; i++);
  o->mo = i;
  o->ml = e - i;
  return ref_fields(o, r, room);
}

/* ------------------------------------------------------------ the code */
static void show(const uint8_t *p, size_t n)
{
  for (size_t i = 0; i < n; i++)
    if (p[i] < 32 || p[i] > 126 || p[i] == '\\')
      note("\\x%02x", p[i]);
    else
      note("%c", p[i]);
}

static void run(const uint8_t *bytes, size_t n, size_t room, int response, int portable, res *out)
{
  size_t off = below(16), count = room;
  uint8_t *mem = malloc(n + off), *p = mem + off;
  http_field *f = malloc((room + 2) * sizeof *f);
  data m = {GUARD, 77}, t = {GUARD, 77};
  int code = -5, minor;
  stream st = {0};
  ssize_t r;

  memcpy(p, bytes, n);
  memset(f, 0x5a, (room + 2) * sizeof *f);
  drv_hlen = 0;
  note("%s%s, %zu bytes, room for %zu: ", response ? "response" : "request", portable ? " (portable)" : "", n, room);
  show(bytes, n);
  if (response)
    {
      if (portable)
        r = portable_parse_response((char *) p, n, &minor, &code, (const char **) &m.base, &m.size, (struct phr_header *) f, &count, 0);
      else
        {
          st.input.data = p;
          st.input.size = n;
          r = http_read_response(&st, &code, &m, f, &count);
        }
    }
  else if (portable)
    r = portable_parse_request((char *) p, n, (const char **) &m.base, &m.size, (const char **) &t.base, &t.size, &minor, (struct phr_header *) f, &count, 0);
  else if (chance(2))
    r = http_read_request_data(data_construct((char *) p, n), &m, &t, f, &count);
  else
    {
      st.input.data = p;
      st.input.size = n;
      r = http_read_request(&st, &m, &t, f, &count);
    }
  expect(!memcmp(p, bytes, n), "the input is changed");
  for (size_t i = room * sizeof *f; i < (room + 2) * sizeof *f; i++)
    expect(((uint8_t *) f)[i] == 0x5a, "more fields are written than there is room for");
  memset(out, 0, sizeof *out);
  expect(r == -1 || r == -2 || (r >= 1 && r <= (ssize_t) n), "returned %zd", r);
  out->r = r;
  if (r > 0)
    {
#define SLICE(d, o, l) do { const uint8_t *b_ = (const uint8_t *) (d).base; \
        expect(b_ >= p && b_ <= p + r && (d).size <= (size_t) (p + r - b_), "a part of the head lies outside what is consumed"); o = b_ - p; l = (d).size; } while (0)
      SLICE(m, out->mo, out->ml);
      if (!response)
        SLICE(t, out->to, out->tl);
      else
        out->code = code;
      expect(count <= room, "%zu fields found, room for %zu", count, room);
      out->count = count;
      for (size_t i = 0; i < count; i++)
        {
          out->f[i].no = -1;
          if (f[i].name.base || f[i].name.size)
            SLICE(f[i].name, out->f[i].no, out->f[i].nl);
          SLICE(f[i].value, out->f[i].vo, out->f[i].vl);
        }
    }
  free(f);
  free(mem);
}

static int same(const res *a, const res *b, int response)
{
  if (a->mo != b->mo || a->ml != b->ml || (!response && (a->to != b->to || a->tl != b->tl)) || (response && a->code != b->code) || a->count != b->count)
    return 0;
  for (size_t i = 0; i < a->count; i++)
    if (a->f[i].no != b->f[i].no || a->f[i].nl != b->f[i].nl || a->f[i].vo != b->f[i].vo || a->f[i].vl != b->f[i].vl)
      return 0;
  return 1;
}

static void check(const uint8_t *p, size_t n, size_t room, int response, int portable, res *o)
{
  res want = {0};

  run(p, n, room, response, portable, o);
#if PROP == 13
  in = p;
  len = n;
  want.r = response ? ref_response(&want, room) : ref_request(&want, room);
  if (want.r == -2 && want.doomed && o->r == -1)
    return;
  expect(o->r == want.r, "returned %zd, the grammar gives %zd", o->r, want.r);
  if (want.r > 0)
    {
      expect(same(o, &want, response), "the parts differ: first word %zu+%zu (%zu+%zu expected), target %zu+%zu (%zu+%zu), code %d (%d), %zu fields (%zu)", o->mo, o->ml, want.mo, want.ml,
             o->to, o->tl, want.to, want.tl, o->code, want.code, o->count, want.count);
    }
#else
  (void) want;
  (void) ref_response;
  (void) ref_request;
#endif
}

/* every length, shortest first */
static void prefixes(const uint8_t *p, size_t n, size_t room, int response, int portable)
{
  static res o, first;
  ssize_t end = 0;
  int rejected = 0;

  for (size_t k = 0; k <= n; k++)
    {
      check(p, k, room, response, portable, &o);
      if (PROP != 14)
        continue;
      if (rejected)
        expect(o.r == -1, "a head rejected with fewer bytes: %zd", o.r);
      if (end)
        expect(o.r == end && same(&o, &first, response), "a head accepted with fewer bytes has another outcome (%zd, %zd before) or other parts", o.r, end);
      else if (o.r > 0)
        {
          end = o.r;
          first = o;
          expect((size_t) end == k, "a head of %zu bytes is accepted only with %zu", (size_t) end, k);
        }
      rejected = o.r == -1;
    }
}

/* ------------------------------------------------------------ inputs */
static uint8_t buf[8192];
static size_t fill;
static void put(int c) { if (fill < sizeof buf) buf[fill++] = c; }
static void str(const char *s) { while (*s) put(*s++); }
static void word(int max, int token)
{
  size_t k = chance(24) ? 0 : chance(6) ? 1 + below(max) : 1 + below(10);
  if (chance(8))
    k = 14 + below(5);
  while (k--)
    {
      int c = 33 + below(94);
      if (token && chance(2))
        c = "abcXYZ019-_.!#$%&'*+^`|~"[below(24)];
      while (token && (!is_tok(c)))
        c = 33 + below(94);
      if (!token && chance(12))
        c = 128 + below(128);
      put(c);
    }
}
static void blanks(int max) { for (size_t k = below(max + 1); k; k--) put(chance(4) ? '\t' : ' '); }
static void spaces(void) { if (chance(40)) return; put(' '); while (chance(5)) put(' '); }
static void eol(void) { if (chance(40)) put('\r'); else if (chance(60)) str("\r\r\n"); else if (chance(4)) put('\n'); else str("\r\n"); }

static void fields(void)
{
  for (size_t k = below(6); k; k--)
    {
      if (chance(10))
        put(chance(2) ? ' ' : '\t');
      else
        {
          word(40, 1);
          if (chance(40))
            put(' ');
          if (!chance(60))
            put(':');
        }
      blanks(chance(10) ? 20 : 2);
      for (size_t w = below(4); w; w--)
        {
          word(40, 0);
          blanks(2);
        }
      if (chance(10))
        blanks(20);
      eol();
    }
  eol();
}

static void head(int response)
{
  fill = 0;
  if (response)
    {
      str(chance(3) ? "HTTP/1.0" : "HTTP/1.1");
      spaces();
      for (int k = chance(30) ? below(5) : 3; k; k--)
        put('0' + below(10));
      if (!chance(6))
        put(' ');
      if (chance(6))
        blanks(3);
      if (!chance(4))
        word(30, 0);
      if (chance(4))
        {
          put(' ');
          word(20, 0);
        }
      if (chance(6))
        blanks(2);
    }
  else
    {
      if (chance(8))
        str(chance(2) ? "\r\n" : chance(4) ? "\r" : "\n");
      word(40, 1);
      spaces();
      if (!chance(40))
        put('/');
      word(60, 0);
      spaces();
      str(chance(30) ? "HTTP/2.0" : chance(30) ? "http/1.1" : chance(3) ? "HTTP/1.0" : "HTTP/1.1");
    }
  eol();
  fields();
  if (chance(2))
    {
      str("GET / HTTP/1.1\r\n\r\n");
      fill -= below(18);
    }
  static const uint8_t special[] = "\0\1\x8\t\n\x0b\r\x1f !\"(),/09:;<=>?@AZ[\\]^`az{|}~\x7f\x80\xff";
  for (int k = chance(2) ? 0 : 1 + below(2); k && fill; k--)
    {
      size_t at = below(fill);
      int c = chance(3) ? (int) below(256) : special[below(sizeof special - 1)];
      if (chance(3))
        {
          memmove(buf + at + 1, buf + at, fill - at);
          fill++;
          buf[at] = c;
        }
      else if (chance(3))
        memmove(buf + at, buf + at + 1, --fill - at);
      else
        buf[at] = c;
    }
}

/* a head of more than two gigabytes: the same megabyte of memory again and again */
#include <sys/mman.h>
static void huge(void)
{
  size_t m = 1 << 20, n = ((size_t) 2048 << 20) + 4 * m, i;
  int fd = memfd_create("huge", 0), ok;
  char *p, *block;
  data method, target;
  http_field f[4];
  size_t count = 4;
  ssize_t r;
  static const char first[] = "GET /", last[] = " HTTP/1.1\r\nA: b\r\n\r\n";

  if (fd == -1)
    return;
  p = mmap(NULL, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED)
    {
      close(fd);
      return;
    }
  ok = ftruncate(fd, m) == 0;
  for (i = 0; ok && i < n; i += m)
    ok = mmap(p + i, m, PROT_READ | PROT_WRITE, (i == 0 || i + m == n ? MAP_PRIVATE : MAP_SHARED) | MAP_FIXED, fd, 0) != MAP_FAILED;
  block = p + m;
  if (ok)
    {
      memset(block, 'a', m);
      memcpy(p, first, sizeof first - 1);
      memcpy(p + n - (sizeof last - 1), last, sizeof last - 1);
      note("request with a target of %zu bytes", n - (sizeof first - 1) - (sizeof last - 1) + 1);
      r = http_read_request_data(data_construct(p, n), &method, &target, f, &count);
      if (r != (ssize_t) n)
        fail("request: the result is %zd, not %zd", r, (ssize_t) n);
      if (count != 1 || data_size(target) != n - (sizeof first - 1) - (sizeof last - 1) + 1)
        fail("request: the parts are wrong");
    }
  munmap(p, n);
  close(fd);
}

static void one(void)
{
  static res o;
  int response = below(2), portable = below(2);
  size_t room = chance(6) ? below(4) : MAXF - 4;

  if (drv_iter == 1 && drv_seed % 1000 == 0)
    {
      huge();
      return;
    }
  if (drv_iter == 0)
    {
      static const char *const t[] = {
        "GET /abcdefghijklmnopqrstuvwxyz HTTP/1.1\r\nHost: localhost\r\nA-long-header-name-of-forty-characters--: a value \t with blanks  \r\n continued\r\n\r\n",
        "\r\nPOST / HTTP/1.0\nx:\n\n", "HTTP/1.1 200 OK\r\nServer: libreactor and a long value\r\n\r\n", "HTTP/1.0 404\nA: b\n\tc\n\n"};
      for (int k = 0; k < 4; k++)
        for (int v = 0; v < 2; v++)
          {
            size_t n = strlen(t[k]);
            for (size_t i = 0; i < n; i++)
              for (int c = 0; c < 256; c++)
                {
                  memcpy(buf, t[k], n);
                  buf[i] = c;
                  check(buf, n, MAXF - 4, k >= 2, v, &o);
                }
          }
      return;
    }
  head(response);
  prefixes(buf, fill, room, response, portable);
  if (fill && chance(4))
    {
      size_t i = below(fill);
      for (int c = 0; c < 256; c++)
        {
          buf[i] = c;
          check(buf, fill, room, response, portable, &o);
        }
    }
}

int main(int argc, char **argv) { return drv_main(argc, argv, one); }
