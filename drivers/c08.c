#define DRV_ALLOC
#include "drv.h"
#include <reactor.h>
#include <fcntl.h>
#include <sys/stat.h>

/* a kernel with one file, that splits transfers arbitrarily */
static unsigned char file[1 << 17];
static size_t flen, fpos, avail;
static int isopen, opens, exists, app, mode, created, plain;
static const char *want = "some/path";

int __wrap_open(const char *p, int flags, ...)
{
  expect(!strcmp(p, want), "opens %s", p);
  opens++;
  if (!exists)
    {
      if (flags & O_CREAT)
        created = exists = 1, flen = 0;
      else
        {
          errno = ENOENT;
          return -1;
        }
    }
  isopen++;
  mode = flags & O_ACCMODE;
  if (flags & O_TRUNC && mode != O_RDONLY)
    flen = 0;
  fpos = 0;
  app = flags & O_APPEND;
  return 77;
}
int __wrap_close(int fd)
{
  expect(fd == 77 && isopen == 1, "close of descriptor %d, %d open", fd, isopen);
  isopen--;
  return 0;
}
static size_t part(size_t n)
{
  size_t k;
  if (plain || n <= 1)
    return n;
  k = chance(3) ? n : chance(3) ? 1 : chance(2) ? n - 1 : 1 + below(n);
  return k ? k : 1;
}
ssize_t __wrap_read(int fd, void *p, size_t n)
{
  expect(fd == 77 && isopen && n, "read(%d,%zu)", fd, n);
  expect(mode != O_WRONLY, "reads a descriptor opened for writing");
  if (n > flen - fpos)
    n = flen - fpos;
  n = part(n);
  memcpy(p, file + fpos, n);
  fpos += n;
  note("read=%zu ", n);
  return n;
}
ssize_t __wrap_write(int fd, const void *p, size_t n)
{
  if (fd == 2)
    return fwrite(p, 1, n, stderr);
  expect(fd == 77 && isopen, "write(%d,%zu)", fd, n);
  expect(mode != O_RDONLY, "writes a descriptor opened for reading");
  n = part(n);
  if (app)
    fpos = flen;
  expect(fpos + n < sizeof file, "writes far too much");
  memcpy(file + fpos, p, n);
  fpos += n;
  if (flen < fpos)
    flen = fpos;
  note("write=%zu ", n);
  return n;
}
int __wrap_ftruncate(int fd, off_t n) { expect(fd == 77 && isopen, "ftruncate"); flen = n; return 0; }

static void one(void)
{
  long live = drv_live;
  static unsigned char ref[1 << 16];
  size_t n = chance(6) ? 0 : chance(3) ? below(20) : chance(2) ? 4096 * below(4) + below(3) : below(30000), old;
  string s, t;
  int r;

  plain = chance(5);
  for (size_t i = 0; i < n; i++)
    ref[i] = chance(9) ? 0 : rnd();
  isopen = opens = created = app = 0;
  exists = 1;
  note("n=%zu ", n);
  switch (below(4))
    {
    case 0:
      note("string_read ");
      memcpy(file, ref, n); flen = n; fpos = 0; isopen = 1; mode = O_RDWR;
      s = string_read(77);
      expect(isopen == 1, "read closes its descriptor");
      expect(string_size(s) == n && !memcmp(s, ref, n) && s[n] == 0, "read delivers %zu bytes of %zu or other content", string_size(s), n);
      string_free(s);
      break;
    case 1:
      exists = chance(4) ? 0 : 1;
      note("string_load exists=%d ", exists);
      memcpy(file, ref, n); flen = n;
      if (!exists)
        n = 0;
      s = string_load(want);
      expect(!isopen, "load leaks its descriptor");
      expect(!created, "load creates the file");
      expect(string_size(s) == n && !memcmp(s, ref, n) && s[n] == 0, "load delivers other content");
      string_free(s);
      break;
    case 2:
      note("string_write ");
      s = string_append_data(string_null(), data_construct((char *) ref, n));
      flen = fpos = 0; isopen = 1; mode = O_RDWR;
      string_write(s, 77);
      expect(isopen == 1, "write closes its descriptor");
      expect(flen == n && !memcmp(file, ref, n), "write delivers %zu bytes of %zu or other content", flen, n);
      string_free(s);
      break;
    case 3:
      exists = chance(4) ? 0 : 1;
      old = chance(2) ? n + below(50) : below(n + 1);
      memset(file, 'o', flen = old);
      note("string_save exists=%d oldlength=%zu ", exists, old);
      s = string_append_data(string_null(), data_construct((char *) ref, n));
      r = string_save(s, want);
      expect(!isopen, "save leaks its descriptor");
      expect(!created, "save creates the file");
      expect(string_size(s) == n && !memcmp(s, ref, n), "save changes the string");
      if (opens && !exists)
        expect(r == -1, "save does not report the failure");
      else if (exists)
        {
          expect(r == 0, "save reports failure");
          t = string_load(want);
          expect(!!string_equal(s, t), "a later load gives %zu bytes instead of %zu, or other content", string_size(t), n);
          string_free(t);
        }
      else
        expect(r == -1, "save reports success without a file");
      string_free(s);
      break;
    }
  expect(drv_live == live, "%ld allocations leaked", drv_live - live);
}

int main(int argc, char **argv) { return drv_main(argc, argv, one); }
