#define DRV_ALLOC
#include "drv.h"
#include <sys/epoll.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <reactor.h>

/* fake edge-triggered kernel and fake TLS library, two streams */
#define N 2
#define MAXFD 2048
typedef struct { int open, reg, socket, nospace, hup, dead; uint32_t ev, edge; void *ptr; size_t room, outn, inn, inpos; int tls; } kfd;
static kfd k[MAXFD];
typedef struct { int used, fd, mode, state, hs; int last, refused; } session;
static session *live_sessions;
static int sessions;
typedef struct { stream s; int id, fd, tls, told; size_t queued, base, rcvd, eaten, seen; int notify, asked; unsigned salt; int closed_event; } obj;
static obj *o[N];
static int nextfd, quiet, server_role;
static unsigned salts;
static SSL_CTX *ctx = (SSL_CTX *) &nextfd;
static unsigned char byte(unsigned salt, int dir, size_t i) { uint64_t z = (salt * 2 + dir) * 0x9e3779b97f4a7c15ull + i * 0xbf58476d1ce4e5b9ull; return (unsigned char) (z >> 40 ^ z >> 13); }
static obj *by_fd(int fd)
{
  for (int i = 0; i < N; i++)
    if (o[i] && o[i]->fd == fd)
      return o[i];
  return 0;
}
int __real_close(int);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
int __real_epoll_ctl(int, int, int, struct epoll_event *);

static uint32_t poll_now(int fd)
{
  return (k[fd].inpos < k[fd].inn ? EPOLLIN : 0) | (k[fd].room || k[fd].dead ? EPOLLOUT : 0) | (k[fd].hup ? EPOLLHUP | EPOLLRDHUP | EPOLLIN : 0);
}
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev)
{
  if (fd < 100 && fd >= 0)
    return __real_epoll_ctl(ep, op, fd, ev);
  expect(fd >= 100 && fd < MAXFD && k[fd].open, "epoll_ctl on descriptor %d", fd);
  expect(k[fd].reg == (op != EPOLL_CTL_ADD), "epoll_ctl(%d) when registered=%d", op, k[fd].reg);
  k[fd].reg = op != EPOLL_CTL_DEL;
  if (ev)
    {
      k[fd].ptr = ev->data.ptr;
      k[fd].ev = ev->events | EPOLLHUP | EPOLLERR;
      k[fd].edge = 1;
    }
  return 0;
}
int __wrap_epoll_wait(int ep, struct epoll_event *ev, int max, int timeout)
{
  int n = 0;
  (void) ep; (void) timeout;
  for (int fd = 100; fd < nextfd && n < max; fd++)
    if (k[fd].open && k[fd].reg && (k[fd].edge || !(k[fd].ev & EPOLLET)) && (poll_now(fd) & k[fd].ev))
      {
        ev[n].events = poll_now(fd) & k[fd].ev;
        ev[n++].data.ptr = k[fd].ptr;
        k[fd].edge = 0;
      }
  return n;
}
int __wrap_close(int fd)
{
  if (fd >= 0 && fd < 100)
    return __real_close(fd);
  expect(fd >= 0 && fd < MAXFD && k[fd].open, "close of descriptor %d, which is not open", fd);
  k[fd].open = k[fd].reg = 0;
  return 0;
}
int __wrap_fstat(int fd, struct stat *st)
{
  expect(fd >= 100 && fd < MAXFD && k[fd].open, "fstat of descriptor %d", fd);
  memset(st, 0, sizeof *st);
  st->st_mode = k[fd].socket ? S_IFSOCK : S_IFIFO;
  return 0;
}
static size_t accept_bytes(int fd, const void *p, size_t n)
{
  obj *x = by_fd(fd);
  expect(x, "bytes for a stream that is gone");
  for (size_t i = 0; i < n; i++)
    {
      size_t at = k[fd].outn + i;
      expect(at < x->queued, "more transmitted (%zu) than written (%zu)", at + 1, x->queued);
      expect(((unsigned char *) p)[i] == byte(x->salt, 0, at), "transmitted byte %zu is wrong", at);
    }
  k[fd].outn += n;
  k[fd].room -= n;
  return n;
}
ssize_t __wrap_write(int fd, const void *p, size_t n)
{
  if (fd >= 0 && fd < 100)
    return __real_write(fd, p, n);
  expect(fd < MAXFD && k[fd].open && !k[fd].tls, "write to descriptor %d", fd);
  if (!n)
    return 0;
  if (k[fd].dead)
    {
      errno = chance(2) ? EPIPE : ECONNRESET;
      return -1;
    }
  if (!k[fd].room)
    {
      k[fd].nospace = 1;
      errno = EAGAIN;
      return -1;
    }
  if (n > k[fd].room)
    {
      n = k[fd].room;
      k[fd].nospace = 1;
    }
  return accept_bytes(fd, p, n);
}
static size_t give(int fd, void *p, size_t n)
{
  obj *x = by_fd(fd);
  if (n > k[fd].inn - k[fd].inpos)
    n = k[fd].inn - k[fd].inpos;
  for (size_t i = 0; i < n; i++)
    ((unsigned char *) p)[i] = byte(x->salt, 1, k[fd].inpos + i);
  k[fd].inpos += n;
  return n;
}
ssize_t __wrap_read(int fd, void *p, size_t n)
{
  if (fd >= 0 && fd < 100)
    return __real_read(fd, p, n);
  expect(fd < MAXFD && k[fd].open && !k[fd].tls, "read from descriptor %d", fd);
  if (k[fd].inpos < k[fd].inn)
    return give(fd, p, n);
  if (k[fd].hup)
    return 0;
  errno = k[fd].dead ? ECONNRESET : EAGAIN;
  return -1;
}
SSL *__wrap_SSL_new(SSL_CTX *c)
{
  session *s = calloc(1, sizeof *s);
  expect(c == ctx, "context");
  s->used = 12345;
  s->fd = -1;
  s->state = -1;
  s->hs = below(4);
  sessions++;
  return (SSL *) s;
}
static session *ses(SSL *p)
{
  session *s = (session *) p;
  expect(s && s->used == 12345, "not a session");
  return s;
}
void __wrap_SSL_free(SSL *p)
{
  if (!p)
    return;
  ses(p)->used = 0;
  free(p);
  sessions--;
}
int __wrap_SSL_set_fd(SSL *p, int fd) { expect(fd >= 100 && k[fd].open, "SSL_set_fd"); ses(p)->fd = fd; return 1; }
int __wrap_SSL_is_server(const SSL *p) { ses((SSL *) p); return server_role; }
void __wrap_SSL_set_accept_state(SSL *p) { ses(p)->state = 1; }
void __wrap_SSL_set_connect_state(SSL *p) { ses(p)->state = 0; }
long __wrap_SSL_ctrl(SSL *p, int cmd, long l, void *a) { (void) a; if (cmd == SSL_CTRL_MODE) ses(p)->mode |= l; return ses(p)->mode; }
static session *io(SSL *p)
{
  session *s = ses(p);
  expect(s->fd >= 100 && k[s->fd].open, "session without an open descriptor");
  expect(s->state == server_role, "session role");
  return s;
}
/* what the library needs before it can go on; 0: nothing */
static int handshake(session *s)
{
  if (k[s->fd].dead)
    return SSL_ERROR_SYSCALL;
  while (s->hs)
    {
      if (!k[s->fd].room)
        {
          k[s->fd].nospace = 1;
          return SSL_ERROR_WANT_WRITE;
        }
      k[s->fd].room--;
      s->hs--;
    }
  return 0;
}
int __wrap_SSL_write(SSL *p, const void *b, int n)
{
  session *s = io(p);
  expect(n >= 0, "SSL_write of %d bytes", n);
  expect(!s->refused || (n >= s->refused && (s->mode & SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER)), "bad write retry");
  s->last = handshake(s);
  if (s->last || !n)
    {
      if (!s->last)
        s->last = SSL_ERROR_SYSCALL;
      return -1;
    }
  if (!k[s->fd].room)
    {
      k[s->fd].nospace = 1;
      s->last = SSL_ERROR_WANT_WRITE;
      s->refused = n > 16384 ? 16384 : n;
      return -1;
    }
  s->refused = 0;
  if (n > 16384)
    n = 16384;
  if ((size_t) n > k[s->fd].room)
    n = k[s->fd].room;
  s->last = 0;
  return accept_bytes(s->fd, b, n);
}
int __wrap_SSL_read(SSL *p, void *b, int n)
{
  session *s = io(p);
  expect(n > 0, "SSL_read of %d bytes", n);
  s->last = handshake(s);
  if (s->last)
    return -1;
  if (k[s->fd].inpos == k[s->fd].inn)
    {
      s->last = k[s->fd].hup ? SSL_ERROR_ZERO_RETURN : SSL_ERROR_WANT_READ;
      return k[s->fd].hup ? 0 : -1;
    }
  if (chance(3) && n > 1)
    n = 1 + below(n);
  return give(s->fd, b, n > 16384 ? 16384 : n);
}
int __wrap_SSL_get_error(const SSL *p, int r) { return r > 0 ? 0 : ses((SSL *) p)->last; }

static void callback(reactor_event *);
static void make(int i)
{
  o[i] = calloc(1, sizeof *o[i]);
  o[i]->id = i;
  o[i]->fd = -1;
  stream_construct(&o[i]->s, callback, o[i]);
}
static void fresh(obj *p)
{
  if (p->fd != -1)
    expect(!k[p->fd].open && !k[p->fd].reg, "descriptor left open");
  p->fd = -1;
  p->queued = p->rcvd = p->eaten = p->seen = 0;
  p->notify = p->tls = p->closed_event = 0;
  p->salt = ++salts;
}
static void check_input(obj *p)
{
  data d = stream_read(&p->s);
  size_t r = p->fd == -1 ? 0 : k[p->fd].inpos;
  expect(data_size(d) == r - p->eaten, "%zu bytes of input presented, %zu received and not consumed", data_size(d), r - p->eaten);
  size_t step = 1 + data_size(d) / 300;
  for (size_t i = step > 1 ? below(step) : 0; i < data_size(d); i += step)
    expect(((unsigned char *) data_base(d))[i] == byte(p->salt, 1, p->eaten + i), "input byte %zu", p->eaten + i);
}
static void check_wait(obj *p, const char *what)
{
  if (p->fd == -1 || p->tls)
    return;
  int need = p->queued > k[p->fd].outn || p->notify, w = !!(k[p->fd].ev & EPOLLOUT);
  expect(need == w, "%s: %s for writability with %zu bytes queued%s", what, w ? "waits" : "does not wait", p->queued - k[p->fd].outn, p->notify ? ", notification requested" : "");
}
static void act(int i, int inside)
{
  obj *p = o[i];
  size_t n;
  unsigned char *b;
  switch (below(16))
    {
    case 0: case 1: case 2:
      n = chance(4) ? below(200000) : below(300);
      note("write(%d, %zu) ", i, n);
      b = malloc(n + 1);
      for (size_t j = 0; j < n; j++)
        b[j] = byte(p->salt, 0, p->queued + j);
      p->queued += n;
      if (chance(2))
        stream_write(&p->s, data_construct(b, n));
      else
        {
          void *q = stream_allocate(&p->s, n);
          if (n)
            memcpy(q, b, n);
        }
      free(b);
      if (p->fd == -1 || chance(5))
        break;
      stream_flush(&p->s);
      check_wait(p, "flush");
      break;
    case 3: case 4:
      if (p->fd == -1)
        break;
      note("flush(%d) ", i);
      stream_flush(&p->s);
      check_wait(p, "flush");
      break;
    case 5: case 6:
      if (p->fd == -1)
        break;
      note("notify(%d) ", i);
      p->notify = 1;
      stream_notify(&p->s);
      expect(k[p->fd].ev & EPOLLOUT, "notify does not wait for writability");
      break;
    case 7: case 8: case 9:
      n = data_size(stream_read(&p->s));
      n = chance(2) ? n : below(n + 1);
      note("consume(%d, %zu) ", i, n);
      stream_consume(&p->s, n);
      p->eaten += n;
      check_input(p);
      break;
    case 10:
      if (!chance(3))
        break;
      note("close(%d) ", i);
      if (p->fd == -1 && p->queued)
        break;
      stream_close(&p->s);
      fresh(p);
      if (chance(2))
        stream_close(&p->s);
      break;
    case 11:
      if (!chance(3))
        break;
      note("destruct(%d) ", i);
      stream_destruct(&p->s);
      if (chance(2))
        stream_destruct(&p->s);
      fresh(p);
      free(p);
      make(i);
      o[i]->salt = ++salts;
      break;
    default:
      if (p->fd != -1 || (inside && chance(2)))
        break;
      expect(nextfd < MAXFD, "driver");
      memset(&k[nextfd], 0, sizeof k[nextfd]);
      k[nextfd].open = 1;
      k[nextfd].room = below(100000);
      p->tls = chance(2);
      k[nextfd].tls = p->tls;
      k[nextfd].socket = p->tls || chance(2);
      p->fd = nextfd++;
      note("open(%d%s) ", i, p->tls ? ", tls" : "");
      stream_open(&p->s, p->fd, STREAM_READ, p->tls ? ctx : NULL);
      expect(!!(k[p->fd].ev & EPOLLOUT) == (p->queued || p->notify), "open: interest in writability");
      expect(k[p->fd].ev & EPOLLIN, "open: no interest in input");
    }
}
static void callback(reactor_event *e)
{
  obj *p = e->state;
  int i = p->id;
  note("<%d:%d> ", i, e->type);
  expect(p->fd != -1, "notification %d for a closed stream", e->type);
  check_input(p);
  switch (e->type)
    {
    case STREAM_READ:
      expect(k[p->fd].inpos > p->seen, "read notification without new bytes");
      p->seen = k[p->fd].inpos;
      break;
    case STREAM_WRITE:
      if (p->queued == k[p->fd].outn)
        p->notify = 0;
      else
        p->notify = p->tls ? p->notify : 0;
      break;
    case STREAM_CLOSE:
      expect(k[p->fd].hup, "hang-up invented");
      p->closed_event = 1;
      break;
    }
  for (int c = quiet ? 0 : below(3); c > 0; c--)
    act(chance(4) ? (int) below(N) : i, 1);
}
static void peer(int fd)
{
  size_t n;
  if (fd < 100 || k[fd].dead)
    return;
  if (chance(2) && k[fd].room < 300000)
    {
      n = 1 + below(60000);
      k[fd].room += n;
      if (k[fd].nospace)
        {
          k[fd].nospace = 0;
          k[fd].edge = 1;
        }
    }
  if (chance(2) && !k[fd].hup && k[fd].inn < 1000000)
    {
      n = chance(6) ? below(2) ? 65536 * (1 + below(2)) : below(200000) : 1 + below(500);
      note("peer(fd %d, %zu) ", fd, n);
      k[fd].inn += n;
      k[fd].edge = 1;
    }
  if (!quiet && chance(60))
    {
      note("hup(fd %d) ", fd);
      k[fd].hup = 1;
      k[fd].dead = chance(2);
      k[fd].edge = 1;
    }
}
static void one(void)
{
  long live = drv_live;
  (void) live_sessions;
  quiet = 0;
  nextfd = 100;
  sessions = 0;
  salts = 0;
  server_role = chance(2);
  reactor_construct();
  for (int i = 0; i < N; i++)
    {
      make(i);
      o[i]->salt = ++salts;
    }
  for (int s = 0; s < 60; s++)
    {
      act(below(N), 0);
      for (int i = 0; i < N; i++)
        if (o[i]->fd != -1)
          peer(o[i]->fd);
      if (chance(2))
        {
          note("| ");
          reactor_loop_once();
        }
      for (int i = 0; i < N; i++)
        check_input(o[i]);
    }
  /* the peer takes everything: everything is transmitted, everything received is notified */
  quiet = 1;
  note("end ");
  for (int s = 0; s < 400; s++)
    {
      int busy = 0;
      for (int i = 0; i < N; i++)
        if (o[i]->fd != -1 && !k[o[i]->fd].dead)
          {
            kfd *f = &k[o[i]->fd];
            f->room += 30000;
            if (f->nospace)
              {
                f->nospace = 0;
                f->edge = 1;
              }
            busy |= o[i]->queued > f->outn || f->inpos < f->inn;
          }
      if (!s)
        for (int i = 0; i < N; i++)
          if (o[i]->fd != -1)
            stream_flush(&o[i]->s);
      reactor_loop_once();
      if (!busy)
        break;
    }
  for (int i = 0; i < N; i++)
    {
      obj *p = o[i];
      if (p->fd != -1 && !k[p->fd].dead)
        {
          expect(p->queued == k[p->fd].outn, "stream %d: %zu of %zu bytes transmitted and nothing more happens", i, k[p->fd].outn, p->queued);
          expect(k[p->fd].inpos == k[p->fd].inn, "stream %d: %zu of %zu received bytes read and nothing more happens", i, k[p->fd].inpos, k[p->fd].inn);
          expect(p->seen == k[p->fd].inpos, "received bytes were not notified");
          check_wait(p, "in the end");
        }
      stream_destruct(&p->s);
      fresh(p);
      free(p);
      o[i] = 0;
    }
  expect(!sessions, "%d TLS sessions leaked", sessions);
  reactor_loop();
  reactor_destruct();
  expect(drv_live == live, "%ld blocks leaked", drv_live - live);
}
int main(int argc, char **argv) { return drv_main(argc, argv, one); }
