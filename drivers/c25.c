#define DRV_ALLOC
#include "drv.h"
#include <sys/epoll.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <reactor.h>

/* fake edge-triggered kernel: one server, a few plain connections with scripted requests */
#define N 3
#define MAXFD 2048
#define MAXREQ 8
typedef struct { int open, reg, nospace, hup, dead; uint32_t ev, edge; void *ptr; size_t room, inn, inpos; int conn; } kfd;
static kfd k[MAXFD];
typedef struct {
  int fd, nreq, handed, owed, held, closed, abandoned, badreq, opened;
  char *in; size_t insize, inrcvd, end[MAXREQ + 1];
  char method[MAXREQ][24], target[MAXREQ][40];
  int nf[MAXREQ]; char fn[MAXREQ][17][16], fv[MAXREQ][17][24];
  server_request *r;
  char *out, *want; size_t outn, wantn; int lost;
} conn;
static conn *c[N];
static server *srv;
static int nextfd, listenfd, pending, up, depth;
static char *pool;
static size_t poolsize;
static void act_handler(conn *x);

int __real_close(int);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
int __real_epoll_ctl(int, int, int, struct epoll_event *);
static uint32_t poll_now(int fd)
{
  if (fd == listenfd)
    return pending ? EPOLLIN : 0;
  return (k[fd].inpos < k[fd].inn ? EPOLLIN : 0) | (k[fd].room || k[fd].dead ? EPOLLOUT : 0) | (k[fd].hup ? EPOLLHUP | EPOLLRDHUP | EPOLLIN : 0);
}
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev)
{
  if (fd < 100 && fd >= 0)
    return __real_epoll_ctl(ep, op, fd, ev);
  expect(fd >= 100 && fd < MAXFD && k[fd].open, "epoll_ctl on descriptor %d", fd);
  expect(k[fd].reg == (op != EPOLL_CTL_ADD), "epoll_ctl(%d) when registered=%d", op, k[fd].reg);
  k[fd].reg = op != EPOLL_CTL_DEL;
  if (ev)
    {
      k[fd].ptr = ev->data.ptr;
      k[fd].ev = ev->events | EPOLLHUP | EPOLLERR;
      k[fd].edge = 1;
    }
  return 0;
}
int __wrap_epoll_wait(int ep, struct epoll_event *ev, int max, int timeout)
{
  int n = 0;
  (void) ep; (void) timeout;
  for (int fd = 100; fd < nextfd && n < max; fd++)
    if (k[fd].open && k[fd].reg && (k[fd].edge || !(k[fd].ev & EPOLLET)) && (poll_now(fd) & k[fd].ev))
      {
        ev[n].events = poll_now(fd) & k[fd].ev;
        ev[n++].data.ptr = k[fd].ptr;
        k[fd].edge = 0;
      }
  return n;
}
int __wrap_close(int fd)
{
  if (fd >= 0 && fd < 100)
    return __real_close(fd);
  expect(fd >= 0 && fd < MAXFD && k[fd].open, "close of descriptor %d, which is not open", fd);
  k[fd].open = k[fd].reg = 0;
  return 0;
}
int __wrap_fstat(int fd, struct stat *st)
{
  expect(fd >= 100 && fd < MAXFD && k[fd].open, "fstat of descriptor %d", fd);
  memset(st, 0, sizeof *st);
  st->st_mode = S_IFSOCK;
  return 0;
}
ssize_t __wrap_write(int fd, const void *p, size_t n)
{
  conn *x;
  if (fd < 100)
    return __real_write(fd, p, n);
  expect(fd >= 100 && fd < MAXFD && k[fd].open, "write to descriptor %d", fd);
  x = c[k[fd].conn];
  if (!n)
    return 0;
  if (k[fd].dead)
    {
      errno = EPIPE;
      return -1;
    }
  if (!k[fd].room)
    {
      errno = EAGAIN;
      return -1;
    }
  if (n > k[fd].room)
    n = k[fd].room;
  k[fd].room -= n;
  expect(x->outn + n < 1 << 16, "far too much output");
  memcpy(x->out + x->outn, p, n);
  x->outn += n;
  return n;
}
ssize_t __wrap_read(int fd, void *p, size_t n)
{
  conn *x;
  if (fd < 100)
    return __real_read(fd, p, n);
  expect(fd >= 100 && fd < MAXFD && k[fd].open, "read from descriptor %d", fd);
  x = c[k[fd].conn];
  if (n > k[fd].inn - k[fd].inpos)
    n = k[fd].inn - k[fd].inpos;
  if (!n)
    {
      if (k[fd].hup)
        return 0;
      errno = EAGAIN;
      return -1;
    }
  memcpy(p, x->in + k[fd].inpos, n);
  k[fd].inpos += n;
  return n;
}
/* ---------------------------------------------------------------- scripts */
static size_t add_text(char *q, const char *f, ...)
{
  va_list a;
  va_start(a, f);
  size_t n = vsprintf(q, f, a);
  va_end(a);
  return n;
}
static void script(conn *x)
{
  static const char *ms[] = {"GET", "POST", "PUT", "OPTIONS", "X"};
  size_t n = 0;
  x->in = malloc(1 << 15);
  x->out = malloc(1 << 16);
  x->want = malloc(1 << 16);
  x->nreq = below(MAXREQ);
  x->badreq = -1;
  for (int i = 0; i < x->nreq; i++)
    {
      int bad = chance(10);
      strcpy(x->method[i], ms[below(5)]);
      sprintf(x->target[i], "/%d/%.*s", (int) below(1000000), (int) below(20), "aaaaaaaaaaaaaaaaaaaaaaa");
      x->nf[i] = chance(6) ? 16 : below(5);
      if (bad && chance(2))
        n += add_text(x->in + n, "%s %s HTTQ/1.1\r\n", x->method[i], x->target[i]);
      else
        n += add_text(x->in + n, "%s %s HTTP/1.%d\r\n", x->method[i], x->target[i], (int) below(2));
      if (bad)
        x->nf[i] = 17;
      for (int j = 0; j < x->nf[i]; j++)
        {
          sprintf(x->fn[i][j], "n%d", (int) below(100000));
          sprintf(x->fv[i][j], "v%d", (int) below(100000));
          n += add_text(x->in + n, "%s: %s\r\n", x->fn[i][j], x->fv[i][j]);
        }
      n += add_text(x->in + n, "\r\n");
      x->end[i] = n;
      if (bad)
        {
          x->badreq = i;
          x->nreq = i + 1;
          break;
        }
    }
  if (chance(3))
    n += add_text(x->in + n, "GET /partial HTT");
  x->insize = n;
}
/* the requests fully received */
static int complete(conn *x)
{
  int i = 0;
  while (i < x->nreq && i != x->badreq && x->end[i] <= x->inrcvd)
    i++;
  return i;
}
static void check_output(conn *x, int all)
{
  size_t n = x->outn < x->wantn ? x->outn : x->wantn;
  expect(x->outn <= x->wantn, "more was sent than the answers given: %.*s", (int) (x->outn - n < 200 ? x->outn - n : 200), x->out + n);
  for (size_t i = 0; i < n; i++)
    expect(x->want[i] == 1 || x->want[i] == x->out[i], "the output differs from the answers given at %zu: %.*s", i, 60, x->out + i);
  if (all)
    expect(x->outn == x->wantn, "%zu of %zu bytes of the answers were sent", x->outn, x->wantn);
}
static void want(conn *x, const char *status, const char *type, const char *body, size_t n)
{
  char date[30];
  memset(date, 1, 29);
  date[29] = 0;
  x->wantn += sprintf(x->want + x->wantn, "HTTP/1.1 %s\r\nServer: reactor\r\nDate: %s\r\n", status, date);
  if (*type)
    x->wantn += sprintf(x->want + x->wantn, "Content-Type: %s\r\n", type);
  x->wantn += sprintf(x->want + x->wantn, "Content-Length: %zu\r\n\r\n", n);
  memcpy(x->want + x->wantn, body, n);
  x->wantn += n;
}
/* the connection is closed from now on (by us or by the peer) */
static void gone(conn *x)
{
  x->closed = 1;
}
static void respond(conn *x, int kind)
{
  char body[64], type[16];
  int i = x->handed - 1, was = x->closed;
  size_t n = 0;
  sprintf(type, "t/%d", i);
  if (chance(3))
    *type = 0;
  n = sprintf(body, "answer %d %d", x->fd, i);
  if (chance(4))
    n = 0;
  x->owed = 0;
  note("respond(%d,%d) ", x->fd, kind);
  if (!was)
    want(x, kind == 0 ? "200 OK" : kind == 1 ? "404 Not Found" : kind == 2 ? "299 Odd" : "400 Bad Request", kind == 0 || kind == 2 ? type : "", body, kind == 0 || kind == 2 ? n : 0);
  if (kind == 3)
    gone(x);
  if (kind == 0)
    server_ok(x->r, data_string(type), data_construct(body, n));
  else if (kind == 1)
    server_not_found(x->r);
  else if (kind == 2)
    server_respond(x->r, data_string("299 Odd"), data_string(type), data_construct(body, n));
  else
    server_bad_request(x->r);
  if (kind == 3 && !was)
    expect(!k[x->fd].open, "the connection is open after a bad request");
}
static void release_owed(conn *x)
{
  x->owed = 0;
  x->abandoned = 1;
  note("abandon(%d) ", x->fd);
  server_release(x->r);
}
static void release_held(conn *x)
{
  x->held--;
  note("release(%d) ", x->fd);
  server_release(x->r);
}
static void hold(conn *x)
{
  x->held++;
  note("hold(%d) ", x->fd);
  server_hold(x->r);
}
static void closing(conn *x)
{
  note("close(%d) ", x->fd);
  gone(x);
  server_close(x->r);
  expect(!k[x->fd].open, "server_close leaves the socket open");
}
static void shut(void)
{
  note("shutdown ");
  for (int i = 0; i < N; i++)
    if (c[i] && c[i]->opened)
      gone(c[i]);
  up = 0;
  server_shutdown(srv);
  for (int i = 0; i < N; i++)
    if (c[i] && c[i]->opened)
      expect(!k[c[i]->fd].open, "shutdown leaves connection %d open", c[i]->fd);
  expect(!k[listenfd].open, "shutdown leaves the listening socket open");
}
static conn *handed_now;
static int eq(data d, const char *s) { return data_size(d) == strlen(s) && !memcmp(data_base(d), s, strlen(s)); }
static void cb(reactor_event *ev)
{
  server_request *r = (server_request *) ev->data;
  conn *x = 0;
  int i;
  expect(ev->state == srv && ev->type == SERVER_REQUEST, "a request is announced differently");
  for (int j = 0; j < N; j++)
    if (c[j] && !c[j]->closed && c[j]->handed < c[j]->nreq && (!c[j]->r || c[j]->r == r) && eq(r->target, c[j]->target[c[j]->handed]) && (!x || c[j]->r))
      x = c[j];
  expect(x, "a request is handed out that was not sent next on any connection: %.*s", (int) data_size(r->target), (char *) data_base(r->target));
  i = x->handed;
  note("request(%d,%d) ", x->fd, i);
  x->r = r;
  expect(!x->owed && !x->abandoned, "a request is handed out before the previous one was answered");
  expect(i < complete(x), "a request is handed out that is not complete or malformed");
  expect(eq(r->method, x->method[i]) && eq(r->target, x->target[i]) && r->fields_count == (size_t) x->nf[i], "the request handed out is not the one received");
  for (int j = 0; j < x->nf[i]; j++)
    expect(eq(r->fields[j].name, x->fn[i][j]) && eq(r->fields[j].value, x->fv[i][j]), "field %d of the request is wrong", j);
  x->handed++;
  x->owed = 1;
  act_handler(x);
}
static void act_handler(conn *x)
{
  switch (below(10))
    {
    default: respond(x, below(3)); break;
    case 0: respond(x, 3); break;
    case 1: case 2: case 3: break;
    case 4:
      closing(x);
      if (chance(2)) respond(x, below(4)); else if (chance(2)) release_owed(x);
      break;
    case 5:
      hold(x);
      respond(x, below(3));
      if (chance(2)) release_held(x);
      break;
    case 6:
      if (chance(4)) release_owed(x); else respond(x, 0);
      break;
    case 7:
      if (chance(6))
        {
          shut();
          if (chance(2)) respond(x, below(4));
        }
      else
        respond(x, 2);
      break;
    }
}
static int newfd(int conn)
{
  int fd = nextfd++;
  memset(&k[fd], 0, sizeof k[fd]);
  k[fd].open = 1;
  k[fd].conn = conn;
  k[fd].room = chance(2) ? 100000 : below(300);
  return fd;
}
int __wrap_accept4(int fd, void *a, void *n, int flags)
{
  int i;
  (void) a; (void) n;
  expect(fd == listenfd && k[fd].open, "accept on descriptor %d", fd);
  expect(flags & SOCK_NONBLOCK, "connections may block");
  if (!pending)
    {
      errno = EAGAIN;
      return -1;
    }
  pending--;
  for (i = 0; i < N && c[i]; i++)
    ;
  c[i] = calloc(1, sizeof **c);
  script(c[i]);
  c[i]->opened = 1;
  note("accept ");
  return c[i]->fd = newfd(i);
}
static void settle(const char *what)
{
  (void) what;
  for (int i = 0; i < N; i++)
    {
      conn *x = c[i];
      if (!x || !x->opened)
        continue;
      check_output(x, 0);
      if (x->closed)
        expect(!k[x->fd].open, "connection %d is still open", x->fd);
      else
        {
          expect(k[x->fd].open, "connection %d was closed", x->fd);
          if (!x->owed && !x->abandoned)
            expect(x->handed == complete(x), "%d of %d complete requests were handed out", x->handed, complete(x));
          if (k[x->fd].room > 0)
            expect(x->outn == x->wantn, "answers are not sent although the socket takes them");
        }
    }
}
static void loop(void)
{
  /* expectations of what this round will do */
  for (int i = 0; i < 8; i++)
    {
      for (int j = 0; j < N; j++)
        if (c[j] && c[j]->opened && !c[j]->closed && k[c[j]->fd].hup)
          c[j]->closed = 2;
      reactor_loop_once();
      /* a malformed request that was reached was answered and the connection closed */
      for (int j = 0; j < N; j++)
        {
          conn *x = c[j];
          if (x && x->opened && !x->closed && x->badreq >= 0 && x->handed == x->badreq && !x->owed && !x->abandoned && !k[x->fd].open)
            {
              want(x, "400 Bad Request", "", "", 0);
              gone(x);
            }
        }
    }
}
static void late_bad(conn *x)
{
  if (!x->closed && x->badreq >= 0 && x->handed == x->badreq && !x->owed && !x->abandoned && !k[x->fd].open)
    {
      want(x, "400 Bad Request", "", "", 0);
      gone(x);
    }
}
static void one(void)
{
  long base;
  static server s;
  reactor_construct();
  base = drv_live;
  memset(c, 0, sizeof c);
  nextfd = 100;
  listenfd = newfd(-1);
  srv = &s;
  pending = 0;
  up = 1;
  server_construct(srv, cb, srv);
  server_open(srv, listenfd, NULL);
  expect(k[listenfd].reg, "the server does not listen");
  for (int t = 2 + below(30); t > 0; t--)
    {
      conn *x = c[below(N)];
      int op = below(12);
      if (op == 0 || !x)
        {
          int used = 0;
          for (int i = 0; i < N; i++)
            used += c[i] != 0;
          if (up && used + pending < N)
            {
              pending += chance(2) && used + pending + 2 <= N ? 2 : 1;
              k[listenfd].edge = 1;
              note("arrive%d ", pending);
              loop();
              expect(!pending, "%d connections were not accepted", pending);
            }
        }
      else if (op < 5)
        {
          size_t n = x->insize - x->inrcvd;
          if (!x->closed && n)
            {
              size_t d = chance(3) ? n : 1 + below(n);
              x->inrcvd += d;
              k[x->fd].inn += d;
              k[x->fd].edge = 1;
              note("input(%d,%zu) ", x->fd, d);
              loop();
            }
        }
      else if (op == 5)
        {
          if (!x->closed)
            {
              k[x->fd].room = chance(3) ? 1 + below(200) : 100000;
              k[x->fd].edge = 1;
              note("room(%d,%zu) ", x->fd, k[x->fd].room);
              loop();
            }
        }
      else if (op == 6)
        {
          if (!x->closed && chance(3))
            {
              k[x->fd].hup = k[x->fd].dead = 1;
              k[x->fd].edge = 1;
              note("peer(%d) ", x->fd);
              loop();
            }
        }
      else if (op < 10)
        {
          if (x->owed)
            {
              if (chance(8))
                release_owed(x);
              else
                respond(x, chance(6) ? 3 : below(3));
              late_bad(x);
            }
        }
      else if (op == 10)
        {
          if (x->held && chance(2))
            release_held(x);
          else if (x->owed && chance(3))
            hold(x);
          else if ((x->owed || x->held) && chance(4))
            closing(x);
        }
      else if (chance(12))
        shut();
      settle("step");
    }
  /* everything pending gets through */
  for (int i = 0; i < N; i++)
    if (c[i] && c[i]->opened && !c[i]->closed)
      {
        k[c[i]->fd].room = 100000;
        k[c[i]->fd].edge = 1;
      }
  note("drain ");
  loop();
  settle("drain");
  if (chance(2))
    shut();
  note("destruct ");
  for (int i = 0; i < N; i++)
    if (c[i] && c[i]->opened)
      gone(c[i]);
  server_destruct(srv);
  expect(!k[listenfd].open, "the listening socket is still open");
  for (int i = 0; i < N; i++)
    if (c[i])
      {
        conn *x = c[i];
        expect(!k[x->fd].open, "connection %d is still open", x->fd);
        if (x->owed)
          respond(x, below(4));
        while (x->held)
          release_held(x);
        check_output(x, 0);
        free(x->in);
        free(x->out);
        free(x->want);
        free(x);
      }
  expect(drv_live == base, "%ld allocations were not released once", drv_live - base);
  reactor_destruct();
}
int main(int argc, char **argv) { return drv_main(argc, argv, one); }
