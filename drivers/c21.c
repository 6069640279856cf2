#define DRV_ALLOC
#include "drv.h"
#include <sys/epoll.h>
#include <sys/inotify.h>
#include <sys/eventfd.h>
#include <reactor.h>

/* fake inotify: an eventfd for readiness, made-up records */
#define N 2
#define MAXFD 1024
#define W 64
typedef struct { int wd; uint32_t mask, cookie, len; char name[260]; } record;
static struct { int open, efd, reg, nextwd; void *ptr; record q[16], in[512]; int nq, nin, at; int opens; } k[MAXFD];
typedef struct { notify n; int id, gen, fd; int wd[W]; char path[W][24]; int nw; } obj;
static obj *o[N];
static int nextfd, gens, mine, failnow;
static obj *by_fd(int fd)
{
  for (int i = 0; i < N; i++)
    if (o[i] && o[i]->fd == fd)
      return o[i];
  return 0;
}
int __real_close(int);
ssize_t __real_read(int, void *, size_t);
int __real_epoll_ctl(int, int, int, struct epoll_event *);

int __wrap_inotify_init1(int flags)
{
  expect(flags & IN_NONBLOCK, "blocking");
  expect(nextfd < MAXFD, "driver");
  memset(&k[nextfd], 0, sizeof k[nextfd]);
  k[nextfd].open = 1;
  k[nextfd].nextwd = 1;
  k[nextfd].efd = eventfd(0, EFD_NONBLOCK);
  expect(mine >= 0 && o[mine]->fd == -1, "a second inotify descriptor");
  o[mine]->fd = nextfd;
  return nextfd++;
}
static const char *asked_path;
static uint32_t asked_mask;
static int asked, answer;
int __wrap_inotify_add_watch(int fd, const char *path, uint32_t mask)
{
  expect(fd >= 100 && fd < MAXFD && k[fd].open && mine >= 0 && o[mine]->fd == fd, "watch on descriptor %d", fd);
  expect(!strcmp(path, asked_path) && mask == asked_mask, "watch asked for");
  asked++;
  if (failnow)
    {
      errno = ENOENT;
      return answer = -1;
    }
  return answer = chance(4) && k[fd].nextwd > 1 ? 1 + (int) below(k[fd].nextwd - 1) : k[fd].nextwd++;
}
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev)
{
  if (fd < 100)
    return __real_epoll_ctl(ep, op, fd, ev);
  expect(fd < MAXFD && k[fd].open, "epoll_ctl on a descriptor that is not open");
  k[fd].reg = op != EPOLL_CTL_DEL;
  if (ev)
    expect(ev->events & EPOLLIN, "not waiting for notifications");
  return __real_epoll_ctl(ep, op, k[fd].efd, ev);
}
int __real_epoll_wait(int, struct epoll_event *, int, int);
int __wrap_epoll_wait(int ep, struct epoll_event *ev, int max, int timeout) { (void) timeout; return __real_epoll_wait(ep, ev, max, 0); }
int __wrap_close(int fd)
{
  if (fd >= 0 && fd < 100)
    return __real_close(fd);
  expect(fd >= 0 && fd < MAXFD && k[fd].open, "close of descriptor %d, which is not open", fd);
  k[fd].open = 0;
  __real_close(k[fd].efd);
  return 0;
}
static int first(obj *p, int wd)
{
  for (int i = 0; i < p->nw; i++)
    if (p->wd[i] == wd)
      return i;
  return -1;
}
static void settled(int fd)
{
  obj *p = by_fd(fd);
  for (; k[fd].at < k[fd].nin; k[fd].at++)
    expect(!p || first(p, k[fd].in[k[fd].at].wd) < 0, "record %d of watch %d was not delivered", k[fd].at, k[fd].in[k[fd].at].wd);
}
ssize_t __wrap_read(int fd, void *p, size_t n)
{
  uint64_t x;
  size_t used = 0;
  if (fd >= 0 && fd < 100)
    return __real_read(fd, p, n);
  expect(fd < MAXFD && k[fd].open, "read of a closed descriptor");
  settled(fd);
  if (!k[fd].nq)
    {
      if (__real_read(k[fd].efd, &x, 8)) {}
      errno = EAGAIN;
      return -1;
    }
  k[fd].nin = k[fd].at = 0;
  expect(n >= sizeof(struct inotify_event) + 256, "no room for a record");
  while (k[fd].nq && used + sizeof(struct inotify_event) + k[fd].q[0].len <= n && !(used && chance(5)))
    {
      record *r = &k[fd].q[0];
      struct inotify_event e = {.wd = r->wd, .mask = r->mask, .cookie = r->cookie, .len = r->len};
      memcpy((char *) p + used, &e, sizeof e);
      memcpy((char *) p + used + sizeof e, r->name, r->len);
      used += sizeof e + r->len;
      k[fd].in[k[fd].nin++] = *r;
      memmove(r, r + 1, sizeof *r * --k[fd].nq);
    }
  return used;
}
static void change(int fd)
{
  uint64_t x = 1;
  if (k[fd].nq == 16)
    return;
  record *r = &k[fd].q[k[fd].nq++];
  memset(r, 0, sizeof *r);
  r->wd = chance(8) ? -1 : chance(10) ? k[fd].nextwd + 3 : 1 + (int) below(k[fd].nextwd);
  r->mask = (uint32_t) rnd();
  r->cookie = (uint32_t) rnd();
  if (chance(2))
    {
      int l = 1 + (int) below(chance(3) ? 255 : 20);
      for (int i = 0; i < l; i++)
        r->name[i] = (char) (1 + below(255));
      r->len = (l + 16) / 16 * 16;
    }
  note("record(fd %d, wd %d, len %u) ", fd, r->wd, r->len);
  if (write(k[fd].efd, &x, 8)) {}
}
static void callback(reactor_event *);
static void make(int i)
{
  o[i] = calloc(1, sizeof *o[i]);
  o[i]->id = i;
  o[i]->gen = ++gens;
  o[i]->fd = -1;
  notify_construct(&o[i]->n, callback, o[i]);
}
static void dropped(obj *p)
{
  if (p->fd != -1)
    expect(!k[p->fd].open && !k[p->fd].reg, "descriptor left");
  p->fd = -1;
  p->nw = 0;
}
/* nonzero if the object was cleared or destroyed */
static int act(int i)
{
  obj *p = o[i];
  char path[24];
  int r;
  switch (below(10))
    {
    default:
      if (p->nw == W)
        return 0;
      snprintf(path, sizeof path, "p%d", (int) below(8));
      asked_path = path;
      asked_mask = (uint32_t) rnd();
      asked = 0;
      mine = i;
      failnow = chance(5);
      r = notify_watch(&p->n, path, asked_mask);
      note("watch(%d, %s)=%d ", i, path, r);
      mine = -1;
      expect(asked == 1 && r == answer, "watch result");
      if (r >= 0)
        {
          p->wd[p->nw] = r;
          strcpy(p->path[p->nw++], path);
        }
      memset(path, 'x', sizeof path - 1);
      return 0;
    case 7:
      if (!chance(2))
        return 0;
      note("clear(%d) ", i);
      notify_clear(&p->n);
      dropped(p);
      return 1;
    case 8:
      if (!chance(3))
        return 0;
      note("destruct(%d) ", i);
      notify_destruct(&p->n);
      dropped(p);
      free(p);
      make(i);
      return 1;
    }
}
static int quiet;
static void callback(reactor_event *e)
{
  obj *p = e->state;
  notify_event *v = (notify_event *) e->data;
  int fd = p->fd, w = -1;
  expect(e->type == NOTIFY_EVENT, "type");
  expect(fd != -1, "delivery without watches");
  for (; k[fd].at < k[fd].nin && w < 0; k[fd].at++)
    w = first(p, k[fd].in[k[fd].at].wd);
  expect(w >= 0, "delivery of something never read");
  record *r = &k[fd].in[k[fd].at - 1];
  note("<%d: %d %s> ", p->id, v->id, v->path);
  expect(v->id == r->wd && v->mask == r->mask, "id %d mask %x, read %d %x", v->id, v->mask, r->wd, r->mask);
  expect(!strcmp(v->path, p->path[w]), "path %s, not %s", v->path, p->path[w]);
  expect(!strcmp(v->name, r->name), "name");
  for (int c = quiet ? 0 : below(3); c > 0; c--)
    {
      int i = chance(3) ? (int) below(N) : p->id, s = i == p->id;
      if (act(i) && s)
        return;
    }
}
static void one(void)
{
  long live = drv_live;
  quiet = 0;
  mine = -1;
  reactor_construct();
  nextfd = 100;
  for (int i = 0; i < N; i++)
    make(i);
  for (int s = 0; s < 60; s++)
    {
      if (chance(2))
        act(below(N));
      for (int c = below(6); c > 0; c--)
        {
          int i = below(N);
          if (o[i]->fd != -1)
            change(o[i]->fd);
        }
      if (chance(3))
        {
          note("| ");
          reactor_loop_once();
          for (int i = 0; i < N; i++)
            if (o[i]->fd != -1)
              {
                settled(o[i]->fd);
                k[o[i]->fd].nin = k[o[i]->fd].at = 0;
              }
        }
    }
  quiet = 1;
  for (int i = 0; i < N; i++)
    {
      for (int s = 0; s < 50 && o[i]->fd != -1 && k[o[i]->fd].nq; s++)
        reactor_loop_once();
      expect(o[i]->fd == -1 || !k[o[i]->fd].nq, "notifications left unread");
      notify_destruct(&o[i]->n);
      dropped(o[i]);
      free(o[i]);
      o[i] = 0;
    }
  reactor_loop();
  reactor_destruct();
  expect(drv_live == live, "%ld blocks leaked", drv_live - live);
}
int main(int argc, char **argv) { return drv_main(argc, argv, one); }
