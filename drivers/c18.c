#include "drv.h"
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <reactor.h>

/* fake kernel: registrations are recorded, reports are made up */
#define N 12
#define MAXFD 4096
static struct { int open, reg; uint32_t ev; void *ptr; } k[MAXFD];
int __real_epoll_ctl(int, int, int, struct epoll_event *);
int __real_close(int);
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev)
{
  (void) ep;
  expect(fd >= 0 && fd < MAXFD && k[fd].open, "epoll_ctl on descriptor %d, which is not open", fd);
  if (op == EPOLL_CTL_DEL)
    {
      expect(k[fd].reg, "removal of an unregistered descriptor");
      k[fd].reg = 0;
      return 0;
    }
  expect(k[fd].reg == (op == EPOLL_CTL_MOD), "registration out of order");
  k[fd].reg = 1;
  k[fd].ev = ev->events;
  k[fd].ptr = ev->data.ptr;
  return 0;
}
int __wrap_close(int fd)
{
  if (fd >= 0 && fd < 100)
    return __real_close(fd);
  expect(fd >= 0 && fd < MAXFD && k[fd].open, "close of descriptor %d, which is not open", fd);
  expect(!k[fd].reg, "closed while registered");
  k[fd].open = 0;
  return 0;
}

typedef struct { descriptor d; int id, fd, mask, open; } obj;
static obj *o[N];
static int nextfd;
static struct { int id, serial; uint32_t m; } batch[N];
static int nb, serial[N];
/* expected notifications: id, type, in order */
static struct { int id, serial, type; } want[3 * N];
static int nw, iw;

int __wrap_epoll_wait(int ep, struct epoll_event *ev, int max, int timeout)
{
  (void) ep; (void) max; (void) timeout;
  nw = iw = 0;
  int n = 0;
  for (int i = 0; i < nb; i++)
    {
      int id = batch[i].id;
      ev[n].events = batch[i].m;
      ev[n++].data.ptr = k[o[id]->fd].ptr;
      int t[3] = {!!(batch[i].m & EPOLLIN), !!(batch[i].m & EPOLLOUT), !!(batch[i].m & ~(EPOLLIN | EPOLLOUT))};
      int ty[3] = {DESCRIPTOR_READ, DESCRIPTOR_WRITE, DESCRIPTOR_CLOSE};
      for (int j = 0; j < 3; j++)
        if (t[j])
          {
            want[nw].id = id;
            want[nw].serial = serial[id];
            want[nw++].type = ty[j];
          }
    }
  return n;
}
static void verify(obj *p)
{
  uint32_t strip = EPOLLHUP | EPOLLERR;
  if (!p->open)
    return;
  expect(descriptor_is_open(&p->d) && descriptor_fd(&p->d) == p->fd, "descriptor state");
  expect(k[p->fd].open && k[p->fd].reg, "an open descriptor is not registered");
  uint32_t w = EPOLLRDHUP | (p->mask & DESCRIPTOR_READ ? EPOLLIN : 0) | (p->mask & DESCRIPTOR_WRITE ? EPOLLOUT : 0) | (p->mask & DESCRIPTOR_LEVEL ? 0 : EPOLLET);
  expect((k[p->fd].ev & ~strip) == w, "watched for %x, expected %x", k[p->fd].ev & ~strip, w);
}
static void callback(reactor_event *);
static void make(int i)
{
  o[i] = malloc(sizeof *o[i]);
  o[i]->id = i;
  o[i]->open = 0;
  serial[i]++;
  descriptor_construct(&o[i]->d, callback, o[i]);
  expect(!descriptor_is_open(&o[i]->d), "open after construct");
}
static void act(int i)
{
  obj *p = o[i];
  switch (below(7))
    {
    case 0: case 1:
      if (p->open)
        break;
      p->fd = nextfd++;
      k[p->fd].open = 1;
      k[p->fd].reg = 0;
      p->mask = below(8);
      note("open(%d,%d) ", i, p->mask);
      descriptor_open(&p->d, p->fd, p->mask);
      p->open = 1;
      serial[i]++;
      break;
    case 2: case 3:
      if (!p->open)
        break;
      p->mask = below(8);
      note("mask(%d,%d) ", i, p->mask);
      descriptor_mask(&p->d, p->mask);
      break;
    case 4:
      note("close(%d) ", i);
      descriptor_close(&p->d);
      if (p->open)
        expect(!k[p->fd].open, "not closed");
      expect(!descriptor_is_open(&p->d), "open after close");
      serial[i]++;
      p->open = 0;
      break;
    case 5:
      note("free(%d) ", i);
      descriptor_destruct(&p->d);
      if (p->open)
        expect(!k[p->fd].open, "not closed");
      free(p);
      make(i);
      break;
    }
}
static void callback(reactor_event *e)
{
  obj *p = e->state;
  int id = p->id;
  note("<%d:%d> ", id, e->type);
  while (iw < nw && want[iw].serial != serial[want[iw].id])
    iw++;
  expect(iw < nw && want[iw].id == id && want[iw].type == e->type, "descriptor %d is notified %d out of order, after closing, or without a report", id, e->type);
  expect(e->data == 0, "data");
  iw++;
  for (int c = below(3); c > 0; c--)
    act(chance(2) ? id : (int) below(N));
}
static void one(void)
{
  reactor_construct();
  nextfd = 100;
  for (int i = 0; i < N; i++)
    make(i);
  for (int s = 0; s < 40; s++)
    {
      act(below(N));
      for (int i = 0; i < N; i++)
        verify(o[i]);
      if (chance(4))
        {
          nb = 0;
          for (int i = 0, j = below(N); i < N; i++, j = (j + 1) % N)
            if (o[j]->open && chance(2))
              {
                batch[nb].id = j;
                batch[nb++].m = chance(2) ? 1 + below(31) : (uint32_t[]) {EPOLLIN, EPOLLOUT, EPOLLIN | EPOLLOUT, EPOLLHUP, EPOLLIN | EPOLLRDHUP, EPOLLERR}[below(6)];
              }
          note("| ");
          reactor_loop_once();
          while (iw < nw && want[iw].serial != serial[want[iw].id])
            iw++;
          expect(iw == nw, "a reported condition is not notified");
        }
      for (int i = 0; i < N; i++)
        verify(o[i]);
    }
  for (int i = 0; i < N; i++)
    {
      int open = o[i]->open, fd = o[i]->fd;
      descriptor_destruct(&o[i]->d);
      if (open)
        expect(!k[fd].open && !k[fd].reg, "destruct leaves the descriptor open");
      free(o[i]);
    }
  for (int i = 0; i < MAXFD; i++)
    k[i].open = k[i].reg = 0;
  reactor_loop();
  reactor_destruct();
}
int main(int argc, char **argv) { return drv_main(argc, argv, one); }
