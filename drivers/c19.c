#include "drv.h"
#include <sys/epoll.h>
#include <sys/timerfd.h>
#include <sys/eventfd.h>
#include <reactor.h>

/* fake timers: arming is recorded, expirations are made up */
#define N 6
#define MAXFD 4096
static struct { int open, reg, used; void *ptr; uint64_t value, interval, pend[8]; int np, armed; } k[MAXFD];
int __real_close(int);
ssize_t __real_read(int, void *, size_t);
static int nextfd, created, settings;

int __wrap_timerfd_create(int clock, int flags)
{
  (void) clock;
  expect(flags & TFD_NONBLOCK, "blocking timer");
  created++;
  k[nextfd].open = 1;
  k[nextfd].reg = k[nextfd].np = k[nextfd].armed = 0;
  return nextfd++;
}
int __wrap_timerfd_settime(int fd, int flags, const struct itimerspec *n, struct itimerspec *o)
{
  (void) o;
  expect(fd >= 100 && fd < MAXFD && k[fd].open, "settime on a descriptor that is not open");
  expect(flags == 0, "absolute");
  expect(n->it_value.tv_nsec >= 0 && n->it_value.tv_nsec < 1000000000 && n->it_interval.tv_nsec >= 0 && n->it_interval.tv_nsec < 1000000000, "nanoseconds");
  k[fd].value = (uint64_t) n->it_value.tv_sec * 1000000000ull + n->it_value.tv_nsec;
  k[fd].interval = (uint64_t) n->it_interval.tv_sec * 1000000000ull + n->it_interval.tv_nsec;
  k[fd].np = 0;
  settings++;
  return 0;
}
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev)
{
  (void) ep;
  expect(fd >= 100 && fd < MAXFD && k[fd].open, "epoll_ctl on a descriptor that is not open");
  k[fd].reg = op != EPOLL_CTL_DEL;
  if (ev)
    {
      k[fd].ptr = ev->data.ptr;
      expect(ev->events & EPOLLIN, "not watched for expirations");
    }
  return 0;
}
int __wrap_close(int fd)
{
  if (fd >= 0 && fd < 100)
    return __real_close(fd);
  expect(fd >= 0 && fd < MAXFD && k[fd].open, "close of descriptor %d, which is not open", fd);
  k[fd].open = 0;
  return 0;
}
ssize_t __wrap_read(int fd, void *p, size_t n)
{
  if (fd >= 0 && fd < 100)
    return __real_read(fd, p, n);
  expect(fd < MAXFD && k[fd].open, "read of a closed descriptor");
  expect(n >= 8, "short read");
  if (!k[fd].np)
    {
      errno = EAGAIN;
      return -1;
    }
  memcpy(p, &k[fd].pend[0], 8);
  memmove(k[fd].pend, k[fd].pend + 1, --k[fd].np * 8);
  return 8;
}
typedef struct { timer t; int id, fd; } obj;
static obj *o[N];
static uint64_t due[N];
static int batch[N], nb;
int __wrap_epoll_wait(int ep, struct epoll_event *ev, int max, int timeout)
{
  (void) ep; (void) max; (void) timeout;
  for (int i = 0; i < nb; i++)
    {
      ev[i].events = EPOLLIN;
      ev[i].data.ptr = k[o[batch[i]]->fd].ptr;
    }
  return nb;
}
static void callback(reactor_event *);
static void make(int i)
{
  o[i] = malloc(sizeof *o[i]);
  o[i]->id = i;
  o[i]->fd = -1;
  due[i] = 0;
  timer_construct(&o[i]->t, callback, o[i]);
}
static uint64_t ns(void) { return chance(4) ? 0 : chance(3) ? rnd() : chance(2) ? below(3000000000u) : 1000000000ull * below(100) + below(2); }
static void act(int i)
{
  obj *p = o[i];
  uint64_t a, b;
  int c, s;
  switch (below(6))
    {
    case 0: case 1: case 2:
      a = ns();
      b = ns();
      note("set(%d,%llu,%llu) ", i, (long long unsigned) a, (long long unsigned) b);
      c = created;
      s = settings;
      timer_set(&p->t, a, b);
      expect(created - c == (p->fd == -1), "descriptor not reused or not created");
      if (p->fd == -1)
        p->fd = nextfd - 1;
      expect(settings == s + 1, "armed %d times", settings - s);
      expect(k[p->fd].value == (a ? a : 1), "delay %llu for %llu", (long long unsigned) k[p->fd].value, (long long unsigned) a);
      expect(k[p->fd].interval == b, "interval %llu for %llu", (long long unsigned) k[p->fd].interval, (long long unsigned) b);
      expect(k[p->fd].reg, "not registered");
      due[i] = 0;
      break;
    case 3:
      note("clear(%d) ", i);
      timer_clear(&p->t);
      if (p->fd >= 0)
        expect(!k[p->fd].open && !k[p->fd].reg, "clear leaves the descriptor");
      p->fd = -1;
      due[i] = 0;
      break;
    case 4:
      note("destruct(%d) ", i);
      timer_destruct(&p->t);
      if (p->fd >= 0)
        expect(!k[p->fd].open && !k[p->fd].reg, "destruct leaves the descriptor");
      free(p);
      make(i);
      break;
    }
}
static void callback(reactor_event *e)
{
  obj *p = e->state;
  int i = p->id;
  note("<%d:%llu> ", i, (long long unsigned) e->data);
  expect(e->type == TIMER_EXPIRATION, "type");
  expect(due[i] && e->data == due[i], "timer %d delivers %llu, expected %llu", i, (long long unsigned) e->data, (long long unsigned) due[i]);
  due[i] = 0;
  for (int c = below(3); c > 0; c--)
    act(chance(2) ? i : (int) below(N));
}
static void one(void)
{
  reactor_construct();
  nextfd = 100;
  for (int i = 0; i < N; i++)
    make(i);
  for (int s = 0; s < 40; s++)
    {
      act(below(N));
      if (chance(3))
        {
          nb = 0;
          for (int j = 0; j < N; j++)
            if (o[j]->fd >= 0 && chance(2))
              {
                due[j] = 0;
                k[o[j]->fd].np = below(3);
                for (int q = 0; q < k[o[j]->fd].np; q++)
                  due[j] += k[o[j]->fd].pend[q] = 1 + (chance(2) ? 0 : rnd() >> 3);
                batch[nb++] = j;
              }
          reactor_loop_once();
          for (int j = 0; j < N; j++)
            expect(!due[j], "expirations of timer %d are lost", j);
        }
    }
  for (int i = 0; i < N; i++)
    {
      int fd = o[i]->fd;
      timer_destruct(&o[i]->t);
      expect(fd < 0 || !k[fd].open, "destruct leaves the descriptor open");
      free(o[i]);
    }
  reactor_loop();
  reactor_destruct();
}
int main(int argc, char **argv) { return drv_main(argc, argv, one); }
