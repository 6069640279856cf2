#include "drv.h"
#include <sys/epoll.h>
#include <dirent.h>
#include <reactor.h>

/* real eventfd and epoll */
#define N 5
int __real_epoll_wait(int, struct epoll_event *, int, int);
int __wrap_epoll_wait(int ep, struct epoll_event *ev, int max, int timeout) { (void) timeout; return __real_epoll_wait(ep, ev, max, 0); }
typedef struct { event v; int id, open; uint64_t sent, got; } obj;
static obj *o[N];
static int files(void)
{
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  while (readdir(d))
    n++;
  closedir(d);
  return n;
}
static void callback(reactor_event *);
static void make(int i)
{
  o[i] = calloc(1, sizeof *o[i]);
  o[i]->id = i;
  event_construct(&o[i]->v, callback, o[i]);
}
static void act(int i)
{
  obj *p = o[i];
  switch (below(10))
    {
    case 0: case 1:
      if (p->open)
        break;
      note("open(%d) ", i);
      event_open(&p->v);
      p->open = 1;
      p->sent = p->got = 0;
      break;
    default:
      if (!p->open)
        break;
      note("signal(%d) ", i);
      p->sent++;
      event_signal(&p->v);
      break;
    case 7:
      if (!chance(3))
        break;
      note("close(%d) ", i);
      event_close(&p->v);
      p->open = 0;
      break;
    case 8:
      if (!chance(3))
        break;
      note("destruct(%d) ", i);
      event_destruct(&p->v);
      free(p);
      make(i);
      break;
    }
  expect(!!event_is_open(&o[i]->v) == o[i]->open, "open state");
}
static void callback(reactor_event *e)
{
  obj *p = e->state;
  int i = p->id;
  note("<%d:%llu> ", i, (long long unsigned) e->data);
  expect(e->type == EVENT_SIGNAL, "type");
  expect(p->open, "delivery to a closed event");
  expect(e->data > 0 && p->got + e->data <= p->sent, "signals invented: %llu of %llu", (long long unsigned) (p->got + e->data), (long long unsigned) p->sent);
  p->got += e->data;
  for (int c = below(3); c > 0; c--)
    act(chance(2) ? i : (int) below(N));
}
static void one(void)
{
  static int base;
  reactor_construct();
  if (!base)
    base = files();
  for (int i = 0; i < N; i++)
    make(i);
  for (int s = 0; s < 60; s++)
    {
      act(below(N));
      if (chance(6))
        {
          note("| ");
          reactor_loop_once();
        }
    }
  for (int q = 0, idle = 0; q < 300 && idle < 2; q++)
    {
      idle++;
      for (int i = 0; i < N; i++)
        if (o[i]->open && o[i]->got != o[i]->sent)
          idle = 0;
      reactor_loop_once();
    }
  for (int i = 0; i < N; i++)
    {
      expect(!o[i]->open || o[i]->got == o[i]->sent, "event %d: %llu of %llu signals delivered", i, (long long unsigned) o[i]->got, (long long unsigned) o[i]->sent);
      event_destruct(&o[i]->v);
      free(o[i]);
    }
  expect(files() == base, "descriptors leaked: %d", files() - base);
  reactor_loop();
  reactor_destruct();
}
int main(int argc, char **argv) { return drv_main(argc, argv, one); }
