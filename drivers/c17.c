#include "drv.h"
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <reactor.h>

#define N 60
typedef struct { reactor_handler h; int id; char pad[40]; } obj;
static obj *o[N];
static int fd[N], reg[N];
static struct epoll_event batch[256];
static void *bptr[256];
static int dead[256], n, pos, aborted, waits, interrupted, mode, looping;
static size_t regs;

int __real_epoll_wait(int, struct epoll_event *, int, int);
int __wrap_epoll_wait(int ep, struct epoll_event *ev, int max, int timeout)
{
  waits++;
  n = pos = 0;
  interrupted = chance(10);
  if (interrupted)
    {
      errno = EINTR;
      return -1;
    }
  (void) timeout;
  expect(timeout == -1, "the loop does not sleep");
  n = __real_epoll_wait(ep, ev, max, 0);
  expect(n >= 0 && n <= 256, "epoll_wait");
  if (n == 0 && looping && waits > 50)
    {
      reactor_abort();
      aborted = 1;
    }
  memcpy(batch, ev, n * sizeof *ev);
  for (int i = 0; i < n; i++)
    {
      bptr[i] = ev[i].data.ptr;
      dead[i] = 0;
    }
  return n;
}
static void callback(reactor_event *e);
static void add(int i)
{
  o[i] = malloc(sizeof *o[i]);
  o[i]->id = i;
  reactor_handler_construct(&o[i]->h, callback, o[i]);
  fd[i] = eventfd(1, EFD_NONBLOCK);
  reactor_add(&o[i]->h, fd[i], EPOLLIN | (chance(2) ? EPOLLET : 0));
  reg[i] = 1;
  regs++;
}
static void del(int i)
{
  for (int k = 0; k < n; k++)
    if (bptr[k] == &o[i]->h)
      dead[k] = 1;
  reactor_delete(&o[i]->h, fd[i]);
  close(fd[i]);
  free(o[i]);
  o[i] = 0;
  reg[i] = 0;
  regs--;
}
static void callback(reactor_event *e)
{
  obj *p = e->state;
  int i = p->id;

  while (pos < n && dead[pos])
    pos++;
  expect(!interrupted, "delivery after an interrupted wait");
  expect(pos < n, "a handler is called beyond the batch");
  expect(bptr[pos] == &p->h, "handler %d is called out of order, twice, or after removal", i);
  expect(((struct epoll_event *) e->data)->events == batch[pos].events, "the event differs from the report");
  expect(e->type == REACTOR_EPOLL_EVENT, "type");
  pos++;
  for (int c = below(4); c > 0; c--)
    {
      int j = below(N);
      if (mode == 1 || chance(2))
        {
          if (reg[j])
            {
              note("del(%d) ", j);
              del(j);
            }
        }
      else if (!reg[j])
        add(j);
      else if (chance(2))
        {
          reactor_modify(&o[j]->h, fd[j], EPOLLIN | EPOLLOUT);
        }
    }
  if (mode == 2 && chance(100))
    {
      reactor_abort();
      aborted = 1;
    }
}
static void one(void)
{
  int want = below(N);
  reactor_construct();
  aborted = 0;
  regs = 0;
  mode = below(4);
  for (int i = 0; i < N; i++)
    reg[i] = 0;
  for (int i = 0; i < want; i++)
    add(i);
  note("%d handlers mode %d ", want, mode);
  if (mode < 3)
    {
      for (int s = 0; s < 30; s++)
        {
          note("| ");
          reactor_loop_once();
          while (pos < n && dead[pos])
            pos++;
          expect(pos == n, "%d reported events, only %d delivered", n, pos);
          n = 0;
          if (chance(3) && !reg[s])
            add(s);
        }
      for (int i = 0; i < N; i++)
        if (reg[i])
          del(i);
      waits = 0;
      reactor_loop();
      expect(waits == 0, "the loop runs with nothing registered");
    }
  else
    {
      mode = 1;
      waits = 0;
      looping = 1;
      reactor_loop();
      looping = 0;
      expect(aborted || regs == 0, "the loop returned with %zu descriptors registered", regs);
      expect(want == 0 || waits, "the loop did not run");
      n = 0;
      for (int i = 0; i < N; i++)
        if (reg[i])
          del(i);
      add(0);
      reactor_abort();
      waits = 0;
      reactor_loop();
      expect(waits == 0, "the loop runs after an abort");
      del(0);
    }
  reactor_destruct();
}
int main(int argc, char **argv) { return drv_main(argc, argv, one); }
