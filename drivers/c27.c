#define DRV_ALLOC
#include "drv.h"
#include <netdb.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <openssl/ssl.h>
#include <reactor.h>

/* every outcome of the calls, chosen at random */
static int made, type, is_open, bound, listening, connecting, freed, failed, passive, nfd, addrs;
static struct addrinfo *ai;
static struct sockaddr_storage ss;
int __real_close(int);
static int bad(int e) { failed = 1; errno = e; note("fails "); return -1; }
int __wrap_socket(int d, int t, int p)
{
  expect(d == ai->ai_family && (t & ~(SOCK_NONBLOCK | SOCK_CLOEXEC)) == ai->ai_socktype && p == ai->ai_protocol, "another kind of socket is made");
  expect(!made, "two sockets are made");
  note("socket ");
  made = 1;
  type = t;
  if (chance(3))
    {
      made = 2;
      return bad(EMFILE);
    }
  is_open = 1;
  nfd = 1000 + below(1000);
  return nfd;
}
int __wrap_setsockopt(int fd, int l, int o, const void *p, socklen_t n)
{
  (void) l; (void) o; (void) p; (void) n;
  if (fd == -1)
    return bad(EBADF);
  expect(is_open && fd == nfd, "setsockopt on descriptor %d", fd);
  return chance(4) ? bad(EINVAL) : 0;
}
static int use(int fd, const char *w)
{
  note("%s ", w);
  if (fd == -1 && made == 2)
    return 0;
  expect(is_open && fd == nfd, "%s on descriptor %d", w, fd);
  return 1;
}
static void given(const struct sockaddr *a, socklen_t n)
{
  expect(!freed && (void *) a == (void *) &ss && n == ai->ai_addrlen, "another address is used");
}
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n)
{
  given(a, n);
  if (!use(fd, "bind") || chance(3))
    return bad(EADDRINUSE);
  bound = 1;
  return 0;
}
int __wrap_listen(int fd, int n)
{
  if (!use(fd, "listen"))
    return bad(EBADF);
  expect(bound && n > 0, "listening on an unbound socket or for nobody");
  listening = 1;
  return 0;
}
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t n)
{
  given(a, n);
  if (!use(fd, "connect"))
    return bad(EBADF);
  connecting = 1;
  if (chance(3))
    return bad(ECONNREFUSED);
  errno = EINPROGRESS;
  return chance(2) ? 0 : -1;
}
int __wrap_close(int fd)
{
  if (fd >= 0 && fd < 1000)
    return __real_close(fd);
  expect(is_open && fd == nfd, "close of descriptor %d", fd);
  note("close ");
  is_open = 0;
  return 0;
}
static struct addrinfo *result;
static const char *whost, *wserv;
static int wfam, wtype, wflags, asked;
static struct addrinfo *mk(void)
{
  struct addrinfo *a = calloc(1, sizeof *a);
  addrs++;
  a->ai_addr = (struct sockaddr *) &ss;
  return a;
}
int __wrap_getaddrinfo(const char *h, const char *s, const struct addrinfo *hints, struct addrinfo **res)
{
  expect(h == whost && s == wserv && hints->ai_family == wfam && hints->ai_socktype == wtype && hints->ai_flags == wflags, "something else is resolved");
  expect(!hints->ai_protocol && !hints->ai_addrlen && !hints->ai_addr && !hints->ai_canonname && !hints->ai_next, "other hints are given");
  asked++;
  if (chance(2))
    return chance(2) ? EAI_NONAME : EAI_SYSTEM;
  *res = result = mk();
  return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *a)
{
  if (!a)
    return;
  expect(addrs == 1, "addresses are freed twice");
  addrs = 0;
  freed++;
  free(a);
}
static int sslmade, sslfreed, cert, key, tag;
static const char *certf = "c.pem", *keyf = "k.pem";
SSL_CTX *__wrap_SSL_CTX_new(const SSL_METHOD *m) { (void) m; expect(!sslmade, "two contexts"); sslmade = 1; return (SSL_CTX *) &tag; }
static void live(SSL_CTX *c) { expect((void *) c == (void *) &tag && sslmade && !sslfreed, "a context that does not exist is used"); }
void __wrap_SSL_CTX_free(SSL_CTX *c) { if (!c) return; live(c); sslfreed = 1; }
static int pick(int *v)
{
  if (chance(3))
    {
      failed = 1;
      return chance(2) ? 0 : -1;
    }
  *v = 1;
  return 1;
}
int __wrap_SSL_CTX_use_certificate_file(SSL_CTX *c, const char *f, int t)
{
  live(c);
  expect(f == certf && t == SSL_FILETYPE_PEM, "another certificate is used");
  if (key && chance(2))
    {
      key = 0;
      failed = 1;
    }
  return pick(&cert);
}
int __wrap_SSL_CTX_use_certificate_chain_file(SSL_CTX *c, const char *f) { return __wrap_SSL_CTX_use_certificate_file(c, f, SSL_FILETYPE_PEM); }
int __wrap_SSL_CTX_use_PrivateKey_file(SSL_CTX *c, const char *f, int t)
{
  live(c);
  expect(f == keyf && t == SSL_FILETYPE_PEM, "another key is used");
  return pick(&key);
}
static void one(void)
{
  int r;
  long base = drv_live;
  made = is_open = bound = listening = connecting = freed = failed = addrs = asked = sslmade = sslfreed = cert = key = 0;
  switch (below(3))
    {
    case 0:
      ai = mk();
      ai->ai_family = chance(2) ? AF_INET : AF_INET6;
      ai->ai_socktype = 1 + below(5);
      ai->ai_protocol = below(20);
      ai->ai_flags = below(1 << 10);
      ai->ai_addrlen = 16 + below(16);
      passive = ai->ai_flags & AI_PASSIVE;
      note("net_socket passive=%d ", passive);
      r = net_socket(ai);
      expect(freed == 1, "the addresses are not freed");
      expect(made, "no socket is made");
      if (r == -1)
        {
          expect(failed, "an error is reported though nothing failed");
          expect(!is_open, "the socket is left open on failure");
        }
      else
        {
          expect(is_open && r == nfd, "something other than the open socket is returned");
          expect(type & SOCK_NONBLOCK, "the socket blocks");
          expect(passive ? bound && listening && !connecting : connecting && !bound, "the socket is not set up");
        }
      expect(net_socket(0) == -1, "no address is accepted");
      break;
    case 1:
      whost = chance(2) ? "h" : 0;
      wserv = chance(2) ? "s" : 0;
      wfam = below(1 << 30); wtype = below(1 << 30); wflags = below(1 << 30);
      result = 0;
      note("net_resolve ");
      ai = net_resolve((char *) whost, (char *) wserv, wfam, wtype, wflags);
      expect(asked == 1 && ai == result, "the result of resolving is not returned");
      if (ai)
        {
          expect(addrs == 1, "the result is freed");
          free(ai);
        }
      break;
    case 2:
      note("net_ssl_server_context ");
      SSL_CTX *c = net_ssl_server_context((char *) certf, (char *) keyf);
      expect(sslmade, "no context is made");
      if (c)
        {
          live(c);
          expect(cert && key, "the context lacks the certificate or the key");
        }
      else
        {
          expect(sslfreed, "the context is not released");
          expect(failed, "nothing is returned though nothing failed");
        }
      break;
    }
  expect(drv_live == base, "memory is not released once");
}
int main(int argc, char **argv) { return drv_main(argc, argv, one); }
