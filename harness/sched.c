/* Preloaded into the interpreter: random delays where worker threads start,
 * lock, unlock and end, and where the main thread starts a worker, so that one
 * run sees many schedules.  Seeded with VERIF_SCHED. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdatomic.h>
#include <stdlib.h>
#include <time.h>

static _Atomic unsigned counter;
static unsigned seed0;
static __thread unsigned rs;
static __thread int worker;

__attribute__((constructor)) static void init(void) {
  const char *s = getenv("VERIF_SCHED");
  seed0 = s ? (unsigned)atoi(s) : 0;
}
static unsigned rnd(void) {
  if (!rs) rs = (atomic_fetch_add(&counter, 1) + 1) * 2654435761u ^ (seed0 * 40503u + 1);
  rs ^= rs << 13; rs ^= rs >> 17; rs ^= rs << 5;
  return rs;
}
static void delay(void) {
  if (!seed0) return;
  unsigned r = rnd() % 16;
  if (r > 7) return;
  struct timespec t = {0, r < 6 ? 1000 * (rnd() % 60) : 1000 * (rnd() % 600)};
  nanosleep(&t, 0);
}
typedef struct { void *(*f)(void *); void *a; } start_t;
static void *begin(void *p) {
  start_t s = *(start_t *)p;
  free(p);
  worker = 1;
  delay();
  void *r = s.f(s.a);
  delay();
  return r;
}
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a) {
  static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
  start_t *s = malloc(sizeof *s);
  s->f = f; s->a = a;
  int rc = real(t, at, begin, s);
  if (seed0 && rnd() % 8 == 0) delay();
  return rc;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  static int (*real)(pthread_mutex_t *);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_mutex_lock");
  if (worker) delay();
  return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  static int (*real)(pthread_mutex_t *);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  int rc = real(m);
  if (worker) delay();
  return rc;
}
