// Link-time seams: character conversion and locking calls of the C library.
#include "core.h"
#include "seams.h"
#include <iconv.h>
#include <pthread.h>
#include <cerrno>

namespace sim {
int64_t g_iconv_fail = -1;
int64_t g_iconv_calls = 0;
}
using namespace sim;

extern "C" {
iconv_t __real_iconv_open(const char*, const char*);
size_t __real_iconv(iconv_t, char**, size_t*, char**, size_t*);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_once(pthread_once_t*, void (*)(void));

iconv_t __wrap_iconv_open(const char* to, const char* from) {
  yield_point(2);
  if (t_in_lib && !t_in_seam) {
    if (g_iconv_calls++ == g_iconv_fail) { fault_fired("iconv-open"); errno = ENOMEM; return (iconv_t)-1; }
  }
  Seam s;
  return __real_iconv_open(to, from);
}
size_t __wrap_iconv(iconv_t c, char** i, size_t* il, char** o, size_t* ol) {
  yield_point(2);
  if (t_in_lib && !t_in_seam) {
    if (g_iconv_calls++ == g_iconv_fail) { fault_fired("iconv"); errno = EINVAL; return (size_t)-1; }
  }
  Seam s;
  return __real_iconv(c, i, il, o, ol);
}
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
void __real___cxa_guard_abort(uint64_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);

// A task never blocks in the kernel while it holds the token: it yields instead.
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!in_task()) return __real_pthread_mutex_lock(m);
  yield_point(2);
  for (;;) { int e = pthread_mutex_trylock(m); if (e != EBUSY) return e; task_blocked(); }
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!in_task()) return __real_pthread_rwlock_rdlock(m);
  yield_point(2);
  for (;;) { int e = pthread_rwlock_tryrdlock(m); if (e != EBUSY) return e; task_blocked(); }
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!in_task()) return __real_pthread_rwlock_wrlock(m);
  yield_point(2);
  for (;;) { int e = pthread_rwlock_trywrlock(m); if (e != EBUSY) return e; task_blocked(); }
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) {
  yield_point(2);
  task_atomic(1);
  int e = __real_pthread_once(o, f);
  task_atomic(-1);
  return e;
}
// Function-local statics: an initialiser may be preempted, others then wait for it.
int __wrap___cxa_guard_acquire(uint64_t* g) {
  if (!in_task()) return __real___cxa_guard_acquire(g);
  unsigned char* b = (unsigned char*)g;
  for (;;) {
    if (b[0]) return 0;
    if (!b[1]) { b[1] = 1; return 1; }
    task_blocked();
  }
}
void __wrap___cxa_guard_release(uint64_t* g) {
  if (!in_task()) return __real___cxa_guard_release(g);
  unsigned char* b = (unsigned char*)g;
  b[1] = 0;
  b[0] = 1;
}
void __wrap___cxa_guard_abort(uint64_t* g) {
  if (!in_task()) return __real___cxa_guard_abort(g);
  ((unsigned char*)g)[1] = 0;
}
}
