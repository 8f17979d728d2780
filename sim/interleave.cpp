#include "interleave.h"
#include <cstdlib>
#include <cstring>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>

extern "C" char __data_start, _end;
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t *);
extern "C" int __real_pthread_mutex_trylock(pthread_mutex_t *);
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t *);
extern "C" int __real___cxa_guard_acquire(uint64_t *);
extern "C" void __real___cxa_guard_release(uint64_t *);
extern "C" void __real___cxa_guard_abort(uint64_t *);

namespace sim::sched
{
namespace
{
enum
{
  MAXT = 8
};
enum State
{
  READY,
  BLOCKED,
  DONE
};
struct Th
{
  sem_t sem;
  State st = READY;
  const void * on = nullptr;
  int64_t cnt[3] = {};
  int64_t spin = 0;
};
Th th[MAXT];
sem_t mainSem;
int n = 0, cur = -1;
bool active = false, dead = false;
Stats S;
std::vector<Preempt> plan;
size_t slice = 0;
int64_t left = 0;
const std::function<void(int)> * body = nullptr;
struct Owner
{
  const void * m;
  int t, depth;
};
Owner owners[64];
int nOwners = 0;
thread_local int self = -1;

void mix(uint64_t v) { S.hash = (S.hash ^ v) * 1099511628211ull; }
int next(int from)
{
  for(int k = 1; k <= n; ++k)
    if(th[(from + k) % n].st == READY)
      return (from + k) % n;
  return -1;
}
void to(int t)
{
  int me = self;
  if(t == me)
    return;
  ++S.switches;
  mix(static_cast<uint64_t>(t) * 1000003u + static_cast<uint64_t>(th[me].cnt[1]));
  cur = t;
  sem_post(&th[t].sem);
  if(th[me].st != DONE)
    while(sem_wait(&th[me].sem) != 0)
      ;
}
void stuck()
{ // nobody can run
  S.deadlock = true;
  dead = true;
  sem_post(&mainSem);
  for(;;)
    pause();
}
void point(int kind)
{
  if(!active || self < 0)
    return;
  Th & me = th[self];
  ++me.cnt[kind];
  (kind == 0 ? S.shared : S.accesses)++;
  int target = -1;
  if(slice < plan.size() && plan[slice].kind == kind && --left < 0)
  {
    target = plan[slice].target;
    if(++slice < plan.size())
      left = plan[slice].count;
  }
  if(kind == 0 && ++me.spin > 20000)
  { // somebody may be spinning on an atomic
    me.spin = 0;
    target = (self + 1) % n;
  }
  if(target < 0)
    return;
  target %= n;
  if(target == self || th[target].st != READY)
  {
    int x = next(self);
    target = x;
  }
  if(target >= 0 && target != self)
    to(target);
}
void block(const void * on)
{
  Th & me = th[self];
  me.st = BLOCKED;
  me.on = on;
  ++S.contended;
  int x = next(self);
  if(x < 0)
    stuck();
  to(x);
}
void wake(const void * on)
{
  for(int i = 0; i < n; ++i)
    if(th[i].st == BLOCKED && th[i].on == on)
      th[i].st = READY;
}
Owner * owner(const void * m)
{
  for(int i = 0; i < nOwners; ++i)
    if(owners[i].m == m)
      return &owners[i];
  return nullptr;
}
void own(const void * m)
{
  if(nOwners >= 64)
    abort();
  owners[nOwners++] = {m, self, 1};
}
void disown(Owner * o) { *o = owners[--nOwners]; }

void * entry(void * p)
{
  self = static_cast<int>(reinterpret_cast<intptr_t>(p));
  while(sem_wait(&th[self].sem) != 0)
    ;
  (*body)(self);
  th[self].st = DONE;
  if(dead)
    return nullptr;
  int x = next(self);
  if(x >= 0)
    to(x);
  else
  {
    for(int i = 0; i < n; ++i)
      if(th[i].st == BLOCKED)
        stuck();
    sem_post(&mainSem);
  }
  self = -1;
  return nullptr;
}
} // namespace

Stats run(int count, const std::function<void(int)> & b, const std::vector<Preempt> & p)
{
  S = Stats{};
  n = count;
  plan = p;
  slice = 0;
  left = plan.empty() ? 0 : plan[0].count;
  body = &b;
  dead = false;
  nOwners = 0;
  sem_init(&mainSem, 0, 0);
  pthread_t id[MAXT];
  for(int i = 0; i < n; ++i)
  {
    th[i] = Th{};
    sem_init(&th[i].sem, 0, 0);
  }
  active = true;
  for(int i = 0; i < n; ++i)
    if(pthread_create(&id[i], nullptr, entry, reinterpret_cast<void *>(static_cast<intptr_t>(i))) != 0)
      abort();
  cur = 0;
  sem_post(&th[0].sem);
  while(sem_wait(&mainSem) != 0)
    ;
  active = false;
  if(!dead)
    for(int i = 0; i < n; ++i)
      pthread_join(id[i], nullptr);
  return S;
}
void boundary() { point(2); }
void abandon()
{
  dead = true;
  sem_post(&mainSem);
  for(;;)
    pause();
}
} // namespace sim::sched

using namespace sim::sched;
extern "C"
{
int __wrap_pthread_mutex_lock(pthread_mutex_t * m)
{
  if(!active || self < 0)
    return __real_pthread_mutex_lock(m);
  point(0);
  for(;;)
  {
    Owner * o = owner(m);
    if(!o)
      break;
    if(o->t == self)
    {
      if((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)
      {
        ++o->depth;
        return 0;
      }
    }
    block(m);
  }
  own(m);
  point(0);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t * m)
{
  if(!active || self < 0)
    return __real_pthread_mutex_trylock(m);
  point(0);
  if(owner(m))
    return 16; // EBUSY
  own(m);
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t * m)
{
  if(!active || self < 0)
    return __real_pthread_mutex_unlock(m);
  Owner * o = owner(m);
  if(!o)
    return 1;
  if(--o->depth == 0)
  {
    disown(o);
    wake(m);
  }
  point(0);
  return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t * m)
{ return __wrap_pthread_mutex_lock(reinterpret_cast<pthread_mutex_t *>(m)); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t * m)
{ return __wrap_pthread_mutex_lock(reinterpret_cast<pthread_mutex_t *>(m)); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t * m)
{ return __wrap_pthread_mutex_unlock(reinterpret_cast<pthread_mutex_t *>(m)); }
int __wrap___cxa_guard_acquire(uint64_t * g)
{
  if(!active || self < 0)
    return __real___cxa_guard_acquire(g);
  point(0);
  for(;;)
  {
    if(*reinterpret_cast<char *>(g))
      return 0;
    if(!owner(g))
      break;
    block(g);
  }
  own(g);
  return 1;
}
void __wrap___cxa_guard_release(uint64_t * g)
{
  if(!active || self < 0)
    return __real___cxa_guard_release(g);
  *reinterpret_cast<char *>(g) = 1;
  if(Owner * o = owner(g))
    disown(o);
  wake(g);
  point(0);
}
void __wrap___cxa_guard_abort(uint64_t * g)
{
  if(!active || self < 0)
    return __real___cxa_guard_abort(g);
  if(Owner * o = owner(g))
    disown(o);
  wake(g);
}

// ---- the run-time interface of -fsanitize=thread instrumentation: every access is a yield point
static inline void acc(const void * p)
{
  if(!active)
    return;
  bool shared = static_cast<const char *>(p) >= &__data_start && static_cast<const char *>(p) < &_end;
  point(1);
  if(shared)
    point(0);
}
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void ** p, void *) { acc(p); }
void __tsan_vptr_read(void ** p) { acc(p); }
#define ACC(n)                                          \
  void __tsan_read##n(void * p) { acc(p); }             \
  void __tsan_write##n(void * p) { acc(p); }            \
  void __tsan_read_write##n(void * p) { acc(p); }       \
  void __tsan_unaligned_read##n(void * p) { acc(p); }   \
  void __tsan_unaligned_write##n(void * p) { acc(p); }  \
  void __tsan_unaligned_read_write##n(void * p) { acc(p); } \
  void __tsan_volatile_read##n(void * p) { acc(p); }    \
  void __tsan_volatile_write##n(void * p) { acc(p); }   \
  void __tsan_unaligned_volatile_read##n(void * p) { acc(p); } \
  void __tsan_unaligned_volatile_write##n(void * p) { acc(p); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void * p, unsigned long) { acc(p); }
void __tsan_write_range(void * p, unsigned long) { acc(p); }
void * __tsan_memcpy(void * d, const void * s, size_t k)
{
  acc(s);
  acc(d);
  return memcpy(d, s, k);
}
void * __tsan_memmove(void * d, const void * s, size_t k)
{
  acc(s);
  acc(d);
  return memmove(d, s, k);
}
void * __tsan_memset(void * d, int v, size_t k)
{
  acc(d);
  return memset(d, v, k);
}
#define ATOM(bits, T)                                                                                             \
  T __tsan_atomic##bits##_load(const volatile T * p, int) { point(0); return __atomic_load_n(p, 5); }             \
  void __tsan_atomic##bits##_store(volatile T * p, T v, int) { point(0); __atomic_store_n(p, v, 5); }             \
  T __tsan_atomic##bits##_exchange(volatile T * p, T v, int) { point(0); return __atomic_exchange_n(p, v, 5); }   \
  T __tsan_atomic##bits##_fetch_add(volatile T * p, T v, int) { point(0); return __atomic_fetch_add(p, v, 5); }   \
  T __tsan_atomic##bits##_fetch_sub(volatile T * p, T v, int) { point(0); return __atomic_fetch_sub(p, v, 5); }   \
  T __tsan_atomic##bits##_fetch_and(volatile T * p, T v, int) { point(0); return __atomic_fetch_and(p, v, 5); }   \
  T __tsan_atomic##bits##_fetch_or(volatile T * p, T v, int) { point(0); return __atomic_fetch_or(p, v, 5); }     \
  T __tsan_atomic##bits##_fetch_xor(volatile T * p, T v, int) { point(0); return __atomic_fetch_xor(p, v, 5); }   \
  T __tsan_atomic##bits##_fetch_nand(volatile T * p, T v, int) { point(0); return __atomic_fetch_nand(p, v, 5); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T * p, T * e, T v, int, int)                         \
  { point(0); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); }                                         \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T * p, T * e, T v, int, int)                           \
  { point(0); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); }                                         \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T * p, T e, T v, int, int)                                \
  { point(0); __atomic_compare_exchange_n(p, &e, v, false, 5, 5); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) { point(0); }
void __tsan_atomic_signal_fence(int) {}
}
