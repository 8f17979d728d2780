#include "core.h"
#include <cstdlib>
#include <new>
#include <sys/mman.h>
#if defined(SIM_ASAN)
extern "C" void __asan_poison_memory_region(void const volatile *, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t);
#  define POISON(p, n) __asan_poison_memory_region(p, n)
#  define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#  define POISON(p, n) ((void)0)
#  define UNPOISON(p, n) ((void)0)
#endif
extern "C" void * __real_malloc(size_t);
extern "C" void __real_free(void *);
extern "C" void * __real_realloc(void *, size_t);
extern "C" void * __real_calloc(size_t, size_t);

namespace
{
constexpr size_t ARENA = 1ull << 31;
char * const BASE = reinterpret_cast<char *>(0x200000000000ull);
bool mapped = false, active = false;
int policy = 0;
uint64_t rs = 1;
size_t lo = 0, hi = ARENA;
constexpr size_t HDR = 32, RZ = 32;
constexpr int NCL = 64;
struct Hdr
{
  uint64_t size;
  uint64_t total;
  uint64_t magic;
  uint64_t next;
};
constexpr uint64_t LIVE = 0x11FE11FE11FE11FEull, DEAD = 0xDEADDEADDEADDEADull;
// free chunks per size class (class = total/64), only kept for reusing policies
struct FreeList
{
  uint32_t n = 0;
  uint64_t off[256];
};
FreeList fl[NCL];
int64_t nAlloc = 0, nEigen = 0, nLive = 0;
int64_t failCount = 0, armed = 0, seen = 0;
bool hasFired = false;
int noFault = 0;

uint64_t rnd()
{
  rs += 0x9E3779B97F4A7C15ull;
  uint64_t z = rs;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
void die(const char * m)
{
  fprintf(stderr, "SIMHEAP: %s\n", m);
  abort();
}
char * carve(size_t total)
{
  if(lo + total > hi)
    die("simulated heap exhausted");
  if(policy == 2)
  {
    hi -= total;
    return BASE + hi;
  }
  char * p = BASE + lo;
  lo += total;
  return p;
}
// Eigen 3.4 is not exception safe when it resizes a matrix: it frees the old block, then allocates the new one,
// and keeps the pointer to the old one if this throws. This is a fault of Eigen, not of the code under test: a
// failure that would hit a malloc directly following a free is postponed to the next allocation.
bool justFreed = false;
// What fresh memory contains: read as doubles, either tiny numbers or NaN
int fillByte = 0xA5;
void * simAlloc(size_t size, bool canFail, bool isMalloc)
{
  ++nAlloc;
  const bool afterFree = justFreed && isMalloc;
  justFreed = false;
  if(canFail && noFault == 0 && armed)
  {
    ++seen;
    if(seen == armed && afterFree)
      ++armed;
    else if(seen == armed)
    {
      hasFired = true;
      armed = 0;
      return nullptr;
    }
  }
  size_t total = (HDR + size + RZ + 63) / 64 * 64;
  size_t cl = total / 64;
  char * c = nullptr;
  if(cl < NCL && policy != 0 && policy != 2 && fl[cl].n > 0)
  {
    uint32_t k = policy == 1 ? fl[cl].n - 1 : static_cast<uint32_t>(rnd() % fl[cl].n);
    c = BASE + fl[cl].off[k];
    fl[cl].off[k] = fl[cl].off[--fl[cl].n];
  }
  if(!c && policy == 3 && cl < NCL)
  { // scrambled placement: carve a batch and hand one out at random
    for(int i = 0; i < 8; ++i)
      fl[cl].off[fl[cl].n++] = static_cast<uint64_t>(carve(total) - BASE);
    uint32_t k = static_cast<uint32_t>(rnd() % fl[cl].n);
    c = BASE + fl[cl].off[k];
    fl[cl].off[k] = fl[cl].off[--fl[cl].n];
  }
  if(!c)
    c = carve(total);
  UNPOISON(c, total);
  Hdr * h = reinterpret_cast<Hdr *>(c);
  h->size = size;
  h->total = total;
  h->magic = LIVE;
  char * p = c + HDR;
  memset(p, fillByte, size); // fresh memory is never conveniently zero
  POISON(c, HDR);
  POISON(p + size, total - HDR - size);
  ++nLive;
  return p;
}
void simFree(void * v)
{
  char * p = static_cast<char *>(v);
  char * c = p - HDR;
  UNPOISON(c, HDR);
  Hdr * h = reinterpret_cast<Hdr *>(c);
  if(h->magic != LIVE)
    die(h->magic == DEAD ? "double free" : "free of a bad pointer");
  h->magic = DEAD;
  size_t total = h->total;
  memset(p, 0xDB, h->size);
  POISON(c, total);
  --nLive;
  justFreed = true;
  size_t cl = total / 64;
  if(cl < NCL && (policy == 1 || policy == 3) && fl[cl].n < 240)
    fl[cl].off[fl[cl].n++] = static_cast<uint64_t>(c - BASE);
}
bool inArena(void * p) { return p >= static_cast<void *>(BASE) && p < static_cast<void *>(BASE + ARENA); }
size_t sizeOf(void * p)
{
  Hdr * h = reinterpret_cast<Hdr *>(static_cast<char *>(p) - HDR);
  UNPOISON(h, HDR);
  size_t s = h->size;
  POISON(h, HDR);
  return s;
}
} // namespace

namespace sim::heap
{
void begin(int pol, uint64_t seed)
{
  if(!mapped)
  {
    void * r = mmap(BASE, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if(r != BASE)
      die("cannot map the simulated heap");
    mapped = true;
  }
  policy = pol;
  rs = seed;
  fillByte = (seed * 0x9E3779B97F4A7C15ull) >> 63 ? 0xFF : 0xA5;
  active = true;
}
void end() { active = false; }
void failAt(int64_t n)
{
  armed = n;
  if(n > 0)
  {
    seen = 0;
    hasFired = false;
  }
}
int64_t sinceArm() { return seen; }
bool fired() { return hasFired; }
NoFault::NoFault() { ++noFault; }
NoFault::~NoFault() { --noFault; }
int NoFault::enter() { return ++noFault; }
void NoFault::leave() { --noFault; }
int64_t liveBlocks() { return nLive; }
int64_t allocCount() { return nAlloc; }
int64_t eigenAllocCount() { return nEigen; }
} // namespace sim::heap

extern "C"
{
  int sim_trap = 0; // debugging aid: break on sim_trap_hit
  __attribute__((noinline)) void sim_trap_hit() { asm volatile(""); }
  void * __wrap_malloc(size_t n)
  {
    if(active)
    {
      ++nEigen;
      if(sim_trap)
        sim_trap_hit();
      return simAlloc(n, true, true);
    }
    return __real_malloc(n);
  }
  void * __wrap_calloc(size_t a, size_t b)
  {
    if(active)
    {
      ++nEigen;
      void * p = simAlloc(a * b, true, true);
      if(p)
        memset(p, 0, a * b);
      return p;
    }
    return __real_calloc(a, b);
  }
  void __wrap_free(void * p)
  {
    if(!p)
      return;
    if(inArena(p))
      simFree(p);
    else
      __real_free(p);
  }
  void * __wrap_realloc(void * p, size_t n)
  {
    if(!p)
      return __wrap_malloc(n);
    if(!inArena(p))
      return __real_realloc(p, n);
    void * q = simAlloc(n, true, true);
    if(!q)
      return nullptr;
    size_t o = sizeOf(p);
    memcpy(q, p, o < n ? o : n);
    simFree(p);
    return q;
  }
}
void * operator new(size_t n)
{
  void * p = active ? simAlloc(n, true, false) : __real_malloc(n ? n : 1);
  if(!p)
    throw std::bad_alloc();
  return p;
}
void * operator new[](size_t n) { return operator new(n); }
void * operator new(size_t n, const std::nothrow_t &) noexcept { return active ? simAlloc(n, true, false) : __real_malloc(n); }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { return active ? simAlloc(n, true, false) : __real_malloc(n); }
void operator delete(void * p) noexcept { __wrap_free(p); }
void operator delete[](void * p) noexcept { __wrap_free(p); }
void operator delete(void * p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void * p, size_t) noexcept { __wrap_free(p); }
void operator delete(void * p, const std::nothrow_t &) noexcept { __wrap_free(p); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { __wrap_free(p); }
