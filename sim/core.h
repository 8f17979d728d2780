// Deterministic simulation engine: PRNG, traces, run context, world registry.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace sim
{
inline uint64_t mix64(uint64_t x)
{
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
inline uint64_t hashStr(const char * s)
{
  uint64_t h = 1469598103934665603ull;
  for(; *s; ++s)
    h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ull;
  return h;
}

/** The one PRNG of a run (splitmix64). */
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix64(seed ^ 0xD1B54A32D192ED03ull)) {}
  uint64_t next()
  {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  /** in [0,n) */
  int64_t below(int64_t n) { return n <= 1 ? 0 : static_cast<int64_t>(next() % static_cast<uint64_t>(n)); }
  int64_t range(int64_t lo, int64_t hi) { return lo + below(hi - lo + 1); }
  bool chance(int pct) { return below(100) < pct; }
  int64_t big() { return static_cast<int64_t>(next() >> 34); }
};

/** One scheduled step: which actor acts, what it does, with which arguments. Faults are steps or arguments. */
struct Op
{
  int kind = 0;
  int actor = 0;
  std::vector<int64_t> a;
  int64_t arg(size_t i) const { return i < a.size() ? a[i] : 0; }
};

struct Trace
{
  std::string prop;
  std::string world;
  uint64_t seed = 0;
  std::map<std::string, int64_t> cfg;
  std::vector<Op> ops;
  int64_t c(const char * k, int64_t def = 0) const
  {
    auto it = cfg.find(k);
    return it == cfg.end() ? def : it->second;
  }
};

struct Violation
{
  std::string cls; // stable class (what oracle failed)
  std::string msg; // details
};

enum
{
  MAXC = 96,
  MAXSIG = 2048
};
/** Result of a run, in memory shared with the parent. */
struct Shared
{
  int status; // 0 running, 1 ok, 2 violation, 3 harness error
  int opIndex;
  int nameCount;
  char cls[128];
  char msg[2048];
  uint64_t hash;
  double simTime;
  uint64_t opsRun;
  char cname[MAXC][40];
  uint64_t cval[MAXC];
  int nsig;
  uint64_t sigs[MAXSIG];
  char sample[4096];
  int sampleLen;
};

struct Ctx
{
  Shared * sh = nullptr;
  bool verbose = false;
  uint64_t hash = 1469598103934665603ull;

  void mixRaw(const void * p, size_t n)
  {
    const unsigned char * c = static_cast<const unsigned char *>(p);
    for(size_t i = 0; i < n; ++i)
      hash = (hash ^ c[i]) * 1099511628211ull;
  }
  void log(const char * what, int64_t v = 0)
  {
    mixRaw(what, strlen(what));
    mixRaw(&v, sizeof v);
    if(verbose)
      printf("    log %s %lld\n", what, static_cast<long long>(v));
  }
  void logd(const char * what, double v)
  {
    mixRaw(what, strlen(what));
    mixRaw(&v, sizeof v);
    if(verbose)
      printf("    log %s %.17g\n", what, v);
  }
  void count(const char * name, uint64_t by = 1)
  {
    for(int i = 0; i < sh->nameCount; ++i)
      if(strcmp(sh->cname[i], name) == 0)
      {
        sh->cval[i] += by;
        return;
      }
    if(sh->nameCount < MAXC)
    {
      strncpy(sh->cname[sh->nameCount], name, 39);
      sh->cval[sh->nameCount++] = by;
    }
  }
  void sig(uint64_t s)
  {
    s = mix64(s);
    for(int i = 0; i < sh->nsig; ++i)
      if(sh->sigs[i] == s)
        return;
    if(sh->nsig < MAXSIG)
      sh->sigs[sh->nsig++] = s;
  }
  void note(const std::string & s)
  {
    if(verbose)
      printf("    %s\n", s.c_str());
  }
  [[noreturn]] void fail(const std::string & cls, const std::string & msg) { throw Violation{cls, msg}; }
  void check(bool ok, const char * cls, const std::string & msg = "")
  {
    if(!ok)
      fail(cls, msg);
  }
};

struct World
{
  const char * name;
  /** generates the plan (configuration, schedule, faults) of a run from the PRNG only */
  void (*generate)(Rng &, Trace &, bool thorough);
  /** executes the plan against the real code */
  void (*execute)(const Trace &, Ctx &);
  std::vector<const char *> kinds;
  /** what runs for real / as a stub in this world, and what its measures mean (for the evidence file) */
  const char * real = "";
  const char * stub = "";
  const char * rule = "";
  const char * measure = "";
};
struct HarnessError
{
  std::string msg;
};
std::vector<World> & worlds();
struct WorldReg
{
  WorldReg(World w) { worlds().push_back(std::move(w)); }
};
const World & worldByName(const std::string & n);
/** property -> worlds, and number of runs of each tier */
struct PropSpec
{
  const char * prop;
  const char * world;
  int quickRuns;
  int thoroughRuns;
};
std::vector<PropSpec> & props();
struct PropReg
{
  PropReg(PropSpec p) { props().push_back(p); }
};

// ---- simulated allocator (the heap is a seam: placement, reuse and failures are decided by the seed)
namespace heap
{
void begin(int policy, uint64_t seed); // start serving from the simulated heap
void end();
/** allocation number n (1-based) from now fails; 0 = off. */
void failAt(int64_t n);
int64_t sinceArm(); // allocations since failAt was armed
bool fired();
struct NoFault
{ // harness sections: no failure is injected
  NoFault();
  ~NoFault();
  static int enter();
  static void leave();
};
/** Count of live simulated-heap blocks / bytes. */
int64_t liveBlocks();
int64_t allocCount(); // total number of allocations served
int64_t eigenAllocCount(); // allocations made through malloc (Eigen matrices)
} // namespace heap

std::string fmt(const char * f, ...) __attribute__((format(printf, 1, 2)));
} // namespace sim
