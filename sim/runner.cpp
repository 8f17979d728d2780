// Deterministic simulation runner: seeded search over schedules/faults, minimisation, replay, evidence.
#include "core.h"
#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__has_feature)
#  if __has_feature(address_sanitizer)
#    define SIM_ASAN 1
#  endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#  define SIM_ASAN 1
#endif

using namespace sim;
namespace sim
{
std::vector<World> & worlds()
{
  static std::vector<World> w;
  return w;
}
std::vector<PropSpec> & props()
{
  static std::vector<PropSpec> p;
  return p;
}
const World & worldByName(const std::string & n)
{
  for(const auto & w : worlds())
    if(n == w.name)
      return w;
  fprintf(stderr, "unknown world %s\n", n.c_str());
  _exit(2);
}
std::string fmt(const char * f, ...)
{
  char b[4096];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
} // namespace sim

namespace
{
Shared * cur = nullptr; // result block of the running child
bool verboseRun = false;

void record(const char * cls, const char * msg)
{
  if(!cur || cur->status == 2)
    return;
  strncpy(cur->cls, cls, sizeof cur->cls - 1);
  strncpy(cur->msg, msg, sizeof cur->msg - 1);
  cur->status = 2;
}
void onTerminate()
{
  std::string m = "std::terminate";
  if(auto e = std::current_exception())
  {
    try
    {
      std::rethrow_exception(e);
    }
    catch(const std::exception & x)
    {
      m += std::string(": ") + x.what();
    }
    catch(const Violation & v)
    {
      m += ": violation " + v.cls;
    }
    catch(...)
    {
    }
  }
  record("terminate", m.c_str());
  _exit(0);
}
void onSig(int s)
{
  char b[64];
  snprintf(b, sizeof b, s == SIGPROF ? "hang" : "crash:signal%d", s);
  record(b, "signal");
  _exit(0);
}
} // namespace

extern "C"
{
  void __assert_fail(const char * expr, const char * file, unsigned line, const char * fn) noexcept
  {
    const char * b = strrchr(file, '/');
    b = b ? b + 1 : file;
    char c[128], m[1024];
    snprintf(c, sizeof c, "assert:%s:%.60s", b, expr);
    snprintf(m, sizeof m, "assertion '%s' failed in %s (%s:%u)", expr, fn ? fn : "?", b, line);
    if(verboseRun)
      fprintf(stderr, "%s\n", m);
    if(getenv("SIM_ABORT"))
      abort();
    record(c, m);
    _exit(0);
  }
#ifdef SIM_ASAN
  const char * __asan_get_report_description();
  void * __asan_get_report_pc();
  void __asan_on_error()
  {
    char c[128];
    const char * d = __asan_get_report_description();
    if(getenv("SIM_PC")) // debugging aid: separate classes for separate places
      snprintf(c, sizeof c, "memory:%.60s@%p", d ? d : "?", __asan_get_report_pc());
    else
      snprintf(c, sizeof c, "memory:%.60s", d ? d : "?");
    record(c, d ? d : "?");
  }
  const char * __asan_default_options()
  {
    return "abort_on_error=0:exitcode=0:detect_leaks=0:handle_segv=1:detect_odr_violation=0:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:symbolize=0:alloc_dealloc_mismatch=0";
  }
#endif
}

namespace
{
Shared * newShared()
{
  void * p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if(p == MAP_FAILED)
  {
    perror("mmap");
    _exit(2);
  }
  return static_cast<Shared *>(p);
}
void resetShared(Shared * s)
{
  s->status = 0;
  s->opIndex = -1;
  s->nameCount = 0;
  memset(s->cls, 0, sizeof s->cls);
  memset(s->msg, 0, sizeof s->msg);
  s->hash = 0;
  s->simTime = 0;
  s->opsRun = 0;
  memset(s->cname, 0, sizeof s->cname);
  memset(s->cval, 0, sizeof s->cval);
  s->nsig = 0;
  s->sampleLen = 0;
  s->sample[0] = 0;
}

void runHere(const Trace & t, Shared * sh, bool verbose)
{
  Ctx ctx;
  ctx.sh = sh;
  ctx.verbose = verbose;
  const World & w = worldByName(t.world);
  try
  {
    w.execute(t, ctx);
    sh->hash = ctx.hash;
    if(sh->status == 0)
      sh->status = 1;
  }
  catch(const Violation & v)
  {
    record(v.cls.c_str(), v.msg.c_str());
    ctx.log(v.cls.c_str());
    sh->hash = ctx.hash;
  }
  catch(const HarnessError & e)
  {
    strncpy(sh->msg, e.msg.c_str(), sizeof sh->msg - 1);
    sh->status = 3;
  }
  catch(const std::exception & e)
  {
    record("unexpected-exception", e.what());
    ctx.log(e.what());
    sh->hash = ctx.hash;
  }
}

int devnull = -1;
/** One simulated run in a forked child: the run starts from the very same process state each time. */
void runForked(const Trace & t, Shared * sh, bool verbose = false)
{
  resetShared(sh);
  fflush(stdout);
  pid_t p = fork();
  if(p < 0)
  {
    perror("fork");
    _exit(2);
  }
  if(p == 0)
  {
    cur = sh;
    verboseRun = verbose;
    if(!verbose)
    {
      dup2(devnull, 1);
      dup2(devnull, 2);
    }
    std::set_terminate(onTerminate);
    struct itimerval tv = {{0, 0}, {20, 0}};
    signal(SIGPROF, onSig);
    setitimer(ITIMER_PROF, &tv, nullptr);
    signal(SIGABRT, onSig);
    signal(SIGFPE, onSig);
    runHere(t, sh, verbose);
    fflush(stdout);
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if(sh->status == 0)
  {
    snprintf(sh->cls, sizeof sh->cls, WIFSIGNALED(st) ? "crash:signal%d" : "crash:exit%d",
             WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    strcpy(sh->msg, "the simulated process died");
    sh->status = 2;
  }
  if(sh->status == 2 && sh->hash == 0)
  { // died without closing the log: identify the run by where and how
    uint64_t h = hashStr(sh->cls);
    h = mix64(h ^ static_cast<uint64_t>(sh->opIndex));
    sh->hash = h;
  }
}

uint64_t seedOf(uint64_t base, const std::string & prop, uint64_t idx)
{ return mix64(mix64(base * 0x9E3779B97F4A7C15ull + hashStr(prop.c_str())) + idx) >> 1; }

Trace makeTrace(const PropSpec & ps, uint64_t seed, bool thorough)
{
  Trace t;
  t.prop = ps.prop;
  t.world = ps.world;
  t.seed = seed;
  Rng r(seed);
  worldByName(ps.world).generate(r, t, thorough);
  return t;
}
std::string writeTrace(const Trace & t, const Shared * sh)
{
  const World & w = worldByName(t.world);
  std::ostringstream o;
  o << "tvm-sim-replay 1\nproperty " << t.prop << "\nworld " << t.world << "\nseed " << t.seed << "\n";
  if(sh)
  {
    o << "class " << sh->cls << "\nhash " << sh->hash << "\n";
    std::string m = sh->msg;
    std::replace(m.begin(), m.end(), '\n', ' ');
    o << "message " << m << "\n";
  }
  for(const auto & c : t.cfg)
    o << "cfg " << c.first << " " << c.second << "\n";
  for(const auto & p : t.ops)
  {
    o << "op " << w.kinds[static_cast<size_t>(p.kind)] << " " << p.actor;
    for(auto a : p.a)
      o << " " << a;
    o << "\n";
  }
  return o.str();
}
bool readTrace(const std::string & file, Trace & t, std::string & cls, uint64_t & hash)
{
  std::ifstream f(file);
  std::string line;
  if(!std::getline(f, line) || line != "tvm-sim-replay 1")
    return false;
  while(std::getline(f, line))
  {
    std::istringstream s(line);
    std::string k;
    s >> k;
    if(k == "property")
      s >> t.prop;
    else if(k == "world")
      s >> t.world;
    else if(k == "seed")
      s >> t.seed;
    else if(k == "class")
      cls = line.size() > 6 ? line.substr(6) : "";
    else if(k == "hash")
      s >> hash;
    else if(k == "cfg")
    {
      std::string n;
      int64_t v;
      s >> n >> v;
      t.cfg[n] = v;
    }
    else if(k == "op")
    {
      std::string n;
      Op o;
      s >> n >> o.actor;
      const auto & ks = worldByName(t.world).kinds;
      bool found = false;
      for(size_t i = 0; i < ks.size(); ++i)
        if(n == ks[i])
        {
          o.kind = static_cast<int>(i);
          found = true;
        }
      if(!found)
        return false;
      int64_t v;
      while(s >> v)
        o.a.push_back(v);
      t.ops.push_back(o);
    }
  }
  return true;
}

double now()
{
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

struct Agg
{
  uint64_t runs = 0, opsRun = 0, violations = 0, errors = 0;
  double simTime = 0;
  std::map<std::string, uint64_t> counters;
  std::set<uint64_t> sigs, runHashes;
  std::vector<std::string> samples;
  std::string errMsg;
  int64_t bestIdx = -1;
};
void absorb(Agg & a, const Shared * s)
{
  ++a.runs;
  a.opsRun += s->opsRun;
  a.simTime += s->simTime;
  bool nontrivial = false;
  for(int i = 0; i < s->nameCount; ++i)
  {
    a.counters[s->cname[i]] += s->cval[i];
    if(strcmp(s->cname[i], "nontrivial") == 0)
      nontrivial = true;
  }
  for(int i = 0; i < s->nsig; ++i)
    a.sigs.insert(s->sigs[i]);
  if(nontrivial)
    a.runHashes.insert(s->hash);
}

bool sameViolation(const Shared * a, const std::string & cls) { return a->status == 2 && cls == a->cls; }

/** delta-debugging over the schedule, then over arguments and configuration */
Trace minimise(Trace t, const std::string & cls, Shared * sh, double budget, int & tried)
{
  double t0 = now();
  tried = 0;
  auto fails = [&](const Trace & c) {
    if(now() - t0 > budget)
      return false;
    ++tried;
    runForked(c, sh);
    return sameViolation(sh, cls);
  };
  size_t n = 2;
  while(t.ops.size() >= 1 && now() - t0 < budget)
  {
    bool reduced = false;
    size_t chunk = std::max<size_t>(1, t.ops.size() / n);
    for(size_t s = 0; s < t.ops.size(); s += chunk)
    {
      Trace c = t;
      c.ops.erase(c.ops.begin() + static_cast<long>(s),
                  c.ops.begin() + static_cast<long>(std::min(s + chunk, c.ops.size())));
      if(fails(c))
      {
        t = c;
        reduced = true;
        break;
      }
    }
    if(reduced)
      n = std::max<size_t>(2, n - 1);
    else if(chunk == 1)
      break;
    else
      n = std::min(t.ops.size(), n * 2);
  }
  for(auto it = t.cfg.begin(); it != t.cfg.end(); ++it)
    if(it->second != 0)
    {
      Trace c = t;
      c.cfg[it->first] = 0;
      if(fails(c))
        t.cfg[it->first] = 0;
    }
  for(size_t i = 0; i < t.ops.size(); ++i)
    for(size_t k = 0; k < t.ops[i].a.size(); ++k)
      for(int64_t v : {int64_t(0), int64_t(1), t.ops[i].a[k] % 16})
      {
        if(t.ops[i].a[k] == v || t.ops[i].a[k] == 0)
          continue;
        Trace c = t;
        c.ops[i].a[k] = v;
        if(fails(c))
        {
          t = c;
          break;
        }
      }
  return t;
}

std::string jsonStr(const std::string & s)
{
  std::string o = "\"";
  for(char c : s)
  {
    if(c == '"' || c == '\\')
      o += '\\', o += c;
    else if(c == '\n')
      o += "\\n";
    else if(static_cast<unsigned char>(c) < 32)
      o += ' ';
    else
      o += c;
  }
  return o + "\"";
}

std::string selfPath()
{
  char b[4096];
  ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
  b[n > 0 ? n : 0] = 0;
  return b;
}
/** replays the file in a fresh process; 1: violation reproduced with the same class and hash */
int freshReplay(const std::string & file)
{
  fflush(stdout);
  pid_t p = fork();
  if(p == 0)
  {
    dup2(devnull, 1);
    dup2(devnull, 2);
    execl(selfPath().c_str(), "sim", "replay", file.c_str(), static_cast<char *>(nullptr));
    _exit(99);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 98;
}

void batch(const PropSpec & ps, uint64_t base, uint64_t runs, int workers, double cap, bool thorough, Agg & total,
           const char * hashFile = nullptr)
{
  auto * best = static_cast<volatile int64_t *>(
      mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  *best = INT64_MAX;
  struct W
  {
    pid_t pid;
    int fd;
  };
  std::vector<W> ws;
  double t0 = now();
  fflush(stdout);
  for(int w = 0; w < workers; ++w)
  {
    int fd[2];
    if(pipe(fd) != 0)
      _exit(2);
    pid_t p = fork();
    if(p == 0)
    {
      close(fd[0]);
      Shared * sh = newShared();
      Agg a;
      std::ostringstream hashes;
      for(uint64_t i = static_cast<uint64_t>(w); i < runs; i += static_cast<uint64_t>(workers))
      {
        if(now() - t0 > cap || static_cast<int64_t>(i) > *best)
          break;
        Trace t = makeTrace(ps, seedOf(base, ps.prop, i), thorough);
        runForked(t, sh);
        absorb(a, sh);
        if(hashFile)
          hashes << i << " " << sh->hash << " " << sh->status << " " << sh->cls << "\n";
        if(sh->status == 3)
        {
          ++a.errors;
          a.errMsg = fmt("run %llu seed %llu: %s", static_cast<unsigned long long>(i),
                         static_cast<unsigned long long>(t.seed), sh->msg);
        }
        if(sh->status == 2)
        {
          ++a.violations;
          if(!hashFile)
          {
            int64_t b = *best;
            while(static_cast<int64_t>(i) < b
                  && !__sync_bool_compare_and_swap(best, b, static_cast<int64_t>(i)))
              b = *best;
          }
        }
        if(sh->sampleLen && a.samples.size() < 2 && i < 40)
          a.samples.push_back(std::string(sh->sample));
      }
      std::ostringstream o;
      o << a.runs << " " << a.opsRun << " " << a.violations << " " << a.errors << " " << a.simTime << "\n";
      o << a.counters.size() << "\n";
      for(auto & c : a.counters)
        o << c.first << " " << c.second << "\n";
      o << a.sigs.size() << "\n";
      for(auto s : a.sigs)
        o << s << " ";
      o << "\n" << a.runHashes.size() << "\n";
      for(auto s : a.runHashes)
        o << s << " ";
      o << "\n" << a.samples.size() << "\n";
      for(auto & s : a.samples)
      {
        std::string q = s;
        std::replace(q.begin(), q.end(), '\n', '\x01');
        o << q << "\n";
      }
      o << (a.errMsg.empty() ? "-" : a.errMsg) << "\n" << hashes.str();
      std::string s = o.str();
      size_t off = 0;
      while(off < s.size())
      {
        ssize_t k = write(fd[1], s.data() + off, s.size() - off);
        if(k <= 0)
          break;
        off += static_cast<size_t>(k);
      }
      _exit(0);
    }
    close(fd[1]);
    ws.push_back({p, fd[0]});
  }
  std::map<uint64_t, std::string> hashLines;
  for(auto & w : ws)
  {
    std::string s;
    char b[65536];
    ssize_t k;
    while((k = read(w.fd, b, sizeof b)) > 0)
      s.append(b, static_cast<size_t>(k));
    close(w.fd);
    int st;
    waitpid(w.pid, &st, 0);
    if(!WIFEXITED(st) || s.empty())
    {
      total.errors++;
      total.errMsg = "a worker died";
      continue;
    }
    std::istringstream i(s);
    uint64_t r, o, v, e;
    double t;
    i >> r >> o >> v >> e >> t;
    total.runs += r;
    total.opsRun += o;
    total.violations += v;
    total.errors += e;
    total.simTime += t;
    size_t n;
    i >> n;
    while(n--)
    {
      std::string c;
      uint64_t x;
      i >> c >> x;
      total.counters[c] += x;
    }
    i >> n;
    while(n--)
    {
      uint64_t x;
      i >> x;
      total.sigs.insert(x);
    }
    i >> n;
    while(n--)
    {
      uint64_t x;
      i >> x;
      total.runHashes.insert(x);
    }
    i >> n;
    std::string line;
    std::getline(i, line);
    while(n--)
    {
      std::getline(i, line);
      std::replace(line.begin(), line.end(), '\x01', '\n');
      total.samples.push_back(line);
    }
    std::getline(i, line);
    if(line != "-" && total.errMsg.empty())
      total.errMsg = line;
    while(std::getline(i, line))
      hashLines[strtoull(line.c_str(), nullptr, 10)] = line;
  }
  if(hashFile)
  {
    std::ofstream f(hashFile);
    for(auto & l : hashLines)
      f << l.second << "\n";
  }
  total.bestIdx = *best == INT64_MAX ? -1 : *best;
}

int cmdCheck(const std::string & prop)
{
  double t0 = now();
  uint64_t base = 1;
  if(const char * s = getenv("VERIF_SEED"))
    base = strtoull(s, nullptr, 10);
  std::string tier = "quick";
  if(const char * s = getenv("VERIF_TIER"))
    tier = s;
  bool thorough = tier == "thorough";
  tier = thorough ? "thorough" : "quick";
  int workers = 8;
  if(const char * s = getenv("SIM_WORKERS"))
    workers = atoi(s);
  double cap = thorough ? 600 : 240;
  if(const char * s = getenv("SIM_CAP"))
    cap = atof(s);
  double scale = 1;
  if(const char * s = getenv("SIM_SCALE"))
    scale = atof(s);
  std::string outdir = getenv("SIM_OUT") ? getenv("SIM_OUT") : "out";
  std::string root = getenv("SIM_ROOT") ? getenv("SIM_ROOT") : ".";
  mkdir(outdir.c_str(), 0755);
  printf("seed VERIF_SEED=%llu property=%s tier=%s\n", static_cast<unsigned long long>(base), prop.c_str(), tier.c_str());

  // known findings first
  Shared * sh = newShared();
  int findings = 0;
  {
    std::ifstream f(root + "/known_findings.txt");
    std::string line;
    while(std::getline(f, line))
    {
      std::istringstream s(line);
      std::string k, p, tr;
      s >> k >> p >> tr;
      if(k != "finding:" || p != "property=" + prop || tr.rfind("trace=", 0) != 0)
        continue;
      Trace t;
      std::string cls;
      uint64_t h = 0;
      if(!readTrace(root + "/" + tr.substr(6), t, cls, h))
      {
        fprintf(stderr, "cannot read %s\n", tr.c_str());
        return 2;
      }
      runForked(t, sh);
      if(sh->status == 2 && cls == sh->cls)
      {
        ++findings;
        std::string rest;
        std::getline(s, rest);
        printf("KNOWN-FINDING: property=%s%s\n", prop.c_str(), rest.c_str());
      }
    }
  }

  Agg total;
  std::vector<std::string> perWorld;
  const PropSpec * badSpec = nullptr;
  int64_t badIdx = -1;
  std::string real, stub, rule, measure;
  double searchT = 0;
  for(const auto & ps : props())
  {
    if(prop != ps.prop)
      continue;
    const World & w = worldByName(ps.world);
    real += std::string(real.empty() ? "" : "; ") + w.real;
    stub += std::string(stub.empty() ? "" : "; ") + w.stub;
    rule += std::string(rule.empty() ? "" : " | ") + w.rule;
    measure += std::string(measure.empty() ? "" : " | ") + w.measure;
    Agg a;
    double s0 = now();
    uint64_t runs = static_cast<uint64_t>((thorough ? ps.thoroughRuns : ps.quickRuns) * scale);
    batch(ps, base, runs, workers, cap, thorough, a);
    searchT += now() - s0;
    perWorld.push_back(fmt("{\"world\":\"%s\",\"planned_runs\":%llu,\"runs\":%llu,\"wall_s\":%.2f}", ps.world,
                           static_cast<unsigned long long>(runs), static_cast<unsigned long long>(a.runs), now() - s0));
    total.runs += a.runs;
    total.opsRun += a.opsRun;
    total.simTime += a.simTime;
    total.violations += a.violations;
    total.errors += a.errors;
    if(total.errMsg.empty())
      total.errMsg = a.errMsg;
    for(auto & c : a.counters)
      total.counters[c.first] += c.second;
    total.sigs.insert(a.sigs.begin(), a.sigs.end());
    total.runHashes.insert(a.runHashes.begin(), a.runHashes.end());
    for(auto & s : a.samples)
      if(total.samples.size() < 4)
        total.samples.push_back(s);
    if(a.bestIdx >= 0)
    {
      badSpec = &ps;
      badIdx = a.bestIdx;
      break;
    }
  }
  if(total.runs == 0 && total.errMsg.empty())
    total.errMsg = "no run executed";

  int rc = 0;
  std::string vline;
  if(!total.errMsg.empty() && badIdx < 0)
  {
    fprintf(stderr, "HARNESS ERROR: %s\n", total.errMsg.c_str());
    rc = 2;
  }
  else if(badIdx >= 0)
  {
    Trace t = makeTrace(*badSpec, seedOf(base, prop, static_cast<uint64_t>(badIdx)), thorough);
    runForked(t, sh);
    Shared first = *sh;
    runForked(t, sh);
    if(first.status != 2 || sh->status != 2 || strcmp(first.cls, sh->cls) != 0 || first.hash != sh->hash)
    {
      fprintf(stderr, "GATE: run %lld (seed %llu) is not repeatable: %d/%s vs %d/%s\n", static_cast<long long>(badIdx),
              static_cast<unsigned long long>(t.seed), first.status, first.cls, sh->status, sh->cls);
      return 3;
    }
    std::string cls = first.cls;
    printf("violation: run %lld seed %llu class %s : %s\n", static_cast<long long>(badIdx),
           static_cast<unsigned long long>(t.seed), first.cls, first.msg);
    int tried = 0;
    size_t before = t.ops.size();
    Trace m = minimise(t, cls, sh, thorough ? 120 : 40, tried);
    runForked(m, sh);
    if(!sameViolation(sh, cls))
    {
      fprintf(stderr, "GATE: the minimised trace does not reproduce %s\n", cls.c_str());
      return 3;
    }
    printf("minimised %zu -> %zu steps (%d executions): %s\n", before, m.ops.size(), tried, sh->msg);
    std::string file = outdir + "/" + prop + "-" + std::to_string(t.seed) + ".replay";
    std::ofstream(file) << writeTrace(m, sh);
    int r = freshReplay(file);
    if(r != 1)
    {
      fprintf(stderr, "GATE: replaying %s in a fresh process gave %d\n", file.c_str(), r);
      return 3;
    }
    vline = "VIOLATION property=" + prop + " replay=" + file;
    rc = 1;
  }

  double wall = now() - t0;
  mkdir((root + "/evidence").c_str(), 0755);
  std::ofstream e(root + "/evidence/" + prop + ".json");
  e << "{\n \"property\": " << jsonStr(prop) << ",\n \"tier\": " << jsonStr(tier) << ",\n \"seed\": " << base
    << ",\n \"level\": \"exploration\",\n \"wall_s\": " << wall << ",\n \"violations\": " << (rc == 1 ? 1 : 0)
    << ",\n \"coverage\": {\n";
  e << "  \"evaluations\": " << total.runs << ",\n  \"distinct_nontrivial\": " << total.runHashes.size()
    << ",\n  \"rule\": " << jsonStr(rule) << ",\n  \"samples\": [";
  for(size_t i = 0; i < total.samples.size(); ++i)
    e << (i ? ", " : "") << jsonStr(total.samples[i]);
  if(total.samples.empty())
  {
    for(const auto & ps : props())
      if(prop == ps.prop)
      {
        e << jsonStr(writeTrace(makeTrace(ps, seedOf(base, prop, 0), thorough), nullptr));
        break;
      }
  }
  e << "],\n  \"simulated_runs\": " << total.runs << ",\n  \"runs_per_hour\": "
    << static_cast<uint64_t>(searchT > 0 ? static_cast<double>(total.runs) / searchT * 3600 : 0)
    << ",\n  \"seeds_per_hour\": "
    << static_cast<uint64_t>(searchT > 0 ? static_cast<double>(total.runs) / searchT * 3600 : 0)
    << ",\n  \"steps_executed\": " << total.opsRun << ",\n  \"simulated_time_s\": " << total.simTime
    << ",\n  \"distinct_states\": " << total.sigs.size() << ",\n  \"distinct_states_measure\": " << jsonStr(measure)
    << ",\n  \"known_findings_replayed\": " << findings << ",\n  \"worlds\": [";
  for(size_t i = 0; i < perWorld.size(); ++i)
    e << (i ? ", " : "") << perWorld[i];
  e << "],\n";
  for(auto pre : {std::make_pair("fault.", "faults_injected"), std::make_pair("probe.", "probes"),
                  std::make_pair("op.", "operations"), std::make_pair("cfg.", "configurations")})
  {
    e << "  \"" << pre.second << "\": {";
    bool firstItem = true;
    for(auto & c : total.counters)
      if(c.first.rfind(pre.first, 0) == 0)
      {
        e << (firstItem ? "" : ", ") << jsonStr(c.first.substr(strlen(pre.first))) << ": " << c.second;
        firstItem = false;
      }
    e << "},\n";
  }
  e << "  \"real_components\": " << jsonStr(real) << ",\n  \"stubbed_components\": " << jsonStr(stub) << "\n },\n";
  e << " \"assumptions\": [\"the run samples schedules and faults; a clean batch is evidence, not proof\", "
       "\"numerical solver libraries are replaced by a reference QP solver behind the real adapters\"]\n}\n";
  e.close();
  printf("%llu runs, %llu steps, %zu distinct non-trivial, %zu states, %.1f s\n",
         static_cast<unsigned long long>(total.runs), static_cast<unsigned long long>(total.opsRun),
         total.runHashes.size(), total.sigs.size(), wall);
  if(rc == 1)
    printf("%s\n", vline.c_str());
  return rc;
}
} // namespace

int main(int argc, char ** argv)
{
  // same address space layout in every process
  if(!getenv("SIM_NOASLR"))
  {
    int p = personality(0xffffffff);
    if(p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(static_cast<unsigned long>(p) | ADDR_NO_RANDOMIZE) != -1)
    {
      setenv("SIM_NOASLR", "1", 1);
      execv(selfPath().c_str(), argv);
    }
  }
  devnull = open("/dev/null", O_WRONLY);
  std::string cmd = argc > 1 ? argv[1] : "";
  if(cmd == "check" && argc > 2)
    return cmdCheck(argv[2]);
  if(cmd == "replay" && argc > 2)
  {
    Trace t;
    std::string cls;
    uint64_t h = 0;
    if(!readTrace(argv[2], t, cls, h))
    {
      fprintf(stderr, "cannot read %s\n", argv[2]);
      return 2;
    }
    Shared * sh = newShared();
    runForked(t, sh, argc > 3);
    printf("REPLAY property=%s status=%d class=%s hash=%llu op=%d: %s\n", t.prop.c_str(), sh->status, sh->cls,
           static_cast<unsigned long long>(sh->hash), sh->opIndex, sh->msg);
    if(sh->status == 3)
      return 2;
    if(sh->status != 2)
      return 0;
    if(!cls.empty() && (cls != sh->cls || h != sh->hash))
    {
      printf("differs from the recorded class %s hash %llu\n", cls.c_str(), static_cast<unsigned long long>(h));
      return 4;
    }
    return 1;
  }
  if(cmd == "one" && argc > 3)
  { // one <prop> <index> [world]: run in this process, verbose
    uint64_t base = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
    for(const auto & ps : props())
      if(argv[2] == std::string(ps.prop) && (argc < 5 || argv[4] == std::string(ps.world)))
      {
        Trace t = makeTrace(ps, seedOf(base, ps.prop, strtoull(argv[3], nullptr, 10)), getenv("SIM_THOROUGH") != nullptr);
        printf("%s", writeTrace(t, nullptr).c_str());
        Shared * sh = newShared();
        resetShared(sh);
        cur = sh;
        verboseRun = true;
        runHere(t, sh, true);
        printf("status=%d class=%s msg=%s hash=%llu\n", sh->status, sh->cls, sh->msg,
               static_cast<unsigned long long>(sh->hash));
        break;
      }
    return 0;
  }
  if(cmd == "min" && argc > 4)
  { // min <prop> <index> <file>: minimised trace of one violating run (debugging aid)
    uint64_t base = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
    for(const auto & ps : props())
      if(argv[2] == std::string(ps.prop) && (argc < 6 || argv[5] == std::string(ps.world)))
      {
        Trace t = makeTrace(ps, seedOf(base, ps.prop, strtoull(argv[3], nullptr, 10)), getenv("SIM_THOROUGH") != nullptr);
        Shared * sh = newShared();
        runForked(t, sh, false);
        if(sh->status != 2)
          return 0;
        int tried;
        Trace m = minimise(t, sh->cls, sh, 60, tried);
        runForked(m, sh, false);
        std::ofstream(argv[4]) << writeTrace(m, sh);
        printf("%s", writeTrace(m, sh).c_str());
        printf("%s: %s\n", sh->cls, sh->msg);
        break;
      }
    return 0;
  }
  if(cmd == "survey" && argc > 3)
  { // survey <prop> <runs>: all violation classes found
    uint64_t base = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
    for(const auto & ps : props())
      if(argv[2] == std::string(ps.prop))
      {
        Agg a;
        double t0 = now();
        std::string hf = fmt("/tmp/sim-survey-%d", getpid());
        batch(ps, base, strtoull(argv[3], nullptr, 10), getenv("SIM_WORKERS") ? atoi(getenv("SIM_WORKERS")) : 8, 1e9,
              getenv("SIM_THOROUGH") != nullptr, a, hf.c_str());
        std::ifstream f(hf);
        std::string l;
        std::map<std::string, std::pair<int, std::string>> cl;
        uint64_t all = 0;
        while(std::getline(f, l))
        {
          std::istringstream s(l);
          std::string i, h, st, c;
          s >> i >> h >> st;
          all = mix64(all ^ strtoull(h.c_str(), nullptr, 10));
          std::getline(s, c);
          if(st != "1")
          {
            auto & e = cl[st + c];
            if(e.first++ < 4)
              e.second += " " + i;
          }
        }
        unlink(hf.c_str());
        printf("%s/%s: %llu runs %.1fs, %llu violations, hash of all logs %llx\n", ps.prop, ps.world,
               static_cast<unsigned long long>(a.runs), now() - t0, static_cast<unsigned long long>(a.violations),
               static_cast<unsigned long long>(all));
        if(!a.errMsg.empty())
          printf("  error: %s\n", a.errMsg.c_str());
        for(auto & c : cl)
          printf("  %6d x %s  e.g. run%s\n", c.second.first, c.first.c_str(), c.second.second.c_str());
        if(getenv("SIM_COUNTS"))
        {
          for(auto & c : a.counters)
            printf("    %s=%llu\n", c.first.c_str(), static_cast<unsigned long long>(c.second));
          printf("    states=%zu nontrivial=%zu steps=%llu\n", a.sigs.size(), a.runHashes.size(),
                 static_cast<unsigned long long>(a.opsRun));
        }
      }
    return 0;
  }
  if(cmd == "hashes" && argc > 4)
  { // hashes <prop> <runs> <file>: event-log hash of every run (determinism proof)
    uint64_t base = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
    for(const auto & ps : props())
      if(argv[2] == std::string(ps.prop))
      {
        Agg a;
        batch(ps, base, strtoull(argv[3], nullptr, 10), getenv("SIM_WORKERS") ? atoi(getenv("SIM_WORKERS")) : 8, 1e9,
              false, a, (std::string(argv[4]) + "." + ps.world).c_str());
      }
    return 0;
  }
  fprintf(stderr, "usage: sim check PROP | replay FILE [-v] | one PROP IDX | survey PROP N | hashes PROP N FILE\n");
  return 2;
}
