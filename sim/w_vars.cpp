// Worlds "handles" (C13) and "mapping" (C14): histories of deriving, slicing, writing, collecting and dropping variables.
#include "core.h"
#include <Eigen/Core>
#include <algorithm>
#include <array>
#include <memory>
#include <tvm/Space.h>
#include <tvm/Variable.h>
#include <tvm/VariableVector.h>
#include <tvm/internal/VariableCountingVector.h>
#ifdef SIM_THREADS
#  include "interleave.h"
#endif

using namespace sim;
using tvm::Space;
using tvm::VariablePtr;
using tvm::VariableVector;
using tvm::internal::VariableCountingVector;
namespace
{
using Vec = Eigen::VectorXd;
constexpr int ND = 4; // derivatives 0..3
struct Atom
{
  int m, r, t;
};
struct BaseM
{
  std::vector<Atom> atoms;
  Vec val[ND];
  int off(int d, int a) const
  {
    int s = 0;
    for(int i = 0; i < a; ++i)
      s += d ? atoms[(size_t)i].t : atoms[(size_t)i].r;
    return s;
  }
};
/** A variable object and its derivatives (owned by one another). Chain 0 of a base is the base itself. */
struct Chain
{
  int base, s, n; // atoms [s, s+n)
  bool sub;
  const tvm::Variable * ptr[ND] = {};
};
struct Part
{ // what a handle designates
  int base, s, n, d;
  bool operator==(const Part & o) const { return base == o.base && s == o.s && n == o.n && d == o.d; }
  bool contains(const Part & o) const { return base == o.base && d == o.d && s <= o.s && o.s + o.n <= s + n; }
  bool intersects(const Part & o) const { return base == o.base && d == o.d && s < o.s + o.n && o.s < s + n; }
};
struct Handle
{
  VariablePtr v;
  int chain = -1, d = 0;
};
struct VVM
{
  std::unique_ptr<VariableVector> v;
  std::vector<Part> items;
  bool moved = false; // moved from: only destruction, clear and assignment are allowed
};
struct VCM
{
  std::unique_ptr<VariableCountingVector> v;
  bool split = false;
  std::map<std::pair<int, int>, std::vector<int>> cnt;
  std::map<std::pair<int, int>, std::set<int>> ends; // limits of what was added or removed since it was last empty
  std::map<std::pair<int, int>, bool> removed;
  bool has(const Part & p) const
  {
    auto it = cnt.find({p.base, p.d});
    if(it == cnt.end())
      return false;
    for(int i = p.s; i < p.s + p.n; ++i)
      if(it->second[(size_t)i] == 0)
        return false;
    return true;
  }
};

struct VarWorld
{
  Ctx & c;
  static constexpr int NH = 14, NV = 4, NC = 3;
  std::vector<BaseM> bases;
  std::vector<Chain> chains;
  Handle h[NH];
  VVM vv[NV];
  VCM vc[NC];
  explicit VarWorld(Ctx & c) : c(c)
  {
    for(auto & m : vv)
      m.v = std::make_unique<VariableVector>();
    for(int i = 0; i < NC; ++i)
    {
      vc[i].split = i % 2;
      vc[i].v = std::make_unique<VariableCountingVector>(vc[i].split);
    }
  }

  Part part(const Handle & x) const
  {
    const Chain & k = chains[(size_t)x.chain];
    return {k.base, k.s, k.n, x.d};
  }
  int off(const Part & p) const { return bases[(size_t)p.base].off(p.d, p.s); }
  int size(const Part & p) const { return bases[(size_t)p.base].off(p.d, p.s + p.n) - off(p); }
  Vec val(const Part & p) const { return bases[(size_t)p.base].val[p.d].segment(off(p), size(p)); }
  void write(const Part & p, const Vec & x) { bases[(size_t)p.base].val[p.d].segment(off(p), size(p)) = x; }
  static std::string str(const Part & p)
  { return fmt("part [%d,%d) of derivative %d of variable %d", p.s, p.s + p.n, p.d, p.base); }

  // ---- checks
  void checkVariable(const tvm::Variable & v, const Part & p, const char * what)
  {
    c.check(v.size() == size(p), what, str(p) + fmt(" has size %d instead of %d", v.size(), size(p)));
    c.check(v.derivativeNumber() == p.d, what, str(p) + ": wrong derivative number");
    c.check(v.isBasePrimitive() == (p.d == 0), what, str(p));
    Vec x = val(p);
    for(int i = 0; i < x.size(); ++i)
      c.check(v.value()(i) == x(i), what, str(p) + fmt(": component %d is %g instead of %g", i, v.value()(i), x(i)));
  }
  void checkHandle(Handle & x)
  {
    Part p = part(x);
    Chain & k = chains[(size_t)x.chain];
    const tvm::Variable & v = *x.v;
    checkVariable(v, p, "handle");
    if(k.ptr[x.d])
      c.check(k.ptr[x.d] == &v, "identity", str(p) + " is designated by two different objects");
    else
      k.ptr[x.d] = &v;
    c.check(v.isSubvariable() == k.sub && v.isSuperVariable() == !k.sub, "handle", str(p) + ": wrong kind");
    const BaseM & b = bases[(size_t)p.base];
    tvm::Range r = v.subvariableRange(), tr = v.tSubvariableRange();
    c.check(r.start == off(p) && r.dim == size(p), "range", str(p) + fmt(": range [%d,+%d)", r.start, r.dim));
    Part t = p;
    t.d = 1;
    c.check(tr.start == off(t) && tr.dim == size(t), "range", str(p) + fmt(": tangent range [%d,+%d)", tr.start, tr.dim));
    bool eu = p.d > 0;
    if(!eu)
    {
      eu = true;
      for(int i = p.s; i < p.s + p.n; ++i)
        eu = eu && b.atoms[(size_t)i].r == b.atoms[(size_t)i].m && b.atoms[(size_t)i].t == b.atoms[(size_t)i].m;
    }
    c.check(v.isEuclidean() == eu, "handle", str(p) + ": wrong geometry");
  }
  void checkAll()
  {
    for(auto & x : h)
      if(x.v)
        checkHandle(x);
    // different parts and derivatives are different objects
    for(int i = 0; i < NH; ++i)
      for(int j = 0; j < i; ++j)
        if(h[i].v && h[j].v)
          c.check((h[i].v == h[j].v) == (h[i].chain == h[j].chain && h[i].d == h[j].d), "identity",
                  str(part(h[i])) + " and " + str(part(h[j])));
  }
  void checkVV(VVM & m)
  {
    if(!m.v || m.moved)
      return;
    const auto & vars = m.v->variables();
    c.check(vars.size() == m.items.size() && m.v->numberOfVariables() == (int)m.items.size(), "content",
            fmt("%zu variables instead of %zu", vars.size(), m.items.size()));
    int n = 0;
    for(size_t i = 0; i < vars.size(); ++i)
    {
      checkVariable(*vars[i], m.items[i], "content");
      n += size(m.items[i]);
    }
    c.check(m.v->totalSize() == n, "total-size", fmt("%d instead of %d", m.v->totalSize(), n));
  }
  void checkVVValue(VVM & m)
  {
    const Vec & x = m.v->value();
    int n = 0;
    for(const auto & p : m.items)
    {
      Vec y = val(p);
      c.check(x.size() >= n + y.size(), "value", "concatenated value too short");
      for(int i = 0; i < y.size(); ++i)
        c.check(x(n + i) == y(i), "value", fmt("concatenated value: component %d", n + i));
      n += (int)y.size();
    }
    c.check(x.size() == n, "value", "concatenated value too long");
  }
  /** what the collection says of the variable of a handle */
  void query(const VariableVector & v, const std::vector<Part> & items, const Handle & x, bool viaVariable)
  {
    Part p = part(x);
    int n = 0, idx = -1, start = -1;
    bool inter = false;
    for(size_t i = 0; i < items.size(); ++i)
    {
      inter = inter || items[i].intersects(p);
      if(items[i].contains(p))
      {
        idx = (int)i;
        start = n + off(p) - off(items[i]);
      }
      n += size(items[i]);
    }
    c.check(v.contains(*x.v) == (idx >= 0), "contains", str(p));
    c.check(v.intersects(*x.v) == inter, "intersects", str(p));
    c.check(v.indexOf(*x.v) == (idx >= 0 && items[(size_t)idx] == p ? idx : -1), "index", str(p));
    bool threw = false;
    tvm::Range r(-1, 0);
    try
    {
      r = viaVariable ? x.v->getMappingIn(v) : v.getMappingOf(*x.v);
    }
    catch(const std::exception &)
    {
      threw = true;
    }
    c.check(threw == (idx < 0), "mapping", str(p) + (threw ? ": no mapping reported" : ": a mapping is reported"));
    if(!threw)
      c.check(r.start == start && r.dim == size(p), "mapping",
              str(p) + fmt(" is reported at [%d,+%d) instead of [%d,+%d)", r.start, r.dim, start, size(p)));
    if(idx >= 0 && items.size() > 1)
      c.count("nontrivial");
  }

  // ---- handles
  int newBase(int kind, int n)
  {
    BaseM b;
    auto eu = [&](int k) {
      for(int i = 0; i < k; ++i)
        b.atoms.push_back({1, 1, 1});
    };
    switch(kind % 6)
    {
      case 1:
        b.atoms.push_back({3, 4, 3});
        break;
      case 2:
        b.atoms.push_back({6, 7, 6});
        eu(n);
        break;
      case 3:
        eu(1);
        b.atoms.push_back({3, 4, 3});
        eu(n);
        b.atoms.push_back({2, 4, 3});
        break;
      case 4:
        b.atoms.push_back({2, 3, 2});
        b.atoms.push_back({1, 2, 2});
        eu(1);
        break;
      default:
        eu(n);
    }
    for(int d = 0; d < ND; ++d)
      b.val[d] = Vec::Zero(b.off(d, (int)b.atoms.size()));
    bases.push_back(b);
    chains.push_back({(int)bases.size() - 1, 0, (int)b.atoms.size(), false, {}});
    return (int)chains.size() - 1;
  }
  Space space(const BaseM & b, int s, int n) const
  {
    Space r(0);
    for(int i = s; i < s + n; ++i)
    {
      const Atom & a = b.atoms[(size_t)i];
      r = r * (a.m == 3 && a.r == 4 ? Space(Space::Type::SO3) : a.r == 7 ? Space(Space::Type::SE3) : Space(a.m, a.r, a.t));
    }
    return r;
  }
  int drops = 0;
  void put(int slot, VariablePtr v, int chain, int d)
  {
    if(drops && h[slot].v != v)
      c.count("nontrivial");
    c.sig(hashStr("handle") ^ ((uint64_t)d * 7 + (chains[(size_t)chain].sub ? 64 : 0) + (uint64_t)std::min(drops, 15) * 128
                               + (uint64_t)chains[(size_t)chain].n * 4096));
    drops += h[slot].v && h[slot].v != v;
    h[slot] = {std::move(v), chain, d};
    checkHandle(h[slot]);
    Part p = part(h[slot]);
    Vec x = val(p);
    if((x.array() == 0).any())
    { // (contents stay unique)
      x = fresh((int)x.size());
      h[slot].v->set(x);
      write(p, x);
    }
    forget();
  }
  /** objects of which nothing is left can be replaced by others at the same address */
  void forget()
  {
    for(size_t k = 0; k < chains.size(); ++k)
    {
      bool live = false;
      for(const auto & x : h)
        live = live || (x.v && (x.chain == (int)k || (!chains[k].sub && chains[(size_t)x.chain].base == chains[k].base)));
      if(!live)
        for(auto & p : chains[k].ptr)
          p = nullptr;
    }
  }
  int superChain(int chain) const
  {
    for(size_t k = 0; k < chains.size(); ++k)
      if(chains[k].base == chains[(size_t)chain].base && !chains[k].sub)
        return (int)k;
    return -1;
  }
  template<typename F>
  bool throws(F f)
  {
    try
    {
      f();
    }
    catch(const std::exception &)
    {
      return true;
    }
    return false;
  }

  // ---- counting vectors
  std::vector<Part> runs(const VCM & m) const
  {
    std::vector<Part> r;
    for(const auto & e : m.cnt)
    {
      const auto & k = e.second;
      for(size_t i = 0; i < k.size(); ++i)
        if(k[i] > 0)
        {
          if(i > 0 && k[i - 1] > 0)
            ++r.back().n;
          else
            r.push_back({e.first.first, (int)i, 1, e.first.second});
        }
    }
    return r;
  }
  /** identifies the part a variable designates, by its storage and kind */
  bool identify(const tvm::Variable & v, const std::vector<Part> & candidates, size_t & i)
  {
    for(i = 0; i < candidates.size(); ++i)
    {
      const auto & p = candidates[i];
      if(v.derivativeNumber() != p.d || v.size() != size(p))
        continue;
      // the storage: compare through a live handle or the content (contents are unique, see fresh())
      if(Vec(v.value()) == val(p))
        return true;
    }
    return false;
  }
  /** gives every component of every live variable a unique value, so that contents identify storage */
  double next = 1;
  Vec fresh(int n)
  {
    Vec x(n);
    for(int i = 0; i < n; ++i)
      x(i) = next++;
    return x;
  }
  void checkVC(VCM & m)
  {
    const VariableVector & got = m.v->variables();
    auto exp = runs(m);
    size_t total = 0;
    std::vector<bool> seen(exp.size(), false);
    std::vector<Part> items;
    if(!m.split)
    {
      for(const auto & v : got)
      {
        size_t i;
        bool ok = false;
        for(i = 0; i < exp.size(); ++i)
          if(!seen[i] && v->derivativeNumber() == exp[i].d && v->size() == size(exp[i]) && Vec(v->value()) == val(exp[i]))
          {
            ok = true;
            break;
          }
        c.check(ok, "counted-content", fmt("variable %s (size %d) is not one that is still needed", v->name().c_str(), v->size()));
        seen[i] = true;
        items.push_back(exp[i]);
      }
      for(size_t i = 0; i < exp.size(); ++i)
        c.check(seen[i], "counted-content", str(exp[i]) + " is missing");
    }
    else
    {
      std::map<std::pair<int, int>, std::vector<int>> cov;
      for(const auto & e : m.cnt)
        cov[e.first].assign(e.second.size(), 0);
      for(const auto & v : got)
      {
        bool ok = false;
        for(const auto & e : exp)
        {
          if(v->derivativeNumber() != e.d || ok)
            continue;
          for(int s = e.s; s < e.s + e.n && !ok; ++s)
            for(int n = 1; s + n <= e.s + e.n && !ok; ++n)
            {
              Part p{e.base, s, n, e.d};
              if(v->size() != size(p) || Vec(v->value()) != val(p))
                continue;
              ok = true;
              auto key = std::make_pair(e.base, e.d);
              auto & ct = m.cnt[key];
              for(int i = s; i < s + n; ++i)
              {
                c.check(ct[(size_t)i] == ct[(size_t)s], "split", str(p) + " has parts with different counts");
                c.check(++cov[key][(size_t)i] == 1, "counted-content", str(p) + " appears twice");
              }
              auto & en = m.ends[key];
              c.check((s == e.s || en.count(s)) && (s + n == e.s + e.n || en.count(s + n)), "split",
                      str(p) + " is cut where nothing begins nor ends");
              if(!m.removed[key])
                for(int i = s + 1; i < s + n; ++i)
                  c.check(!en.count(i), "split", str(p) + fmt(" is not cut at %d, where something begins or ends", i));
              items.push_back(p);
            }
        }
        c.check(ok, "counted-content", fmt("variable %s (size %d) is not one that is still needed", v->name().c_str(), v->size()));
      }
      for(const auto & e : exp)
        for(int i = e.s; i < e.s + e.n; ++i)
          c.check(cov[{e.base, e.d}][(size_t)i] == 1, "counted-content", str(e) + fmt(": part %d is missing", i));
    }
    for(const auto & p : items)
      total += (size_t)size(p);
    c.check(got.totalSize() == (int)total, "total-size");
    for(const auto & x : h)
      if(x.v)
        query(got, items, x, total % 2);
    bool disjoint = true;
    for(const auto & e : m.cnt)
      for(int k : e.second)
        disjoint = disjoint && k <= 1;
    c.check(m.v->isDisjointUnion() == disjoint, "disjoint-union");
    if(exp.size() > 1)
      c.count("nontrivial");
    c.sig(hashStr("vc") ^ (exp.size() * 131 + items.size() * 1009 + total * 7 + (disjoint ? 0 : 90001)));
  }
};

enum K
{
  K_BASE,
  K_DOT,
  K_SUB,
  K_PRIM,
  K_BASEPRIM,
  K_SUPER,
  K_SELF,
  K_COPY,
  K_DROP,
  K_SET,
  K_SETIDX,
  K_SETSEG,
  K_ZERO,
  K_COMMA,
  K_DUP,
  K_REL,
  K_BAD,
  V_ADD,
  V_ADDIDX,
  V_ADDALL,
  V_REMOVE,
  V_REMOVEI,
  V_CLEAR,
  V_ASSIGN,
  V_COPY,
  V_MOVE,
  V_MOVEASSIGN,
  V_SET,
  V_SETZERO,
  V_DOT,
  V_QUERY,
  V_NEW,
  C_ADD,
  C_REMOVE,
  C_ADDALL,
  C_REMOVEALL,
  C_CLEAR,
  C_SET,
  C_QUERY,
  C_NEW,
  NK
};
const std::vector<const char *> KNAMES = {
    "create",   "dot",    "subvariable", "primitive", "base-primitive", "super-variable", "shared-from-this", "copy-handle",
    "drop",     "set",    "set-index",   "set-block", "set-zero",       "comma-init",     "duplicate",        "relations",
    "bad-call", "v-add",  "v-add-index", "v-add-all", "v-remove",       "v-remove-index", "v-clear",          "v-assign",
    "v-copy",   "v-move", "v-move-assign", "v-set",   "v-set-zero",     "v-dot",          "v-query",          "v-new",
    "c-add",    "c-remove", "c-add-all", "c-remove-all", "c-clear",     "c-set",          "c-query",          "c-new"};

void gen(Rng & r, Trace & t, bool thorough, bool maps)
{
  t.cfg["heap"] = r.below(4);
  t.cfg["faults"] = r.chance(80);
  const int w13[NK] = {8, 25, 25, 12, 8, 10, 5, 8, 25, 10, 4, 6, 2, 4, 4, 8, 6, 4, 1, 1, 3, 1, 1, 1, 1, 1, 1, 3, 1, 1, 3, 1,
                       3, 2, 1, 1, 1, 1, 2, 1};
  const int w14[NK] = {6, 10, 20, 2, 1, 4, 1, 3, 6, 4, 1, 1, 1, 1, 1, 2, 1, 30, 8, 4, 14, 5, 2, 4, 3, 3, 3, 6, 1, 2, 30, 2,
                       30, 22, 4, 4, 1, 4, 20, 2};
  int pk[NK], tot = 0;
  for(int k = 0; k < NK; ++k)
  {
    int b = maps ? w14[k] : w13[k];
    pk[k] = k > K_SUB && r.chance(15) ? 0 : (int)r.range((b + 1) / 2, b * 2);
    if(!t.cfg["faults"] && (k == K_DROP || k == K_BAD))
      pk[k] = 0;
    tot += pk[k];
  }
  if(maps && r.chance(30)) // mostly collections copied and moved around
    for(int k : {V_ASSIGN, V_COPY, V_MOVE, V_MOVEASSIGN, V_QUERY})
    {
      tot += 6 * pk[k];
      pk[k] *= 7;
    }
  int nh = (int)r.range(3, VarWorld::NH), n = (int)r.range(10, thorough ? 150 : 70), nv = (int)r.range(1, VarWorld::NV);
  const bool focus = maps && r.chance(30); // few collections, edited and asked about all the handles again and again
  if(focus)
  {
    const std::vector<int> some = {K_BASE, K_SUB, K_DROP, V_ADD, V_ADDIDX, V_REMOVE, V_REMOVEI, V_CLEAR, V_ASSIGN, V_MOVEASSIGN, V_QUERY};
    const std::vector<int> pks = {6, 22, 4, 25, 10, 20, 8, 3, 2, 2, 30};
    std::fill(pk, pk + NK, 0);
    tot = 0;
    for(size_t i = 0; i < some.size(); ++i)
      tot += pk[some[i]] = r.chance(15) && i > 4 ? 0 : (int)r.range((pks[i] + 1) / 2, pks[i] * 2);
    if(!t.cfg["faults"])
    {
      tot -= pk[K_DROP];
      pk[K_DROP] = 0;
    }
    nh = VarWorld::NH;
    nv = (int)r.range(1, 2);
  }
  int nc = (int)r.range(1, VarWorld::NC), kinds = (int)r.below(3);
  for(int i = 0; i < n; ++i)
  {
    int64_t x = r.below(tot);
    int k = 0;
    while(x >= pk[k])
      x -= pk[k++];
    if(i < 2)
      k = K_BASE;
    Op o;
    o.kind = k;
    o.actor = (int)r.below(nh);
    o.a = {r.below(nh), r.below(k == K_BASE && kinds == 0 ? 1 : 8), r.below(8), r.below(4)};
    if(k >= V_ADD && k < C_ADD)
      o.a = {r.below(nv), r.below(nv), r.below(8), r.below(4)};
    if(focus && k == K_BASE)
      o.a[2] = r.range(3, 6);
    if(focus && k == V_QUERY)
      o.a[3] = r.range(1, 2);
    if(k >= C_ADD)
      o.a = {r.below(nc), r.below(nc), r.below(8), r.below(4)};
    int64_t fail = t.cfg["faults"] && k <= K_DUP && r.chance(6) ? r.range(1, 12) : 0;
    o.a.push_back(fail);
    if(focus && k == K_SUB)
      o.a.push_back(r.below(2));
    t.ops.push_back(o);
  }
  for(int i = 0; i < nc; ++i)
    t.ops.push_back({C_QUERY, 0, {i, 0, 0, 0, 0}});
}
void gen13(Rng & r, Trace & t, bool th) { gen(r, t, th, false); }
void gen14(Rng & r, Trace & t, bool th) { gen(r, t, th, true); }

/** one step of one (thread's) world */
void step(VarWorld & w, const Op & o, Ctx & c)
{
  int dst = o.actor % VarWorld::NH, sl = (int)(o.arg(0) % VarWorld::NH);
  int a1 = (int)o.arg(1), a2 = (int)o.arg(2), a3 = (int)o.arg(3);
  int iv = (int)(o.arg(0) % VarWorld::NV), jv = (int)(o.arg(1) % VarWorld::NV);
  VVM & V = w.vv[iv];
  VCM & C = w.vc[o.arg(0) % VarWorld::NC];
  if((o.kind == V_REMOVE || o.kind == C_REMOVE) && a3) // mostly something that can be removed
    for(int k = 0; k < VarWorld::NH; ++k)
    {
      int j = (dst + k) % VarWorld::NH;
      if(w.h[j].v && (o.kind == V_REMOVE ? !V.moved && std::count(V.items.begin(), V.items.end(), w.part(w.h[j])) : C.has(w.part(w.h[j]))))
      {
        dst = j;
        break;
      }
    }
  if((o.kind == V_ADD || o.kind == V_ADDIDX) && a3 == 3 && !V.moved) // something that overlaps
    for(int k = 0; k < VarWorld::NH; ++k)
    {
      int j = (dst + k) % VarWorld::NH;
      if(!w.h[j].v)
        continue;
      Part p = w.part(w.h[j]);
      bool inter = false, cont = false;
      for(const auto & q : V.items)
      {
        inter = inter || q.intersects(p);
        cont = cont || q.contains(p);
      }
      if(inter && !cont)
      {
        dst = j;
        break;
      }
    }
  if(o.kind == K_SUB && o.arg(5) == 1) // of something large
    for(int k = 0; k < VarWorld::NH; ++k)
    {
      int j = (sl + k) % VarWorld::NH;
      if(w.h[j].v && w.part(w.h[j]).n > 2)
      {
        sl = j;
        break;
      }
    }
  Handle & H = w.h[sl];
  Handle & D = w.h[dst];
  c.log(KNAMES[(size_t)o.kind], dst);
  heap::failAt(o.arg(4));
  try
  {
    switch(o.kind)
    {
      case K_BASE:
      {
        Space s(0);
        int k;
        {
          heap::NoFault nf;
          k = w.newBase(a1, 1 + a2 % 7);
          s = w.space(w.bases.back(), 0, (int)w.bases.back().atoms.size());
        }
        VariablePtr v = s.createVariable("x");
        heap::NoFault nf;
        Vec x = w.fresh(v->size());
        v->set(x);
        w.write({w.chains[(size_t)k].base, 0, w.chains[(size_t)k].n, 0}, x);
        w.put(dst, v, k, 0);
        break;
      }
      case K_DOT:
        if(H.v)
        {
          int n = 1 + a1 % 3;
          if(H.d + n >= ND)
            break;
          VariablePtr v = tvm::dot(H.v, n, a2 % 2);
          heap::NoFault nf;
          c.count("op.dot");
          w.put(dst, v, H.chain, H.d + n);
        }
        break;
      case K_SUB:
        if(H.v)
        {
          Part p = w.part(H);
          int s = a1 % p.n, n = 1 + a2 % (p.n - s);
          VariablePtr v;
          Space sp(0), sh(0);
          {
            heap::NoFault nf;
            sp = w.space(w.bases[(size_t)p.base], p.s + s, n);
            sh = w.space(w.bases[(size_t)p.base], p.s, s);
          }
          v = a3 % 2 ? H.v->subvariable(sp, "y", sh) : H.v->subvariable(sp, sh);
          heap::NoFault nf;
          c.count(w.chains[(size_t)H.chain].sub ? "op.slice-of-slice" : "op.slice");
          w.chains.push_back({p.base, p.s + s, n, true, {}});
          w.put(dst, v, (int)w.chains.size() - 1, H.d);
        }
        break;
      case K_PRIM:
        if(H.v)
        {
          int n = 1 + a1 % 3;
          VariablePtr v;
          bool threw = w.throws([&] { v = n == 1 ? H.v->primitive<1>() : n == 2 ? H.v->primitive<2>() : H.v->primitive<3>(); });
          heap::NoFault nf;
          if(heap::fired())
            break;
          c.check(threw == (n > H.d), "primitive", threw ? "a primitive is refused" : "a primitive that does not exist is given");
          if(threw)
            break;
          c.count("op.primitive");
          w.put(dst, v, H.chain, H.d - n);
        }
        break;
      case K_BASEPRIM:
        if(H.v)
          w.put(dst, H.v->basePrimitive(), H.chain, 0);
        break;
      case K_SUPER:
        if(H.v)
          w.put(dst, H.v->superVariable(), w.superChain(H.chain), H.d);
        break;
      case K_SELF:
        if(H.v)
          w.put(dst, H.v->shared_from_this(), H.chain, H.d);
        break;
      case K_COPY:
        if(H.v)
        {
          VariablePtr v = H.v;
          w.put(dst, v, H.chain, H.d);
        }
        break;
      case K_DROP:
        if(D.v)
        {
          c.count("fault.drop-handle");
          D = Handle{};
          ++w.drops;
          w.forget();
        }
        break;
      case K_SET:
        if(H.v)
        {
          Part p = w.part(H);
          Vec x = w.fresh(w.size(p));
          H.v->set(x);
          w.write(p, x);
        }
        break;
      case K_SETIDX:
        if(H.v)
        {
          Part p = w.part(H);
          int i = a1 % (w.size(p) + 2) - 1;
          Vec x = w.val(p);
          double y = w.next++;
          bool threw = w.throws([&] { H.v->set(i, y); });
          heap::NoFault nf;
          if(threw && heap::fired())
            break;
          bool ok = i >= 0 && i < w.size(p);
          c.check(threw == !ok, "out-of-bounds", "writing one component");
          if(ok)
          {
            x(i) = y;
            w.write(p, x);
          }
          else
            c.count("fault.invalid-call");
        }
        break;
      case K_SETSEG:
        if(H.v)
        {
          Part p = w.part(H);
          int i = a1 - 1, n = a2 % 5;
          Vec x = w.val(p), y = w.fresh(n);
          bool threw = w.throws([&] { H.v->set(i, n, y); });
          heap::NoFault nf;
          if(threw && heap::fired())
            break;
          bool ok = i >= 0 && i + n <= w.size(p);
          c.check(threw == !ok, "out-of-bounds", "writing a block");
          if(ok)
          {
            x.segment(i, n) = y;
            w.write(p, x);
          }
          else
            c.count("fault.invalid-call");
        }
        break;
      case K_ZERO: // a null vector does not identify the storage: fill it again
        if(H.v)
        {
          Part p = w.part(H);
          H.v->setZero();
          heap::NoFault nf;
          w.write(p, Vec::Zero(w.size(p)));
          w.checkAll();
          Vec x = w.fresh(w.size(p));
          H.v->set(x);
          w.write(p, x);
        }
        break;
      case K_COMMA:
        if(H.v)
        {
          Part p = w.part(H);
          Vec x = w.fresh(w.size(p));
          {
            auto ci = H.v << x(0);
            for(int i = 1; i < x.size(); ++i)
              ci, x(i);
          }
          w.write(p, x);
        }
        break;
      case K_DUP:
        if(H.v)
        {
          Part p = w.part(H);
          VariablePtr v = a1 % 2 ? H.v->duplicate() : H.v->duplicate("copy");
          heap::NoFault nf;
          BaseM b;
          b.atoms.assign(w.bases[(size_t)p.base].atoms.begin() + p.s, w.bases[(size_t)p.base].atoms.begin() + p.s + p.n);
          for(int d = 0; d < ND; ++d)
            b.val[d] = Vec::Zero(b.off(d, p.n));
          b.val[p.d] = w.val(p);
          w.bases.push_back(b);
          w.chains.push_back({(int)w.bases.size() - 1, 0, p.n, false, {}});
          w.put(dst, v, (int)w.chains.size() - 1, p.d);
          Vec x = w.fresh(v->size()); // (contents stay unique)
          v->set(x);
          w.write(w.part(w.h[dst]), x);
        }
        break;
      case K_REL:
        if(H.v && D.v)
        {
          Part p = w.part(H), q = w.part(D);
          c.check(H.v->contains(*D.v) == p.contains(q), "relation", VarWorld::str(p) + " contains " + VarWorld::str(q));
          c.check(H.v->intersects(*D.v) == p.intersects(q), "relation", VarWorld::str(p) + " intersects " + VarWorld::str(q));
          c.check((*H.v == *D.v) == (p == q) && (*H.v != *D.v) == !(p == q), "relation",
                  VarWorld::str(p) + " equals " + VarWorld::str(q));
          const Chain &k = w.chains[(size_t)H.chain], &l = w.chains[(size_t)D.chain];
          c.check(H.v->isSuperVariableOf(*D.v) == (!k.sub && l.sub && p.base == q.base && p.d == q.d), "relation",
                  VarWorld::str(p) + " is a super variable of " + VarWorld::str(q));
          if(H.chain == D.chain || p.base != q.base || p.s != q.s || p.n != q.n)
          {
            c.check(H.v->isDerivativeOf(*D.v) == (H.chain == D.chain && p.d > q.d), "relation", "derivative");
            c.check(H.v->isPrimitiveOf(*D.v) == (H.chain == D.chain && p.d < q.d), "relation", "primitive");
          }
        }
        break;
      case K_BAD:
        if(H.v)
        {
          c.count("fault.invalid-call");
          Part p = w.part(H);
          const BaseM & b = w.bases[(size_t)p.base];
          bool threw;
          if(a1 % 2)
          {
            Vec x = Vec::Constant(w.size(p) + (a2 % 2 ? 1 : -1), 7);
            threw = w.throws([&] { H.v->set(x); });
          }
          else
          {
            Space sp = w.space(b, p.s, p.n) * Space(1);
            if(a2 % 2)
              threw = w.throws([&] { auto y = H.v->subvariable(sp); });
            else
              threw = w.throws([&] { auto y = H.v->subvariable(w.space(b, p.s, p.n), "z", Space(1)); });
          }
          c.check(threw, "invalid-call-accepted");
        }
        break;
      // ---------------------------------------------------------------- vectors
      case V_ADD:
      case V_ADDIDX:
        if(D.v && !V.moved)
        {
          Part p = w.part(D);
          int at = -1, i = 0;
          bool cont = false, inter = false;
          for(const auto & q : V.items)
          {
            if(at < 0 && q.intersects(p))
              at = i;
            cont = cont || q.contains(p);
            inter = inter || q.intersects(p);
            ++i;
          }
          bool mustThrow = inter && !cont, threw, res = false;
          int idx = -2;
          if(o.kind == V_ADD)
            threw = w.throws([&] { res = V.v->add(D.v); });
          else
            threw = w.throws([&] { idx = V.v->addAndGetIndex(D.v, a2 % 2); });
          c.check(threw == mustThrow, "overlapping-addition", threw ? "refused" : "accepted");
          if(threw)
          {
            c.count("fault.refused-addition");
            break;
          }
          if(!inter)
            V.items.push_back(p);
          if(o.kind == V_ADD)
            c.check(res == !inter, "add-result");
          else
          {
            int e = !inter ? (int)V.items.size() - 1 : V.items[(size_t)at] == p || a2 % 2 ? at : -1;
            c.check(idx == e, "add-index", fmt("%d instead of %d", idx, e));
          }
          c.count("op.add");
        }
        break;
      case V_ADDALL:
        if(!V.moved && !w.vv[jv].moved)
        {
          auto src = w.vv[jv].items;
          bool mustThrow = false;
          for(const auto & p : src)
          {
            bool cont = false, inter = false;
            for(const auto & q : V.items)
            {
              cont = cont || q.contains(p);
              inter = inter || q.intersects(p);
            }
            if(inter && !cont)
            {
              mustThrow = true;
              break;
            }
            if(!inter)
              V.items.push_back(p);
          }
          bool threw = w.throws([&] {
            if(a2 % 2)
              V.v->add(*w.vv[jv].v);
            else
              V.v->add(std::vector<VariablePtr>(w.vv[jv].v->variables()));
          });
          c.check(threw == mustThrow, "overlapping-addition", threw ? "refused" : "accepted");
        }
        break;
      case V_REMOVE:
        if(!V.moved && D.v)
        {
          Part p = w.part(D);
          auto it = std::find(V.items.begin(), V.items.end(), p);
          bool res = V.v->remove(*D.v);
          c.check(res == (it != V.items.end()), "remove-result");
          c.count(res ? "op.remove" : "fault.refused-removal");
          if(res)
            V.items.erase(it);
        }
        break;
      case V_REMOVEI:
        if(!V.moved)
        {
          int n = (int)V.items.size(), i = a2 == 7 ? n + a3 : a2 == 6 ? -1 - a3 : n ? a2 % n : 0;
          bool threw = w.throws([&] { V.v->remove(i); });
          bool ok = i >= 0 && i < n;
          c.check(threw == !ok, "remove-index");
          if(ok)
            V.items.erase(V.items.begin() + i);
          else
            c.count("fault.refused-removal");
        }
        break;
      case V_CLEAR:
        V.v->clear();
        V.items.clear();
        V.moved = false;
        break;
      case V_ASSIGN:
        if(!w.vv[jv].moved)
        {
          c.count(iv == jv ? "op.self-assign" : "op.assign");
          *V.v = *w.vv[jv].v;
          V.items = std::vector<Part>(w.vv[jv].items);
          V.moved = false;
        }
        break;
      case V_COPY:
        if(!w.vv[jv].moved)
        {
          auto n = std::make_unique<VariableVector>(static_cast<const VariableVector &>(*w.vv[jv].v));
          auto it = w.vv[jv].items;
          V.v = std::move(n);
          V.items = it;
          V.moved = false;
        }
        break;
      case V_MOVE:
        if(!w.vv[jv].moved && iv != jv)
        {
          c.count("op.move");
          V.v = std::make_unique<VariableVector>(std::move(*w.vv[jv].v));
          V.items = std::move(w.vv[jv].items);
          V.moved = false;
          w.vv[jv].items.clear();
          w.vv[jv].moved = true;
        }
        break;
      case V_MOVEASSIGN:
        if(!w.vv[jv].moved && iv != jv)
        {
          c.count("op.move-assign");
          *V.v = std::move(*w.vv[jv].v);
          V.items = std::move(w.vv[jv].items);
          V.moved = false;
          w.vv[jv].items.clear();
          w.vv[jv].moved = true;
        }
        break;
      case V_SET:
        if(!V.moved)
        {
          int n = 0;
          for(const auto & p : V.items)
            n += w.size(p);
          Vec x = w.fresh(n);
          V.v->set(x);
          n = 0;
          for(const auto & p : V.items)
          {
            w.write(p, x.segment(n, w.size(p)));
            n += w.size(p);
          }
          w.checkVVValue(V);
        }
        break;
      case V_SETZERO:
        if(!V.moved)
        {
          V.v->setZero();
          for(const auto & p : V.items)
            w.write(p, Vec::Zero(w.size(p)));
          w.checkVVValue(V);
          for(size_t i = 0; i < V.items.size(); ++i)
          {
            Vec x = w.fresh(w.size(V.items[i]));
            (*V.v)[(int)i]->set(x);
            w.write(V.items[i], x);
          }
        }
        break;
      case V_DOT:
        if(!w.vv[jv].moved)
        {
          int n = 1 + a2 % 2;
          bool ok = true;
          for(const auto & p : w.vv[jv].items)
            ok = ok && p.d + n < ND;
          if(!ok)
            break;
          auto items = w.vv[jv].items;
          for(auto & p : items)
            p.d += n;
          V.v = std::make_unique<VariableVector>(tvm::dot(*w.vv[jv].v, n));
          V.items = items;
          V.moved = false;
          for(size_t i = 0; i < items.size(); ++i)
            if(w.val(items[i]).minCoeff() == 0)
            { // (contents stay unique)
              w.checkVV(V);
              Vec x = w.fresh(w.size(items[i]));
              (*V.v)[(int)i]->set(x);
              w.write(items[i], x);
            }
        }
        break;
      case V_QUERY:
        if(!V.moved)
        {
          if(a3 == 1 || a3 == 2)
          { // everybody's position
            for(int k = 0; k < VarWorld::NH; ++k)
              if(w.h[k].v)
                w.query(*V.v, V.items, w.h[k], a3 == 1 || (a2 + k) % 2);
          }
          else if(D.v)
            w.query(*V.v, V.items, D, a2 % 2);
          if(a3 == 0)
            w.checkVVValue(V);
          c.sig(hashStr("vv") ^ (V.items.size() * 131 + (uint64_t)V.v->totalSize() * 1009 + (uint64_t)o.arg(0)));
        }
        break;
      case V_NEW:
        V.v = std::make_unique<VariableVector>();
        V.items.clear();
        V.moved = false;
        if(D.v && a2 % 2)
        {
          V.v = std::make_unique<VariableVector>(D.v);
          V.items.push_back(w.part(D));
        }
        break;
      // ---------------------------------------------------------------- counting vectors
      case C_ADD:
      case C_REMOVE:
        if(D.v)
        {
          Part p = w.part(D);
          auto key = std::make_pair(p.base, p.d);
          auto & k = C.cnt[key];
          if(k.empty())
            k.assign(w.bases[(size_t)p.base].atoms.size(), 0);
          bool change = false, res = false, threw, bad = false;
          for(int i = p.s; i < p.s + p.n; ++i)
          {
            change = change || k[(size_t)i] == (o.kind == C_ADD ? 0 : 1);
            bad = bad || k[(size_t)i] == 0;
          }
          if(o.kind == C_ADD)
            threw = w.throws([&] { res = C.v->add(D.v); });
          else
            threw = w.throws([&] { res = C.v->remove(*D.v); });
          c.check(threw == (o.kind == C_REMOVE && bad), "counted-refusal", threw ? "refused" : "accepted");
          if(threw)
          {
            c.count("fault.refused-removal");
            break;
          }
          if(!C.split)
            c.check(res == change, "counted-result", res ? "a change is reported" : "a change is not reported");
          for(int i = p.s; i < p.s + p.n; ++i)
            k[(size_t)i] += o.kind == C_ADD ? 1 : -1;
          bool empty = std::all_of(k.begin(), k.end(), [](int x) { return x == 0; });
          C.ends[key].insert(p.s);
          C.ends[key].insert(p.s + p.n);
          if(o.kind == C_REMOVE)
            C.removed[key] = true;
          if(empty)
          {
            C.ends[key].clear();
            C.removed[key] = false;
          }
          c.count(o.kind == C_ADD ? "op.counted-add" : "op.counted-remove");
        }
        break;
      case C_ADDALL:
      case C_REMOVEALL:
      {
        VVM & S = w.vv[(a1 + a2) % VarWorld::NV];
        if(S.moved)
          break;
        bool bad = false;
        for(const auto & p : S.items)
        {
          auto key = std::make_pair(p.base, p.d);
          auto & k = C.cnt[key];
          if(k.empty())
            k.assign(w.bases[(size_t)p.base].atoms.size(), 0);
          if(o.kind == C_REMOVEALL)
            for(int i = p.s; i < p.s + p.n; ++i)
              bad = bad || k[(size_t)i] == 0;
        }
        if(bad)
          break; // (what a refused removal of several variables leaves is not specified)
        for(const auto & p : S.items)
        {
          auto key = std::make_pair(p.base, p.d);
          auto & k = C.cnt[key];
          for(int i = p.s; i < p.s + p.n; ++i)
            k[(size_t)i] += o.kind == C_ADDALL ? 1 : -1;
          C.ends[key].insert(p.s);
          C.ends[key].insert(p.s + p.n);
          if(o.kind == C_REMOVEALL)
            C.removed[key] = true;
          if(std::all_of(k.begin(), k.end(), [](int x) { return x == 0; }))
          {
            C.ends[key].clear();
            C.removed[key] = false;
          }
        }
        if(o.kind == C_ADDALL)
          C.v->add(*S.v);
        else
          C.v->remove(*S.v);
        break;
      }
      case C_CLEAR:
        C.v->clear();
        C.cnt.clear();
        C.ends.clear();
        C.removed.clear();
        break;
      case C_SET:
      {
        w.checkVC(C);
        auto vars = C.v->variables().variables();
        auto exp = w.runs(C);
        // where each variable is, from its content
        Vec x = w.fresh(C.v->variables().totalSize());
        std::vector<std::pair<Part, Vec>> wr;
        int n = 0;
        for(const auto & v : vars)
        {
          bool ok = false;
          for(const auto & e : exp)
            for(int s = e.s; s < e.s + e.n && !ok; ++s)
              for(int m = 1; s + m <= e.s + e.n && !ok; ++m)
              {
                Part p{e.base, s, m, e.d};
                if(v->derivativeNumber() == e.d && v->size() == w.size(p) && Vec(v->value()) == w.val(p))
                {
                  ok = true;
                  wr.push_back({p, x.segment(n, v->size())});
                }
              }
          n += v->size();
        }
        C.v->set(x);
        for(const auto & p : wr)
          w.write(p.first, p.second);
        break;
      }
      case C_QUERY:
        w.checkVC(C);
        break;
      case C_NEW:
        if(a1 == 0)
        {
          C.split = a2 % 2;
          C.v = std::make_unique<VariableCountingVector>(C.split);
          C.cnt.clear();
          C.ends.clear();
          C.removed.clear();
        }
        else
        {
          VCM & S = w.vc[o.arg(1) % VarWorld::NC];
          C.v = std::make_unique<VariableCountingVector>(VariableCountingVector(*S.v));
          auto cnt = S.cnt;
          auto ends = S.ends;
          auto rem = S.removed;
          C.split = S.split;
          C.cnt = cnt;
          C.ends = ends;
          C.removed = rem;
        }
        break;
    }
  }
  catch(const std::bad_alloc &)
  {
    heap::failAt(0);
    c.check(o.arg(4) > 0, "spurious-bad-alloc");
    c.count("fault.allocation-failure");
  }
  heap::failAt(0);
  w.checkAll();
  for(auto & m : w.vv)
    w.checkVV(m);
}
void run(const Trace & t, Ctx & c)
{
  heap::begin((int)t.c("heap"), t.seed);
  auto W = std::make_unique<VarWorld>(c);
  int i = 0;
  for(const auto & o : t.ops)
  {
    c.sh->opIndex = i++;
    c.sh->hash = c.hash;
    ++c.sh->opsRun;
    step(*W, o, c);
  }
  W.reset();
  heap::end();
}
#ifdef SIM_THREADS
// ------------------------------------------------------------------------------------------------ C10
enum
{
  T_PREEMPT = NK
};
void genThreads(Rng & r, Trace & t, bool thorough)
{
  t.cfg["heap"] = r.below(4);
  t.cfg["faults"] = 1;
  int nt = r.chance(60) ? 2 : (int)r.range(2, 4);
  t.cfg["threads"] = nt;
  bool churn = r.chance(60), tight = churn || r.chance(60); // short programs mostly made of what uses the process-wide state
  for(int k = 0; k < nt; ++k)
  {
    Trace u;
    gen(r, u, thorough, true);
    if(tight)
    {
      u.ops.clear();
      int n = (int)r.range(4, 14), nh = 4;
      const int kinds[] = {K_BASE, K_SUB, K_SUB, K_DOT, V_ADD, V_ADD, V_ADD, V_REMOVE, V_QUERY, V_QUERY, V_QUERY, V_CLEAR, V_NEW, V_COPY, C_ADD, C_QUERY};
      for(int i = 0; i < n; ++i)
      {
        Op o;
        o.kind = i == 0 ? (int)K_BASE : kinds[r.below(16)];
        o.actor = (int)r.below(nh);
        o.a = {o.kind >= V_ADD ? r.below(2) : r.below(nh), r.below(o.kind == K_BASE ? 1 : 8), r.below(6), r.range(0, 3)};
        u.ops.push_back(o);
      }
    }
    if(churn)
    { // one collection changing all the time, in which parts of its variables are looked up
      u.ops.clear();
      for(int i = 0; i < 3; ++i)
        u.ops.push_back({K_BASE, i, {0, 0, r.range(1, 4), 0}});
      for(int i = 3; i < 6; ++i)
        u.ops.push_back({K_SUB, i, {r.below(3), r.below(3), r.below(3), 0}});
      int n = (int)r.range(6, 24);
      const int kinds[] = {V_ADD, V_ADD, V_ADD, V_REMOVE, V_REMOVE, V_QUERY, V_QUERY, V_QUERY, V_QUERY, V_CLEAR};
      for(int i = 0; i < n; ++i)
      {
        Op o;
        o.kind = kinds[r.below(r.chance(10) ? 10 : 9)];
        o.actor = (int)(o.kind == V_QUERY ? r.range(3, 5) : r.below(3));
        o.a = {r.chance(80) ? 0 : 1, 0, o.kind == V_QUERY ? r.chance(85) : r.below(2), r.range(1, 3)};
        u.ops.push_back(o);
      }
    }
    if(u.ops.size() > 40)
      u.ops.resize(40);
    for(auto & o : u.ops)
    {
      o.a.resize(5, 0);
      o.a[4] = 0; // (no allocation failure: threads are what is studied)
      o.a.push_back(k);
      t.ops.push_back(o);
    }
  }
  int d = (int)r.range(0, thorough || churn ? 40 : 20), style = churn && r.chance(60) ? 1 : (int)r.below(4);
  int fine = churn && r.chance(50) ? 0 : (int)r.below(3);
  for(int i = 0; i < d; ++i)
  {
    int kind = style == 0 ? 0 : style == 1 ? (r.chance(50) ? 0 : 2) : r.chance(40) ? 0 : r.chance(50) ? 1 : 2;
    int64_t range = kind == 0 ? (fine == 0 ? 6 : fine == 1 ? 20 : 80) : kind == 1 ? (fine == 0 ? 50 : 1000) : (fine == 2 ? 12 : fine == 1 ? 6 : 3);
    t.ops.push_back({T_PREEMPT, (int)r.below(nt), {kind, r.below(range), 0, 0, 0, 0}});
  }
}
void runThreads(const Trace & t, Ctx & c)
{
  heap::begin((int)t.c("heap"), t.seed);
  int nt = (int)std::min<int64_t>(4, std::max<int64_t>(1, t.c("threads", 2)));
  std::vector<std::unique_ptr<VarWorld>> W;
  std::vector<std::vector<const Op *>> prog((size_t)nt);
  std::vector<sched::Preempt> plan;
  for(int i = 0; i < nt; ++i)
    W.push_back(std::make_unique<VarWorld>(c));
  for(const auto & o : t.ops)
    if(o.kind == T_PREEMPT)
      plan.push_back({(int)o.arg(0), o.arg(1), o.actor % nt});
    else
      prog[(size_t)(o.arg(5) % nt)].push_back(&o);
  // identities: (thread, chain, derivative) of every variable, (thread, collection) of every collection
  std::map<int, std::array<int, 4>> owner;
  auto identities = [&](int k) {
    VarWorld & w = *W[(size_t)k];
    for(const auto & x : w.h)
      if(x.v)
      {
        std::array<int, 4> key{0, k, x.chain, x.d};
        auto r = owner.insert({x.v->id(), key});
        c.check(r.first->second == key, "identity", fmt("identity %d given to objects of threads %d and %d", x.v->id(),
                                                        r.first->second[1], k));
      }
  };
  Violation bad;
  bool failed = false;
  auto body = [&](int k) {
    try
    {
      for(const Op * o : prog[(size_t)k])
      {
        sched::boundary();
        ++c.sh->opsRun;
        c.log("thread", k);
        step(*W[(size_t)k], *o, c);
        identities(k);
        c.sh->hash = c.hash;
      }
    }
    catch(const Violation & v)
    {
      bad = v;
      failed = true;
    }
    catch(const std::exception & e)
    {
      bad = {"unexpected-exception", e.what()};
      failed = true;
    }
    if(failed)
      sched::abandon();
  };
  auto st = sched::run(nt, body, plan);
  c.count("fault.preemption", (uint64_t)st.switches);
  c.count("fault.lock-contention", (uint64_t)st.contended);
  c.count("op.shared-access", (uint64_t)st.shared);
  c.count("op.access", (uint64_t)st.accesses);
  c.log("switches", st.switches);
  c.sig(st.hash);
  if(failed)
    c.fail(bad.cls, bad.msg);
  c.check(!st.deadlock, "deadlock", "no thread can run");
  if(st.switches > nt)
    c.count("nontrivial");
  // all live objects have different identities, and the collections say what they would say without the other threads
  std::set<int> ids;
  for(int k = 0; k < nt; ++k)
    for(auto & m : W[(size_t)k]->vv)
      if(m.v && !m.moved)
      {
        c.check(owner.count(m.v->id()) == 0, "identity", fmt("identity %d given to a variable and a collection", m.v->id()));
        c.check(ids.insert(m.v->id()).second, "identity", fmt("identity %d given to two collections", m.v->id()));
      }
  for(int k = 0; k < nt; ++k)
  {
    VarWorld & w = *W[(size_t)k];
    w.checkAll();
    for(auto & m : w.vv)
      if(m.v && !m.moved)
      {
        w.checkVV(m);
        for(const auto & x : w.h)
          if(x.v)
            w.query(*m.v, m.items, x, true);
      }
    for(auto & m : w.vc)
      w.checkVC(m);
  }
  W.clear();
  heap::end();
}
std::vector<const char *> threadKinds()
{
  auto k = KNAMES;
  k.push_back("preempt");
  return k;
}
WorldReg regT({"threads", genThreads, runThreads, threadKinds(),
               "tvm::Variable, Space, VariableVector, VariableCountingVector, RangeCounting, ObjWithId/IdProvider (real code, compiled "
               "with -fsanitize=thread instrumentation whose run-time calls are the yield points)",
               "the thread scheduler (real threads, one running at a time, switched at yield points by the plan), mutexes, guards of "
               "static locals, the heap",
               "a run is 2 to 4 seeded programs on objects of their own and a seeded plan of preemptions; non-trivial when there were "
               "more switches than threads; distinct by the hash of the event log",
               "distinct interleavings (hash of the sequence of switches with the number of accesses made)"});
PropReg propT({"C10", "threads", 40000, 1000000});
#else
const char * REAL = "tvm::Variable, Space, VariableVector, VariableCountingVector, RangeCounting (real code)";
const char * STUB = "the heap (simulated: placement, reuse and failures decided by the seed, freed memory poisoned)";
WorldReg reg13({"handles", gen13, run, KNAMES, REAL, STUB,
                "a run is a seeded history of creations, derivations, slices, writes, collections and drops of variables; "
                "non-trivial when a handle was obtained after others had been dropped; distinct by the hash of its event log",
                "distinct (derivative, kind, size, handles dropped) tuples of the handles obtained and (variables, size, collection) "
                "tuples seen at a query of a collection"});
WorldReg reg14({"mapping", gen14, run, KNAMES, REAL, STUB,
                "a run is a seeded history of creations, derivations, slices, writes, collections and drops of variables; "
                "non-trivial when a variable was looked up in a collection of at least two; distinct by the hash of its event log",
                "distinct (number of variables, size, collection) tuples seen at a query of a collection"});
PropReg prop13({"C13", "handles", 40000, 1500000});
PropReg prop14({"C14", "mapping", 40000, 1500000});
#endif
} // namespace
