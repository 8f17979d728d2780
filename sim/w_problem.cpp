#include <sstream>
// Worlds driving ControlProblem, LinearizedControlProblem and the resolution schemes: histories of edits, solves, moves
// of the variables and faults, judged against the optimisation problem the tasks describe. One executor, one profile
// (distribution of the operations and of the faults) per property.
#include "model.h"
#include <tvm/utils/memoryChecks.h>

using namespace sim;
using namespace sim::model;
using tvm::LinearizedControlProblem;
extern "C" int sim_trap;
namespace td = tvm::task_dynamics;
namespace rq = tvm::requirements;

namespace
{
enum Kind
{
  NEWTR,
  ADD,
  REMOVE,
  WEIGHT,
  ANISO,
  SOLVE,
  MOVE,
  FPARAM,
  GAIN,
  PBNEW,
  PBFROM,
  SCHNEW,
  FRESH,
  GUARD,
  HINTADD,
  HINTREM,
  ADDBAD,
  NKINDS
};
enum Profile
{
  EDIT,
  ASSEMBLY,
  SUBST,
  REQ,
  FAILURE,
  MULTI,
  HLS,
  MALLOC,
  OUTCOME
};
enum Fault
{
  NOFAULT,
  S_FAIL,
  S_FAILNAN,
  S_THROW,
  USERFN,
  CREATE,
  ALLOC
};
constexpr int NSLOT = 8, NPB = 3, NSCH = 3;

/** Forces Eigen's guard open for the harness, whatever the state the code under test left it in. */
struct Open
{
  Open() { tvm::utils::internal::set_is_malloc_allowed_(true), tvm::utils::internal::enforce_malloc_coherency(); }
};

struct HintM
{
  std::unique_ptr<tvm::hint::Substitution> h; // the user's handle
  std::vector<std::shared_ptr<TaskM>> tasks;
  std::vector<int> refs;
  int rank = 0;
};
struct PbM
{
  std::unique_ptr<LinearizedControlProblem> p;
  std::vector<std::shared_ptr<TaskM>> members;
  std::vector<HintM> hints;
  int gen = 0;
};
struct Pair
{ // what is known of a problem for a scheme
  bool attempted = false;
  int mayRefuse = 0;
  bool steady = false; // solved since the last change of structure
};

struct PWorld
{
  const Trace & t;
  Ctx & c;
  Profile prof;
  Vars vars;
  std::array<std::shared_ptr<TaskM>, NSLOT> slot;
  std::array<PbM, NPB> pb;
  std::array<SchemeM, NSCH> sch;
  std::array<std::array<Pair, NSCH>, NPB> pairs;
  int np = 1, ns = 1;
  bool anyHls = false, allHls = false, hintsOn = false;
  bool guard = true; // what the user wants during the solves
  int order = 0; // dominating order
  int solves = 0, okSolves = 0;
  std::set<const TaskM *> everRemoved;

  PWorld(const Trace & t, Ctx & c, Profile p) : t(t), c(c), prof(p) {}

  // ------------------------------------------------------------------------------------------------ construction
  void setup()
  {
    for(int b = 0; b < 5; ++b)
    {
      int n = static_cast<int>(t.c(fmt("b%d", b).c_str(), b < 2 ? 2 : 0));
      if(n > 0)
        vars.addBase(std::min(n, 8));
    }
    if(vars.base.empty())
      vars.addBase(2);
    for(int s = 0; s < 5; ++s)
    {
      int64_t e = t.c(fmt("s%d", s).c_str());
      int b = static_cast<int>(e / 100), st = static_cast<int>(e / 10 % 10), n = static_cast<int>(e % 10);
      if(n > 0 && b < static_cast<int>(vars.base.size()) && st + n <= vars.base[static_cast<size_t>(b)]->size())
        vars.addSub(b, st, n);
    }
    np = static_cast<int>(std::clamp<int64_t>(t.c("np", 1), 1, NPB));
    ns = static_cast<int>(std::clamp<int64_t>(t.c("ns", 1), 1, NSCH));
    hintsOn = t.c("hints") != 0;
    order = static_cast<int>(std::clamp<int64_t>(t.c("order"), 0, 2));
    for(int i = 0; i < np; ++i)
      pb[static_cast<size_t>(i)].p = std::make_unique<LinearizedControlProblem>();
    allHls = true;
    for(int i = 0; i < ns; ++i)
    {
      auto & s = sch[static_cast<size_t>(i)];
      auto g = [&](const char * k, int64_t d = 0) { return t.c(fmt("%s%d", k, i).c_str(), d); };
      s.backend = static_cast<int>(std::clamp<int64_t>(g("bk"), 0, 4));
      s.cholesky = g("chol") != 0;
      s.autoDamping = g("auto") != 0;
      s.feasibleFirst = g("ff") != 0;
      s.warm = g("warm") != 0;
      s.damping = 1e-12 * std::pow(10., static_cast<double>(std::clamp<int64_t>(g("damp"), 0, 9)));
      s.cholDamping = 1e-7 * std::pow(10., static_cast<double>(std::clamp<int64_t>(g("cdamp"), 0, 3)));
      static const double bigs[] = {1e20, 1e12, 1e16, 1e24};
      static const double obigs[] = {1e20, 1e14, 1e18, 1e26};
      s.big = bigs[std::clamp<int64_t>(g("big"), 0, 3)];
      s.optBig = obigs[std::clamp<int64_t>(g("obig"), 0, 3)];
      s.create();
      anyHls |= s.hls();
      allHls &= s.hls();
    }
    Rng r(t.seed ^ 77);
    vars.randomize(r);
  }

  Mat gainMat(Rng & r, int m, int form, double lo, double hi)
  {
    Mat K = Mat::Zero(m, m);
    if(form == 0)
      K.diagonal().setConstant(uni(r, lo, hi));
    else
      for(int i = 0; i < m; ++i)
        K(i, i) = uni(r, lo, hi);
    if(form == 2)
      for(int i = 0; i < m; ++i)
        for(int j = 0; j < i; ++j)
          K(i, j) = K(j, i) = uni(r, -0.1 * lo, 0.1 * lo);
    return K;
  }

  std::shared_ptr<Fn> newFn(Rng & r, int kind)
  {
    auto f = std::make_shared<Fn>();
    f->D = std::make_shared<FnData>();
    auto & D = *f->D;
    D.kind = kind;
    int nv = (kind == F_ID || kind == F_DIAG) ? 1 : static_cast<int>(r.range(1, 3));
    if(kind == F_LIN && r.chance(5))
    { // a function without variables
      nv = 0;
      c.count("probe.task-without-variables");
    }
    for(int k = 0; k < nv; ++k)
    {
      int i = static_cast<int>(r.below(static_cast<int64_t>(vars.refs.size())));
      const Ref & a = vars.refs[static_cast<size_t>(i)];
      bool overlap = false;
      for(int j : D.refs)
      {
        const Ref & b = vars.refs[static_cast<size_t>(j)];
        overlap |= a.base == b.base && a.start < b.start + b.size && b.start < a.start + a.size;
      }
      if(!overlap)
        D.refs.push_back(i);
    }
    D.m = kind == F_ID || kind == F_DIAG ? vars.refs[static_cast<size_t>(D.refs[0])].size
                                            : static_cast<int>(r.range(1, prof == SUBST || hintsOn ? 2 : 4));
    if(kind == F_DIAG)
      D.shape = static_cast<int>(r.chance(40) ? SH_DIAG : r.below(SH_SINGULAR));
    D.zeroB = (kind == F_DIAG || kind == F_LIN) && r.chance(10);
    if(kind == F_LIN && nv > 0 && r.chance(20))
    { // a first matrix of special shape
      D.m = vars.refs[static_cast<size_t>(D.refs[0])].size;
      D.shape = static_cast<int>(r.range(1, D.m > 1 && D.refs.size() > 1 && prof == SUBST ? SH_SINGULAR : SH_NEGATIVE));
      if(D.shape == SH_SINGULAR)
        D.low = 0;
    }
    else if(prof == SUBST && kind == F_LIN && D.refs.size() > 1 && r.chance(35))
    {
      int k = static_cast<int>(r.below(static_cast<int64_t>(D.refs.size())));
      if(std::min(D.m, vars.refs[static_cast<size_t>(D.refs[static_cast<size_t>(k)])].size) > 1)
        D.low = k;
    }
    fill(r, D);
    f->create(vars);
    return f;
  }
  static void shapeMatrix(Rng & r, const FnData & D, Mat & A)
  {
    A.setZero();
    double same = uni(r, 0.4, 2.4);
    for(int i = 0; i < D.m; ++i)
    {
      double v = uni(r, 0.4, 2.4);
      switch(D.shape)
      {
        case SH_IDENTITY:
        case SH_MINUS_IDENTITY:
          v = D.shape == SH_IDENTITY ? 1 : -1;
          break;
        case SH_MULTIPLE:
        case SH_NEGATIVE_MULTIPLE:
          v = D.shape == SH_MULTIPLE ? same : -same;
          break;
        case SH_POSITIVE:
          break;
        case SH_NEGATIVE:
          v = -v;
          break;
        case SH_SINGULAR:
          v = i == 0 ? 0 : v;
          break;
        default:
          if(r.chance(50))
            v = -v;
      }
      A(i, i) = v;
    }
  }
  void fill(Rng & r, FnData & D)
  {
    D.A.clear();
    D.B.clear();
    for(int k : D.refs)
    {
      int n = vars.refs[static_cast<size_t>(k)].size;
      Mat A = Mat::Zero(D.m, n), B = Mat::Zero(D.m, n);
      for(int i = 0; i < D.m; ++i)
        for(int j = 0; j < n; ++j)
        {
          double v = uni(r, -2, 2), w = uni(r, -0.5, 0.5);
          A(i, j) = v;
          B(i, j) = D.kind == F_NL ? w : 0;
        }
      if(D.kind == F_ID)
        A = Mat::Identity(D.m, n);
      if(D.kind == F_DIAG || (D.kind == F_LIN && D.shape > 0 && D.A.empty()))
        shapeMatrix(r, D, A);
      if(D.low == static_cast<int>(D.A.size()) && D.shape != SH_SINGULAR)
      { // one row depends on the others, exactly
        int d = static_cast<int>(r.below(D.m));
        A.row(d).setZero();
        if(D.m <= n)
        {
          if(r.chance(50))
            A.row(d) = A.row((d + 1) % D.m) * 2;
        }
        else
          A.col(0).setZero();
      }
      D.A.push_back(A);
      D.B.push_back(B);
    }
    D.d = Vec::Zero(D.m);
    if(D.kind != F_ID && !D.zeroB)
      for(int i = 0; i < D.m; ++i)
        D.d(i) = uni(r, -1, 1);
  }

  td::P::Gain pGain(const Mat & k, int form)
  {
    if(form == 0)
      return k(0, 0);
    if(form == 1)
      return Vec(k.diagonal());
    return k;
  }
  /** builds the real task from the model */
  tvm::Task makeTask(const TaskM & m)
  {
    auto build = [&](const td::abstract::TaskDynamics & d) {
      if(m.type == CType::DOUBLE_SIDED)
        return tvm::Task(m.fn->f, m.type, d, m.l, m.u);
      return tvm::Task(m.fn->f, m.type, d, m.type == CType::LOWER_THAN ? m.u : m.l);
    };
    switch(m.td)
    {
      case TD_NONE:
        return build(td::None());
      case TD_CONST:
        return build(td::Constant());
      case TD_P:
        if(m.gainForm == 0)
          return build(td::P(m.kp(0, 0)));
        if(m.gainForm == 1)
          return build(td::P(Vec(m.kp.diagonal())));
        return build(td::P(m.kp));
      case TD_PD:
        if(m.gainForm == 0)
          return build(td::PD(m.kp(0, 0), m.kv(0, 0)));
        if(m.gainForm == 1)
          return build(td::PD(Vec(m.kp.diagonal()), Vec(m.kv.diagonal())));
        if(m.gainForm == 3)
          return build(td::PD(m.kp, m.kv(0, 0)));
        if(m.gainForm == 4)
          return build(td::PD(m.kp(0, 0), Vec(m.kv.diagonal())));
        return build(td::PD(m.kp, m.kv));
      case TD_ONE1:
        return build(td::OneStepToZero(td::Order::One, m.dt));
      default:
        return build(td::OneStepToZero(td::Order::Two, m.dt));
    }
  }
  void drawGains(Rng & r, TaskM & m)
  {
    m.gainForm = static_cast<int>(r.below(m.td == TD_PD ? 5 : 3));
    static const int kpForm[] = {0, 1, 2, 2, 0}, kvForm[] = {0, 1, 2, 0, 1};
    if(m.type == CType::DOUBLE_SIDED) // coupling gains could invert the two sides
      m.gainForm = static_cast<int>(r.below(2));
    m.kp = gainMat(r, m.fn->D->m, kpForm[m.gainForm], 0.5, 3);
    m.kv = gainMat(r, m.fn->D->m, kvForm[m.gainForm], 0.5, 3);
  }
  std::shared_ptr<TaskM> newTask(int s, int64_t seed, std::shared_ptr<Fn> shared, int posture)
  {
    Rng r(static_cast<uint64_t>(seed) * 1000003 + 17);
    auto m = std::make_shared<TaskM>();
    m->slot = s;
    int o = r.chance(70) || posture ? order : static_cast<int>(r.below(3));
    bool subst = prof == SUBST || hintsOn;
    if(subst && r.chance(70))
      o = order;
    int kind = r.chance(20) ? F_ID : r.chance(20) ? F_DIAG : r.chance(55) || o == 0 ? F_LIN : F_NL;
    bool obj = prof == SUBST ? r.chance(40) : r.chance(55);
    if(posture)
    { // an objective on all of a variable
      obj = true;
      shared = std::make_shared<Fn>();
      shared->D = std::make_shared<FnData>();
      shared->D->kind = r.chance(50) ? F_ID : F_DIAG;
      shared->D->refs = {(posture - 1) % static_cast<int>(vars.base.size())};
      shared->D->m = vars.refs[static_cast<size_t>(shared->D->refs[0])].size;
      fill(r, *shared->D);
      shared->create(vars);
    }
    m->fn = shared && !(o == 0 && shared->D->kind == F_NL) ? shared : newFn(r, kind);
    auto & D = *m->fn->D;
    switch(o)
    {
      case 0:
        m->td = D.kind == F_ID && r.chance(30) ? TD_CONST : TD_NONE;
        break;
      case 1:
        m->td = r.chance(75) ? TD_P : TD_ONE1;
        break;
      default:
        m->td = r.chance(75) ? TD_PD : TD_ONE2;
    }
    m->order = o;
    int ty = static_cast<int>(r.below(4));
    static const CType types[] = {CType::EQUAL, CType::GREATER_THAN, CType::LOWER_THAN, CType::DOUBLE_SIDED};
    bool invalid = prof == FAILURE && r.chance(12);
    if(allHls)
    {
      m->prio = static_cast<int>(r.below(4));
      m->type = types[ty];
    }
    else
    {
      m->prio = obj ? 1 : 0;
      if(invalid && r.chance(30))
        m->prio = 2;
      m->type = m->prio >= 1 && !(invalid && r.chance(60)) ? CType::EQUAL : types[ty];
      if(m->prio == 0 && subst)
        m->type = r.chance(65) ? CType::EQUAL : types[1 + r.below(3)];
      else if(m->prio == 0 && m->type == CType::EQUAL && r.chance(50))
        m->type = types[1 + r.below(3)];
    }
    if(posture)
    {
      m->prio = std::max(1, m->prio);
      m->type = CType::EQUAL;
    }
    if(D.refs.empty())
    { // as a constraint, it would be infeasible or useless
      m->prio = std::max(1, m->prio);
      m->type = CType::EQUAL;
    }
    drawGains(r, *m);
    m->dt = uni(r, 0.1, 0.5);
    m->l1 = invalid && r.chance(40);
    m->l = m->u = Vec::Zero(D.m);
    for(int i = 0; i < D.m; ++i)
    {
      double a = uni(r, -1, 1), w = uni(r, 0.5, 4);
      m->l(i) = m->u(i) = a;
      if(m->type == CType::DOUBLE_SIDED)
      {
        m->l(i) = a - w;
        m->u(i) = a + w;
      }
      else if(m->type == CType::GREATER_THAN)
        m->l(i) = m->u(i) = a - 2 * w;
      else if(m->type == CType::LOWER_THAN)
        m->l(i) = m->u(i) = a + 2 * w;
    }
    rq::SolvingRequirements req;
    req.priorityLevel().value(m->prio);
    if(m->l1)
      req.violationEvaluation().value(rq::ViolationEvaluationType::L1);
    if(r.chance(50))
      req.weight() = rq::Weight(m->weight = weightOf(r));
    if(r.chance(30))
      req.anisotropicWeight() =
          rq::AnisotropicWeight(m->aniso = anisoOf(r, invalid && m->prio > 0 && r.chance(40) ? wrongSize(r, D.m) : D.m, m->prio));
    m->tr = std::make_shared<tvm::TaskWithRequirements>(makeTask(*m), req);
    return m;
  }
  double weightOf(Rng & r) { return r.chance(10) ? 1 : std::exp(uni(r, -2.3, 2.3)); }
  int wrongSize(Rng & r, int m) { return m == 1 || r.chance(50) ? m + 1 + static_cast<int>(r.below(2)) : m - 1; }
  static bool wrongAniso(const TaskM & m) { return m.aniso.size() && m.aniso.size() != m.fn->D->m; }
  Vec anisoOf(Rng & r, int m, int prio)
  {
    Vec w(m);
    for(int i = 0; i < m; ++i)
      w(i) = r.chance(10) ? 0 : uni(r, 0.1, 5);
    if(prof == SUBST || prio == 0) // a null weight at priority 0 has no meaning
      w.array() += 0.1;
    return w;
  }

  // ------------------------------------------------------------------------------------------------ queries
  PbM & P(int64_t i) { return pb[static_cast<size_t>(i < 0 ? 0 : i % np)]; }
  int pi(int64_t i) { return static_cast<int>(i < 0 ? 0 : i % np); }
  int si(int64_t i) { return static_cast<int>(i < 0 ? 0 : i % ns); }
  static bool in(const PbM & p, const TaskM * m)
  {
    for(auto & x : p.members)
      if(x.get() == m)
        return true;
    return false;
  }
  std::vector<std::shared_ptr<TaskM>> alive()
  {
    std::vector<std::shared_ptr<TaskM>> v;
    auto put = [&](const std::shared_ptr<TaskM> & m) {
      if(m && std::find(v.begin(), v.end(), m) == v.end())
        v.push_back(m);
    };
    for(auto & s : slot)
      put(s);
    for(auto & p : pb)
      for(auto & m : p.members)
        put(m);
    return v;
  }
  bool invalidFor(const TaskM & m, const SchemeM & s)
  {
    if(m.l1)
      return true;
    if(m.prio > 0 && wrongAniso(m))
      return true;
    if(s.hls())
      return false;
    return m.prio >= 2 || (m.prio == 1 && m.type != CType::EQUAL);
  }
  void structureChanged(int p, bool refusable)
  {
    for(int s = 0; s < ns; ++s)
    {
      auto & x = pairs[static_cast<size_t>(p)][static_cast<size_t>(s)];
      x.steady = false;
      if(x.attempted && refusable && sch[static_cast<size_t>(s)].hls())
        ++x.mayRefuse;
    }
  }
  void requirementChanged(const TaskM & m)
  {
    for(int p = 0; p < np; ++p)
      if(in(pb[static_cast<size_t>(p)], &m))
        for(int s = 0; s < ns; ++s)
        {
          auto & x = pairs[static_cast<size_t>(p)][static_cast<size_t>(s)];
          x.steady = false;
          if(x.attempted && (sch[static_cast<size_t>(s)].hls() || m.prio == 0))
            ++x.mayRefuse;
        }
  }
  /** does a hint of the problem use the task */
  HintM * hintOf(PbM & p, const TaskM * m)
  {
    for(auto & h : p.hints)
      for(auto & x : h.tasks)
        if(x.get() == m)
          return &h;
    return nullptr;
  }
  void checkMembers(PbM & p, const char * when)
  {
    const auto & tr = p.p->tasks();
    std::multiset<const void *> a, b;
    for(auto & x : tr)
      a.insert(x.get());
    for(auto & m : p.members)
      b.insert(m->tr.get());
    c.check(a == b, "membership", fmt("%s: the problem holds %zu tasks instead of %zu, or other ones", when, a.size(), b.size()));
    c.check(p.p->size() == static_cast<int>(p.members.size()), "membership", "wrong size");
    for(auto & m : p.members)
      c.check(p.p->constraintNoThrow(*m->tr) != nullptr, "membership",
              std::string(when) + ": a task of the problem has no constraint");
    c.check(p.p->constraintMap().size() == p.members.size(), "membership",
            fmt("%s: %zu constraints for %zu tasks", when, p.p->constraintMap().size(), p.members.size()));
    c.check(p.p->substitutions().substitutions().size() == p.hints.size(), "hints",
            fmt("%s: %zu hints instead of %zu", when, p.p->substitutions().substitutions().size(), p.hints.size()));
  }

  // ------------------------------------------------------------------------------------------------ edits
  void add(int p, std::shared_ptr<TaskM> m, bool byTask)
  {
    auto & q = pb[static_cast<size_t>(p)];
    if(byTask && q.members.size() < 9)
    { // let the problem create its own TaskWithRequirements
      rq::SolvingRequirements req;
      req.priorityLevel().value(m->prio);
      if(m->l1)
        req.violationEvaluation().value(rq::ViolationEvaluationType::L1);
      auto & R = m->tr->requirements;
      if(!R.weight().isDefault())
        req.weight() = rq::Weight(m->weight);
      if(!R.anisotropicWeight().isDefault())
        req.anisotropicWeight() = rq::AnisotropicWeight(m->aniso);
      auto copy = std::make_shared<TaskM>(*m);
      copy->tr = q.p->add(m->tr->task, req);
      q.members.push_back(copy);
      c.count("op.add-task");
    }
    else
    {
      q.p->add(m->tr);
      q.members.push_back(m);
      c.count(everRemoved.count(m.get()) ? "op.re-add" : "op.add");
    }
    structureChanged(p, true);
    checkMembers(q, "after an addition");
  }

  void removeMember(int p, size_t k)
  {
    auto & q = pb[static_cast<size_t>(p)];
    auto m = q.members[k];
    HintM * h = hintOf(q, m.get());
    bool simple = h && h->tasks.size() == 1 && h->refs.size() == 1;
    bool refused = false;
    try
    {
      q.p->remove(*m->tr);
    }
    catch(const std::runtime_error & e)
    {
      refused = true;
      c.note(e.what());
    }
    if(h && !simple)
    {
      c.check(refused, "remove-of-hinted-task", "removing a task used by a group hint was not refused");
      c.count("probe.refused-removal");
    }
    else
    {
      c.check(!refused, "remove-refused", "removing a task was refused");
      if(h)
        for(size_t i = 0; i < q.hints.size(); ++i)
          if(&q.hints[i] == h)
          {
            q.hints.erase(q.hints.begin() + static_cast<long>(i));
            break;
          }
      q.members.erase(q.members.begin() + static_cast<long>(k));
      everRemoved.insert(m.get());
      structureChanged(p, true);
      c.count("op.remove");
    }
    checkMembers(q, "after a removal");
  }

  /** a hint that makes no sense: refused when it is built, so that the problem is left as it is */
  bool addBadHint(PbM & q, Rng & r)
  {
    if(q.members.empty())
      return false;
    auto m = q.members[static_cast<size_t>(r.below(static_cast<int64_t>(q.members.size())))];
    auto cstr = q.p->constraint(*m->tr);
    std::vector<tvm::LinearConstraintPtr> cs{cstr};
    std::vector<tvm::VariablePtr> xs;
    for(auto & x : cstr->variables())
      xs.push_back(x);
    if(xs.empty())
      return false;
    int n = cstr->variables().totalSize();
    const char * what = nullptr;
    switch(r.below(6))
    {
      case 0:
        xs.clear();
        what = "without variables";
        break;
      case 1:
        cs.clear();
        what = "without constraints";
        break;
      case 2:
        cs.clear();
        xs.clear();
        what = "without anything";
        break;
      case 3:
        xs.push_back(tvm::Space(cstr->size()).createVariable("foreign"));
        what = "of a variable that is not in the constraint";
        break;
      case 4:
        xs.push_back(xs.front());
        what = "of the same variable twice";
        break;
      default:
        while(n >= cstr->size() * static_cast<int>(cs.size()))
          cs.push_back(cstr);
        what = "with more equations than unknowns";
    }
    bool refused = false;
    try
    {
      q.p->add(tvm::hint::Substitution(cs, xs));
    }
    catch(const std::exception &)
    {
      refused = true;
    }
    c.check(refused, "bad-hint-accepted", std::string("a hint ") + what + " was accepted");
    c.count("fault.refused-hint");
    checkMembers(q, "after a refused hint");
    return true;
  }

  /** a task that cannot be linearised: adding it must be refused and leave the problem as it is */
  void addBad(int p, int64_t seed, int where)
  {
    auto & q = pb[static_cast<size_t>(p)];
    Rng r(static_cast<uint64_t>(seed));
    if((where >> 1) % 3 == 0 && addBadHint(q, r))
      return;
    auto f = newFn(r, F_NL);
    tvm::TaskWithRequirementsPtr tr;
    try
    {
      tr = std::make_shared<tvm::TaskWithRequirements>(tvm::Task(f->f, CType::EQUAL, td::Constant()), rq::SolvingRequirements{});
    }
    catch(const std::exception &)
    {
      return;
    }
    bool refused = false;
    try
    {
      if(where % 2)
        q.p->add(tr->task, {});
      else
        q.p->add(tr);
    }
    catch(const std::exception & e)
    {
      refused = true;
    }
    c.check(refused, "bad-task-accepted", "a nonlinear function was accepted without task dynamics");
    c.count("fault.refused-addition");
    checkMembers(q, "after a refused addition");
    std::weak_ptr<tvm::TaskWithRequirements> w = tr;
    tr.reset();
    c.check(w.expired(), "refused-task-kept", "the problem keeps a task whose addition it refused");
  }

  void changeWeight(int64_t which, int form, int64_t seed)
  {
    auto v = alive();
    if(v.empty())
      return;
    auto m = v[static_cast<size_t>(which) % v.size()];
    Rng r(static_cast<uint64_t>(seed));
    double w = weightOf(r);
    auto & W = m->tr->requirements.weight();
    switch(form % 4)
    {
      case 0:
        W.value(w);
        break;
      case 1:
        W = w;
        break;
      case 2:
        W = rq::Weight(w);
        break;
      default:
        W = rq::Weight();
        w = 1;
    }
    m->weight = w;
    requirementChanged(*m);
    c.count("op.weight");
  }
  void changeAniso(int64_t which, int form, int64_t seed)
  {
    auto v = alive();
    if(v.empty())
      return;
    auto m = v[static_cast<size_t>(which) % v.size()];
    Rng r(static_cast<uint64_t>(seed));
    if(r.chance(60)) // a weight of the wrong size is soon corrected
      for(auto & x : v)
        if(wrongAniso(*x))
          m = x;
    bool wrong = prof == FAILURE && !wrongAniso(*m) && m->prio > 0 && r.chance(15);
    if(wrong)
      c.count("fault.weight-of-wrong-size");
    else if(wrongAniso(*m))
      c.count("probe.weight-of-wrong-size-corrected");
    Vec w = anisoOf(r, wrong ? wrongSize(r, m->fn->D->m) : m->fn->D->m, m->prio);
    auto & W = m->tr->requirements.anisotropicWeight();
    switch(form % 4)
    {
      case 0:
        W.value(w);
        break;
      case 1:
        W = w;
        break;
      case 2:
        W = rq::AnisotropicWeight(w);
        break;
      default:
        W = rq::AnisotropicWeight();
        w.resize(0);
    }
    m->aniso = w;
    requirementChanged(*m);
    c.count("op.anisotropic-weight");
  }
  void changeParam(int64_t which, int64_t seed)
  {
    auto v = alive();
    if(v.empty())
      return;
    auto m = v[static_cast<size_t>(which) % v.size()];
    if(m->fn->D->kind == F_ID)
      return;
    Rng r(static_cast<uint64_t>(seed));
    fill(r, *m->fn->D);
    m->fn->push(vars);
    c.count("op.function-parameters");
  }
  void changeGain(int64_t which, int64_t seed)
  {
    auto v = alive();
    if(v.empty())
      return;
    auto m = v[static_cast<size_t>(which) % v.size()];
    // several models may stand for the same task dynamics object (task added to a problem by value)
    if(m->td != TD_P && m->td != TD_PD)
      return;
    Rng r(static_cast<uint64_t>(seed));
    drawGains(r, *m);
    auto one = [&](bool second) {
      if(m->td == TD_P)
      {
        auto g = second ? m->tr->task.secondBoundTaskDynamics<td::P>() : m->tr->task.taskDynamics<td::P>();
        if(m->gainForm == 0)
          g->gain(m->kp(0, 0));
        else if(m->gainForm == 1)
          g->gain(Vec(m->kp.diagonal()));
        else
          g->gain(m->kp);
      }
      else
      {
        auto g = second ? m->tr->task.secondBoundTaskDynamics<td::PD>() : m->tr->task.taskDynamics<td::PD>();
        switch(m->gainForm)
        {
          case 0:
            g->gains(m->kp(0, 0), m->kv(0, 0));
            break;
          case 1:
            g->gains(Vec(m->kp.diagonal()), Vec(m->kv.diagonal()));
            break;
          case 3:
            g->gains(m->kp, m->kv(0, 0));
            break;
          case 4:
            g->gains(m->kp(0, 0), Vec(m->kv.diagonal()));
            break;
          default:
            g->gains(m->kp, m->kv);
        }
      }
    };
    one(false);
    if(m->type == CType::DOUBLE_SIDED)
      one(true);
    for(auto & x : v)
      if(x != m && x->tr->task.taskDynamics() == m->tr->task.taskDynamics())
      {
        x->kp = m->kp;
        x->kv = m->kv;
        x->gainForm = m->gainForm;
      }
    c.count("op.gain");
  }

  // ------------------------------------------------------------------------------------------------ hints
  bool overlaps(const Ref & a, const Ref & b)
  { return a.base == b.base && a.start < b.start + b.size && b.start < a.start + a.size; }
  void hintAdd(int p, int64_t seed)
  {
    auto & q = pb[static_cast<size_t>(p)];
    Rng r(static_cast<uint64_t>(seed));
    std::vector<std::shared_ptr<TaskM>> cand;
    for(auto & m : q.members)
      if(m->prio == 0 && m->type == CType::EQUAL && !hintOf(q, m.get()))
        cand.push_back(m);
    if(cand.empty())
      return;
    HintM h;
    h.tasks.push_back(cand[static_cast<size_t>(r.below(static_cast<int64_t>(cand.size())))]);
    if(cand.size() > 1 && r.chance(30))
    {
      auto m = cand[static_cast<size_t>(r.below(static_cast<int64_t>(cand.size())))];
      if(m != h.tasks[0] && m->order == h.tasks[0]->order)
        h.tasks.push_back(m);
    }
    // variables: appearing in the constraints, not substituted by another hint (nor overlapping)
    std::vector<int> vs;
    for(auto & m : h.tasks)
      for(int k : m->fn->D->refs)
      {
        bool bad = false;
        for(auto & o : q.hints)
          for(int x : o.refs)
            bad |= o.tasks[0]->order == m->order && overlaps(vars.refs[static_cast<size_t>(x)], vars.refs[static_cast<size_t>(k)]);
        for(int x : vs)
          bad |= overlaps(vars.refs[static_cast<size_t>(x)], vars.refs[static_cast<size_t>(k)]);
        if(!bad)
          vs.push_back(k);
      }
    if(vs.empty())
      return;
    h.refs.push_back(vs[static_cast<size_t>(r.below(static_cast<int64_t>(vs.size())))]);
    if(vs.size() > 1 && r.chance(35))
    {
      int k = vs[static_cast<size_t>(r.below(static_cast<int64_t>(vs.size())))];
      if(k != h.refs[0])
        h.refs.push_back(k);
    }
    for(auto & x : h.tasks)
    { // each constraint contains one of the variables
      bool has = false;
      for(int a : x->fn->D->refs)
        for(int b : h.refs)
        {
          const Ref &A = vars.refs[static_cast<size_t>(a)], &B = vars.refs[static_cast<size_t>(b)];
          has |= A.base == B.base && A.start <= B.start && B.start + B.size <= A.start + A.size;
        }
      if(!has)
        return;
    }
    int m = 0, n = 0;
    for(auto & x : h.tasks)
      m += x->fn->D->m;
    for(int k : h.refs)
      n += vars.refs[static_cast<size_t>(k)].size;
    // the declared rank: that of the matrix, which must be well conditioned at that rank
    if(m > n) // precondition of Substitution
      return;
    h.rank = m;
    if(h.tasks.size() == 1 && h.tasks[0]->fn->D->low >= 0)
    { // exactly rank deficient matrix
      Mat A = hintMatrix({&h});
      for(int k = m; k > 0 && smin(A, k) < 1e-9; --k)
        h.rank = k - 1;
      if(h.rank == 0)
        return;
    }
    if(conditioning(q.hints, &h) < 0.05)
      return;
    std::vector<tvm::LinearConstraintPtr> cs;
    std::vector<tvm::VariablePtr> xs;
    for(auto & x : h.tasks)
      cs.push_back(q.p->constraint(*x->tr));
    for(int k : h.refs)
    {
      auto v = vars.refs[static_cast<size_t>(k)].v;
      int o = h.tasks[0]->order;
      xs.push_back(o ? tvm::dot(v, o) : v);
    }
    int rank = h.rank == m && r.chance(60) ? tvm::constant::fullRank : h.rank;
    if(cs.size() == 1 && xs.size() == 1)
      h.h = std::make_unique<tvm::hint::Substitution>(cs[0], xs[0], rank);
    else if(cs.size() == 1)
      h.h = std::make_unique<tvm::hint::Substitution>(cs[0], xs, rank);
    else if(xs.size() == 1)
      h.h = std::make_unique<tvm::hint::Substitution>(cs, xs[0], rank);
    else
      h.h = std::make_unique<tvm::hint::Substitution>(cs, xs, rank);
    q.p->add(*h.h);
    q.hints.push_back(std::move(h));
    structureChanged(p, false);
    c.count("op.hint-add");
    if(q.hints.back().rank < m)
      c.count("probe.hint-rank-deficient");
    checkMembers(q, "after adding a hint");
  }
  static double smin(const Mat & A, int rank)
  {
    if(rank <= 0 || A.size() == 0)
      return 0;
    Eigen::JacobiSVD<Mat> svd(A);
    return svd.singularValues().size() < rank ? 0 : svd.singularValues()(rank - 1);
  }
  /** of the elimination by each hint, and by all of them together (interdependent ones are solved jointly) */
  double conditioning(const std::vector<HintM> & hints, const HintM * more = nullptr)
  {
    std::vector<const HintM *> all;
    for(auto & h : hints)
      all.push_back(&h);
    if(more)
      all.push_back(more);
    double cond = 1;
    int rank = 0;
    bool deficient = false;
    for(auto h : all)
    {
      int m = 0;
      for(auto & x : h->tasks)
        m += x->fn->D->m;
      if(m != h->rank)
      { // only when it does not have to be solved jointly with another one
        deficient = true;
        for(auto o : all)
          if(o != h && o->tasks[0]->order == h->tasks[0]->order)
            for(auto & x : h->tasks)
              for(int k : x->fn->D->refs)
                for(int l : o->refs)
                  if(overlaps(vars.refs[static_cast<size_t>(k)], vars.refs[static_cast<size_t>(l)]))
                    return 0;
      }
      cond = std::min(cond, smin(hintMatrix({h}), h->rank));
      rank += h->rank;
    }
    if(all.size() > 1 && !deficient)
      cond = std::min(cond, smin(hintMatrix(all), rank));
    return cond;
  }
  Mat hintMatrix(const std::vector<const HintM *> & hs)
  {
    std::vector<int> cols;
    std::vector<Row> rows;
    for(auto h : hs)
    {
      for(int k : h->refs)
      {
        const Ref & r = vars.refs[static_cast<size_t>(k)];
        for(int i = 0; i < r.size; ++i)
          cols.push_back(Vars::coord(r.base, h->tasks[0]->order, r.start + i));
      }
      for(auto & m : h->tasks)
      {
        auto l = linearise(*m, vars);
        rows.insert(rows.end(), l.begin(), l.end());
      }
    }
    Mat A = Mat::Zero(static_cast<long>(rows.size()), static_cast<long>(cols.size()));
    for(size_t i = 0; i < rows.size(); ++i)
      for(size_t j = 0; j < cols.size(); ++j)
        if(rows[i].a.count(cols[j]))
          A(static_cast<long>(i), static_cast<long>(j)) = rows[i].a[cols[j]];
    return A;
  }
  void hintRemove(int p, int64_t which)
  {
    auto & q = pb[static_cast<size_t>(p)];
    if(q.hints.empty())
      return;
    size_t k = static_cast<size_t>(which) % q.hints.size();
    q.p->remove(*q.hints[k].h);
    q.hints.erase(q.hints.begin() + static_cast<long>(k));
    structureChanged(p, false);
    c.count("op.hint-remove");
    checkMembers(q, "after removing a hint");
  }

  // ------------------------------------------------------------------------------------------------ solving
  std::string describe(int p, int s)
  {
    std::string d = fmt("problem %d scheme %d (back-end %d):", p, s, sch[static_cast<size_t>(s)].backend);
    for(auto & m : pb[static_cast<size_t>(p)].members)
    {
      d += fmt(" {slot %d f%d type %d td %d prio %d m %d refs", m->slot, m->fn->D->kind, static_cast<int>(m->type), m->td, m->prio,
               m->fn->D->m);
      for(int k : m->fn->D->refs)
        d += fmt(" %d.%d+%d", vars.refs[static_cast<size_t>(k)].base, vars.refs[static_cast<size_t>(k)].start,
                 vars.refs[static_cast<size_t>(k)].size);
      d += fmt(" w %.3g%s}", m->weight, m->aniso.size() ? " aniso" : "");
    }
    return d;
  }

  /** One solve, with everything it must satisfy. */
  void solve(LinearizedControlProblem & rp, std::vector<std::shared_ptr<TaskM>> & members, std::vector<HintM> & hints, SchemeM & s,
             Pair & pair, int fault, int64_t arg, const std::string & what, std::vector<Vec> * keep = nullptr)
  {
    auto & H = num::hub();
    auto before = vars.snapshot();
    auto S = state(members, vars);
    std::set<int> unk;
    for(auto & m : members)
      unknowns(*m, vars, unk);
    bool invalid = false;
    bool invalidHinted = false; // a constraint used by a substitution is never handed to the scheme
    for(auto & m : members)
    {
      bool used = std::any_of(hints.begin(), hints.end(), [&](const HintM & h) {
        return std::any_of(h.tasks.begin(), h.tasks.end(), [&](const std::shared_ptr<TaskM> & t) { return t->order == m->order; });
      });
      (used ? invalidHinted : invalid) |= invalidFor(*m, s);
    }
    bool hinted = !hints.empty();
    // a variable used by a task that is a strict part of a substituted variable is documented as refused
    bool coarse = false;
    for(auto & h : hints)
      for(int x : h.refs)
        for(auto & m : members)
          for(int k : m->fn->D->refs)
          {
            const Ref &a = vars.refs[static_cast<size_t>(x)], &b = vars.refs[static_cast<size_t>(k)];
            coarse |= h.tasks[0]->order == m->order && overlaps(a, b) && !(b.start <= a.start && a.start + a.size <= b.start + b.size);
          }
    double cond = conditioning(hints);

    // faults
    std::shared_ptr<FnData> armed;
    uint64_t created = H.created;
    H.calls.clear();
    H.next = num::OK;
    if(fault == S_FAIL || fault == S_FAILNAN || fault == S_THROW)
      H.next = fault == S_FAIL ? num::FAIL : fault == S_FAILNAN ? num::FAILNAN : num::THROW;
    if(fault == USERFN)
    {
      std::vector<std::shared_ptr<FnData>> nl;
      for(auto & m : members)
        if(m->fn->D->kind == F_NL)
          nl.push_back(m->fn->D);
      if(!nl.empty())
      {
        armed = nl[static_cast<size_t>(arg / 4) % nl.size()];
        armed->armed = static_cast<int>(arg % 3) + 1;
        armed->fired = false;
      }
    }
    if(fault == CREATE)
      H.constructFail = 1;

    bool ret = false, threw = false, oom = false, user = false, alien = false;
    std::string err;
    const bool g = guard;
    bool gAfter = true;
    int64_t e0 = 0, e1 = 0;
    tvm::utils::set_is_malloc_allowed(g);
    e0 = heap::eigenAllocCount() - H.eigenAllocs;
    if(fault == ALLOC)
      heap::failAt(1 + arg % 400);
    sim_trap = pair.steady;
    try
    {
      ret = s.solve(rp);
    }
    catch(const Violation &)
    {
      tvm::utils::set_is_malloc_allowed(true);
      heap::failAt(0);
      throw;
    }
    catch(const std::bad_alloc &)
    {
      threw = oom = true;
    }
    catch(const UserError &)
    {
      threw = user = true;
    }
    catch(const std::exception & e)
    {
      threw = true;
      heap::NoFault nf;
      err = e.what();
    }
    catch(...)
    {
      threw = alien = true;
    }
    sim_trap = 0;
    heap::failAt(0);
    bool allocFired = fault == ALLOC && heap::fired();
    e1 = heap::eigenAllocCount() - H.eigenAllocs;
    gAfter = Eigen::internal::is_malloc_allowed();
    bool gTvm = tvm::utils::internal::is_malloc_allowed_();
    Open open;
    H.next = num::OK;
    H.constructFail = 0;
    bool userFired = armed && armed->fired;
    if(armed)
      armed->armed = 0;
    ++solves;
    bool didCreate = H.created != created;
    c.log("solve", fault * 100 + threw * 10 + ret);
    c.log("calls", static_cast<int64_t>(H.calls.size()));
    if(c.verbose)
      c.note(what + (threw ? " threw " + err : fmt(" returned %d", ret)));

    c.check(gAfter == g && gTvm == g, "guard-not-restored",
            fmt("%s: the user set the guard to %d, after the solve it is %d", what.c_str(), g, gAfter));
    c.check(!alien, "unknown-exception", what);

    // who may or must have failed
    bool stubThrow = fault == S_THROW && !H.calls.empty() && H.calls.back().outcome == num::THROW;
    if(fault == S_THROW && stubThrow)
      c.count("fault.solver-throws");
    if(fault == CREATE && didCreate)
      c.count("fault.backend-creation-fails");
    if(userFired)
      c.count("fault.user-function-throws");
    if(allocFired)
      c.count("fault.allocation-fails");
    bool was = pair.attempted;
    pair.attempted = true;
    if(threw)
    {
      pair.steady = false;
      if(userFired)
        c.check(user, "user-exception-replaced", what + ": the exception of the user's function does not reach the caller");
      else if(user)
        c.fail("unexpected-exception", what);
      bool expected = userFired || invalid || stubThrow || allocFired || (fault == CREATE && didCreate) || coarse || cond < 0.05 || invalidHinted;
      if(!expected)
      {
        c.check(pair.mayRefuse > 0, "unexpected-exception", what + ": " + err + (oom ? " bad_alloc" : "") + " -- ");
        --pair.mayRefuse;
        c.count("probe.online-change-refused");
      }
      for(size_t k = 0, n = vars.base.size(); k < n; ++k)
        for(int d = 0; d < Vars::ND; ++d)
          for(int i = 0; i < vars.base[k]->size(); ++i)
          {
            int co = Vars::coord(static_cast<int>(k), d, i);
            if(!unk.count(co))
              c.check(vars.get(co) == before[k * Vars::ND + static_cast<size_t>(d)](i), "modified-by-failed-solve", what);
          }
      (void)was;
      finish(before, keep);
      return;
    }
    c.check(!userFired, "user-exception-swallowed", what);
    c.check(!stubThrow, "solver-exception-swallowed", what);
    c.check(!(fault == CREATE && didCreate), "creation-failure-swallowed", what);
    c.check(!invalid, "invalid-task-accepted", what + ": a requirement the scheme does not support was accepted " + describeInvalid(members, s));
    pair.mayRefuse = 0;

    if(members.empty())
    {
      c.check(ret, "empty-problem", what + ": solving an empty problem fails");
      for(auto & k : H.calls)
        c.check(k.n == 0, "empty-problem", what + ": the solver is asked for variables of no task");
      checkOthers(before, unk, what);
      finish(before, keep);
      return;
    }
    size_t expectedCalls = 1;
    if(hinted && H.calls.empty())
      expectedCalls = 0; // everything may have been substituted
    c.check(H.calls.size() == expectedCalls, "number-of-calls",
            fmt("%s: the numerical solver was called %zu times", what.c_str(), H.calls.size()));
    bool ok = true;
    if(!H.calls.empty())
    {
      auto & k = H.calls.back();
      ok = k.ok;
      c.check(H.wiring.empty(), "wiring", what + ": " + H.wiring);
      c.check(ret == k.ok, "outcome", fmt("%s: solve returned %d but the numerical solver %s", what.c_str(), ret, k.ok ? "succeeded" : "failed"));
      if(!k.ok && k.outcome != num::OK)
        c.count(k.outcome == num::FAILNAN ? "fault.solver-fails-nan" : "fault.solver-fails");
      else if(!k.ok)
        c.count("probe.infeasible");
      std::string b = checkBig(k, s);
      c.check(b.empty(), "large-number", what + ": " + b);
      if(!hinted)
      {
        // columns
        std::map<int, int> col;
        const auto & vv = s.variables(rp);
        int at = 0;
        for(const auto & v : vv.variables())
        {
          auto cs = vars.coords(*v);
          c.check(static_cast<int>(cs.size()) == v->size(), "columns", what + ": unknown variable " + v->name());
          for(int x : cs)
          {
            c.check(!col.count(x), "columns", what + ": a variable has two columns");
            col[x] = at++;
          }
        }
        std::set<int> have;
        for(auto & x : col)
          have.insert(x.first);
        c.check(have == unk, "columns", fmt("%s: %zu unknowns instead of %zu, or other ones", what.c_str(), have.size(), unk.size()));
        c.check(k.n == at, "columns", fmt("%s: the solver is given %d unknowns instead of %d", what.c_str(), k.n, at));
        std::string d = s.hls() ? compareHLS(S, k, s, col) : compareWLS(S, k, s, col);
        c.check(d.empty(), "wrong-problem", what + ": " + d);
        c.count("nontrivial");
        uint64_t sg = mix64(static_cast<uint64_t>(s.backend * 31 + k.n));
        for(auto & m : members)
          sg += mix64(static_cast<uint64_t>(((m->fn->D->kind * 4 + static_cast<int>(m->type)) * 6 + m->td) * 4 + m->prio)
                      * (m->aniso.size() ? 3 : 1) * static_cast<uint64_t>(m->fn->D->m));
        c.sig(sg);
        for(auto & x : col)
          if(k.ok)
          {
            double got = vars.get(x.first), exp = k.x(x.second);
            c.check(got == exp || (std::isnan(got) && std::isnan(exp)), "write-back",
                    fmt("%s: a variable holds %.17g, its part of the solution is %.17g", what.c_str(), got, exp));
          }
        for(int i = 0; i < k.x.size() && k.ok; ++i)
          c.logd("x", std::abs(k.x(i)) < 1e-9 ? 0 : k.x(i));
      }
    }
    else
      c.check(ret, "outcome", what + ": failure without calling the solver");
    checkOthers(before, unk, what);
    if(ok)
    {
      ++okSolves;
      for(int x : unk)
        c.check(std::isfinite(vars.get(x)), "unset-variable", what + ": an unknown does not hold a part of the solution");
    }
    if(hinted || prof == SUBST)
      compareOptimum(S, unk, ok, cond, hints, what, H.calls.empty() ? nullptr : &H.calls.back(), s);

    if(prof == MALLOC && pair.steady && !hinted && fault != ALLOC)
    {
      c.check(e1 == e0, "allocation-in-steady-state", fmt("%s: %lld matrices allocated though the structure did not change", what.c_str(),
                                                            static_cast<long long>(e1 - e0)));
      c.count("probe.steady-solve");
    }
    else if(pair.steady && prof == MALLOC && fault != ALLOC)
      c.check(e1 == e0, "allocation-in-steady-state", fmt("%s: %lld matrices allocated (with hints)", what.c_str(), static_cast<long long>(e1 - e0)));
    pair.steady = true;
    finish(before, keep);
  }
  std::string describeInvalid(const std::vector<std::shared_ptr<TaskM>> & ms, const SchemeM & s)
  {
    for(auto & m : ms)
      if(invalidFor(*m, s))
        return fmt("(slot %d priority %d type %d%s%s)", m->slot, m->prio, static_cast<int>(m->type), m->l1 ? " L1" : "",
                   wrongAniso(*m) ? " anisotropic weight of wrong size" : "");
    return "";
  }
  void checkOthers(const std::vector<Vec> & before, const std::set<int> & unk, const std::string & what)
  {
    for(size_t k = 0, n = vars.base.size(); k < n; ++k)
      for(int d = 0; d < Vars::ND; ++d)
        for(int i = 0; i < vars.base[k]->size(); ++i)
        {
          int co = Vars::coord(static_cast<int>(k), d, i);
          if(!unk.count(co))
            c.check(vars.get(co) == before[k * Vars::ND + static_cast<size_t>(d)](i), "modified-non-unknown",
                    fmt("%s: variable x%zu derivative %d component %d is not an unknown but was modified", what.c_str(), k, d, i));
        }
  }
  void finish(const std::vector<Vec> & before, std::vector<Vec> * keep)
  {
    if(keep)
      *keep = vars.snapshot();
    vars.restore(before);
  }

  /** with hints: the variables hold the optimum of the problem stated without them */
  void compareOptimum(const Stated & S, const std::set<int> & unk, bool ok, double cond, std::vector<HintM> & hints,
                      const std::string & what, const num::Call * call, SchemeM & s)
  {
    if(cond < 0.05)
    {
      c.count("probe.skipped-ill-conditioned");
      return;
    }
    if(call && call->outcome != num::OK)
      return;
    std::map<int, int> col;
    for(int x : unk)
      col[x] = static_cast<int>(col.size());
    int n = static_cast<int>(col.size());
    Mat He = Mat::Zero(n, n);
    Vec ce = Vec::Zero(n);
    for(auto & L : S.levels)
      for(auto & r : L.second)
      {
        Vec a = dense(r, col, n);
        He += r.w * a * a.transpose();
        ce -= r.w * r.l * a;
      }
    Eigen::SelfAdjointEigenSolver<Mat> es;
    if(n > 0)
      es.compute(He);
    if(n == 0 || es.eigenvalues()(0) < 1e-2)
    {
      c.count("probe.skipped-not-strictly-convex");
      return;
    }
    // the option damps the problem on purpose; the objective may be scaled down by 1e-6 as a whole
    double damp = s.backend == B_QUADPROG ? std::max(s.damping, s.cholDamping * s.cholDamping) : s.backend == B_QLD ? s.cholDamping * s.cholDamping : 0;
    damp *= 1e6 / es.eigenvalues()(0);
    if(damp > 1e-3)
    {
      c.count("probe.skipped-damped");
      return;
    }
    int meq = 0, mi = 0;
    for(auto & r : S.rows0)
      (r.l == r.u ? meq : mi)++;
    Mat Aeq(meq, n), A(mi, n);
    Vec beq(meq), l(mi), u(mi);
    meq = mi = 0;
    for(auto & r : S.rows0)
      if(r.l == r.u)
      {
        Aeq.row(meq) = dense(r, col, n).transpose();
        beq(meq++) = r.l;
      }
      else
      {
        A.row(mi) = dense(r, col, n).transpose();
        l(mi) = r.l;
        u(mi++) = r.u;
      }
    if(meq && smin(Aeq, meq) < 0.03)
    {
      c.count("probe.skipped-degenerate");
      return;
    }
    Vec inf = Vec::Constant(n, INF);
    num::QPResult q;
    if(s.hls())
    {
      if(!lexReference(S, Aeq, beq, A, l, u, col, n, q.x))
      {
        c.count("probe.skipped-hierarchy");
        return;
      }
      q.ok = true;
    }
    else
      q = num::solveQP(He, ce, Aeq, beq, A, l, u, -inf, inf);
    if(!q.ok)
    {
      c.count("probe.skipped-reference-infeasible");
      return;
    }
    // not at the brink of infeasibility
    if(mi && !s.hls())
    {
      Vec lt = (l.array() > -1e10).select(l.array() + 1e-3 * (1 + l.array().abs()), l);
      Vec ut = (u.array() < 1e10).select(u.array() - 1e-3 * (1 + u.array().abs()), u);
      if((lt.array() >= ut.array()).any() || !num::solveQP(He, ce, Aeq, beq, A, lt, ut, -inf, inf).ok)
      {
        c.count("probe.skipped-brink");
        return;
      }
    }
    c.check(ok, "feasible-problem-not-solved", what + ": the problem is feasible but could not be solved");
    if(q.x.cwiseAbs().maxCoeff() > 100)
    {
      c.count("probe.skipped-large-solution");
      return;
    }
    if(getenv("SIM_DUMPLEX"))
    {
      Vec g(n);
      for(auto & x : col)
        g(x.second) = vars.get(x.first);
      std::ostringstream ss;
      auto say = [&](const char * w, const Vec & y) {
        ss << w << " " << y.transpose() << "\n  cost " << 0.5 * y.dot(He * y) + ce.dot(y) << " eq " << (Aeq * y - beq).transpose() << " slack l " << (A * y - l).transpose()
           << " u " << (u - A * y).transpose() << "\n";
      };
      say("reference", q.x);
      say("got", g);
      fputs(ss.str().c_str(), stderr);
    }
    double tol = (1e-4 + 5 * damp) * (1 + q.x.cwiseAbs().maxCoeff());
    if(s.cholesky)
      tol *= 20;
    for(auto & x : col)
    {
      double got = vars.get(x.first), exp = q.x(x.second);
      c.check(std::abs(got - exp) <= tol, "different-optimum",
              fmt("%s with %zu hints: a variable holds %.9g instead of %.9g", what.c_str(), hints.size(), got, exp));
    }
    // the constraints used for the substitutions hold
    for(auto & h : hints)
      for(auto & m : h.tasks)
        for(auto & r : rowsAt(*m))
        {
          double v = 0;
          for(auto & a : r.a)
            v += a.second * vars.get(a.first);
          c.check(std::abs(v - r.l) <= 1e-4 * (1 + std::abs(r.l) + q.x.cwiseAbs().maxCoeff()), "substitution-constraint",
                  what + ": a constraint used for a substitution is violated");
        }
    c.count("probe.optimum-compared");
    if(!hints.empty())
    {
      c.count("nontrivial");
      uint64_t sg = mix64(static_cast<uint64_t>(n * 7 + s.backend));
      for(auto & h : hints)
        sg += mix64(h.tasks.size() * 100 + h.refs.size() * 10 + static_cast<uint64_t>(h.rank))
              + mix64(static_cast<uint64_t>(h.tasks[0]->fn->D->kind * 100 + h.tasks[0]->td));
      c.sig(sg);
    }
  }
  /** lexicographic optimum when it is unique, well conditioned, made of equalities and strictly inside the inequalities */
  static bool lexReference(const Stated & S, const Mat & Aeq, const Vec & beq, const Mat & A, const Vec & l, const Vec & u,
                           const std::map<int, int> & col, int n, Vec & x)
  {
    Mat Z = Mat::Identity(n, n);
    x = Vec::Zero(n);
    auto level = [&](const Mat & B, const Vec & b, bool feasible) {
      if(B.rows() == 0 || Z.cols() == 0)
        return B.rows() == 0 || !feasible || (B * x - b).cwiseAbs().maxCoeff() < 1e-8;
      Mat M = B * Z;
      Eigen::JacobiSVD<Mat> svd(M, Eigen::ComputeFullU | Eigen::ComputeFullV);
      int r = 0;
      for(int i = 0; i < svd.singularValues().size(); ++i)
        if(svd.singularValues()(i) > 1e-9)
        {
          if(svd.singularValues()(i) < 0.05)
            return false;
          ++r;
        }
      Vec e = svd.matrixU().leftCols(r).transpose() * (b - B * x);
      x += Z * (svd.matrixV().leftCols(r) * (e.array() / svd.singularValues().head(r).array()).matrix());
      Z = (Z * svd.matrixV().rightCols(Z.cols() - r)).eval();
      return !feasible || (B * x - b).cwiseAbs().maxCoeff() < 1e-8;
    };
    if(!level(Aeq, beq, true))
      return false;
    for(auto & L : S.levels)
    {
      Mat B(static_cast<long>(L.second.size()), n);
      Vec b(B.rows());
      int i = 0;
      for(auto & r : L.second)
      {
        if(r.l != r.u)
          return false;
        B.row(i) = dense(r, col, n).transpose() * std::sqrt(r.w);
        b(i++) = r.l * std::sqrt(r.w);
      }
      if(!level(B, b, false))
        return false;
    }
    if(Z.cols())
      return false;
    Vec v = A * x;
    for(int i = 0; i < v.size(); ++i)
      if(v(i) < l(i) + 1e-2 || v(i) > u(i) - 1e-2)
        return false;
    return true;
  }
  std::vector<Vec> * stateBefore = nullptr;
  /** rows of a task as they were linearised before the solve (orders >= 1 do not depend on the unknowns; order 0: affine) */
  std::vector<Row> rowsAt(const TaskM & m)
  {
    auto now = vars.snapshot();
    vars.restore(*stateBefore);
    auto r = linearise(m, vars);
    vars.restore(now);
    return r;
  }

  void fresh(int p, int s, int64_t seed)
  {
    auto & q = pb[static_cast<size_t>(p)];
    if(!q.hints.empty())
      return;
    LinearizedControlProblem f;
    auto ms = q.members;
    Rng r(static_cast<uint64_t>(seed));
    for(size_t i = ms.size(); i > 1; --i)
      std::swap(ms[i - 1], ms[static_cast<size_t>(r.below(static_cast<int64_t>(i)))]);
    for(auto & m : ms)
      f.add(m->tr);
    SchemeM n;
    auto & o = sch[static_cast<size_t>(s)];
    n.backend = o.backend;
    n.cholesky = o.cholesky;
    n.autoDamping = o.autoDamping;
    n.feasibleFirst = o.feasibleFirst;
    n.warm = o.warm;
    n.damping = o.damping;
    n.cholDamping = o.cholDamping;
    n.scal = o.scal;
    n.big = o.big;
    n.optBig = o.optBig;
    n.create();
    Pair pr;
    std::vector<HintM> none;
    auto before = vars.snapshot();
    stateBefore = &before;
    solve(f, ms, none, n, pr, NOFAULT, 0, "fresh " + describe(p, s));
    c.count("op.fresh");
  }

  void step(const Op & o)
  {
    switch(o.kind)
    {
      case NEWTR: {
        size_t s = static_cast<size_t>(o.arg(0)) % NSLOT;
        std::shared_ptr<Fn> sh;
        if(o.arg(2) > 0)
        {
          auto & x = slot[static_cast<size_t>(o.arg(2) - 1) % NSLOT];
          if(x)
            sh = x->fn;
        }
        slot[s].reset(); // first dropped: the new objects may reuse its memory
        slot[s] = newTask(static_cast<int>(s), o.arg(1), sh, static_cast<int>(o.arg(3)));
        c.count("op.new-task");
        break;
      }
      case ADD: {
        auto & m = slot[static_cast<size_t>(o.arg(1)) % NSLOT];
        int p = pi(o.arg(0));
        if(m && !in(pb[static_cast<size_t>(p)], m.get()) && pb[static_cast<size_t>(p)].members.size() < 9)
          add(p, m, o.arg(2) % 5 == 4);
        break;
      }
      case REMOVE: {
        int p = pi(o.arg(0));
        auto & q = pb[static_cast<size_t>(p)];
        if(o.arg(2) % 8 == 7)
        { // not in the problem: nothing happens
          auto & m = slot[static_cast<size_t>(o.arg(1)) % NSLOT];
          if(m && !in(q, m.get()))
          {
            q.p->remove(*m->tr);
            checkMembers(q, "after removing a task that is not there");
            c.count("op.remove-absent");
          }
        }
        else if(!q.members.empty())
          removeMember(p, static_cast<size_t>(o.arg(1)) % q.members.size());
        break;
      }
      case WEIGHT:
        changeWeight(o.arg(0), static_cast<int>(o.arg(1)), o.arg(2));
        break;
      case ANISO:
        changeAniso(o.arg(0), static_cast<int>(o.arg(1)), o.arg(2));
        break;
      case SOLVE: {
        int p = pi(o.arg(0)), s = si(o.arg(1));
        auto & q = pb[static_cast<size_t>(p)];
        auto before = vars.snapshot();
        stateBefore = &before;
        std::vector<Vec> after;
        std::string d = describe(p, s);
        solve(*q.p, q.members, q.hints, sch[static_cast<size_t>(s)], pairs[static_cast<size_t>(p)][static_cast<size_t>(s)],
              static_cast<int>(o.arg(2)), o.arg(3), d, &after);
        c.sh->simTime += 0.01;
        break;
      }
      case MOVE: {
        Rng r(static_cast<uint64_t>(o.arg(0)));
        vars.randomize(r);
        c.count("op.move");
        break;
      }
      case FPARAM:
        changeParam(o.arg(0), o.arg(1));
        break;
      case GAIN:
        changeGain(o.arg(0), o.arg(1));
        break;
      case PBNEW:
      case PBFROM: {
        int p = pi(o.arg(0));
        auto & q = pb[static_cast<size_t>(p)];
        std::vector<std::shared_ptr<TaskM>> from;
        if(o.kind == PBFROM)
        { // a linearised problem made from a plain one
          tvm::ControlProblem cp;
          for(auto & m : P(o.arg(1)).members)
          {
            cp.add(m->tr);
            from.push_back(m);
          }
          q.hints.clear();
          q.members.clear();
          q.p.reset();
          q.p = std::make_unique<LinearizedControlProblem>(cp);
          q.members = from;
          c.count("op.problem-from-problem");
        }
        else
        {
          if(o.arg(1) % 2)
          {
            q.members.clear();
            q.hints.clear();
          }
          q.p.reset();
          q.p = std::make_unique<LinearizedControlProblem>();
          q.members.clear();
          q.hints.clear();
          c.count("fault.problem-destroyed");
        }
        for(auto & x : pairs[static_cast<size_t>(p)])
          x = Pair();
        checkMembers(q, "new problem");
        break;
      }
      case SCHNEW: {
        int s = si(o.arg(0));
        auto & x = sch[static_cast<size_t>(s)];
        x.w.reset();
        x.h.reset();
        x.create();
        for(auto & y : pairs)
          y[static_cast<size_t>(s)] = Pair();
        c.count("fault.scheme-destroyed");
        break;
      }
      case FRESH:
        fresh(pi(o.arg(0)), si(o.arg(1)), o.arg(2));
        break;
      case GUARD:
        guard = o.arg(0) % 2 == 0;
        c.count(guard ? "op.guard-off" : "op.guard-on");
        break;
      case HINTADD:
        hintAdd(pi(o.arg(0)), o.arg(1));
        break;
      case HINTREM:
        hintRemove(pi(o.arg(0)), o.arg(1));
        break;
      case ADDBAD:
        addBad(pi(o.arg(0)), o.arg(1), static_cast<int>(o.arg(2)));
        break;
    }
  }
};

template<Profile PR>
void execute(const Trace & t, Ctx & c)
{
  heap::begin(static_cast<int>(t.c("heap")), t.seed);
  {
    num::hub() = num::Hub();
    PWorld w(t, c, PR);
    w.setup();
    for(size_t i = 0; i < t.ops.size(); ++i)
    {
      c.sh->opIndex = static_cast<int>(i);
      w.step(t.ops[i]);
      c.sh->hash = c.hash;
      ++c.sh->opsRun;
    }
    c.log("end", w.solves * 1000 + w.okSolves);
  }
  heap::end();
}

Op mk(int k, std::vector<int64_t> a)
{
  Op o;
  o.kind = k;
  o.a = std::move(a);
  return o;
}

template<Profile PR>
void generate(Rng & r, Trace & t, bool thorough)
{
  auto & f = t.cfg;
  int nb = static_cast<int>(r.range(2, 4));
  for(int b = 0; b < 5; ++b)
    f[fmt("b%d", b)] = b < nb ? r.range(1, PR == SUBST ? 5 : 4) : 0;
  if(PR != SUBST || r.chance(25))
    for(int s = 0; s < 5; ++s)
      if(r.chance(50))
      {
        int64_t b = r.below(nb), n = f[fmt("b%lld", static_cast<long long>(b))];
        if(n < 2)
          continue;
        int64_t st = r.below(n), len = r.range(1, n - st);
        f[fmt("s%d", s)] = b * 100 + st * 10 + len;
      }
  f["order"] = r.below(3);
  f["heap"] = r.below(3);
  int np = 1, ns = 1;
  if(PR == MULTI)
  {
    np = static_cast<int>(r.range(2, 3));
    ns = static_cast<int>(r.range(1, 3));
  }
  else if(PR == REQ || PR == FAILURE || PR == MALLOC)
  {
    np = static_cast<int>(r.range(1, 2));
    ns = static_cast<int>(r.range(1, 2));
  }
  else if(PR == EDIT)
  {
    np = r.chance(20) ? 2 : 1;
    ns = r.chance(30) ? 2 : 1;
  }
  else if(r.chance(15))
    ns = 2;
  f["np"] = np;
  f["ns"] = ns;
  bool hls = PR == HLS;
  const bool mixed = PR == MULTI || PR == MALLOC || PR == OUTCOME || PR == FAILURE;
  for(int s = 0; s < 3; ++s)
  {
    int64_t bk = hls ? B_HLS : mixed && r.chance(20) ? B_HLS : r.below(4);
    f[fmt("bk%d", s)] = bk;
    f[fmt("chol%d", s)] = r.chance(35);
    f[fmt("auto%d", s)] = r.chance(25);
    f[fmt("ff%d", s)] = r.chance(40);
    f[fmt("warm%d", s)] = r.chance(50);
    f[fmt("damp%d", s)] = r.chance(60) ? 0 : r.below(8);
    f[fmt("cdamp%d", s)] = r.chance(60) ? 0 : r.below(4);
    f[fmt("big%d", s)] = r.below(4);
    f[fmt("obig%d", s)] = r.below(4);
  }
  int n = static_cast<int>(thorough ? r.range(20, 90) : r.range(10, 45));
  bool faults = PR == FAILURE ? r.chance(85) : PR == MALLOC || PR == OUTCOME || PR == HLS ? r.chance(50) : PR == MULTI ? r.chance(30) : r.chance(10);
  int share = r.chance(50) ? 25 : 0;
  bool hints = PR == SUBST || ((PR == OUTCOME || PR == FAILURE || PR == MULTI) && r.chance(40));
  f["hints"] = hints;
  auto newTr = [&](int s) { t.ops.push_back(mk(NEWTR, {s, r.big(), r.chance(share) ? r.range(1, NSLOT) : 0, 0})); };
  if(hints && r.chance(80))
  { // objectives covering the variables, so that the optimum is unique
    for(int b = 0; b < nb; ++b)
    {
      t.ops.push_back(mk(NEWTR, {b, r.big(), 0, b + 1}));
      for(int p = 0; p < np; ++p)
        t.ops.push_back(mk(ADD, {p, b, r.below(5)}));
    }
  }
  int initial = static_cast<int>(r.range(2, NSLOT));
  for(int s = 0; s < initial; ++s)
  {
    newTr(s);
    if(r.chance(75))
      t.ops.push_back(mk(ADD, {r.below(np), s, r.below(5)}));
  }
  // weights of the operations, drawn per run (swarm)
  auto wt = [&](int lo, int hi) { return static_cast<int>(r.range(lo, hi)); };
  std::map<int, int> W;
  W[SOLVE] = wt(20, 50);
  W[ADD] = wt(5, 30);
  W[REMOVE] = wt(3, 25);
  W[NEWTR] = wt(0, 10);
  W[WEIGHT] = wt(0, PR == REQ ? 40 : 12);
  W[ANISO] = wt(0, PR == REQ ? 40 : 10);
  W[MOVE] = wt(0, 15);
  W[FPARAM] = wt(0, PR == ASSEMBLY ? 15 : 6);
  W[GAIN] = wt(0, PR == ASSEMBLY ? 15 : 5);
  W[PBNEW] = PR == MULTI ? wt(0, 5) : wt(0, 1);
  W[PBFROM] = PR == MULTI ? wt(0, 5) : wt(0, 1);
  W[SCHNEW] = PR == MULTI ? wt(0, 5) : wt(0, 1);
  W[FRESH] = PR == EDIT || PR == FAILURE || PR == HLS ? wt(2, 8) : wt(0, 2);
  if(PR == MALLOC)
    W[GUARD] = wt(3, 10);
  if(hints)
  {
    W[HINTADD] = wt(5, 25);
    W[HINTREM] = wt(1, 10);
  }
  if(PR == FAILURE)
    W[ADDBAD] = wt(0, 10);
  int tot = 0;
  for(auto & x : W)
    tot += x.second;
  if(PR == MALLOC && r.chance(60))
    t.ops.push_back(mk(GUARD, {1}));
  int lastP = 0, lastS = 0;
  for(int i = 0; i < n; ++i)
  {
    int64_t x = r.below(tot);
    int k = SOLVE;
    for(auto & e : W)
    {
      if(x < e.second)
      {
        k = e.first;
        break;
      }
      x -= e.second;
    }
    int64_t p = r.below(np), s = r.below(ns);
    switch(k)
    {
      case NEWTR:
        newTr(static_cast<int>(r.below(NSLOT)));
        break;
      case SOLVE: {
        if(r.chance(40))
        {
          p = lastP;
          s = lastS;
        }
        int64_t ft = 0;
        if(faults && r.chance(30))
          ft = PR == OUTCOME ? r.range(1, 4) : r.range(1, 6);
        lastP = static_cast<int>(p);
        lastS = static_cast<int>(s);
        t.ops.push_back(mk(SOLVE, {p, s, ft, ft ? r.big() : 0}));
        if(ft && r.chance(60))
          t.ops.push_back(mk(SOLVE, {p, s, 0, 0}));
        break;
      }
      case ADD:
        t.ops.push_back(mk(ADD, {p, r.below(NSLOT), r.below(5)}));
        break;
      case REMOVE:
        t.ops.push_back(mk(REMOVE, {p, r.big(), r.below(8)}));
        break;
      case WEIGHT:
      case ANISO:
        t.ops.push_back(mk(k, {r.big(), r.below(4), r.big()}));
        break;
      case MOVE:
        t.ops.push_back(mk(MOVE, {r.big()}));
        break;
      case FPARAM:
      case GAIN:
        t.ops.push_back(mk(k, {r.big(), r.big()}));
        break;
      case PBFROM:
        t.ops.push_back(mk(k, {p, r.below(np)}));
        break;
      default:
        t.ops.push_back(mk(k, {p, k == GUARD || k == FRESH ? s : r.big(), r.big()}));
        if(k == GUARD)
          t.ops.back().a[0] = r.below(2);
        if(k == SCHNEW)
          t.ops.back().a[0] = s;
    }
  }
  // faults stopped: every problem is solved by every scheme
  for(int p = 0; p < np; ++p)
    for(int s = 0; s < ns; ++s)
      for(int k = 0; k < 2; ++k)
        t.ops.push_back(mk(SOLVE, {p, s, 0, 0}));
}

const std::vector<const char *> kinds = {"new-task", "add", "remove", "weight", "aniso", "solve", "move", "function-parameters",
                                         "gain", "problem-new", "problem-from", "scheme-new", "fresh", "guard", "hint-add",
                                         "hint-remove", "add-bad"};
const char * REAL = "ControlProblem, LinearizedControlProblem, tasks, task dynamics, requirements, functions, update plan, "
                    "substitutions, Weighted/HierarchicalLeastSquares schemes, assignments and the five solver adapters";
const char * STUB = "the numerical libraries behind the adapters (eigen-quadprog, eigen-qld, eigen-lssol, lexls): recording "
                    "stand-ins backed by a reference QP solver; the heap (placement, reuse, failures)";
const char * RULE = "a solve was handed to the numerical solver and compared with the stated problem (or its optimum)";
const char * MEASURE = "distinct combinations of (back-end, number of unknowns, multiset of task kinds, dynamics, types, "
                       "priorities, sizes) compared";

#define PWORLD(id, name, PR, quick, thor)                                                                        \
  WorldReg reg##PR({name, generate<PR>, execute<PR>, kinds, REAL, STUB, RULE, MEASURE});                         \
  PropReg preg##PR({id, name, quick, thor});
PWORLD("C01", "edit", EDIT, 60000, 600000)
PWORLD("C02", "assembly", ASSEMBLY, 60000, 600000)
PWORLD("C03", "subst", SUBST, 60000, 600000)
PWORLD("C04", "req", REQ, 60000, 600000)
PWORLD("C05", "failure", FAILURE, 60000, 600000)
PWORLD("C06", "multi", MULTI, 60000, 600000)
PWORLD("C15", "hls", HLS, 60000, 600000)
PWORLD("C16", "malloc", MALLOC, 60000, 600000)
PWORLD("C17", "outcome", OUTCOME, 60000, 600000)
} // namespace
