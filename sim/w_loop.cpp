// Closed loops over simulated time: a plant integrated by the simulator, a controller made of the real problem, tasks,
// dynamics and schemes. Two profiles: velocity dampers (C11) and error dynamics (C12).
#include "model.h"
#include <Eigen/SVD>
#include <tvm/task_dynamics/Clamped.h>
#include <tvm/task_dynamics/FeedForward.h>
#include <tvm/task_dynamics/Reference.h>
#include <tvm/task_dynamics/VelocityDamper.h>
#include <tvm/utils/memoryChecks.h>

using namespace sim;
using namespace sim::model;
namespace td = tvm::task_dynamics;
namespace rq = tvm::requirements;

namespace
{
enum Kind
{
  NEWDAMPER,
  NEWTASK,
  REMOVE,
  READD,
  TICK,
  RETARGET,
  GAIN,
  WEIGHT,
  DISTURB,
  MOVEREF,
  SCHNEW,
  PBNEW,
  SETTLE
};
enum Profile
{
  DAMP,
  LAW
};
enum Fault
{
  NOFAULT,
  S_FAIL,
  S_FAILNAN,
  S_THROW,
  USERFN,
  ALLOC,
  MISSED,
  DOUBLE // the controller runs twice in the same tick
};
enum FK
{
  K_PLANT,
  K_QUAD,
  K_RATE
};
enum Law
{
  L_P,
  L_PD,
  L_ONE,
  L_REF,
  L_CONST,
  L_NONE,
  L_DAMPER
};
enum Comp
{
  C_PLAIN,
  C_FF,
  C_CLAMP,
  C_CLAMPFF,
  C_FFCLAMP
};
constexpr int NT = 10;

struct QuadData
{
  int ref = 0;
  Vec k, off;
  Mat center; // one row per component
};
/** f_i = k_i/2 |x - c_i|^2 + off_i, written by the user */
class QuadFunction : public tvm::graph::abstract::OutputSelector<tvm::function::abstract::Function>
{
public:
  using Base = tvm::graph::abstract::OutputSelector<tvm::function::abstract::Function>;
  DISABLE_OUTPUTS(Output::JDot)
  SET_UPDATES(QuadFunction, Value, Jacobian, Velocity, NormalAcceleration)
  QuadFunction(std::shared_ptr<QuadData> q, tvm::VariablePtr x) : Base(static_cast<int>(q->k.size())), Q(q), x_(x)
  {
    registerUpdates(Update::Value, &QuadFunction::updateValue, Update::Jacobian, &QuadFunction::updateJacobian,
                    Update::Velocity, &QuadFunction::updateVelocity, Update::NormalAcceleration,
                    &QuadFunction::updateNormalAcceleration);
    addOutputDependency<QuadFunction>(Output::Value, Update::Value);
    addOutputDependency<QuadFunction>(Output::Jacobian, Update::Jacobian);
    addOutputDependency<QuadFunction>(Output::Velocity, Update::Velocity);
    addOutputDependency<QuadFunction>(Output::NormalAcceleration, Update::NormalAcceleration);
    addVariable(x, false);
  }
  void updateValue()
  {
    for(int i = 0; i < Q->k.size(); ++i)
      value_(i) = Q->k(i) / 2 * (x_->value() - Q->center.row(i).transpose()).squaredNorm() + Q->off(i);
  }
  void updateJacobian()
  {
    for(int i = 0; i < Q->k.size(); ++i)
      for(int j = 0; j < x_->size(); ++j)
        jacobian_[x_.get()](i, j) = Q->k(i) * (x_->value()(j) - Q->center(i, j));
  }
  void updateVelocity()
  {
    auto dx = tvm::dot(x_)->value();
    for(int i = 0; i < Q->k.size(); ++i)
      velocity_(i) = Q->k(i) * (x_->value() - Q->center.row(i).transpose()).dot(dx);
  }
  void updateNormalAcceleration()
  {
    auto dx = tvm::dot(x_)->value();
    for(int i = 0; i < Q->k.size(); ++i)
      normalAcceleration_(i) = Q->k(i) * dx.squaredNorm();
  }
  std::shared_ptr<QuadData> Q;
  tvm::VariablePtr x_;
};

struct Side
{ // memory of a damper, one for each limit
  std::vector<char> active, known;
  Vec xsi;
};
struct Gains
{
  Mat kp, kv;
  int fp = 0, fv = 0; // 0 scalar, 1 vector, 2 matrix, 3 default (kv only)
};
struct LTask
{
  int fk = K_PLANT;
  std::shared_ptr<Fn> fn;
  std::shared_ptr<QuadData> Q;
  std::vector<int> refs; // K_RATE
  std::vector<Mat> A;
  Vec b;
  tvm::FunctionPtr f;
  int m = 0;
  CType type = CType::EQUAL;
  Vec l, u;
  int law = L_P, comp = C_PLAIN;
  Gains g;
  std::shared_ptr<Fn> sig; // feed-forward or reference signal
  Vec cmin, cmax;
  int prio = 0;
  double weight = 1;
  bool damper = false, speed = false, member = false;
  // damper
  Vec di, ds, xs, off;
  bool autoX = false;
  Side side[2];
  // prediction of the error
  bool predicted = false;
  Vec pf, pv, plast;
  double perr = 0, verr = 0;
  tvm::TaskWithRequirementsPtr tr;
};
struct Ev
{
  Vec f, v, n;
  std::vector<std::pair<int, Mat>> J;
};

struct LWorld
{
  const Trace & t;
  Ctx & c;
  Profile prof;
  Vars vars;
  int o = 1, nplant = 1;
  double dt = 0.01, vm = 1;
  std::unique_ptr<tvm::LinearizedControlProblem> pb;
  SchemeM sch;
  std::array<std::shared_ptr<LTask>, NT> slot;
  std::shared_ptr<LTask> speed[4], posture[4];
  Vec last[4]; // last command of each base
  int ticks = 0, solved = 0, judged = 0;

  LWorld(const Trace & t, Ctx & c, Profile p) : t(t), c(c), prof(p) {}

  void newScheme()
  {
    sch.w.reset();
    sch.h.reset();
    sch.create();
  }
  void setup()
  {
    o = static_cast<int>(std::clamp<int64_t>(t.c("order", 1), 1, 2));
    nplant = static_cast<int>(std::clamp<int64_t>(t.c("nb", 1), 1, 3));
    static const double dts[] = {0.01, 0.002, 0.005, 0.02, 0.05};
    dt = dts[std::clamp<int64_t>(t.c("dt"), 0, 4)];
    vm = 0.2 + 0.1 * static_cast<double>(std::clamp<int64_t>(t.c("vm"), 0, 40));
    for(int b = 0; b < nplant; ++b)
      vars.addBase(static_cast<int>(std::clamp<int64_t>(t.c(fmt("b%d", b).c_str(), 2), 1, 4)));
    for(int b = 0; b < nplant; ++b)
      if(int n = vars.base[static_cast<size_t>(b)]->size(); n > 1 && t.c(fmt("s%d", b).c_str()))
      {
        int st = static_cast<int>(t.c(fmt("s%d", b).c_str()) % n);
        vars.addSub(b, st, std::max(1, (n - st) / 2));
      }
    nrefs = static_cast<int>(vars.refs.size());
    vars.addBase(2); // what the outside world moves: never controlled
    pb = std::make_unique<tvm::LinearizedControlProblem>();
    sch.backend = static_cast<int>(std::clamp<int64_t>(t.c("bk"), 0, 4));
    sch.cholesky = t.c("chol") != 0;
    sch.warm = t.c("warm") != 0;
    sch.feasibleFirst = t.c("ff") != 0;
    sch.damping = 1e-12;
    sch.cholDamping = 1e-7;
    sch.big = sch.optBig = 1e20;
    newScheme();
    Rng r(t.seed ^ 77);
    vars.randomize(r);
    for(int b = 0; b < nplant; ++b)
    {
      for(int d = prof == DAMP ? 1 : o; d < 3; ++d)
        vars.der(b, d)->setZero();
      last[b] = Vec::Zero(vars.base[static_cast<size_t>(b)]->size());
    }
    if(prof == DAMP)
      for(int b = 0; b < nplant; ++b)
      {
        speed[b] = speedLimit(b);
        posture[b] = newPosture(b, r);
      }
  }
  int nrefs = 0;

  // ------------------------------------------------------------------------------------------------ model
  Ev eval(const LTask & x)
  {
    Ev e;
    if(x.fk == K_PLANT)
    {
      TaskM m;
      m.fn = x.fn;
      std::vector<Mat> J;
      e.f = fValue(m, vars, &e.v, &e.n, &J);
      for(size_t k = 0; k < J.size(); ++k)
        e.J.emplace_back(x.fn->D->refs[k], J[k]);
    }
    else if(x.fk == K_QUAD)
    {
      const auto & Q = *x.Q;
      const Ref & r = vars.refs[static_cast<size_t>(Q.ref)];
      Vec p = vars.val(r, 0), v = vars.val(r, 1);
      Mat J(x.m, r.size);
      e.f.resize(x.m);
      e.n.resize(x.m);
      for(int i = 0; i < x.m; ++i)
      {
        Vec d = p - Q.center.row(i).transpose();
        e.f(i) = Q.k(i) / 2 * d.squaredNorm() + Q.off(i);
        J.row(i) = Q.k(i) * d.transpose();
        e.n(i) = Q.k(i) * v.squaredNorm();
      }
      e.v = J * v;
      e.J.emplace_back(Q.ref, J);
    }
    else
    {
      e.f = x.b;
      e.v = e.n = Vec::Zero(x.m);
      for(size_t k = 0; k < x.refs.size(); ++k)
        e.J.emplace_back(x.refs[k], x.A[k]);
    }
    return e;
  }
  Vec signal(const LTask & x)
  {
    TaskM m;
    m.fn = x.sig;
    return fValue(m, vars, nullptr, nullptr, nullptr);
  }
  static Mat sqrtm(const Mat & K)
  {
    Eigen::SelfAdjointEigenSolver<Mat> es(K);
    return es.eigenvectors() * es.eigenvalues().cwiseMax(0).cwiseSqrt().asDiagonal() * es.eigenvectors().transpose();
  }
  /** documented value of the dynamics for a task whose value and velocity are f and v */
  Vec desired(LTask & x, const Vec & f, const Vec & v, const Vec & rhs)
  {
    auto base = [&]() -> Vec {
      switch(x.law)
      {
        case L_P:
          return -x.g.kp * (f - rhs);
        case L_PD:
          return -(x.g.fv == 3 ? Mat(2 * sqrtm(x.g.kp)) : x.g.kv) * v - x.g.kp * (f - rhs);
        case L_ONE:
          return o == 1 ? Vec((rhs - f) / dt) : Vec(2 / dt * ((rhs - f) / dt - v));
        case L_REF:
          return signal(x);
        case L_CONST:
          return rhs;
        default:
          return rhs - x.b;
      }
    };
    auto clamp = [&](Vec y) -> Vec {
      double s = 1;
      for(int i = 0; i < y.size(); ++i)
      {
        if(y(i) > x.cmax(i))
          s = std::min(s, x.cmax(i) / y(i));
        if(y(i) < x.cmin(i))
          s = std::min(s, x.cmin(i) / y(i));
      }
      return y * s;
    };
    switch(x.comp)
    {
      case C_FF:
        return base() + signal(x);
      case C_CLAMP:
        return clamp(base());
      case C_CLAMPFF:
        return clamp(base() + signal(x));
      case C_FFCLAMP:
        return clamp(base()) + signal(x);
      default:
        return base();
    }
  }
  std::vector<std::shared_ptr<LTask>> members(bool all = true)
  {
    std::vector<std::shared_ptr<LTask>> v;
    for(auto & s : slot)
      if(s && s->member)
        v.push_back(s);
    if(all)
      for(int b = 0; b < nplant; ++b)
        for(auto & s : {speed[b], posture[b]})
          if(s)
            v.push_back(s);
    return v;
  }
  Row row(const Ev & e, int i)
  {
    Row r;
    r.l = -INF;
    r.u = INF;
    r.w = 1;
    for(auto & p : e.J)
    {
      const Ref & ref = vars.refs[static_cast<size_t>(p.first)];
      for(int j = 0; j < ref.size; ++j)
        r.a[Vars::coord(ref.base, o, ref.start + j)] += p.second(i, j);
    }
    return r;
  }
  static double dist(const LTask & x, const Vec & f, int s, int i) { return s == 0 ? f(i) - x.l(i) : x.u(i) - f(i); }
  static bool has(const LTask & x, int s)
  { return x.type == CType::DOUBLE_SIDED || (x.type == CType::GREATER_THAN) == (s == 0); }

  /** what an update of the dampers does to their memory; sure: it certainly took place */
  void updateMemory(LTask & x, const Ev & e, bool sure)
  {
    if(!x.autoX)
      return;
    for(int s = 0; s < 2; ++s)
      if(has(x, s))
        for(int i = 0; i < x.m; ++i)
        {
          auto & S = x.side[s];
          auto k = static_cast<size_t>(i);
          double d = dist(x, e.f, s, i), dd = s == 0 ? e.v(i) : -e.v(i);
          bool brink = std::abs(d - x.di(i)) < 1e-9 * (1 + std::abs(d));
          if(!sure || brink)
          {
            bool would = d <= x.di(i);
            if(brink || would != static_cast<bool>(S.active[k]))
              S.known[k] = 0;
          }
          else if(d <= x.di(i) && !(S.active[k] && S.known[k]))
          {
            if(S.known[k])
            {
              S.active[k] = 1;
              S.xsi(i) = dd * (x.ds(i) - x.di(i)) / (d - x.ds(i)) + x.off(i);
            }
          }
          else if(d > x.di(i))
          {
            S.active[k] = 0;
            S.known[k] = 1;
          }
        }
  }
  /** expected restrictions; false when they are not exactly known */
  bool rows(LTask & x, const Ev & e, std::vector<Row> & R)
  {
    bool known = true;
    if(x.damper)
    {
      for(int s = 0; s < 2; ++s)
        if(has(x, s))
          for(int i = 0; i < x.m; ++i)
          {
            double d = dist(x, e.f, s, i);
            if(std::abs(d - x.di(i)) < 1e-9 * (1 + std::abs(d)))
            {
              known = false;
              continue;
            }
            if(d > x.di(i))
              continue;
            auto k = static_cast<size_t>(i);
            double xsi = x.autoX ? x.side[s].xsi(i) : x.xs(i);
            if(x.autoX && !x.side[s].known[k])
            {
              known = false;
              continue;
            }
            double v = -xsi * (d - x.ds(i)) / (x.di(i) - x.ds(i)); // lowest rate of the distance
            double dd = s == 0 ? e.v(i) : -e.v(i), nn = s == 0 ? e.n(i) : -e.n(i);
            if(o == 2)
              v = (v - dd) / dt - nn;
            Row r = row(e, i);
            (s == 0 ? r.l : r.u) = s == 0 ? v : -v;
            R.push_back(r);
          }
      return known;
    }
    Vec lo = desired(x, e.f, e.v, x.l), up = desired(x, e.f, e.v, x.u);
    for(int i = 0; i < x.m; ++i)
    {
      Row r = row(e, i);
      double nn = o == 2 && x.fk != K_RATE ? e.n(i) : 0;
      if(x.type != CType::LOWER_THAN)
        r.l = lo(i) - nn;
      if(x.type != CType::GREATER_THAN)
        r.u = up(i) - nn;
      r.w = x.weight;
      R.push_back(r);
    }
    return true;
  }

  // ------------------------------------------------------------------------------------------------ construction
  bool pickRefs(Rng & r, std::vector<int> & refs, int n)
  {
    for(int k = 0; k < n; ++k)
    {
      int i = static_cast<int>(r.below(nrefs));
      const Ref & a = vars.refs[static_cast<size_t>(i)];
      bool overlap = false;
      for(int j : refs)
      {
        const Ref & b = vars.refs[static_cast<size_t>(j)];
        overlap |= a.base == b.base && a.start < b.start + b.size && b.start < a.start + a.size;
      }
      if(!overlap)
        refs.push_back(i);
    }
    return !refs.empty();
  }
  Mat randomMat(Rng & r, int m, int n, double s = 2)
  {
    Mat A(m, n);
    for(int i = 0; i < m; ++i)
      for(int j = 0; j < n; ++j)
        A(i, j) = uni(r, -s, s);
    return A;
  }
  void plantFn(Rng & r, LTask & x, int kind, int maxRows)
  {
    x.fk = K_PLANT;
    x.fn = std::make_shared<Fn>();
    x.fn->D = std::make_shared<FnData>();
    auto & D = *x.fn->D;
    D.kind = kind;
    pickRefs(r, D.refs, kind == F_ID ? 1 : static_cast<int>(r.range(1, 2)));
    D.m = kind == F_ID ? vars.refs[static_cast<size_t>(D.refs[0])].size : static_cast<int>(r.range(1, maxRows));
    for(int k : D.refs)
    {
      int n = vars.refs[static_cast<size_t>(k)].size;
      D.A.push_back(kind == F_ID ? Mat(Mat::Identity(D.m, n)) : randomMat(r, D.m, n));
      D.B.push_back(kind == F_NL ? randomMat(r, D.m, n, 0.4) : Mat(Mat::Zero(D.m, n)));
    }
    D.d = kind == F_ID ? Vec(Vec::Zero(D.m)) : Vec(randomMat(r, D.m, 1));
    x.fn->create(vars);
    x.f = x.fn->f;
    x.m = D.m;
  }
  std::shared_ptr<Fn> newSignal(Rng & r, int m)
  {
    auto f = std::make_shared<Fn>();
    f->D = std::make_shared<FnData>();
    auto & D = *f->D;
    D.kind = r.chance(50) ? F_LIN : F_NL;
    D.refs = {static_cast<int>(vars.refs.size()) - 1};
    D.m = m;
    int n = vars.refs.back().size;
    D.A.push_back(randomMat(r, m, n, 0.5));
    D.B.push_back(D.kind == F_NL ? randomMat(r, m, n, 0.3) : Mat(Mat::Zero(m, n)));
    D.d = randomMat(r, m, 1, 0.5);
    f->create(vars);
    return f;
  }
  Mat gainMat(Rng & r, int m, int form, double lo, double hi)
  {
    Mat K = Mat::Zero(m, m);
    if(form == 0)
      K.diagonal().setConstant(uni(r, lo, hi));
    else
      for(int i = 0; i < m; ++i)
        K(i, i) = uni(r, lo, hi);
    if(form == 2 && m > 1)
    { // symmetric, eigenvalues in [lo, hi]
      Eigen::HouseholderQR<Mat> qr(randomMat(r, m, m));
      Mat Q = qr.householderQ();
      K = Q * K * Q.transpose();
      K = (K + K.transpose().eval()) / 2;
    }
    return K;
  }
  void drawGains(Rng & r, LTask & x)
  {
    bool ds = x.type == CType::DOUBLE_SIDED;
    double w = 0.3 / dt; // fastest mode
    x.g.fp = static_cast<int>(r.below(ds || x.comp >= C_CLAMP ? 2 : 3));
    if(x.law == L_P)
      x.g.kp = gainMat(r, x.m, x.g.fp, 0.02 * w, r.chance(30) ? 3 * w : w);
    else
    {
      x.g.kp = gainMat(r, x.m, x.g.fp, 0.001 * w * w, 0.2 * w * w);
      x.g.fv = static_cast<int>(r.below(ds ? 2 : 4));
      if(x.g.fv == 3)
        x.g.kv = Mat();
      else
        x.g.kv = gainMat(r, x.m, x.g.fv, 0.5 * w, w);
    }
  }
  template<class T>
  T gainAs(const Mat & k)
  {
    if constexpr(std::is_same_v<T, double>)
      return k(0, 0);
    else if constexpr(std::is_same_v<T, Vec>)
      return k.diagonal();
    else
      return k;
  }
  /** calls g with the gains in their form */
  template<class G>
  auto withForm(const Mat & k, int form, G && g)
  {
    switch(form)
    {
      case 0:
        return g(k(0, 0));
      case 1:
        return g(Vec(k.diagonal()));
      default:
        return g(k);
    }
  }
  using DynPtr = std::unique_ptr<td::abstract::TaskDynamics>;
  using FOP = tvm::internal::FirstOrderProvider;
  template<class TD, class... A>
  DynPtr clamped(LTask & x, A &&... a)
  {
    bool sym = x.cmin == -x.cmax, flat = x.cmax.minCoeff() == x.cmax.maxCoeff() && x.cmin.minCoeff() == x.cmin.maxCoeff();
    if(flat && sym)
      return std::make_unique<TD>(x.cmax(0), std::forward<A>(a)...);
    if(flat)
      return std::make_unique<TD>(std::make_pair(x.cmin(0), x.cmax(0)), std::forward<A>(a)...);
    if(sym)
      return std::make_unique<TD>(tvm::VectorConstRef(x.cmax), std::forward<A>(a)...);
    return std::make_unique<TD>(std::pair<tvm::VectorConstRef, tvm::VectorConstRef>(x.cmin, x.cmax), std::forward<A>(a)...);
  }
  template<class TD, class... A>
  DynPtr composed(LTask & x, A &&... a)
  {
    std::shared_ptr<FOP> s;
    if(x.sig)
      s = x.sig->f;
    switch(x.comp)
    {
      case C_FF:
        return std::make_unique<td::FeedForward<TD>>(s, &FOP::value, FOP::Output::Value, std::forward<A>(a)...);
      case C_CLAMP:
        return clamped<td::Clamped<TD>>(x, std::forward<A>(a)...);
      case C_CLAMPFF:
        return clamped<td::Clamped<td::FeedForward<TD>>>(x, s, &FOP::value, FOP::Output::Value, std::forward<A>(a)...);
      default: {
        // clamped first, then fed forward
        bool sym = x.cmin == -x.cmax;
        using T = td::FeedForward<td::Clamped<TD>>;
        if(sym && x.cmax.minCoeff() == x.cmax.maxCoeff())
          return std::make_unique<T>(s, &FOP::value, FOP::Output::Value, x.cmax(0), std::forward<A>(a)...);
        return std::make_unique<T>(s, &FOP::value, FOP::Output::Value,
                                   std::pair<tvm::VectorConstRef, tvm::VectorConstRef>(x.cmin, x.cmax), std::forward<A>(a)...);
      }
    }
  }
  DynPtr dynamics(LTask & x)
  {
    switch(x.law)
    {
      case L_P:
        return withForm(x.g.kp, x.g.fp, [&](const auto & k) -> DynPtr {
          if(x.comp == C_PLAIN)
            return std::make_unique<td::P>(k);
          return composed<td::P>(x, k);
        });
      case L_PD:
        return withForm(x.g.kp, x.g.fp, [&](const auto & k) -> DynPtr {
          if(x.g.fv == 3)
          {
            if(x.comp == C_PLAIN)
              return std::make_unique<td::PD>(k);
            return composed<td::PD>(x, k);
          }
          return withForm(x.g.kv, x.g.fv, [&](const auto & v) -> DynPtr {
            if(x.comp == C_PLAIN)
              return std::make_unique<td::PD>(k, v);
            return composed<td::PD>(x, k, v);
          });
        });
      case L_ONE:
        if(x.comp == C_PLAIN)
          return std::make_unique<td::OneStepToZero>(o == 1 ? td::Order::One : td::Order::Two, dt);
        return composed<td::OneStepToZero>(x, o == 1 ? td::Order::One : td::Order::Two, dt);
      case L_REF:
        if(o == 1)
          return std::make_unique<td::ReferenceVelocity>(x.sig->f);
        return std::make_unique<td::ReferenceAcceleration>(x.sig->f);
      case L_CONST:
        return std::make_unique<td::Constant>();
      case L_DAMPER: {
        bool iso = x.di.size() == 1 || (x.di.minCoeff() == x.di.maxCoeff() && x.ds.minCoeff() == x.ds.maxCoeff()
                                        && x.xs.minCoeff() == x.xs.maxCoeff() && x.off.minCoeff() == x.off.maxCoeff());
        if(iso)
        {
          td::VelocityDamper::Config k(x.di(0), x.ds(0), x.autoX ? 0 : x.xs(0), x.off(0));
          return o == 1 ? std::make_unique<td::VelocityDamper>(k) : std::make_unique<td::VelocityDamper>(dt, k);
        }
        Vec zero = Vec::Zero(x.m);
        td::VelocityDamper::AnisotropicConfig k(x.di, x.ds, x.autoX ? zero : x.xs, tvm::VectorConstRef(x.off));
        return o == 1 ? std::make_unique<td::VelocityDamper>(k) : std::make_unique<td::VelocityDamper>(dt, k);
      }
      default:
        return std::make_unique<td::None>();
    }
  }
  void build(LTask & x)
  {
    auto d = dynamics(x);
    rq::SolvingRequirements req{rq::PriorityLevel(x.prio), rq::Weight(x.weight)};
    if(x.type == CType::DOUBLE_SIDED)
      x.tr = std::make_shared<tvm::TaskWithRequirements>(tvm::Task(x.f, x.type, *d, x.l, x.u), req);
    else
      x.tr = std::make_shared<tvm::TaskWithRequirements>(
          tvm::Task(x.f, x.type, *d, x.type == CType::LOWER_THAN ? x.u : x.l), req);
  }
  std::shared_ptr<LTask> speedLimit(int b)
  {
    auto x = std::make_shared<LTask>();
    x->speed = true;
    x->member = true;
    x->fk = K_RATE;
    x->refs = {b};
    int n = vars.base[static_cast<size_t>(b)]->size();
    x->m = n;
    x->A = {o == 1 ? Mat(Mat::Identity(n, n)) : Mat(dt * Mat::Identity(n, n))};
    x->b = Vec::Zero(n);
    x->f = std::make_shared<tvm::function::BasicLinearFunction>(x->A[0], vars.der(b, o), x->b);
    x->type = CType::DOUBLE_SIDED;
    x->l = Vec::Constant(n, -vm);
    x->u = Vec::Constant(n, vm);
    x->law = L_NONE;
    build(*x);
    pb->add(x->tr);
    return x;
  }
  /** a weak task on each coordinate: what to do is never undetermined */
  std::shared_ptr<LTask> newPosture(int b, Rng & r)
  {
    auto x = std::make_shared<LTask>();
    x->member = true;
    x->fn = std::make_shared<Fn>();
    x->fn->D = std::make_shared<FnData>();
    auto & D = *x->fn->D;
    D.kind = F_ID;
    D.refs = {b};
    D.m = x->m = vars.base[static_cast<size_t>(b)]->size();
    D.A = {Mat::Identity(D.m, D.m)};
    D.B = {Mat::Zero(D.m, D.m)};
    D.d = Vec::Zero(D.m);
    x->fn->create(vars);
    x->f = x->fn->f;
    x->prio = sch.hls() ? static_cast<int>(r.range(1, 2)) : 1;
    x->weight = uni(r, 0.1, 0.5);
    x->l = x->u = Vec(randomMat(r, x->m, 1));
    x->law = o == 1 ? L_P : L_PD;
    drawGains(r, *x);
    build(*x);
    pb->add(x->tr);
    return x;
  }
  void refreshSpeed()
  {
    if(o == 1)
      return;
    for(int b = 0; b < nplant; ++b)
      if(speed[b])
      {
        speed[b]->b = vars.der(b, 1)->value();
        std::static_pointer_cast<tvm::function::BasicLinearFunction>(speed[b]->f)->b(speed[b]->b);
      }
  }
  /** the controlled system stands still */
  void halt()
  {
    for(int b = 0; b < nplant; ++b)
    {
      for(int d = 1; d < 3; ++d)
        vars.der(b, d)->setZero();
      last[b].setZero();
    }
    for(auto & s : slot)
      if(s)
      {
        s->pv = Vec::Zero(s->m);
        s->plast = Vec::Zero(s->m);
      }
  }
  void newDamper(int64_t sl, int64_t seed)
  {
    auto & S = slot[static_cast<size_t>(sl) % NT];
    drop(S);
    Rng r(static_cast<uint64_t>(seed));
    auto x = std::make_shared<LTask>();
    x->damper = true;
    x->law = L_DAMPER;
    int q = static_cast<int>(r.below(10));
    double reach = 0; // bound of the speed of the components
    Vec speedOf;
    if(q < 8 || o == 2)
    {
      plantFn(r, *x, q < 4 ? F_ID : F_LIN, 3);
      speedOf = Vec::Zero(x->m);
      for(auto & A : x->fn->D->A)
        speedOf += A.cwiseAbs().rowwise().sum() * vm;
      int k = static_cast<int>(r.below(3));
      x->type = k == 0 ? CType::GREATER_THAN : k == 1 ? CType::LOWER_THAN : CType::DOUBLE_SIDED;
    }
    else
    { // a convex function kept above (or its opposite below) a limit: an obstacle to go around
      x->fk = K_QUAD;
      x->Q = std::make_shared<QuadData>();
      x->Q->ref = static_cast<int>(r.below(nrefs));
      const Ref & ref = vars.refs[static_cast<size_t>(x->Q->ref)];
      x->m = static_cast<int>(r.range(1, 2));
      bool up = r.chance(50);
      x->type = up ? CType::LOWER_THAN : CType::GREATER_THAN;
      x->Q->k = Vec::Constant(x->m, (up ? -1 : 1) * uni(r, 0.5, 2));
      x->Q->off = randomMat(r, x->m, 1);
      x->Q->center = randomMat(r, x->m, ref.size, 1.5);
      x->f = std::make_shared<QuadFunction>(x->Q, ref.v);
      // the soft tasks keep the variables within a known region only when they do not move for long: bound over the run
      reach = 3 + vm * dt * 400;
      speedOf = x->Q->k.cwiseAbs() * reach * 2 * std::sqrt(ref.size) * vm * std::sqrt(ref.size);
    }
    const int m = x->m;
    bool iso = r.chance(50);
    x->autoX = r.chance(45);
    x->di.resize(m);
    x->ds.resize(m);
    x->xs.resize(m);
    x->off.resize(m);
    double smax = speedOf.maxCoeff();
    for(int i = 0; i < m; ++i)
    {
      if(iso && i)
      {
        x->di(i) = x->di(0);
        x->ds(i) = x->ds(0);
        x->xs(i) = x->xs(0);
        x->off(i) = x->off(0);
        continue;
      }
      double sp = std::max(1e-3, iso ? smax : speedOf(i)); // a row may not move at all
      double al = uni(r, 0.02, x->autoX ? 0.5 : 0.95); // share of the zone travelled in one step at full speed
      double w = sp * dt / al;
      x->ds(i) = r.chance(25) ? 0 : uni(r, 0, 0.5);
      x->di(i) = x->ds(i) + w;
      w = x->di(i) - x->ds(i);
      x->xs(i) = w / dt * (r.chance(15) ? 1 : uni(r, 0.02, 1));
      x->off(i) = x->autoX && r.chance(70) ? w / dt * (1 - al / (1 - al)) * uni(r, 0, 0.99) : 0;
    }
    // limits around the current state, which is admissible
    auto e = eval(*x);
    x->l = x->u = Vec::Zero(m);
    for(int i = 0; i < m; ++i)
    {
      auto margin = [&] {
        double w = x->di(i) - x->ds(i);
        return x->ds(i) + w * (r.chance(40) ? uni(r, 0.05, 1.0) : uni(r, 1.0, 4.0));
      };
      x->l(i) = e.f(i) - margin();
      x->u(i) = e.f(i) + margin();
      x->u(i) = std::max(x->u(i), x->l(i) + 2 * x->ds(i) + 0.1 * (x->di(i) - x->ds(i)));
    }
    if(x->autoX && inside(*x, e))
      halt();
    for(auto & s : x->side)
    {
      s.active.assign(static_cast<size_t>(m), 0);
      s.known.assign(static_cast<size_t>(m), 1);
      s.xsi = Vec::Zero(m);
    }
    build(*x);
    S = x;
    x->member = true;
    pb->add(x->tr);
    edited();
    c.count(x->autoX ? "op.damper-automatic" : "op.damper-given");
  }
  bool inside(const LTask & x, const Ev & e)
  {
    for(int s = 0; s < 2; ++s)
      if(has(x, s))
        for(int i = 0; i < x.m; ++i)
          if(dist(x, e.f, s, i) <= x.di(i) * (1 + 1e-9))
            return true;
    return false;
  }
  bool admissible(const LTask & x, const Ev & e, double share)
  {
    for(int s = 0; s < 2; ++s)
      if(has(x, s))
        for(int i = 0; i < x.m; ++i)
          if(dist(x, e.f, s, i) < x.ds(i) + share * (x.di(i) - x.ds(i)))
            return false;
    return true;
  }
  void edited()
  {
    if(sch.hls()) // the hierarchical scheme may refuse changes of a problem it knows
      newScheme();
  }
  void drop(std::shared_ptr<LTask> & s)
  {
    if(s && s->member)
    {
      pb->remove(*s->tr);
      edited();
    }
    s.reset();
  }
  double conditioning(const LTask * extra)
  {
    std::vector<Row> R;
    auto add = [&](LTask & x) {
      auto e = eval(x);
      for(int i = 0; i < x.m; ++i)
        R.push_back(row(e, i));
    };
    for(auto & x : members(false))
      if(x.get() != extra)
        add(*x);
    if(extra)
      add(const_cast<LTask &>(*extra));
    std::map<int, int> col;
    for(auto & r : R)
      for(auto & p : r.a)
        col.emplace(p.first, 0);
    int n = 0;
    for(auto & p : col)
      p.second = n++;
    if(R.empty())
      return 1;
    if(static_cast<int>(R.size()) > n)
      return 0;
    Mat M(static_cast<int>(R.size()), n);
    for(size_t i = 0; i < R.size(); ++i)
      M.row(static_cast<int>(i)) = dense(R[i], col, n).transpose();
    return Eigen::JacobiSVD<Mat>(M).singularValues()(M.rows() - 1);
  }
  void newTask(int64_t sl, int64_t seed)
  {
    auto & S = slot[static_cast<size_t>(sl) % NT];
    Rng r(static_cast<uint64_t>(seed));
    auto x = std::make_shared<LTask>();
    bool hard = prof == LAW && r.chance(50);
    x->prio = hard ? 0 : sch.hls() && r.chance(30) ? 2 : 1;
    x->weight = x->prio ? uni(r, 0.5, 5) : 1;
    static const CType types[] = {CType::EQUAL, CType::GREATER_THAN, CType::LOWER_THAN, CType::DOUBLE_SIDED};
    x->type = hard && r.chance(40) ? types[r.range(1, 3)] : CType::EQUAL;
    int q = static_cast<int>(r.below(100));
    if(prof == LAW && q < 15)
    { // on the rate itself
      x->fk = K_RATE;
      pickRefs(r, x->refs, static_cast<int>(r.range(1, 2)));
      x->m = static_cast<int>(r.range(1, 2));
      x->law = r.chance(50) ? L_CONST : L_NONE;
      x->b = x->law == L_CONST ? Vec(Vec::Zero(x->m)) : Vec(randomMat(r, x->m, 1));
      std::vector<tvm::VariablePtr> xs;
      std::vector<tvm::MatrixConstRef> As;
      for(int k : x->refs)
      {
        x->A.push_back(randomMat(r, x->m, vars.refs[static_cast<size_t>(k)].size));
        xs.push_back(tvm::dot(vars.refs[static_cast<size_t>(k)].v, o));
      }
      auto f = std::make_shared<tvm::function::BasicLinearFunction>(x->m, xs);
      for(size_t k = 0; k < xs.size(); ++k)
        f->A(x->A[k], *xs[k]);
      f->b(x->b);
      x->f = f;
    }
    else
    {
      plantFn(r, *x, q < 50 ? F_ID : q < 75 ? F_LIN : F_NL, prof == DAMP ? 3 : 2);
      int k = static_cast<int>(r.below(10));
      if(k < 7 || prof == DAMP)
        x->law = o == 1 ? L_P : L_PD;
      else if(k < 9)
        x->law = L_ONE;
      else
        x->law = L_REF;
      if(x->type == CType::DOUBLE_SIDED && x->law == L_REF)
        x->type = CType::EQUAL;
      if(prof == LAW && x->law != L_REF && r.chance(50))
        x->comp = static_cast<int>(r.range(1, 4));
      if(x->type == CType::DOUBLE_SIDED && x->comp >= C_CLAMP)
        x->comp = C_FF;
    }
    const int m = x->m;
    if(prof == LAW && conditioning(x.get()) < 0.25)
    { // the tasks could not all be fulfilled
      c.count("probe.task-not-compatible");
      return;
    }
    if(x->law == L_REF || (x->comp != C_PLAIN && x->comp != C_CLAMP))
      x->sig = newSignal(r, m);
    if(x->comp >= C_CLAMP)
    {
      bool flat = r.chance(50), sym = r.chance(50);
      x->cmin.resize(m);
      x->cmax.resize(m);
      double sc = o == 1 ? 0.5 : 5;
      for(int i = 0; i < m; ++i)
      {
        if(flat && i)
        {
          x->cmax(i) = x->cmax(0);
          x->cmin(i) = x->cmin(0);
          continue;
        }
        x->cmax(i) = uni(r, 0.2, 1) * sc;
        x->cmin(i) = sym ? -x->cmax(i) : -uni(r, 0.2, 1) * sc;
      }
    }
    x->l = prof == DAMP ? randomMat(r, m, 1, 4) : randomMat(r, m, 1);
    x->u = x->l;
    if(x->type == CType::DOUBLE_SIDED)
      for(int i = 0; i < m; ++i)
        x->u(i) += uni(r, 0.1, 1);
    if(x->law == L_P || x->law == L_PD)
      drawGains(r, *x);
    drop(S);
    build(*x);
    S = x;
    x->member = true;
    pb->add(x->tr);
    edited();
    x->predicted = false;
    c.count("op.new-task");
    static const char * names[] = {"probe.law-proportional", "probe.law-proportional-derivative", "probe.law-one-step", "probe.law-reference",
                                   "probe.law-constant", "probe.law-none"};
    c.count(names[x->law]);
    static const char * comps[] = {"", "probe.feed-forward", "probe.clamped", "probe.clamped-feed-forward", "probe.feed-forward-clamped"};
    if(x->comp)
      c.count(comps[x->comp]);
  }
  std::shared_ptr<LTask> pick(int64_t which, const std::function<bool(LTask &)> & ok)
  {
    std::vector<std::shared_ptr<LTask>> v;
    for(auto & s : slot)
      if(s && ok(*s))
        v.push_back(s);
    return v.empty() ? nullptr : v[static_cast<size_t>(which) % v.size()];
  }
  void remove(int64_t which)
  {
    auto x = pick(which, [](LTask & x) { return x.member; });
    if(!x)
      return;
    pb->remove(*x->tr);
    x->member = false;
    x->predicted = false;
    edited();
    c.count("op.remove");
  }
  void readd(int64_t which)
  {
    auto x = pick(which, [](LTask & x) { return !x.member; });
    if(!x)
      return;
    if(x->damper)
    {
      auto e = eval(*x);
      if(!admissible(*x, e, 0.05))
        return;
      if(x->autoX && inside(*x, e))
        halt();
    }
    else if(prof == LAW && conditioning(x.get()) < 0.25)
      return;
    pb->add(x->tr);
    x->member = true;
    x->predicted = false;
    edited();
    c.count("op.add-again");
  }
  void retarget(int64_t which, int64_t seed)
  {
    auto x = pick(which, [](LTask & x) { return !x.damper && x.fk == K_PLANT && x.fn->D->kind != F_ID; });
    if(!x)
      return;
    Rng r(static_cast<uint64_t>(seed));
    x->fn->D->d = randomMat(r, x->m, 1, prof == DAMP ? 4 : 1.5);
    x->fn->push(vars);
    x->predicted = false;
    c.count("op.target-moved");
  }
  /** a gain that has not the size of its task: refused, and what is followed stays as it is */
  void wrongGain(Rng & r, LTask & x)
  {
    bool rows = r.chance(50), cols = !rows || r.chance(50), vec = r.chance(30);
    Mat K = Mat::Identity(x.m + rows, x.m + cols);
    Vec k = Vec::Ones(x.m + 1);
    int how = static_cast<int>(r.below(4));
    bool threw = false;
    c.count("fault.wrong-size-gain");
    try
    {
      if(x.law == L_P && how == 0)
        vec ? td::P(k).impl(x.f, CType::EQUAL, Vec::Zero(x.m)) : td::P(K).impl(x.f, CType::EQUAL, Vec::Zero(x.m));
      else if(x.law == L_P)
      {
        auto g = x.tr->task.taskDynamics<td::P>();
        vec ? g->gain(k) : g->gain(K);
      }
      else
      {
        auto g = x.tr->task.taskDynamics<td::PD>();
        if(how == 0)
          vec ? g->gains(k) : g->gains(K);
        else if(how == 1)
          vec ? g->gains(k, 1.) : g->gains(K, 1.);
        else if(how == 2)
          vec ? g->gains(2., k) : g->gains(2., K);
        else
          vec ? g->gains(Vec(Vec::Ones(x.m)), k) : g->gains(k, K);
      }
    }
    catch(const std::runtime_error &)
    {
      threw = true;
    }
    c.check(threw, "wrong-size-gain-accepted", fmt("%s gain of the wrong size, law %d", vec ? "diagonal" : "matrix", x.law));
  }
  void changeGain(int64_t which, int64_t seed)
  {
    auto x = pick(which, [](LTask & x) { return x.law == L_P || x.law == L_PD || x.comp >= C_CLAMP; });
    if(!x)
      return;
    Rng r(static_cast<uint64_t>(seed));
    if(x->comp >= C_CLAMP && r.chance(40))
    {
      for(int i = 0; i < x->m; ++i)
      {
        x->cmax(i) *= uni(r, 0.5, 1.5);
        x->cmin(i) *= uni(r, 0.5, 1.5);
      }
      setBounds(*x);
      c.count("op.saturation-changed");
      return;
    }
    if(x->law != L_P && x->law != L_PD)
      return;
    if(r.chance(15))
    {
      wrongGain(r, *x);
      return;
    }
    drawGains(r, *x);
    bool direct = r.chance(30);
    auto one = [&](bool second) {
      if(x->law == L_P)
      {
        auto g = second ? x->tr->task.secondBoundTaskDynamics<td::P>() : x->tr->task.taskDynamics<td::P>();
        withForm(x->g.kp, x->g.fp, [&](const auto & k) {
          if(direct)
            g->gain() = k;
          else
            g->gain(k);
        });
      }
      else
      {
        auto g = second ? x->tr->task.secondBoundTaskDynamics<td::PD>() : x->tr->task.taskDynamics<td::PD>();
        withForm(x->g.kp, x->g.fp, [&](const auto & k) {
          if(x->g.fv == 3)
            g->gains(k);
          else
            withForm(x->g.kv, x->g.fv, [&](const auto & v) { g->gains(k, v); });
        });
      }
    };
    one(false);
    if(x->type == CType::DOUBLE_SIDED)
      one(true);
    c.count("op.gain");
  }
  template<class T>
  bool boundsOf(LTask & x)
  {
    auto p = std::dynamic_pointer_cast<typename T::Impl>(x.tr->task.taskDynamics());
    if(!p)
      return false;
    p->min() = x.cmin;
    p->max() = x.cmax;
    return true;
  }
  void setBounds(LTask & x)
  {
    using namespace td;
    bool ok = boundsOf<Clamped<P>>(x) || boundsOf<Clamped<PD>>(x) || boundsOf<Clamped<OneStepToZero>>(x) || boundsOf<Clamped<FeedForward<P>>>(x)
              || boundsOf<Clamped<FeedForward<PD>>>(x) || boundsOf<Clamped<FeedForward<OneStepToZero>>>(x);
    c.check(ok, "dynamics-type", "the dynamics of a task is not the one it was built with");
  }
  void changeWeight(int64_t which, int64_t seed)
  {
    auto x = pick(which, [](LTask & x) { return x.prio > 0; });
    if(!x)
      return;
    Rng r(static_cast<uint64_t>(seed));
    x->weight = uni(r, 0.5, 5);
    x->tr->requirements.weight() = x->weight;
    edited();
    c.count("op.weight");
  }
  void disturb(int64_t seed)
  {
    Rng r(static_cast<uint64_t>(seed));
    auto before = vars.snapshot();
    for(int b = 0; b < nplant; ++b)
    {
      Vec x = vars.der(b, 0)->value();
      for(int i = 0; i < x.size(); ++i)
        x(i) += uni(r, -0.3, 0.3);
      vars.der(b, 0)->set(x);
      if(prof == LAW && o == 2)
      {
        Vec v = vars.der(b, 1)->value();
        for(int i = 0; i < v.size(); ++i)
          v(i) += uni(r, -0.3, 0.3);
        vars.der(b, 1)->set(v);
      }
    }
    if(prof == DAMP)
    {
      for(auto & x : members(false))
        if(x->damper && (!admissible(*x, eval(*x), 0.02) || x->fk == K_QUAD))
        {
          vars.restore(before);
          return;
        }
      halt();
    }
    for(auto & x : slot)
      if(x)
        x->predicted = false;
    c.count("fault.disturbance");
  }

  // ------------------------------------------------------------------------------------------------ time
  void integrate(bool command)
  {
    for(int b = 0; b < nplant; ++b)
    {
      if(command)
        last[b] = vars.der(b, o)->value();
      Vec u = last[b], x = vars.der(b, 0)->value();
      if(o == 1)
      {
        vars.der(b, 1)->set(u);
        vars.der(b, 0)->set(x + dt * u);
      }
      else
      {
        Vec v = vars.der(b, 1)->value();
        vars.der(b, 2)->set(u);
        vars.der(b, 1)->set(v + dt * u);
        if(prof == DAMP)
          vars.der(b, 0)->set(x + dt * (v + dt * u));
        else
          vars.der(b, 0)->set(x + dt * v + dt * dt / 2 * u);
      }
    }
  }
  void tick(int fault, int64_t arg, bool mustWork = false)
  {
    ++ticks;
    c.sh->simTime += dt;
    if(prof == LAW)
      endStops();
    refreshSpeed();
    auto & H = num::hub();
    if(fault == MISSED)
    {
      c.count("fault.missed-tick");
      if(prof == DAMP)
        halt(); // the command has expired
      else
        follow(false, true);
      integrate(false);
      invariants("missed tick");
      return;
    }
    auto mem = members();
    std::vector<Ev> evs;
    std::set<int> unk;
    for(auto & x : mem)
    {
      evs.push_back(eval(*x));
      for(int i = 0; i < x->m; ++i)
        for(auto & p : row(evs.back(), i).a)
          unk.insert(p.first);
    }
    double cond = prof == LAW ? conditioning(nullptr) : 1;

    std::shared_ptr<FnData> armed;
    H.calls.clear();
    H.next = fault == S_FAIL ? num::FAIL : fault == S_FAILNAN ? num::FAILNAN : fault == S_THROW ? num::THROW : num::OK;
    if(fault == USERFN)
    {
      std::vector<std::shared_ptr<FnData>> nl;
      for(auto & m : mem)
        for(auto & f : {m->fn, m->sig})
          if(f && f->D->kind == F_NL)
            nl.push_back(f->D);
      if(!nl.empty())
      {
        armed = nl[static_cast<size_t>(arg / 4) % nl.size()];
        armed->armed = static_cast<int>(arg % 3) + 1;
        armed->fired = false;
      }
    }
    auto before = vars.snapshot();
    bool ret = false, threw = false;
    std::string err;
    if(fault == ALLOC)
      heap::failAt(1 + arg % 400);
    try
    {
      ret = sch.solve(*pb);
      if(fault == DOUBLE && ret)
      {
        c.count("fault.controller-runs-twice");
        heap::failAt(0);
        for(size_t k = 0; k < mem.size(); ++k)
          updateMemory(*mem[k], evs[k], true);
        vars.restore(before); // the first command was not applied: the velocity of the plant is still the previous one
        ret = sch.solve(*pb);
      }
    }
    catch(const Violation &)
    {
      heap::failAt(0);
      throw;
    }
    catch(const UserError &)
    {
      threw = true;
    }
    catch(const std::exception & e)
    {
      threw = true;
      heap::NoFault nf;
      err = e.what();
    }
    heap::failAt(0);
    H.next = num::OK;
    bool allocFired = fault == ALLOC && heap::fired();
    bool userFired = armed && armed->fired;
    if(armed)
      armed->armed = 0;
    tvm::utils::internal::set_is_malloc_allowed_(true);
    tvm::utils::internal::enforce_malloc_coherency();
    bool stub = !H.calls.empty() && H.calls.back().outcome != num::OK;
    bool injected = stub || allocFired || userFired;
    if(stub)
      c.count(fault == S_FAIL ? "fault.solver-fails" : fault == S_FAILNAN ? "fault.solver-fails-nan" : "fault.solver-throws");
    if(allocFired)
      c.count("fault.allocation-fails");
    if(userFired)
      c.count("fault.user-function-throws");
    c.log("tick", fault * 100 + threw * 10 + ret);
    if(c.verbose)
      c.note(fmt("t=%.4f %s", ticks * dt, threw ? ("threw " + err).c_str() : ret ? "ok" : "failed"));
    if(threw)
      c.check(injected, "unexpected-exception", err);
    else if(stub && fault != DOUBLE)
      c.check(!ret, "failure-hidden", "the numerical solver failed and the scheme reports a success");
    for(size_t k = 0; k < mem.size(); ++k)
      updateMemory(*mem[k], evs[k], !threw);
    bool ok = ret && !threw;
    if(!ok)
    {
      if(prof == DAMP)
        c.check(injected, "loop-stops", "no fault occurred and standing still is possible, but the solve failed");
      else if(cond >= 0.1)
        c.check(injected, "feasible-tasks-refused", fmt("no fault occurred and the tasks are compatible (%.3g), but the solve failed", cond));
      c.check(!mustWork || injected || cond < 0.1, "no-recovery");
      vars.restore(before);
      halt();
      if(prof == LAW)
        follow(false, false);
      integrate(false);
      invariants("tick without command");
      return;
    }
    ++solved;
    c.count("nontrivial");
    // the command, as the plant reads it
    std::map<int, int> col;
    for(int x : unk)
      col.emplace(x, static_cast<int>(col.size()));
    const int n = static_cast<int>(col.size());
    Vec u(n);
    for(auto & p : col)
    {
      u(p.second) = vars.get(p.first);
      c.check(std::isfinite(u(p.second)), "not-finite", "a command is not a finite number");
      c.logd("u", u(p.second));
    }
    // the law is evaluated at the state the controller saw
    auto after = vars.snapshot();
    vars.restore(before);
    if(prof == DAMP)
      judgeDamped(mem, evs, col, u);
    else
      judgeLaw(mem, evs, col, u, cond);
    if(prof == LAW)
    {
      if(cond < 0.1)
        for(auto & x : slot)
          if(x)
            x->predicted = false;
      if(cond >= 0.1)
        follow(true, false, 1e-4 / cond * (1 + u.norm()));
    }
    vars.restore(after);
    if(o == 2) // only the command is taken from the solve
      for(int b = 0; b < nplant; ++b)
        vars.der(b, 1)->set(before[static_cast<size_t>(b) * Vars::ND + 1]);
    for(int b = 0; b < nplant; ++b)
      for(int d = 0; d < Vars::ND; ++d)
        if(d != o)
          c.check(after[static_cast<size_t>(b) * Vars::ND + static_cast<size_t>(d)] == before[static_cast<size_t>(b) * Vars::ND + static_cast<size_t>(d)],
                  "state-modified", "a solve modified the state of the plant");
    integrate(true);
    invariants("tick");
  }

  void judgeDamped(std::vector<std::shared_ptr<LTask>> & mem, std::vector<Ev> & evs, std::map<int, int> & col, const Vec & u)
  {
    const int n = static_cast<int>(u.size());
    std::vector<Row> hard;
    Mat He = Mat::Zero(n, n);
    Vec ce = Vec::Zero(n);
    bool known = true;
    int nin = 0;
    bool two = false;
    for(size_t k = 0; k < mem.size(); ++k)
    {
      std::vector<Row> R;
      known &= rows(*mem[k], evs[k], R);
      if(mem[k]->damper)
        nin += static_cast<int>(R.size());
      two |= mem[k]->prio == 2;
      for(auto & r : R)
        if(mem[k]->prio == 0)
          hard.push_back(r);
        else
        {
          Vec a = dense(r, col, n);
          He += r.w * a * a.transpose();
          ce -= r.w * r.l * a;
        }
    }
    if(nin)
      c.count("probe.damper-acting");
    else
      c.count("probe.no-damper-acting");
    for(auto & r : hard)
    {
      double v = dense(r, col, n).dot(u), tol = 1e-6 * (1 + std::abs(v));
      c.check((r.l <= -INF || v >= r.l - tol * (1 + std::abs(r.l))) && (r.u >= INF || v <= r.u + tol * (1 + std::abs(r.u))), "approach-too-fast",
              fmt("a rate of %.9g leaves [%.9g, %.9g]", v, r.l, r.u));
    }
    if(!known || two)
    {
      c.count("probe.skipped-unknown-damping");
      return;
    }
    Eigen::SelfAdjointEigenSolver<Mat> es(He);
    if(n == 0 || es.eigenvalues()(0) < 1e-2)
    {
      c.count("probe.skipped-not-strictly-convex");
      return;
    }
    Mat A(static_cast<int>(hard.size()), n);
    Vec l(A.rows()), up(A.rows());
    for(int i = 0; i < A.rows(); ++i)
    {
      A.row(i) = dense(hard[static_cast<size_t>(i)], col, n).transpose();
      l(i) = hard[static_cast<size_t>(i)].l;
      up(i) = hard[static_cast<size_t>(i)].u;
    }
    auto q = num::solveQP(He, ce, Mat(0, n), Vec(0), A, l, up, Vec::Constant(n, -INF), Vec::Constant(n, INF));
    if(!q.ok)
    {
      c.count("probe.skipped-reference-infeasible");
      return;
    }
    ++judged;
    c.sig(mix64(static_cast<uint64_t>(sch.backend * 8 + o)) ^ mix64(static_cast<uint64_t>(nin * 64 + n)) ^ mix64(static_cast<uint64_t>(mem.size()) * 977u));
    auto cost = [&](const Vec & x) { return 0.5 * x.dot(He * x) + ce.dot(x); };
    double cu = cost(u), cq = cost(q.x), sc = 1 + std::abs(cq) + 0.5 * q.x.dot(He * q.x);
    c.check(cu <= cq + 1e-4 * sc, nin ? "restricted-more-than-damped" : "restricted-outside",
            fmt("the competing tasks are left at a cost of %.9g where %.9g is allowed, %d limits within their interaction distance", cu, cq, nin));
  }
  void judgeLaw(std::vector<std::shared_ptr<LTask>> & mem, std::vector<Ev> & evs, std::map<int, int> & col, const Vec & u, double cond)
  {
    if(cond < 0.1)
    {
      c.count("probe.skipped-incompatible");
      return;
    }
    ++judged;
    const int n = static_cast<int>(u.size());
    uint64_t sig = static_cast<uint64_t>(sch.backend * 8 + o);
    for(size_t k = 0; k < mem.size(); ++k)
    {
      auto & x = *mem[k];
      std::vector<Row> R;
      rows(x, evs[k], R);
      sig += mix64(static_cast<uint64_t>(((x.law * 8 + x.comp) * 4 + x.g.fp) * 4 + x.g.fv) * 64 + static_cast<uint64_t>(x.type) * 8 + static_cast<uint64_t>(x.prio));
      for(size_t i = 0; i < R.size(); ++i)
      {
        double v = dense(R[i], col, n).dot(u), tol = (x.prio ? 1e-4 : 1e-6) / cond * (1 + u.norm());
        bool good = (R[i].l <= -INF || v >= R[i].l - tol) && (R[i].u >= INF || v <= R[i].u + tol);
        c.check(good, "law", fmt("component %zu of a task (law %d, composition %d, gains %d/%d) changes at %.9g instead of [%.9g, %.9g]", i, x.law, x.comp,
                                 x.g.fp, x.g.fv, v, R[i].l, R[i].u));
      }
    }
    c.sig(sig);
  }
  /** advances the predictions by one step: commanded by the law, held (missed) or stopped */
  void follow(bool law, bool held, double tol = 0)
  {
    for(auto & x : slot)
    {
      if(!x)
        continue;
      bool ok = x->member && !x->damper && x->fk == K_PLANT && x->fn->D->kind != F_NL && x->type == CType::EQUAL;
      if(!ok)
      {
        x->predicted = false;
        continue;
      }
      if(!x->predicted)
      {
        auto e = eval(*x);
        x->pf = e.f;
        x->pv = e.v;
        if(!held)
          x->plast = Vec::Zero(x->m);
        x->perr = x->verr = 0;
        x->predicted = !held;
        if(held)
          continue;
      }
      if(law)
        x->plast = desired(*x, x->pf, x->pv, x->l);
      else if(!held)
      {
        x->plast = Vec::Zero(x->m);
        if(o == 2)
          x->pv = Vec::Zero(x->m);
      }
      double e = x->prio ? tol : tol * 1e-2;
      x->perr += dt * (o == 1 ? e : x->verr + e);
      x->verr += dt * e;
      if(o == 1)
        x->pf += dt * x->plast;
      else
      {
        x->pf += dt * x->pv + dt * dt / 2 * x->plast;
        x->pv += dt * x->plast;
      }
    }
  }
  void invariants(const char * when)
  {
    for(auto & x : members(false))
    {
      auto e = eval(*x);
      if(x->damper)
      {
        for(int s = 0; s < 2; ++s)
          if(has(*x, s))
            for(int i = 0; i < x->m; ++i)
            {
              double d = dist(*x, e.f, s, i);
              if(d < x->di(i))
                c.count("probe.inside-zone");
              c.check(d >= x->ds(i) - 1e-6, "safety-distance-crossed",
                      fmt("t=%.4f, after a %s: component %d at %.9g from its %s limit, safety distance %.9g", ticks * dt, when, i, d,
                          s == 0 ? "lower" : "upper", x->ds(i)));
            }
        continue;
      }
      if(x->predicted)
      {
        double err = (e.f - x->pf).norm(), sc = 1 + x->pf.norm() + (o == 2 ? x->pv.norm() : 0);
        c.logd("e", e.f(0));
        c.check(err <= 1e-5 * sc + x->perr, "error-does-not-follow",
                fmt("t=%.4f, after a %s: the error is %s instead of %s", ticks * dt, when, show(e.f - x->l).c_str(), show(x->pf - x->l).c_str()));
        c.count("probe.error-followed");
      }
    }
  }
  void settle(int64_t n)
  {
    struct Start
    {
      std::shared_ptr<LTask> x;
      double e0;
    };
    std::vector<Start> S;
    for(auto & x : members(false))
      if(!x->damper && x->fk == K_PLANT && x->type == CType::EQUAL && x->law == L_P && x->comp == C_PLAIN && x->fn->D->kind != F_NL)
        S.push_back({x, (eval(*x).f - x->l).norm()});
    int k = 0;
    bool good = true;
    stopped = false;
    for(; k < n; ++k)
    {
      if(prof == LAW)
        good &= conditioning(nullptr) >= 0.1;
      tick(NOFAULT, 0, true);
    }
    if(prof != LAW || !good || stopped)
      return;
    for(auto & s : S)
    {
      Eigen::SelfAdjointEigenSolver<Mat> es(s.x->g.kp);
      double rate = std::max(std::abs(1 - dt * es.eigenvalues()(0)), std::abs(1 - dt * es.eigenvalues()(s.x->m - 1)));
      double bound = std::pow(rate, static_cast<double>(n)) * s.e0 * 1.001 + 1e-4 + s.x->perr;
      c.check((eval(*s.x).f - s.x->l).norm() <= bound, "no-convergence",
              fmt("after %lld undisturbed steps an error of %.6g is left, at most %.6g is implied", static_cast<long long>(n), (eval(*s.x).f - s.x->l).norm(), bound));
      c.count("probe.convergence-checked");
    }
  }
  /** the plant hits its end stops */
  void endStops()
  {
    bool out = false;
    for(int b = 0; b < nplant; ++b)
      out |= !(vars.der(b, 0)->value().cwiseAbs().maxCoeff() < 10 && vars.der(b, 1)->value().cwiseAbs().maxCoeff() * dt < 10);
    if(!out)
      return;
    for(int b = 0; b < nplant; ++b)
      vars.der(b, 0)->setZero();
    halt();
    for(auto & x : slot)
      if(x)
        x->predicted = false;
    stopped = true;
    c.count("probe.end-stop");
  }
  bool stopped = false;
  void step(const Op & op)
  {
    switch(op.kind)
    {
      case NEWDAMPER:
        if(prof == DAMP)
          newDamper(op.arg(0), op.arg(1));
        break;
      case NEWTASK:
        newTask(op.arg(0), op.arg(1));
        break;
      case REMOVE:
        remove(op.arg(0));
        break;
      case READD:
        readd(op.arg(0));
        break;
      case TICK: {
        int f = static_cast<int>(std::clamp<int64_t>(op.arg(0), 0, 7));
        tick(f, op.arg(1));
        break;
      }
      case RETARGET:
        retarget(op.arg(0), op.arg(1));
        break;
      case GAIN:
        changeGain(op.arg(0), op.arg(1));
        break;
      case WEIGHT:
        changeWeight(op.arg(0), op.arg(1));
        break;
      case DISTURB:
        disturb(op.arg(0));
        break;
      case MOVEREF: {
        Rng r(static_cast<uint64_t>(op.arg(0)));
        vars.base.back()->set(Vec(randomMat(r, vars.base.back()->size(), 1, 1)));
        c.count("op.reference-moved");
        break;
      }
      case SCHNEW:
        newScheme();
        c.count("op.scheme-new");
        break;
      case PBNEW: {
        auto n = std::make_unique<tvm::LinearizedControlProblem>();
        for(auto & x : members())
          n->add(x->tr);
        pb = std::move(n);
        edited();
        c.count("op.problem-new");
        break;
      }
      case SETTLE:
        settle(std::clamp<int64_t>(op.arg(0), 1, 200));
        break;
    }
  }
};

template<Profile PR>
void execute(const Trace & t, Ctx & c)
{
  heap::begin(static_cast<int>(t.c("heap")), t.seed);
  {
    num::hub() = num::Hub();
    num::hub().settle = true;
    LWorld w(t, c, PR);
    w.setup();
    for(size_t i = 0; i < t.ops.size(); ++i)
    {
      c.sh->opIndex = static_cast<int>(i);
      w.step(t.ops[i]);
      c.sh->hash = c.hash;
      ++c.sh->opsRun;
    }
    c.log("end", w.ticks * 1000 + w.solved);
  }
  heap::end();
}
Op mk(int k, std::vector<int64_t> a)
{
  Op o;
  o.kind = k;
  o.a = std::move(a);
  return o;
}
template<Profile PR>
void generate(Rng & r, Trace & t, bool thorough)
{
  auto & f = t.cfg;
  int nb = static_cast<int>(r.range(1, 3));
  f["nb"] = nb;
  for(int b = 0; b < 3; ++b)
  {
    f[fmt("b%d", b)] = r.range(1, 4);
    f[fmt("s%d", b)] = r.chance(30) ? r.range(1, 3) : 0;
  }
  f["order"] = r.range(1, 2);
  f["dt"] = r.below(5);
  f["vm"] = r.below(41);
  f["heap"] = r.below(3);
  f["bk"] = r.below(5);
  f["chol"] = r.chance(35);
  f["warm"] = r.chance(50);
  f["ff"] = r.chance(40);
  int nd = PR == DAMP ? static_cast<int>(r.range(1, 3)) : 0;
  for(int i = 0; i < nd; ++i)
    t.ops.push_back(mk(NEWDAMPER, {i, r.big()}));
  int nt = static_cast<int>(r.range(1, 5));
  for(int i = 0; i < nt; ++i)
    t.ops.push_back(mk(NEWTASK, {3 + i, r.big()}));
  bool faults = r.chance(60);
  int fp = static_cast<int>(r.range(2, 25));
  bool edits = r.chance(60);
  int ep = static_cast<int>(r.range(3, 25));
  int n = static_cast<int>(thorough ? r.range(40, 240) : r.range(20, 100));
  for(int i = 0; i < n; ++i)
  {
    if(edits && r.chance(ep))
    {
      int k = static_cast<int>(r.below(20));
      if(k < 2 && PR == DAMP)
        t.ops.push_back(mk(NEWDAMPER, {r.below(4), r.big()}));
      else if(k < 4)
        t.ops.push_back(mk(NEWTASK, {3 + r.below(NT - 3), r.big()}));
      else if(k < 6)
        t.ops.push_back(mk(REMOVE, {r.big()}));
      else if(k < 9)
        t.ops.push_back(mk(READD, {r.big()}));
      else if(k < 11)
        t.ops.push_back(mk(RETARGET, {r.big(), r.big()}));
      else if(k < 15)
        t.ops.push_back(mk(GAIN, {r.big(), r.big()}));
      else if(k < 16)
        t.ops.push_back(mk(WEIGHT, {r.big(), r.big()}));
      else if(k < 18)
        t.ops.push_back(mk(MOVEREF, {r.big()}));
      else if(k < 19)
        t.ops.push_back(mk(SCHNEW, {}));
      else
        t.ops.push_back(mk(PBNEW, {}));
    }
    if(faults && r.chance(fp))
    {
      int k = static_cast<int>(r.range(1, 8));
      if(k == 8)
        t.ops.push_back(mk(DISTURB, {r.big()}));
      else
        t.ops.push_back(mk(TICK, {k, r.big()}));
    }
    else
      t.ops.push_back(mk(TICK, {0, 0}));
  }
  t.ops.push_back(mk(SETTLE, {r.range(10, thorough ? 100 : 40)}));
}

const std::vector<const char *> kinds = {"new-damper", "new-task", "remove", "add-again", "tick", "target-moved", "gain", "weight", "disturbance",
                                         "reference-moved", "scheme-new", "problem-new", "settle"};
const char * REAL = "task dynamics, tasks, linearised constraints, problem, update plan, resolution schemes, assignments, solver "
                    "adapters, variables and functions";
const char * STUB = "the plant (integrated by the simulator over simulated time), the numerical libraries behind the adapters "
                    "(recording stand-ins backed by a reference QP solver), the heap";
const char * RULE = "at least one control step was computed";
const char * MEASURE = "distinct combinations of (back-end, order, dynamics and gain forms, compositions, types, priorities, limits acting) judged";

#define LOOP(id, name, PR, quick, thor)                                                  \
  WorldReg reg##PR({name, generate<PR>, execute<PR>, kinds, REAL, STUB, RULE, MEASURE}); \
  PropReg preg##PR({id, name, quick, thor});
LOOP("C11", "damped-loop", DAMP, 20000, 300000)
LOOP("C12", "error-loop", LAW, 20000, 300000)
} // namespace
