// Model of a control problem: tasks as data, the optimisation problem they describe, and its comparison with what the
// numerical solver received. Shared by the worlds that drive LinearizedControlProblem and the resolution schemes.
#pragma once
#include "core.h"
#include "qp.h"
#include <Eigen/Eigenvalues>
#include <algorithm>
#include <array>
#include <cmath>
#include <memory>
#include <tvm/ControlProblem.h>
#include <tvm/LinearizedControlProblem.h>
#include <tvm/Variable.h>
#include <tvm/VariableVector.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/graph/abstract/OutputSelector.h>
#include <tvm/hint/Substitution.h>
#include <tvm/scheme/HierarchicalLeastSquares.h>
#include <tvm/scheme/WeightedLeastSquares.h>
#include <tvm/solver/LSSOLLeastSquareSolver.h>
#include <tvm/solver/LexLSHierarchicalLeastSquareSolver.h>
#include <tvm/solver/LexLSLeastSquareSolver.h>
#include <tvm/solver/QLDLeastSquareSolver.h>
#include <tvm/solver/QuadprogLeastSquareSolver.h>
#include <tvm/task_dynamics/Constant.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/task_dynamics/OneStepToZero.h>
#include <tvm/task_dynamics/Proportional.h>
#include <tvm/task_dynamics/ProportionalDerivative.h>

namespace sim::model
{
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
using CType = tvm::constraint::Type;
constexpr double INF = 1e300;
constexpr double BIGT = 1e8; // everything beyond is an infinite bound

struct UserError
{
};

inline double uni(Rng & r, double lo, double hi) { return lo + (hi - lo) * static_cast<double>(r.below(1000001)) * 1e-6; }

/** The variables of the process. A Ref is a base variable or one of its slices. */
struct Ref
{
  int base, start, size;
  tvm::VariablePtr v;
};
struct Vars
{
  std::vector<tvm::VariablePtr> base;
  std::vector<std::array<const double *, 4>> mem; // storage of the base and of its derivatives
  std::vector<Ref> refs;
  static constexpr int ND = 3; // derivatives 0..ND-1 are coordinates
  void addBase(int n)
  {
    base.push_back(tvm::Space(n).createVariable(fmt("x%zu", base.size())));
    std::array<const double *, 4> m{};
    for(int d = 0; d < ND; ++d)
    {
      auto v = d ? tvm::dot(base.back(), d) : base.back();
      v->setZero();
      m[static_cast<size_t>(d)] = v->value().data();
    }
    mem.push_back(m);
    refs.push_back({static_cast<int>(base.size()) - 1, 0, n, base.back()});
  }
  void addSub(int b, int start, int n)
  { refs.push_back({b, start, n, base[static_cast<size_t>(b)]->subvariable(tvm::Space(n), tvm::Space(start))}); }
  Vec val(const Ref & r, int d) const
  { return Eigen::Map<const Vec>(mem[static_cast<size_t>(r.base)][static_cast<size_t>(d)] + r.start, r.size); }
  tvm::VariablePtr der(int b, int d) const
  { return d ? tvm::dot(base[static_cast<size_t>(b)], d) : base[static_cast<size_t>(b)]; }
  static int coord(int b, int d, int i) { return (b * ND + d) * 16 + i; }
  /** coordinates designated by a variable, through the storage it designates; empty if it is none of ours */
  std::vector<int> coords(const tvm::Variable & v) const
  {
    std::vector<int> r;
    const double * p = v.value().data();
    for(size_t b = 0; b < base.size(); ++b)
      for(int d = 0; d < ND; ++d)
        if(p >= mem[b][static_cast<size_t>(d)] && p < mem[b][static_cast<size_t>(d)] + base[b]->size())
        {
          int s = static_cast<int>(p - mem[b][static_cast<size_t>(d)]);
          for(int i = 0; i < v.size(); ++i)
            r.push_back(coord(static_cast<int>(b), d, s + i));
          return r;
        }
    return r;
  }
  double get(int co) const { return mem[static_cast<size_t>(co / 16 / ND)][static_cast<size_t>(co / 16 % ND)][co % 16]; }
  std::vector<Vec> snapshot() const
  {
    std::vector<Vec> s;
    for(size_t b = 0; b < base.size(); ++b)
      for(int d = 0; d < ND; ++d)
        s.push_back(Eigen::Map<const Vec>(mem[b][static_cast<size_t>(d)], base[b]->size()));
    return s;
  }
  void restore(const std::vector<Vec> & s)
  {
    size_t k = 0;
    for(size_t b = 0; b < base.size(); ++b)
      for(int d = 0; d < ND; ++d)
        der(static_cast<int>(b), d)->set(s[k++]);
  }
  void randomize(Rng & r)
  {
    for(size_t b = 0; b < base.size(); ++b)
      for(int d = 0; d < ND; ++d)
      {
        Vec x(base[b]->size());
        for(int i = 0; i < x.size(); ++i)
          x(i) = uni(r, -1, 1);
        der(static_cast<int>(b), d)->set(x);
      }
  }
};

enum FKind
{
  F_ID,
  F_LIN, // tvm::function::BasicLinearFunction
  F_DIAG, // the same, with a diagonal matrix declared as such
  F_NL // A x + B sin(x) + d, written by the user
};
/** Function data: the truth of the model; the real function object is fed with it. */
struct FnData
{
  int kind = F_ID;
  std::vector<int> refs;
  std::vector<Mat> A, B; // B diagonal-like: B(i,j) sin(x_j)
  Vec d;
  int m = 0;
  int shape = 0; // what is declared of the (first) matrix of F_DIAG and F_LIN
  bool zeroB = false; // the constant part is declared null
  int low = -1; // the matrix of this variable is rank deficient
  int armed = 0; // fault: the armed-th update from now throws
  bool fired = false;
  void tick()
  {
    if(armed > 0 && --armed == 0)
    {
      fired = true;
      throw UserError{};
    }
  }
};

class UserFunction : public tvm::graph::abstract::OutputSelector<tvm::function::abstract::Function>
{
public:
  using Base = tvm::graph::abstract::OutputSelector<tvm::function::abstract::Function>;
  DISABLE_OUTPUTS(Output::JDot)
  SET_UPDATES(UserFunction, Value, Jacobian, Velocity, NormalAcceleration)

  UserFunction(std::shared_ptr<FnData> data, const Vars & vars) : Base(data->m), D(data)
  {
    registerUpdates(Update::Value, &UserFunction::updateValue, Update::Jacobian, &UserFunction::updateJacobian,
                    Update::Velocity, &UserFunction::updateVelocity, Update::NormalAcceleration,
                    &UserFunction::updateNormalAcceleration);
    addOutputDependency<UserFunction>(Output::Value, Update::Value);
    addOutputDependency<UserFunction>(Output::Jacobian, Update::Jacobian);
    addOutputDependency<UserFunction>(Output::Velocity, Update::Velocity);
    addOutputDependency<UserFunction>(Output::NormalAcceleration, Update::NormalAcceleration);
    for(int r : D->refs)
      addVariable(vars.refs[static_cast<size_t>(r)].v, false);
  }
  void updateValue()
  {
    D->tick();
    for(int i = 0; i < D->m; ++i)
    {
      double s = D->d(i);
      for(size_t k = 0; k < D->refs.size(); ++k)
      {
        auto x = variables()[static_cast<int>(k)]->value();
        for(int j = 0; j < x.size(); ++j)
          s += D->A[k](i, j) * x(j) + D->B[k](i, j) * std::sin(x(j));
      }
      value_(i) = s;
    }
  }
  void updateJacobian()
  {
    D->tick();
    for(size_t k = 0; k < D->refs.size(); ++k)
    {
      const auto & v = variables()[static_cast<int>(k)];
      auto x = v->value();
      for(int i = 0; i < D->m; ++i)
        for(int j = 0; j < x.size(); ++j)
          jacobian_[v.get()](i, j) = D->A[k](i, j) + D->B[k](i, j) * std::cos(x(j));
    }
  }
  void updateVelocity()
  {
    D->tick();
    velocity_.setZero();
    for(size_t k = 0; k < D->refs.size(); ++k)
    {
      const auto & v = variables()[static_cast<int>(k)];
      auto x = v->value();
      auto dx = tvm::dot(v)->value();
      for(int i = 0; i < D->m; ++i)
        for(int j = 0; j < x.size(); ++j)
          velocity_(i) += (D->A[k](i, j) + D->B[k](i, j) * std::cos(x(j))) * dx(j);
    }
  }
  void updateNormalAcceleration()
  {
    D->tick();
    normalAcceleration_.setZero();
    for(size_t k = 0; k < D->refs.size(); ++k)
    {
      const auto & v = variables()[static_cast<int>(k)];
      auto x = v->value();
      auto dx = tvm::dot(v)->value();
      for(int i = 0; i < D->m; ++i)
        for(int j = 0; j < x.size(); ++j)
          normalAcceleration_(i) -= D->B[k](i, j) * std::sin(x(j)) * dx(j) * dx(j);
    }
  }
  std::shared_ptr<FnData> D;
};

enum Shape
{
  SH_DIAG = 0,
  SH_IDENTITY,
  SH_MINUS_IDENTITY,
  SH_MULTIPLE,
  SH_NEGATIVE_MULTIPLE,
  SH_POSITIVE,
  SH_NEGATIVE,
  SH_SINGULAR, // diagonal with null rows
  NSHAPES
};
inline tvm::internal::MatrixProperties shapeProperties(int s)
{
  using MP = tvm::internal::MatrixProperties;
  switch(s)
  {
    case SH_IDENTITY:
      return MP(MP::IDENTITY);
    case SH_MINUS_IDENTITY:
      return MP(MP::MINUS_IDENTITY);
    case SH_MULTIPLE:
      return MP(MP::MULTIPLE_OF_IDENTITY, MP::POSITIVE_DEFINITE);
    case SH_NEGATIVE_MULTIPLE:
      return MP(MP::MULTIPLE_OF_IDENTITY, MP::NEGATIVE_DEFINITE);
    case SH_POSITIVE:
      return MP(MP::DIAGONAL, MP::POSITIVE_DEFINITE);
    case SH_NEGATIVE:
      return MP(MP::DIAGONAL, MP::NEGATIVE_DEFINITE);
    case SH_SINGULAR:
      return MP(MP::DIAGONAL, MP::Invertibility(false));
    default:
      return MP(MP::DIAGONAL, MP::Invertibility(true));
  }
}

struct Fn
{
  std::shared_ptr<FnData> D;
  tvm::FunctionPtr f;
  /** gives the current data to the real object (linear functions hold copies) */
  void push(const Vars & vars)
  {
    if(D->kind == F_LIN || D->kind == F_DIAG)
    {
      auto blf = std::static_pointer_cast<tvm::function::BasicLinearFunction>(f);
      using MP = tvm::internal::MatrixProperties;
      for(size_t k = 0; k < D->refs.size(); ++k)
      {
        const auto & x = *vars.refs[static_cast<size_t>(D->refs[k])].v;
        if(D->kind == F_DIAG || (k == 0 && D->shape > 0))
          blf->A(D->A[k], x, shapeProperties(D->shape));
        else
          blf->A(D->A[k], x);
      }
      if(D->zeroB)
        blf->b(D->d, MP(MP::ZERO));
      else
      blf->b(D->d);
    }
  }
  void create(const Vars & vars)
  {
    std::vector<tvm::VariablePtr> xs;
    for(int r : D->refs)
      xs.push_back(vars.refs[static_cast<size_t>(r)].v);
    switch(D->kind)
    {
      case F_ID:
        f = std::make_shared<tvm::function::IdentityFunction>(xs[0]);
        break;
      case F_LIN:
      case F_DIAG:
        f = std::make_shared<tvm::function::BasicLinearFunction>(D->m, xs);
        push(vars);
        break;
      default:
        f = std::make_shared<UserFunction>(D, vars);
    }
  }
};

enum TDKind
{
  TD_NONE,
  TD_CONST,
  TD_P,
  TD_PD,
  TD_ONE1, // one step to zero, velocity
  TD_ONE2
};
inline int orderOf(int td)
{
  switch(td)
  {
    case TD_NONE:
    case TD_CONST:
      return 0;
    case TD_P:
    case TD_ONE1:
      return 1;
    default:
      return 2;
  }
}

struct TaskM
{
  std::shared_ptr<Fn> fn;
  tvm::TaskWithRequirementsPtr tr;
  CType type = CType::EQUAL;
  int td = TD_NONE;
  int order = 0;
  Mat kp, kv;
  int gainForm = 0; // 0 scalar, 1 vector, 2 matrix
  double dt = 0.1;
  Vec l, u; // EQUAL: l==u
  int prio = 0;
  double weight = 1;
  Vec aniso; // empty: default
  bool l1 = false; // unsupported violation evaluation
  int slot = -1;
};

/** l <= a x <= u on coordinates */
struct Row
{
  std::map<int, double> a;
  double l, u;
  double w; // weight of the squared residual
};

inline Vec fValue(const TaskM & t, const Vars & vars, Vec * vel, Vec * nacc, std::vector<Mat> * J)
{
  const FnData & D = *t.fn->D;
  Vec f = D.kind == F_ID ? Vec::Zero(D.m).eval() : D.d;
  if(vel)
    *vel = Vec::Zero(D.m);
  if(nacc)
    *nacc = Vec::Zero(D.m);
  for(size_t k = 0; k < D.refs.size(); ++k)
  {
    const Ref & r = vars.refs[static_cast<size_t>(D.refs[k])];
    Vec x = vars.val(r, 0), dx = vars.val(r, 1);
    Mat Jk = D.A[k];
    f += D.A[k] * x;
    if(D.kind == F_NL)
    {
      f += D.B[k] * x.array().sin().matrix();
      Jk += D.B[k] * x.array().cos().matrix().asDiagonal();
      if(nacc)
        *nacc -= D.B[k] * (x.array().sin() * dx.array() * dx.array()).matrix();
    }
    if(vel)
      *vel += Jk * dx;
    if(J)
      J->push_back(Jk);
  }
  return f;
}

inline Vec desired(const TaskM & t, const Vec & f, const Vec & v, const Vec & rhs)
{
  switch(t.td)
  {
    case TD_NONE:
      return rhs - (t.fn->D->kind == F_ID ? Vec::Zero(rhs.size()).eval() : t.fn->D->d);
    case TD_CONST:
      return rhs;
    case TD_P:
      return -t.kp * (f - rhs);
    case TD_PD:
      return -t.kv * v - t.kp * (f - rhs);
    case TD_ONE1:
      return (rhs - f) / t.dt;
    default:
      return ((rhs - f) / t.dt - v) * 2 / t.dt;
  }
}

/** The linearisation of the task at the current values of the variables. */
inline std::vector<Row> linearise(const TaskM & t, const Vars & vars)
{
  std::vector<Row> R;
  Vec vel, nacc;
  std::vector<Mat> J;
  Vec f = fValue(t, vars, &vel, &nacc, &J);
  const int m = t.fn->D->m;
  Vec lo = desired(t, f, vel, t.l), up = desired(t, f, vel, t.u);
  if(t.order == 2)
  {
    lo -= nacc;
    up -= nacc;
  }
  for(int i = 0; i < m; ++i)
  {
    Row r;
    for(size_t k = 0; k < J.size(); ++k)
    {
      const Ref & ref = vars.refs[static_cast<size_t>(t.fn->D->refs[k])];
      for(int j = 0; j < ref.size; ++j)
        r.a[Vars::coord(ref.base, t.order, ref.start + j)] += J[k](i, j);
    }
    r.l = t.type == CType::LOWER_THAN ? -INF : lo(i);
    r.u = t.type == CType::GREATER_THAN ? INF : up(i);
    r.w = t.weight * (t.aniso.size() > i ? t.aniso(i) : 1.); // (of the wrong size: refused, nothing is compared)
    R.push_back(r);
  }
  return R;
}
inline void unknowns(const TaskM & t, const Vars & vars, std::set<int> & s)
{
  for(int k : t.fn->D->refs)
  {
    const Ref & r = vars.refs[static_cast<size_t>(k)];
    for(int i = 0; i < r.size; ++i)
      s.insert(Vars::coord(r.base, t.order, r.start + i));
  }
}

/** A problem over columns 0..n-1 in a form that does not depend on conventions. */
struct Half
{ // a.x >= b
  Vec a;
  double b;
};
struct Canon
{
  Vec lo, up;
  std::vector<Half> rows;
};
inline void addRow(Canon & C, const Vec & a, double l, double u, bool normalise)
{
  int nz = 0, at = -1;
  double mx = a.size() ? a.cwiseAbs().maxCoeff() : 0;
  for(int i = 0; i < a.size(); ++i)
    if(std::abs(a(i)) > 1e-13 * (1 + mx) && a(i) != 0)
      ++nz, at = i;
  if(nz == 0)
    return;
  if(nz == 1 && normalise)
  {
    double L = l > -BIGT ? l / a(at) : -INF, U = u < BIGT ? u / a(at) : INF;
    if(a(at) < 0)
    {
      double t = u < BIGT ? u / a(at) : -INF;
      U = l > -BIGT ? l / a(at) : INF;
      L = t;
    }
    C.lo(at) = std::max(C.lo(at), L);
    C.up(at) = std::min(C.up(at), U);
    return;
  }
  double s = normalise ? 1 / a.norm() : 1;
  if(l > -BIGT)
    C.rows.push_back({a * s, l * s});
  if(u < BIGT)
    C.rows.push_back({-a * s, -u * s});
}
inline Canon canon(int n)
{
  Canon C;
  C.lo = Vec::Constant(n, -INF);
  C.up = Vec::Constant(n, INF);
  return C;
}
inline void addBlock(Canon & C, const num::Block & b, bool normalise)
{
  for(int i = 0; i < b.A.rows(); ++i)
    addRow(C, b.A.row(i).transpose(), b.l(i), b.u(i), normalise);
}
inline void addBounds(Canon & C, const Vec & xl, const Vec & xu)
{
  for(int i = 0; i < xl.size(); ++i)
  {
    if(xl(i) > -BIGT)
      C.lo(i) = std::max(C.lo(i), xl(i));
    if(xu(i) < BIGT)
      C.up(i) = std::min(C.up(i), xu(i));
  }
}
inline bool close(double a, double b, double tol = 1e-8)
{
  if(std::abs(a) >= BIGT || std::abs(b) >= BIGT)
    return std::abs(a) >= BIGT && std::abs(b) >= BIGT && (a > 0) == (b > 0);
  return std::abs(a - b) <= tol * (1 + std::abs(a) + std::abs(b));
}
inline std::string show(const Vec & v)
{
  std::string s = "[";
  for(int i = 0; i < v.size(); ++i)
    s += fmt(i ? " %.6g" : "%.6g", v(i));
  return s + "]";
}
/** empty when equal */
inline std::string diff(const Canon & exp, const Canon & act)
{
  for(int i = 0; i < exp.lo.size(); ++i)
    if(!close(exp.lo(i), act.lo(i)) || !close(exp.up(i), act.up(i)))
      return fmt("column %d restricted to [%.9g, %.9g] instead of [%.9g, %.9g]", i, act.lo(i), act.up(i), exp.lo(i), exp.up(i));
  std::vector<char> used(act.rows.size(), 0);
  for(auto & e : exp.rows)
  {
    bool found = false;
    for(size_t k = 0; k < act.rows.size() && !found; ++k)
      if(!used[k] && close(e.b, act.rows[k].b) && (e.a - act.rows[k].a).cwiseAbs().maxCoeff() <= 1e-8 * (1 + e.a.norm()))
      {
        used[k] = 1;
        found = true;
      }
    if(!found)
      return "missing row " + show(e.a) + fmt(" >= %.9g", e.b);
  }
  for(size_t k = 0; k < used.size(); ++k)
    if(!used[k])
      return "unexpected row " + show(act.rows[k].a) + fmt(" >= %.9g", act.rows[k].b);
  return "";
}

enum Backend
{
  B_QUADPROG,
  B_QLD,
  B_LSSOL,
  B_LEXLS,
  B_HLS
};
struct SchemeM
{
  std::unique_ptr<tvm::scheme::WeightedLeastSquares> w;
  std::unique_ptr<tvm::scheme::HierarchicalLeastSquares> h;
  int backend = 0;
  bool cholesky = false, autoDamping = false, feasibleFirst = false, warm = false;
  double damping = 0, cholDamping = 0, scal = 1000, big = 0, optBig = 0;
  bool hls() const { return backend == B_HLS; }
  void create()
  {
    using namespace tvm::solver;
    using tvm::scheme::HierarchicalLeastSquares;
    using tvm::scheme::HierarchicalLeastSquaresOptions;
    using tvm::scheme::WeightedLeastSquares;
    auto so = tvm::scheme::WeightedLeastSquaresOptions().autoDamping(autoDamping).scalarizationWeight(scal);
    switch(backend)
    {
      case B_QUADPROG:
        w = std::make_unique<WeightedLeastSquares>(
            QuadprogLSSolverOptions().big_number(optBig).cholesky(cholesky).choleskyDamping(cholDamping).damping(damping), so);
        break;
      case B_QLD:
        w = std::make_unique<WeightedLeastSquares>(
            QLDLSSolverOptions().big_number(optBig).cholesky(cholesky).choleskyDamping(cholDamping), so);
        break;
      case B_LSSOL:
        w = std::make_unique<WeightedLeastSquares>(LSSOLLSSolverOptions().big_number(optBig).warm(warm), so);
        break;
      case B_LEXLS:
        w = std::make_unique<WeightedLeastSquares>(LexLSLSSolverOptions().big_number(optBig).warmStart(warm), so);
        break;
      default:
        h = std::make_unique<HierarchicalLeastSquares>(
            LexLSHLSSolverOptions().big_number(optBig).warmStart(warm).feasibleFirstLevel(feasibleFirst),
            HierarchicalLeastSquaresOptions().autoDamping(autoDamping));
    }
    if(w)
      w->big_number(big);
    else
      h->big_number(big);
  }
  bool solve(tvm::LinearizedControlProblem & p) { return w ? w->solve(p) : h->solve(p); }
  const tvm::VariableVector & variables(tvm::LinearizedControlProblem & p)
  {
    return w ? tvm::scheme::internal::getComputationData(p, *w)->variables()
             : tvm::scheme::internal::getComputationData(p, *h)->variables();
  }
};

/** What the problem is, stated from the tasks alone. */
struct Stated
{
  std::vector<Row> rows0;
  std::map<int, std::vector<Row>> levels; // priority -> rows (p >= 1; for hierarchies also 0)
};
inline Stated state(const std::vector<std::shared_ptr<TaskM>> & tasks, const Vars & vars)
{
  Stated S;
  for(auto & t : tasks)
  {
    auto r = linearise(*t, vars);
    auto & to = t->prio == 0 ? S.rows0 : S.levels[t->prio];
    to.insert(to.end(), r.begin(), r.end());
  }
  return S;
}
inline Vec dense(const Row & r, const std::map<int, int> & col, int n)
{
  Vec a = Vec::Zero(n);
  for(auto & p : r.a)
    a(col.at(p.first)) = p.second;
  return a;
}

inline std::string compareWLS(const Stated & S, const num::Call & k, const SchemeM & s, const std::map<int, int> & col)
{
  const int n = k.n;
  Canon E = canon(n), A = canon(n);
  for(auto & r : S.rows0)
    addRow(E, dense(r, col, n), r.l, r.u, true);
  Mat H = k.H;
  Vec c = k.c;
  addBounds(A, k.xl, k.xu);
  if(k.hierarchical)
  {
    if(k.levels.size() != 2)
      return fmt("%zu levels given instead of bounds, constraints and objective", k.levels.size());
    addBlock(A, k.levels[0], true);
    const auto & b = k.levels[1];
    if(b.A.rows() && (b.l - b.u).cwiseAbs().maxCoeff() != 0)
      return "objective given as an inequality";
    H = b.A.transpose() * b.A;
    c = -b.A.transpose() * b.l;
  }
  else
  {
    num::Block eq;
    eq.A = k.Aeq;
    eq.l = eq.u = k.beq;
    addBlock(A, eq, true);
    addBlock(A, k.rows, true);
  }
  std::string d = diff(E, A);
  if(!d.empty())
    return "constraints: " + d;
  int nObj = 0;
  Mat He = Mat::Zero(n, n);
  Vec ce = Vec::Zero(n);
  for(auto & L : S.levels)
    for(auto & r : L.second)
    {
      Vec a = dense(r, col, n);
      He += r.w * a * a.transpose();
      ce -= r.w * r.l * a;
      ++nObj;
    }
  std::vector<std::pair<double, double>> cand;
  if(nObj == 0 && s.autoDamping)
  {
    He.setIdentity();
    cand = {{1., 0.}, {1., s.damping}, {1., s.cholDamping * s.cholDamping}};
  }
  else
  {
    double s2 = s.scal * s.scal;
    for(double sc : {1., 1 / s2, s2})
    {
      cand.push_back({sc, 0.});
      cand.push_back({sc, s.cholesky ? s.cholDamping * s.cholDamping : s.damping});
    }
  }
  if(H.rows() != n || H.cols() != n || c.size() != n)
    return "objective of the wrong size";
  bool skipH = k.cholesky;
  if(skipH && n)
  { // R^-1 loses precision when the objective is close to singular
    Eigen::SelfAdjointEigenSolver<Mat> es(He);
    skipH = es.eigenvalues()(0) < 1e-4 * (1 + es.eigenvalues()(n - 1));
  }
  double best = 1e300;
  for(auto & p : cand)
  {
    double sc = p.first;
    Mat X = sc * He;
    X.diagonal().array() += p.second;
    double tol = 1e-8;
    double e1 = n ? (c - sc * ce).cwiseAbs().maxCoeff() / (sc * (1 + ce.cwiseAbs().maxCoeff())) : 0;
    double e2 = n && !skipH ? (H - X).cwiseAbs().maxCoeff() / (p.second + sc * (1 + He.cwiseAbs().maxCoeff())) : 0;
    if(!(e1 <= tol) || !(e2 <= (k.cholesky ? 1e-5 : tol)))
    {
      double e = std::max(e1, e2);
      best = std::min(best, std::isfinite(e) ? e : 1e299);
      continue;
    }
    return "";
  }
  return fmt("objective differs (relative error %.3g): gradient ", best) + show(c) + " instead of " + show(ce) + ", diagonal "
         + show(H.diagonal()) + " instead of " + show(He.diagonal());
}

inline std::string compareHLS(const Stated & S, const num::Call & k, const SchemeM & s, const std::map<int, int> & col, bool given)
{
  const int n = k.n;
  auto weighted = [&](Canon & C, const std::vector<Row> & rows, bool norm) {
    for(auto & r : rows)
    {
      double w = std::sqrt(r.w);
      addRow(C, dense(r, col, n) * w, r.l > -INF ? r.l * w : -INF, r.u < INF ? r.u * w : INF, norm);
    }
  };
  // level 0: simple restrictions are compared as such, whatever their form; other rows up to their weight, then with it
  Canon A0 = canon(n), E0 = canon(n);
  weighted(E0, S.rows0, true);
  addBounds(A0, k.xl, k.xu);
  std::vector<num::Block> L;
  for(auto & b : k.levels)
    if(b.A.rows())
      L.push_back(b);
  size_t next = 0;
  if(given)
  {
    if(L.empty())
      return "no level given";
    addBlock(A0, L[0], true);
    next = 1;
  }
  std::string d = diff(E0, A0);
  if(!d.empty())
    return "level 0: " + d;
  if(given)
  {
    Canon Ew = canon(n), Aw = canon(n);
    weighted(Ew, S.rows0, false);
    addBlock(Aw, L[0], false);
    auto multi = [](Canon & C) {
      std::vector<Half> r;
      for(auto & h : C.rows)
        if((h.a.array() != 0).count() > 1)
          r.push_back(h);
      C.rows = r;
    };
    multi(Ew);
    multi(Aw);
    d = diff(Ew, Aw);
    if(!d.empty())
      return "weighted level 0: " + d;
  }
  for(auto & lv : S.levels)
  {
    Canon e = canon(n), a = canon(n);
    weighted(e, lv.second, false);
    if(next >= L.size())
      return fmt("no level for priority %d", lv.first);
    addBlock(a, L[next++], false);
    d = diff(e, a);
    if(!d.empty())
      return fmt("priority %d: ", lv.first) + d;
  }
  if(s.autoDamping && n == 0) // nothing to damp
  {
    if(next < L.size() && L[next].A.rows() == 0)
      ++next;
  }
  else if(s.autoDamping)
  {
    if(next >= L.size())
      return "no damping level";
    const auto & b = L[next++];
    if(b.A.rows() != n || (b.A - Mat::Identity(n, n)).cwiseAbs().maxCoeff() > 1e-9 || b.l.cwiseAbs().maxCoeff() > 1e-9
       || b.u.cwiseAbs().maxCoeff() > 1e-9)
      return "wrong damping level";
  }
  if(next != L.size())
    return fmt("%zu levels given instead of %zu", L.size(), next);
  return "";
}
inline std::string compareHLS(const Stated & S, const num::Call & k, const SchemeM & s, const std::map<int, int> & col)
{
  if(S.rows0.empty())
    return compareHLS(S, k, s, col, false);
  // whether the first level holds rows of priority 0 depends on which restrictions could be given as simple bounds
  std::string d = compareHLS(S, k, s, col, true);
  if(d.empty())
    return d;
  std::string e = compareHLS(S, k, s, col, false);
  return e.empty() ? e : d;
}

/** values standing for infinity must be those of this scheme or of its back-end */
inline std::string checkBig(const num::Call & k, const SchemeM & s)
{
  std::string bad;
  auto one = [&](double v) {
    double a = std::abs(v);
    if(!(a >= BIGT) || a >= 1e299 || !bad.empty())
      return;
    for(double b : {s.big, s.optBig})
      if(a > b / 300 && a < b * 300)
        return;
    bad = fmt("a bound of %.3g is neither finite nor the large number of this scheme (%.3g) or back-end (%.3g)", v, s.big, s.optBig);
  };
  auto vec = [&](const Vec & v) {
    for(int i = 0; i < v.size(); ++i)
      one(v(i));
  };
  vec(k.rows.l);
  vec(k.rows.u);
  vec(k.xl);
  vec(k.xu);
  for(auto & b : k.levels)
  {
    vec(b.l);
    vec(b.u);
  }
  return bad;
}
} // namespace sim::model
