// World "function" (C22): histories of on-demand evaluations, direct writes, parameter and variable changes, refused and failed
// calls, and finite-difference checks of functions.
#include "core.h"
#include <algorithm>
#include <iostream>
#include <memory>
#include <optional>
#include <sstream>
#include <tvm/Variable.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/function/abstract/Function.h>
#include <tvm/graph/abstract/OutputSelector.h>
#include <tvm/utils/AffineExpr.h>
#include <tvm/utils/UpdatelessFunction.h>
#include <tvm/utils/checkFunction.h>

using namespace sim;
using Eigen::MatrixXd;
using Eigen::VectorXd;
namespace
{
struct UserError
{
};
enum What
{
  VALUE,
  JAC,
  VEL,
  NACC,
  JDOT,
  NWHAT
};
const char * whatName[] = {"value", "jacobian", "velocity", "normalAcceleration", "JDot"};

// ------------------------------------------------------------------------------------------------ model of the variables
struct Root
{
  int r = 0, t = 0;
  VectorXd q, v; // value, velocity
};
struct Ref
{
  tvm::VariablePtr x, dx;
  int root = 0, ro = 0, rl = 0, to = 0, tl = 0;
  bool euclid = true;
};

/** The data of a term of a user function, for a variable. */
struct Term
{
  int ref = 0;
  MatrixXd R; // m x r
  VectorXd q; // m
  VectorXd w; // r
  MatrixXd T; // m x t, non-Euclidean only
  VectorXd u; // t, non-Euclidean only
};
/** What a function returns */
struct Eval
{
  VectorXd f, v, na;
  std::vector<MatrixXd> J, JD; // per root
};
struct FnM;
struct World_;
struct Data
{
  int m = 1;
  VectorXd c;
  std::vector<Term> terms;
  int corrupt = -1; // what is wrong in this function
  int region = 0; // where: 0 everywhere, 1 when x(0) > 5, 2 when x(0) <= 5
  int row = 0, col = 0;
  double delta = 0;
  int armed = 0;
  bool fired = false;
  bool split = false;
  bool inPlace = false; // matrices are written where they are, and not assigned
  void tick()
  {
    if(armed > 0 && --armed == 0)
    {
      fired = true;
      throw UserError{};
    }
  }
};

/** outputs of a term, from the values of its variable */
void termEval(const Data & D, const Term & k, bool euclid, const VectorXd & x, const VectorXd & dx, VectorXd & f, MatrixXd & J,
              VectorXd & v, VectorXd & na, MatrixXd & JD)
{
  double s = k.w.dot(x);
  f += k.R * x + k.q * (s * s);
  if(euclid)
  {
    double sd = k.w.dot(dx);
    J = k.R + 2 * s * k.q * k.w.transpose();
    na += 2 * sd * sd * k.q;
    JD = 2 * sd * k.q * k.w.transpose();
  }
  else
  {
    double sd = k.u.dot(dx);
    J = k.T + s * k.q * k.u.transpose();
    na += sd * sd * k.q;
    JD = k.T * sd;
  }
  v += J * dx;
  (void)D;
}

using Base = tvm::graph::abstract::OutputSelector<tvm::function::abstract::Function>;
/** A user function with one update per output */
class UserFn : public Base
{
public:
  SET_UPDATES(UserFn, Value, Jacobian, Velocity, NormalAcceleration, JDot)
  UserFn(std::shared_ptr<Data> data, const std::vector<Ref> * refs) : Base(data->m), D(data), refs(refs)
  {
    registerUpdates(Update::Value, &UserFn::uValue, Update::Jacobian, &UserFn::uJacobian, Update::Velocity, &UserFn::uVelocity,
                    Update::NormalAcceleration, &UserFn::uNacc, Update::JDot, &UserFn::uJDot);
    addOutputDependency<UserFn>(Output::Value, Update::Value);
    addOutputDependency<UserFn>(Output::Jacobian, Update::Jacobian);
    addOutputDependency<UserFn>(Output::Velocity, Update::Velocity);
    addOutputDependency<UserFn>(Output::NormalAcceleration, Update::NormalAcceleration);
    addOutputDependency<UserFn>(Output::JDot, Update::JDot);
    for(auto & t : D->terms)
      addVariable((*refs)[static_cast<size_t>(t.ref)].x, isLinear(t));
  }
  static bool isLinear(const Term & t) { return t.q.size() == 0 || t.q.isZero(0); }
  bool bad(int what) const
  {
    if(D->corrupt != what || D->terms.empty())
      return false;
    double x0 = (*refs)[static_cast<size_t>(D->terms[0].ref)].x->value()[0];
    return D->region == 0 || (D->region == 1) == (x0 > 5);
  }
  template<typename F>
  void each(F && g)
  {
    for(auto & t : D->terms)
    {
      const Ref & r = (*refs)[static_cast<size_t>(t.ref)];
      VectorXd f = VectorXd::Zero(D->m), v = f, na = f;
      MatrixXd J, JD;
      termEval(*D, t, r.euclid, r.x->value(), tvm::dot(r.x)->value(), f, J, v, na, JD);
      g(t, r, f, J, v, na, JD);
    }
  }
  void uValue()
  {
    D->tick();
    value_ = D->c;
    each([&](auto &, auto &, auto & f, auto &, auto &, auto &, auto &) { value_ += f; });
    if(bad(VALUE))
      value_(D->row % D->m) += D->delta;
  }
  void uJacobian()
  {
    D->tick();
    if(D->split)
    { // all the variables in an order of ours
      std::vector<tvm::VariablePtr> vars;
      MatrixXd all(D->m, 0);
      each([&](auto &, auto & r, auto &, auto & J, auto &, auto &, auto &) {
        vars.push_back(r.x);
        MatrixXd n(D->m, all.cols() + J.cols());
        n << all, J;
        all = n;
      });
      if(all.cols())
        splitJacobian(all, vars);
    }
    else
      each([&](auto &, auto & r, auto &, auto & J, auto &, auto &, auto &) {
        if(D->inPlace)
          jacobian_[r.x.get()].topRows(J.rows()).leftCols(J.cols()) = J;
        else
          jacobian_[r.x.get()] = J;
      });
    if(bad(JAC))
    {
      auto & J = jacobian_[(*refs)[static_cast<size_t>(D->terms[0].ref)].x.get()];
      J(D->row % D->m, D->col % static_cast<int>(J.cols())) += D->delta;
    }
  }
  void uVelocity()
  {
    D->tick();
    velocity_.setZero();
    each([&](auto &, auto &, auto &, auto &, auto & v, auto &, auto &) { velocity_ += v; });
    if(bad(VEL))
      velocity_(D->row % D->m) += D->delta;
  }
  void uNacc()
  {
    D->tick();
    normalAcceleration_.setZero();
    each([&](auto &, auto &, auto &, auto &, auto &, auto & na, auto &) { normalAcceleration_ += na; });
    if(bad(NACC))
      normalAcceleration_(D->row % D->m) += D->delta;
  }
  void uJDot()
  {
    D->tick();
    each([&](auto &, auto & r, auto &, auto &, auto &, auto &, auto & JD) {
      if(D->inPlace)
        JDot_[r.x.get()].topRows(JD.rows()).leftCols(JD.cols()) = JD;
      else
        JDot_[r.x.get()] = JD;
    });
  }
  void addVar(tvm::VariablePtr x, bool lin) { addVariable(x, lin); }
  void addVars(const tvm::VariableVector & x, bool lin) { addVariable(x, lin); }
  void remVar(tvm::VariablePtr x) { removeVariable(x); }
  void setSize(int m) { resize(m); }
  void enable(int w, bool on)
  {
    switch(w)
    {
      case VALUE:
        set(Output::Value, on);
        break;
      case JAC:
        set(Output::Jacobian, on);
        break;
      case VEL:
        set(Output::Velocity, on);
        break;
      case NACC:
        set(Output::NormalAcceleration, on);
        break;
      default:
        set(Output::JDot, on);
    }
    if(on)
      resizeCache();
  }
  std::shared_ptr<Data> D;
  const std::vector<Ref> * refs;

private:
  template<typename E>
  void set(E e, bool on)
  {
    if(on)
      enableOutput(e);
    else
      disableOutput(e);
  }
};

/** A user function deriving from the base class of linear functions, which matrices and vector are computed by updates */
class UserLin : public tvm::function::abstract::LinearFunction
{
public:
  using L = tvm::function::abstract::LinearFunction;
  SET_UPDATES(UserLin, Jacobian, B)
  UserLin(std::shared_ptr<Data> data, const std::vector<Ref> * refs) : L(data->m), D(data), refs(refs)
  {
    registerUpdates(Update::Jacobian, &UserLin::uJacobian, Update::B, &UserLin::uB);
    addOutputDependency<UserLin>(L::Output::Jacobian, Update::Jacobian);
    addOutputDependency<UserLin>(L::Output::B, Update::B);
    for(auto & t : D->terms)
      addVariable((*refs)[static_cast<size_t>(t.ref)].x, true);
    setDerivativesToZero();
  }
  void uJacobian()
  {
    D->tick();
    for(auto & t : D->terms)
      jacobian_[(*refs)[static_cast<size_t>(t.ref)].x.get()] = t.R;
  }
  void uB()
  {
    D->tick();
    b_ = D->c;
  }
  void addVar(tvm::VariablePtr x)
  {
    addVariable(x, true);
    setDerivativesToZero();
  }
  void remVar(tvm::VariablePtr x) { removeVariable(x); }
  void setSize(int m) { resize(m); }
  std::shared_ptr<Data> D;
  const std::vector<Ref> * refs;
};

/** sum of M_k g_k for other functions g_k */
class Composite : public tvm::function::abstract::Function
{
public:
  SET_UPDATES(Composite, Value, Jacobian, Velocity, NormalAcceleration, JDot)
  Composite(int m, const std::vector<tvm::FunctionPtr> & g, const std::vector<MatrixXd> & M)
  : tvm::function::abstract::Function(m), g(g), M(M)
  {
    registerUpdates(Update::Value, &Composite::uValue, Update::Jacobian, &Composite::uJacobian, Update::Velocity,
                    &Composite::uVelocity, Update::NormalAcceleration, &Composite::uNacc, Update::JDot, &Composite::uJDot);
    addOutputDependency<Composite>(Output::Value, Update::Value);
    addOutputDependency<Composite>(Output::Jacobian, Update::Jacobian);
    addOutputDependency<Composite>(Output::Velocity, Update::Velocity);
    addOutputDependency<Composite>(Output::NormalAcceleration, Update::NormalAcceleration);
    addOutputDependency<Composite>(Output::JDot, Update::JDot);
    for(auto & h : g)
    {
      for(auto & x : h->variables())
        addVariable(x, h->linearIn(*x));
      addInputDependency<Composite>(Update::Value, h, tvm::function::abstract::Function::Output::Value);
      addInputDependency<Composite>(Update::Jacobian, h, tvm::function::abstract::Function::Output::Jacobian);
      addInputDependency<Composite>(Update::Velocity, h, tvm::function::abstract::Function::Output::Velocity);
      addInputDependency<Composite>(Update::NormalAcceleration, h,
                                    tvm::function::abstract::Function::Output::NormalAcceleration);
      addInputDependency<Composite>(Update::JDot, h, tvm::function::abstract::Function::Output::JDot);
    }
  }
  void uValue()
  {
    value_.setZero();
    for(size_t k = 0; k < g.size(); ++k)
      value_ += M[k] * g[k]->value();
  }
  void uVelocity()
  {
    velocity_.setZero();
    for(size_t k = 0; k < g.size(); ++k)
      velocity_ += M[k] * g[k]->velocity();
  }
  void uNacc()
  {
    normalAcceleration_.setZero();
    for(size_t k = 0; k < g.size(); ++k)
      normalAcceleration_ += M[k] * g[k]->normalAcceleration();
  }
  void uJacobian()
  {
    for(auto & x : variables())
    {
      MatrixXd J = MatrixXd::Zero(size(), x->space().tSize());
      for(size_t k = 0; k < g.size(); ++k)
        if(g[k]->variables().contains(*x))
          J += M[k] * g[k]->jacobian(*x);
      jacobian_[x.get()] = J;
    }
  }
  void uJDot()
  {
    for(auto & x : variables())
    {
      JDot_[x.get()].setZero();
      for(size_t k = 0; k < g.size(); ++k)
        if(g[k]->variables().contains(*x))
          JDot_[x.get()] += M[k] * g[k]->JDot(*x);
    }
  }
  std::vector<tvm::FunctionPtr> g;
  std::vector<MatrixXd> M;
};

/** Model of a function */
struct FnM
{
  int kind = 0; // 0 user, 1 linear, 2 identity, 3 composite, 4 affine expression, 5 user linear
  tvm::FunctionPtr f;
  std::shared_ptr<Data> D;
  std::vector<int> vars; // refs, in the order of the function
  std::vector<bool> lin;
  std::vector<std::shared_ptr<FnM>> g;
  std::vector<MatrixXd> M;
  bool used = false; // by a composite
  bool on[NWHAT] = {true, true, true, true, true};
  bool locked = false;
};
struct UfM
{
  std::shared_ptr<FnM> f;
  std::unique_ptr<tvm::utils::UpdatelessFunction> u;
  bool on[NWHAT];
};

enum Kind
{
  F_NEW,
  F_KILL,
  UF_NEW,
  UF_KILL,
  EVAL,
  WRITE,
  PARAM,
  ADDV,
  REMV,
  RESIZE,
  OUTPUT,
  CHECK,
  ARM,
  NOISE
};
enum Form
{
  POSITIONAL,
  CONCAT,
  NAMED,
  BAD_COUNT,
  BAD_SIZE,
  BAD_CONCAT,
  BAD_NAMED_SIZE,
  FOREIGN,
  NFORMS
};

// ---- call forms
template<int MaxArgs, typename Call, typename... P>
MatrixXd dispatch(const std::vector<VectorXd> & a, unsigned il, bool pairs, Call && call, P &&... p)
{
  constexpr size_t n = sizeof...(P);
  if(n == a.size())
  {
    if constexpr(n > 0)
      return call(p...);
  }
  if constexpr(n < MaxArgs)
  {
    const VectorXd & v = a[n];
    if constexpr(n < 3)
    {
      using L = std::initializer_list<double>;
      if(il >> n & 1)
        switch(v.size())
        {
          case 1:
            return dispatch<MaxArgs>(a, il, pairs, call, p..., L{v[0]});
          case 2:
            return dispatch<MaxArgs>(a, il, pairs, call, p..., L{v[0], v[1]});
          case 3:
            return dispatch<MaxArgs>(a, il, pairs, call, p..., L{v[0], v[1], v[2]});
          case 4:
            return dispatch<MaxArgs>(a, il, pairs, call, p..., L{v[0], v[1], v[2], v[3]});
          default:
            break;
        }
    }
    return dispatch<MaxArgs>(a, il, pairs, call, p..., v);
  }
  throw HarnessError{"too many arguments"};
}
struct Named
{
  tvm::Variable * x;
  VectorXd q, v;
};
template<typename Call, typename... P>
MatrixXd dispatchNamed(const std::vector<Named> & a, unsigned il, bool vel, Call && call, P &&... p)
{
  constexpr size_t n = sizeof...(P);
  constexpr size_t maxArgs = 8;
  (void)vel;
  if constexpr(n > 0)
    if(n == 2 * a.size())
      return call(p...);
  if constexpr(n < maxArgs)
  {
    const Named & k = a[n / 2];
    using L = std::initializer_list<double>;
    if constexpr(n < 4)
      if((il >> n & 1) && k.q.size() == 1)
        return dispatchNamed(a, il, vel, call, p..., *k.x, L{k.q[0]});
    return dispatchNamed(a, il, vel, call, p..., *k.x, k.q);
  }
  throw HarnessError{"too many arguments"};
}
template<typename Call, typename... P>
MatrixXd dispatchNamed3(const std::vector<Named> & a, unsigned il, Call && call, P &&... p)
{
  constexpr size_t n = sizeof...(P);
  constexpr size_t maxArgs = 12;
  if constexpr(n > 0)
    if(n == 3 * a.size())
      return call(p...);
  if constexpr(n < maxArgs)
  {
    const Named & k = a[n / 3];
    using L = std::initializer_list<double>;
    if constexpr(n < 6)
      if(k.q.size() == 1 && k.v.size() == 1)
        switch(il >> (2 * n / 3) & 3)
        {
          case 1:
            return dispatchNamed3(a, il, call, p..., *k.x, L{k.q[0]}, k.v);
          case 2:
            return dispatchNamed3(a, il, call, p..., *k.x, k.q, L{k.v[0]});
          case 3:
            return dispatchNamed3(a, il, call, p..., *k.x, L{k.q[0]}, L{k.v[0]});
          default:
            break;
        }
    return dispatchNamed3(a, il, call, p..., *k.x, k.q, k.v);
  }
  throw HarnessError{"too many arguments"};
}
/** positional, values and velocities */
template<typename Call, typename... P>
MatrixXd dispatch2(const std::vector<VectorXd> & a, unsigned il, Call && call, P &&... p)
{
  constexpr size_t n = sizeof...(P);
  constexpr size_t maxArgs = 10;
  if constexpr(n > 0)
    if(n == a.size())
      return call(p...);
  if constexpr(n < maxArgs)
  {
    const VectorXd &q = a[n], &v = a[n + 1];
    using L = std::initializer_list<double>;
    if constexpr(n < 4)
    {
      unsigned m = il >> n & 3;
      if(q.size() == 1 && v.size() == 1)
        switch(m)
        {
          case 1:
            return dispatch2(a, il, call, p..., L{q[0]}, v);
          case 2:
            return dispatch2(a, il, call, p..., q, L{v[0]});
          case 3:
            return dispatch2(a, il, call, p..., L{q[0]}, L{v[0]});
          default:
            break;
        }
      if(q.size() == 2 && v.size() == 2)
        switch(m)
        {
          case 1:
            return dispatch2(a, il, call, p..., L{q[0], q[1]}, v);
          case 2:
            return dispatch2(a, il, call, p..., q, L{v[0], v[1]});
          case 3:
            return dispatch2(a, il, call, p..., L{q[0], q[1]}, L{v[0], v[1]});
          default:
            break;
        }
    }
    return dispatch2(a, il, call, p..., q, v);
  }
  throw HarnessError{"too many arguments"};
}

struct World_
{
  const Trace & t;
  Ctx & c;
  std::vector<Root> roots;
  std::vector<Ref> refs; // first the roots
  std::vector<tvm::VariablePtr> keep;
  std::vector<int> family; // refs functions may depend on
  std::shared_ptr<FnM> fn[5];
  UfM uf[4];
  bool allocArmed = false;
  int allocAt = 0;
  uint64_t hist = 0;
  World_(const Trace & t, Ctx & c) : t(t), c(c) {}

  VectorXd rnd(Rng & r, int n, double s = 2)
  {
    VectorXd v(n);
    for(int i = 0; i < n; ++i)
      v[i] = s * static_cast<double>(r.range(-64, 64)) / 64;
    return v;
  }
  MatrixXd rndM(Rng & r, int m, int n)
  {
    MatrixXd A(m, n);
    for(int i = 0; i < m; ++i)
      for(int j = 0; j < n; ++j)
        A(i, j) = static_cast<double>(r.range(-16, 16)) / 8;
    return A;
  }
  int addRef(tvm::VariablePtr x, int root, int ro, int to)
  {
    Ref r;
    r.x = x;
    r.dx = tvm::dot(x);
    r.root = root;
    r.ro = ro;
    r.to = to;
    r.rl = x->space().rSize();
    r.tl = x->space().tSize();
    r.euclid = x->isEuclidean();
    refs.push_back(r);
    return static_cast<int>(refs.size()) - 1;
  }
  static tvm::Space manifold(int64_t k)
  {
    switch(k)
    {
      case 0:
        return tvm::Space(tvm::Space::Type::SO3);
      case 1:
        return tvm::Space(tvm::Space::Type::SE3);
      case 2:
        return tvm::Space(2, 3, 3);
      default:
        return tvm::Space(2, 3);
    }
  }
  void setup()
  {
    using tvm::Space;
    auto root = [&](Space s, const char * name) {
      Root r;
      r.r = s.rSize();
      r.t = s.tSize();
      tvm::VariablePtr x = s.createVariable(name);
      x->setZero();
      auto d = tvm::dot(x);
      d->setZero();
      r.q = VectorXd::Zero(r.r);
      r.v = VectorXd::Zero(r.t);
      roots.push_back(r);
      keep.push_back(x);
      keep.push_back(d);
      return x;
    };
    int n0 = static_cast<int>(t.c("n0", 2)), n1 = static_cast<int>(t.c("n1", 2));
    int ne = static_cast<int>(t.c("ne", 0)); // 0: Euclidean only
    auto x0 = root(Space(n0), "x0");
    auto x1 = ne & 1 ? root(manifold(t.c("k1")), "x1") : root(Space(n1), "x1");
    int a = static_cast<int>(t.c("pa", 2)), b = static_cast<int>(t.c("pb", 1)), gap = static_cast<int>(t.c("gap", 0));
    Space sa = ne & 2 ? manifold(t.c("k2")) : Space(a);
    Space s = sa;
    if(gap)
      s = s * Space(gap);
    Space shift = s;
    s = s * Space(b);
    auto S = root(s, "S");
    addRef(x0, 0, 0, 0);
    addRef(x1, 1, 0, 0);
    addRef(S, 2, 0, 0);
    int pa = addRef(S->subvariable(sa, "Sa"), 2, 0, 0);
    int pb = addRef(S->subvariable(Space(b), "Sb", shift), 2, shift.rSize(), shift.tSize());
    int q0 = -1;
    if(n0 > 1)
      q0 = addRef(x0->subvariable(Space(n0 - 1), "x0b", Space(1)), 0, 1, 1);
    (void)q0;
    if(t.c("split"))
      family = {0, 1, pa, pb};
    else
      family = {0, 1, 2};
  }
  // -------------------------------------------------------------------------------- reference evaluation
  VectorXd q(const Ref & r) const { return roots[static_cast<size_t>(r.root)].q.segment(r.ro, r.rl); }
  VectorXd v(const Ref & r) const { return roots[static_cast<size_t>(r.root)].v.segment(r.to, r.tl); }
  Eval eval(const FnM & f, bool corrupted = true)
  {
    Eval e;
    int m = f.D->m;
    e.f = VectorXd::Zero(m);
    e.v = e.na = e.f;
    for(auto & r : roots)
    {
      e.J.push_back(MatrixXd::Zero(m, r.t));
      e.JD.push_back(MatrixXd::Zero(m, r.t));
    }
    if(f.kind == 3)
    {
      for(size_t k = 0; k < f.g.size(); ++k)
      {
        Eval s = eval(*f.g[k], corrupted);
        e.f += f.M[k] * s.f;
        e.v += f.M[k] * s.v;
        e.na += f.M[k] * s.na;
        for(int ref : f.vars)
        { // of the variables of the composite which are still variables of the function
          auto & gv = f.g[k]->vars;
          if(std::find(gv.begin(), gv.end(), ref) == gv.end())
            continue;
          const Ref & r = refs[static_cast<size_t>(ref)];
          auto i = static_cast<size_t>(r.root);
          e.J[i].middleCols(r.to, r.tl) += f.M[k] * s.J[i].middleCols(r.to, r.tl);
          e.JD[i].middleCols(r.to, r.tl) += f.M[k] * s.JD[i].middleCols(r.to, r.tl);
        }
      }
      return e;
    }
    e.f = f.D->c;
    bool first = true;
    bool bad = false;
    for(auto & k : f.D->terms)
    {
      const Ref & r = refs[static_cast<size_t>(k.ref)];
      MatrixXd J, JD;
      termEval(*f.D, k, r.euclid, q(r), v(r), e.f, J, e.v, e.na, JD);
      auto i = static_cast<size_t>(r.root);
      e.J[i].middleCols(r.to, r.tl) += J;
      e.JD[i].middleCols(r.to, r.tl) += JD;
      if(first && corrupted && f.D->corrupt >= 0)
      {
        double x0 = q(r)[0];
        bad = f.D->region == 0 || (f.D->region == 1) == (x0 > 5);
        if(bad && f.D->corrupt == JAC)
          e.J[i](f.D->row % m, r.to + f.D->col % r.tl) += f.D->delta;
      }
      first = false;
    }
    if(bad)
    {
      VectorXd * o = f.D->corrupt == VALUE ? &e.f : f.D->corrupt == VEL ? &e.v : f.D->corrupt == NACC ? &e.na : nullptr;
      if(o)
        (*o)(f.D->row % m) += f.D->delta;
    }
    return e;
  }
  static bool close(const MatrixXd & a, const MatrixXd & b)
  {
    if(a.rows() != b.rows() || a.cols() != b.cols())
      return false;
    for(int i = 0; i < a.rows(); ++i)
      for(int j = 0; j < a.cols(); ++j)
        if(!(std::abs(a(i, j) - b(i, j)) <= 1e-9 * (1 + std::abs(a(i, j)) + std::abs(b(i, j)))))
          return false;
    return true;
  }
  static std::string str(const MatrixXd & m)
  {
    std::stringstream s;
    s << m.format(Eigen::IOFormat(6, 0, ",", ";", "", "", "[", "]"));
    return s.str();
  }
  /** every variable has the value of the model */
  void judgeVariables(const char * when)
  {
    for(auto & r : refs)
    {
      c.check(r.x->value() == q(r), "variable-changed", fmt("%s: value of %s is not what was written", when, r.x->name().c_str()));
      c.check(tvm::dot(r.x)->value() == v(r), "variable-changed",
              fmt("%s: velocity of %s is not what was written", when, r.x->name().c_str()));
    }
  }
  /** the model takes the values of the variables */
  void adopt()
  {
    for(size_t i = 0; i < roots.size(); ++i)
    {
      roots[i].q = refs[i].x->value();
      roots[i].v = tvm::dot(refs[i].x)->value();
    }
  }
  // -------------------------------------------------------------------------------- functions
  void fill(Rng & r, FnM & f, Term & k, bool lin)
  {
    const Ref & x = refs[static_cast<size_t>(k.ref)];
    int m = f.D->m;
    k.R = rndM(r, m, x.rl);
    k.q = lin ? VectorXd::Zero(m) : rnd(r, m, 1);
    k.w = rnd(r, x.rl, 1);
    if(!x.euclid)
    {
      k.T = rndM(r, m, x.tl);
      k.u = rnd(r, x.tl, 1);
    }
  }
  std::vector<int> pickVars(Rng & r, bool euclidOnly, int n)
  {
    std::vector<int> all;
    for(int i : family)
      if(!euclidOnly || refs[static_cast<size_t>(i)].euclid)
        all.push_back(i);
    std::vector<int> s;
    while(!all.empty() && static_cast<int>(s.size()) < n)
    {
      auto i = static_cast<size_t>(r.below(static_cast<int64_t>(all.size())));
      s.push_back(all[i]);
      all.erase(all.begin() + static_cast<long>(i));
    }
    return s;
  }
  void newFn(int slot, Rng & r)
  {
    auto f = std::make_shared<FnM>();
    f->D = std::make_shared<Data>();
    int64_t k = r.below(11);
    f->kind = k < 5 ? 0 : k < 6 ? 1 : k < 7 ? 2 : k < 9 ? 3 : k < 10 ? 4 : 5;
    f->D->m = static_cast<int>(r.range(1, 4));
    std::vector<std::shared_ptr<FnM>> av;
    if(f->kind == 3)
    {
      for(auto & g : fn)
        if(g && std::all_of(g->on, g->on + NWHAT, [](bool b) { return b; }) && g->kind != 4 && g->D->corrupt < 0)
          av.push_back(g);
      if(av.empty())
        f->kind = 0;
    }
    auto setVars = [&](std::vector<int> s, bool allLin) {
      f->vars = s;
      for(int i : s)
      {
        Term k2;
        k2.ref = i;
        bool lin = allLin || r.chance(25);
        fill(r, *f, k2, lin);
        f->D->terms.push_back(k2);
        f->lin.push_back(UserFn::isLinear(k2));
      }
    };
    switch(f->kind)
    {
      case 0: {
        setVars(pickVars(r, false, static_cast<int>(r.range(1, 4))), false);
        f->D->c = rnd(r, f->D->m);
        f->D->split = r.chance(30);
        f->D->inPlace = r.chance(50);
        if(r.chance(25))
        {
          f->D->corrupt = static_cast<int>(r.below(4));
          f->D->region = static_cast<int>(r.below(3));
          f->D->row = static_cast<int>(r.below(8));
          f->D->col = static_cast<int>(r.below(8));
          f->D->delta = r.chance(50) ? 1.5 : -0.75;
        }
        auto u = std::make_shared<UserFn>(f->D, &refs);
        f->f = u;
        if(r.chance(25))
        {
          int w = static_cast<int>(r.below(NWHAT));
          u->enable(w, false);
          f->on[w] = false;
          c.count("probe.disabled-output");
        }
        break;
      }
      case 1: {
        auto s = pickVars(r, true, static_cast<int>(r.range(1, 3)));
        setVars(s, true);
        f->D->c = VectorXd::Zero(f->D->m);
        std::vector<MatrixXd> A;
        std::vector<tvm::MatrixConstRef> Ar;
        std::vector<tvm::VariablePtr> x;
        for(auto & k2 : f->D->terms)
        {
          A.push_back(k2.R);
          x.push_back(refs[static_cast<size_t>(k2.ref)].x);
        }
        for(auto & a : A)
          Ar.push_back(a);
        switch(r.below(3))
        {
          case 0:
            f->f = std::make_shared<tvm::function::BasicLinearFunction>(Ar, x);
            break;
          case 1:
            f->D->c = rnd(r, f->D->m);
            f->f = std::make_shared<tvm::function::BasicLinearFunction>(Ar, x, f->D->c);
            break;
          default: {
            f->D->c = rnd(r, f->D->m);
            auto l = std::make_shared<tvm::function::BasicLinearFunction>(f->D->m, x);
            for(size_t i = 0; i < x.size(); ++i)
              l->A(A[i], *x[i]);
            l->b(f->D->c);
            f->f = l;
          }
        }
        break;
      }
      case 2: {
        auto s = pickVars(r, true, 1);
        f->D->m = refs[static_cast<size_t>(s[0])].rl;
        setVars(s, true);
        f->D->terms[0].R = MatrixXd::Identity(f->D->m, f->D->m);
        f->D->c = VectorXd::Zero(f->D->m);
        f->f = std::make_shared<tvm::function::IdentityFunction>(refs[static_cast<size_t>(s[0])].x);
        break;
      }
      case 3: {
        int n = static_cast<int>(r.range(1, 3));
        std::vector<tvm::FunctionPtr> g;
        for(int i = 0; i < n; ++i)
        {
          auto h = av[static_cast<size_t>(r.below(static_cast<int64_t>(av.size())))];
          h->used = true;
          f->g.push_back(h);
          f->M.push_back(rndM(r, f->D->m, h->D->m));
          g.push_back(h->f);
          for(size_t j = 0; j < h->vars.size(); ++j)
            if(std::find(f->vars.begin(), f->vars.end(), h->vars[j]) == f->vars.end())
            {
              f->vars.push_back(h->vars[j]);
              f->lin.push_back(h->lin[j]);
            }
        }
        f->f = std::make_shared<Composite>(f->D->m, g, f->M);
        break;
      }
      case 5: {
        setVars(pickVars(r, true, static_cast<int>(r.range(1, 3))), true);
        f->D->c = rnd(r, f->D->m);
        f->f = std::make_shared<UserLin>(f->D, &refs);
        c.count("op.user-linear");
        break;
      }
      default: { // expression with two parts of the first variable and another variable
        const Ref & x = refs[0];
        int m = f->D->m;
        int l1 = static_cast<int>(r.range(1, x.rl)), o1 = static_cast<int>(r.range(0, x.rl - l1));
        int l2 = static_cast<int>(r.range(1, x.rl)), o2 = static_cast<int>(r.range(0, x.rl - l2));
        MatrixXd A1 = rndM(r, m, l1), A2 = rndM(r, m, l2), A3 = rndM(r, m, x.rl);
        f->D->c = rnd(r, m);
        auto p1 = x.x->subvariable(tvm::Space(l1), "p1", tvm::Space(o1));
        auto p2 = x.x->subvariable(tvm::Space(l2), "p2", tvm::Space(o2));
        Term k2;
        k2.ref = 0;
        k2.R = MatrixXd::Zero(m, x.rl);
        k2.R.middleCols(o1, l1) += A1;
        k2.R.middleCols(o2, l2) -= A2;
        k2.q = VectorXd::Zero(m);
        k2.w = VectorXd::Zero(x.rl);
        k2.R += A3;
        f->f = std::make_shared<tvm::function::BasicLinearFunction>(A1 * p1 - A2 * p2 + A3 * x.x + f->D->c);
        f->D->terms.push_back(k2);
        f->vars = {0};
        f->lin = {true};
        c.count("op.affine");
      }
    }
    fn[slot] = f;
    judgeFn(*f);
  }
  void judgeFn(const FnM & f)
  {
    const auto & vv = f.f->variables();
    c.check(vv.numberOfVariables() == static_cast<int>(f.vars.size()), "function-variables",
            fmt("%d variables instead of %zu", vv.numberOfVariables(), f.vars.size()));
    for(size_t i = 0; i < f.vars.size(); ++i)
      c.check(*vv[static_cast<int>(i)] == *refs[static_cast<size_t>(f.vars[i])].x, "function-variables", "other variable or order");
    c.check(f.f->size() == f.D->m, "function-size", fmt("%d instead of %d", f.f->size(), f.D->m));
    for(size_t i = 0; i < f.vars.size(); ++i)
      if(f.kind != 3)
        c.check(f.f->linearIn(*refs[static_cast<size_t>(f.vars[i])].x) == f.lin[i], "linear-flag",
                "linearIn is not what was declared");
    const int o[] = {static_cast<int>(tvm::function::abstract::Function::Output::Value),
                     static_cast<int>(tvm::function::abstract::Function::Output::Jacobian),
                     static_cast<int>(tvm::function::abstract::Function::Output::Velocity),
                     static_cast<int>(tvm::function::abstract::Function::Output::NormalAcceleration),
                     static_cast<int>(tvm::function::abstract::Function::Output::JDot)};
    for(int w = 0; w < NWHAT; ++w)
      c.check(f.f->isOutputEnabled(o[w]) == f.on[w], "output-enabled", fmt("%s", whatName[w]));
  }
  int pickFn(int64_t a)
  {
    for(int i = 0; i < 5; ++i)
      if(fn[(a + i) % 5])
        return static_cast<int>((a + i) % 5);
    return -1;
  }
  int pickUf(int64_t a)
  {
    for(int i = 0; i < 4; ++i)
      if(uf[(a + i) % 4].u)
        return static_cast<int>((a + i) % 4);
    return -1;
  }
  // -------------------------------------------------------------------------------- evaluation
  void evaluate(int k, int what, int form, Rng & r)
  {
    UfM & U = uf[k];
    FnM & f = *U.f;
    if(f.on[what] && !U.on[what])
    { // the output was enabled after the wrapper was made
      c.count("probe.enabled-later");
      return;
    }
    const bool vel = what >= VEL;
    const size_t n = f.vars.size();
    if(n == 0)
      return;
    auto ref = [&](size_t i) -> const Ref & { return refs[static_cast<size_t>(f.vars[i])]; };
    const unsigned il = static_cast<unsigned>(r.below(64));
    // the variable of the matrices: one of the function, or a part, or (rarely) something else
    int xr = -1;
    bool mustThrowX = false;
    if(what == JAC || what == JDOT)
    {
      std::vector<int> in, out;
      for(size_t i = 0; i < refs.size(); ++i)
      {
        bool contained = false;
        for(int j : f.vars)
        {
          auto & o = refs[static_cast<size_t>(j)];
          contained = contained
                      || (o.root == refs[i].root && refs[i].ro >= o.ro && refs[i].ro + refs[i].rl <= o.ro + o.rl
                          && refs[i].to >= o.to && refs[i].to + refs[i].tl <= o.to + o.tl);
        }
        (contained ? in : out).push_back(static_cast<int>(i));
      }
      mustThrowX = !out.empty() && r.chance(5);
      auto & s = mustThrowX ? out : in;
      xr = s[static_cast<size_t>(r.below(static_cast<int64_t>(s.size())))];
    }
    // values
    struct Put
    {
      int ref;
      VectorXd q, v;
    };
    std::vector<Put> puts;
    std::vector<VectorXd> pos;
    std::vector<Named> named;
    bool refuse = !f.on[what];
    auto put = [&](int i) {
      const Ref & x = refs[static_cast<size_t>(i)];
      Put p{i, rnd(r, x.rl), rnd(r, x.tl)};
      puts.push_back(p);
    };
    if(n == 1 && (form == BAD_COUNT || form == BAD_CONCAT))
      form = form == BAD_COUNT ? BAD_COUNT : BAD_SIZE;
    if(n > 4)
      return;
    switch(form)
    {
      case POSITIONAL:
      case CONCAT:
      case BAD_COUNT:
      case BAD_SIZE:
      case BAD_CONCAT: {
        for(int i : f.vars)
          put(i);
        std::vector<VectorXd> Q, V;
        for(auto & p : puts)
        {
          Q.push_back(p.q);
          V.push_back(p.v);
        }
        if(form == CONCAT || form == BAD_CONCAT)
        {
          VectorXd a(0), b(0);
          for(auto & x : Q)
          {
            VectorXd y(a.size() + x.size());
            y << a, x;
            a = y;
          }
          for(auto & x : V)
          {
            VectorXd y(b.size() + x.size());
            y << b, x;
            b = y;
          }
          if(form == BAD_CONCAT)
          {
            VectorXd & w = vel && r.chance(50) ? b : a;
            w.conservativeResize(std::max<Eigen::Index>(1, w.size() + (r.chance(50) ? 1 : -1)));
            if(w.size() && !(std::abs(w(w.size() - 1)) <= 10))
              w(w.size() - 1) = 0.5;
            refuse = true;
            bool same = &w == &a ? a.size() == Eigen::Index(total(f, false)) : b.size() == Eigen::Index(total(f, true));
            if(same)
              refuse = !f.on[what];
          }
          Q = {a};
          V = {b};
        }
        else if(form == BAD_COUNT)
        {
          refuse = true;
          if(n < 3 || r.chance(50))
          {
            Q.push_back(Q.back());
            V.push_back(V.back());
          }
          else
          {
            Q.pop_back();
            V.pop_back();
          }
        }
        else if(form == BAD_SIZE)
        {
          auto i = static_cast<size_t>(r.below(static_cast<int64_t>(n)));
          VectorXd & w = vel && r.chance(50) ? V[i] : Q[i];
          VectorXd y = VectorXd::Constant(w.size() + (w.size() > 1 && r.chance(50) ? -1 : 1), 0.25);
          w = y;
          refuse = true;
        }
        if(Q.size() > 5)
          return;
        for(size_t i = 0; i < Q.size(); ++i)
        {
          pos.push_back(Q[i]);
          if(vel)
            pos.push_back(V[i]);
        }
        break;
      }
      default: {
        auto k2 = static_cast<size_t>(r.range(1, 4));
        size_t badAt = form == NAMED ? 99 : static_cast<size_t>(r.below(static_cast<int64_t>(k2)));
        for(size_t i = 0; i < k2; ++i)
        {
          int rr = f.vars[static_cast<size_t>(r.below(static_cast<int64_t>(n)))];
          if(i == badAt && form == FOREIGN)
          {
            std::vector<int> foreign;
            for(size_t j = 0; j < refs.size(); ++j)
              if(std::none_of(f.vars.begin(), f.vars.end(),
                              [&](int o) { return refs[static_cast<size_t>(o)].root == refs[j].root; }))
                foreign.push_back(static_cast<int>(j));
            if(!foreign.empty())
            {
              rr = foreign[static_cast<size_t>(r.below(static_cast<int64_t>(foreign.size())))];
              refuse = true;
            }
          }
          const Ref & x = refs[static_cast<size_t>(rr)];
          put(rr);
          Named a{x.x.get(), puts.back().q, puts.back().v};
          if(i == badAt && form == BAD_NAMED_SIZE)
          {
            VectorXd & w = vel && r.chance(50) ? a.v : a.q;
            VectorXd y = VectorXd::Constant(w.size() + (w.size() > 1 && r.chance(50) ? -1 : 1), 0.25);
            w = y;
            refuse = true;
          }
          named.push_back(a);
        }
      }
    }
    const auto before = roots;
    bool threw = false, user = false, oom = false;
    std::string err;
    MatrixXd got;
    const tvm::Variable * X = xr >= 0 ? refs[static_cast<size_t>(xr)].x.get() : nullptr;
    bool useAlloc = allocArmed;
    allocArmed = false;
    auto & u = *U.u;
    armedSet(f, true);
    if(useAlloc)
      heap::failAt(allocAt);
    auto copy = [](const auto & m) {
      heap::NoFault nf;
      return MatrixXd(m);
    };
    try
    {
      auto cv = [&](auto &&... a) { return copy(u.value(a...)); };
      auto cj = [&](auto &&... a) { return copy(u.jacobian(*X, a...)); };
      auto cd = [&](auto &&... a) { return copy(u.velocity(a...)); };
      auto cn = [&](auto &&... a) { return copy(u.normalAcceleration(a...)); };
      auto cJ = [&](auto &&... a) { return copy(u.JDot(*X, a...)); };
      const bool byName = !named.empty();
      switch(what)
      {
        case VALUE:
          got = byName ? dispatchNamed(named, il, false, cv) : dispatch<5>(pos, il, false, cv);
          break;
        case JAC:
          got = byName ? dispatchNamed(named, il, false, cj) : dispatch<5>(pos, il, false, cj);
          break;
        case VEL:
          got = byName ? dispatchNamed3(named, il, cd) : dispatch2(pos, il, cd);
          break;
        case NACC:
          got = byName ? dispatchNamed3(named, il, cn) : dispatch2(pos, il, cn);
          break;
        default:
          got = byName ? dispatchNamed3(named, il, cJ) : dispatch2(pos, il, cJ);
      }
    }
    catch(const UserError &)
    {
      threw = user = true;
    }
    catch(const std::bad_alloc &)
    {
      threw = oom = true;
    }
    catch(const std::exception & e)
    {
      threw = true;
      heap::NoFault nf;
      err = e.what();
    }
    heap::failAt(0);
    bool allocFired = useAlloc && heap::fired();
    bool userFired = armedSet(f, false);
    if(allocFired)
      c.count("fault.alloc");
    if(userFired)
      c.count("fault.user-function");
    c.log(whatName[what], threw);
    const std::string ctx = fmt("%s, form %d, function kind %d", whatName[what], form, f.kind);
    if(threw)
    {
      c.count(refuse ? "probe.refused" : "probe.failed");
      c.check(refuse || mustThrowX || user || oom, "unexpected-refusal", ctx + ": " + err);
      c.check(!user || userFired, "unexpected-user-error", ctx);
      c.check(!oom || allocFired, "unexpected-alloc", ctx);
      if(refuse && !user && !oom)
        c.check(!err.empty(), "no-explanation", ctx);
      // what was given may have been written
      for(size_t i = 0; i < roots.size(); ++i)
      {
        VectorXd qn = refs[i].x->value(), vn = tvm::dot(refs[i].x)->value();
        for(int j = 0; j < qn.size(); ++j)
        {
          bool ok = qn[j] == before[i].q[j];
          for(auto & p : puts)
          {
            auto & x = refs[static_cast<size_t>(p.ref)];
            ok = ok || (x.root == static_cast<int>(i) && j >= x.ro && j < x.ro + x.rl && qn[j] == p.q[j - x.ro]);
          }
          c.check(ok || form == BAD_COUNT || form == BAD_SIZE || form == BAD_NAMED_SIZE, "value-corrupted-by-refusal", ctx);
        }
        for(int j = 0; j < vn.size(); ++j)
        {
          bool ok = vn[j] == before[i].v[j];
          for(auto & p : puts)
          {
            auto & x = refs[static_cast<size_t>(p.ref)];
            ok = ok || (x.root == static_cast<int>(i) && j >= x.to && j < x.to + x.tl && vn[j] == p.v[j - x.to]);
          }
          c.check(ok || form == BAD_COUNT || form == BAD_SIZE || form == BAD_NAMED_SIZE, "value-corrupted-by-refusal", ctx);
        }
        bool mine = false;
        for(int j : f.vars)
          mine = mine || refs[static_cast<size_t>(j)].root == static_cast<int>(i);
        if(!mine)
          c.check(qn == before[i].q && vn == before[i].v, "value-corrupted-by-refusal", ctx + ": foreign variable");
      }
      adopt();
      return;
    }
    c.check(!refuse, "not-refused", ctx);
    c.check(!mustThrowX, "not-refused", ctx + fmt(": matrix of a variable (%s) the function does not depend on", X ? X->name().c_str() : ""));
    c.check(!userFired, "error-swallowed", ctx);
    for(auto & p : puts)
    {
      auto & x = refs[static_cast<size_t>(p.ref)];
      auto & R = roots[static_cast<size_t>(x.root)];
      R.q.segment(x.ro, x.rl) = p.q;
      if(vel)
        R.v.segment(x.to, x.tl) = p.v;
    }
    judgeVariables("after an evaluation");
    Eval e = eval(f);
    MatrixXd want;
    switch(what)
    {
      case VALUE:
        want = e.f;
        break;
      case VEL:
        want = e.v;
        break;
      case NACC:
        want = e.na;
        break;
      default: {
        auto & x = refs[static_cast<size_t>(xr)];
        want = (what == JAC ? e.J : e.JD)[static_cast<size_t>(x.root)].middleCols(x.to, x.tl);
      }
    }
    c.check(close(got, want), "wrong-output",
            ctx + fmt("%s%s: got ", X ? " of " : "", X ? X->name().c_str() : "") + str(got) + " expected " + str(want));
    for(int i = 0; i < got.size(); ++i)
      c.logd("o", got.data()[i]);
    c.count("probe.evaluated");
    c.count("nontrivial");
    c.sig(mix64(static_cast<uint64_t>(what * 64 + form * 8 + f.kind)) ^ mix64(static_cast<uint64_t>(n * 31 + named.size()))
          ^ mix64(hist % 97 + (X ? static_cast<uint64_t>(xr) * 1000 : 0)));
  }
  int total(const FnM & f, bool vel)
  {
    int s = 0;
    for(int i : f.vars)
      s += vel ? refs[static_cast<size_t>(i)].tl : refs[static_cast<size_t>(i)].rl;
    return s;
  }
  int armK = 0;
  /** arms the error of the user functions an evaluation depends on / disarms and tells if one was thrown */
  bool armedSet(FnM & f, bool on)
  {
    bool fired = false;
    if(f.kind == 3)
    {
      for(auto & g : f.g)
        fired = armedSet(*g, on) || fired;
    }
    else if(f.kind == 0 || f.kind == 5)
    {
      if(on && armK > 0)
      {
        f.D->armed = armK;
        armK = 0;
      }
      if(!on)
      {
        fired = f.D->fired;
        f.D->armed = 0;
        f.D->fired = false;
      }
    }
    return fired;
  }
  // -------------------------------------------------------------------------------- finite-difference checks
  enum Verdict
  {
    ACCEPT,
    REJECT,
    UNKNOWN
  };
  static Verdict both(Verdict a, Verdict b)
  {
    if(a == REJECT || b == REJECT)
      return REJECT;
    return a == UNKNOWN || b == UNKNOWN ? UNKNOWN : ACCEPT;
  }
  static Verdict judgeDev(double dev, double noise, double tol)
  {
    if(dev + noise < 0.5 * tol)
      return ACCEPT;
    if(dev - noise > 2 * tol)
      return REJECT;
    return UNKNOWN;
  }
  void place(const FnM & f, const VectorXd & Q, const VectorXd * V)
  {
    int s = 0, d = 0;
    for(int i : f.vars)
    {
      auto & x = refs[static_cast<size_t>(i)];
      auto & R = roots[static_cast<size_t>(x.root)];
      R.q.segment(x.ro, x.rl) = Q.segment(s, x.rl);
      s += x.rl;
      if(V)
        R.v.segment(x.to, x.tl) = V->segment(d, x.tl);
      d += x.tl;
    }
  }
  MatrixXd jac(const FnM & f, const Eval & e)
  {
    MatrixXd J(f.D->m, total(f, true));
    int d = 0;
    for(int i : f.vars)
    {
      auto & x = refs[static_cast<size_t>(i)];
      J.middleCols(d, x.tl) = e.J[static_cast<size_t>(x.root)].middleCols(x.to, x.tl);
      d += x.tl;
    }
    return J;
  }
  Verdict predictJ(const FnM & f, const VectorXd & Q, double h, double prec)
  {
    place(f, Q, nullptr);
    Eval e0 = eval(f);
    MatrixXd J0 = jac(f, e0), J(J0.rows(), J0.cols());
    double norm2 = 0, scale = e0.f.norm() + 1;
    for(int i = 0; i < Q.size(); ++i)
    {
      VectorXd p = Q;
      p(i) += h;
      place(f, p, nullptr);
      VectorXd f1 = eval(f).f;
      scale = std::max(scale, f1.norm());
      J.col(i) = (f1 - e0.f) / h;
      norm2 = std::max(norm2, std::min(J.col(i).squaredNorm(), J0.col(i).squaredNorm()));
    }
    Verdict r = ACCEPT;
    for(int i = 0; i < Q.size(); ++i)
      r = both(r, judgeDev((J.col(i) - J0.col(i)).norm(), 1e-14 * scale / h, prec * std::sqrt(norm2)));
    return r;
  }
  Verdict predictV(const FnM & f, const VectorXd & Q, const VectorXd & V, double prec)
  {
    place(f, Q, &V);
    Eval e = eval(f);
    VectorXd w = jac(f, e) * V;
    return judgeDev((w - e.v).norm(), 1e-13 * (jac(f, e).norm() * V.norm() + e.v.norm()), prec * std::min(w.norm(), e.v.norm()));
  }
  Verdict predictN(const FnM & f, const VectorXd & Q, const VectorXd & V, const VectorXd & A, double h, double prec)
  {
    VectorXd V1 = V + h * A, Q1 = Q + h * V + 0.5 * h * h * A;
    place(f, Q1, &V1);
    Eval e1 = eval(f);
    place(f, Q, &V);
    Eval e0 = eval(f);
    VectorXd a = (e1.v - e0.v) / h - jac(f, e0) * A;
    double scale = e0.v.norm() + e1.v.norm() + jac(f, e0).norm() * (V.norm() + Q.norm() + A.norm() + 1);
    return judgeDev((a - e0.na).norm(), 1e-14 * scale / h, prec * std::min(a.norm(), e0.na.norm()));
  }
  void check(int slot, int what, Rng & r)
  {
    auto f = fn[slot];
    if(f->vars.empty())
      return;
    const bool regions = f->D->corrupt >= 0 && f->D->region > 0 && r.chance(60);
    const int phase = static_cast<int>(r.below(2));
    if(regions)
    { // several configurations, the function being wrong for some of them
      what = f->D->corrupt == VALUE || f->D->corrupt == JAC ? 0 : f->D->corrupt == VEL ? 1 : 2;
      c.count("probe.wrong-somewhere");
    }
    // 0 jacobian, 1 velocity, 2 normal acceleration, 3 all
    bool needs[4][4] = {{1, 1, 0, 0}, {0, 1, 1, 0}, {0, 1, 1, 1}, {1, 1, 1, 1}};
    bool must = false;
    for(int w = 0; w < 4; ++w)
      must = must || (needs[what][w] && !f->on[w]);
    bool euclid = true;
    for(int i : f->vars)
      euclid = euclid && refs[static_cast<size_t>(i)].euclid;
    if(what != 1 && !euclid)
      must = true;
    tvm::utils::CheckOptions o;
    o.step = r.chance(50) ? 1e-6 : r.chance(50) ? 1e-5 : 1e-4;
    o.prec = r.chance(50) ? 1e-3 : r.chance(50) ? 1e-2 : 1e-4;
    o.verbose = r.chance(30);
    int n = total(*f, false), nd = total(*f, true);
    int nc = static_cast<int>(r.below(4));
    if(regions)
      nc = static_cast<int>(r.range(2, 3));
    o.samples = !regions && r.chance(30) ? static_cast<size_t>(r.range(1, 3)) : 0;
    const auto save = roots;
    Verdict expect = ACCEPT;
    bool random = o.samples > 0 || nc == 0;
    // all the evaluation are in |x| <= 1 for the random ones
    auto corruptInUnit = [&](int w) { return f->kind == 0 && f->D->corrupt == w && f->D->region != 1; };
    for(int i = 0; i < nc; ++i)
    {
      tvm::utils::CheckOptions::CheckConfiguration k;
      double big = r.chance(30) ? 20 : 1;
      VectorXd Q = rnd(r, n, 2), V = rnd(r, nd, 2 * big), A = rnd(r, nd, 4 * big * big);
      if(regions ? i % 2 == phase : r.chance(50))
        Q(0) = 6 + Q(0) / 4;
      bool full = regions || r.chance(75);
      if(full || what == 0 || r.chance(50))
        k.value = Q;
      if(full || (what != 0 && r.chance(50)))
        k.velocity = V;
      if(full || (what >= 2 && r.chance(50)))
        k.acceleration = A;
      full = k.value && k.velocity && k.acceleration;
      k.samples = static_cast<size_t>(r.range(1, 3));
      o.configs.push_back(k);
      Verdict e = UNKNOWN;
      if(must)
      {
      }
      else if(what == 0)
        e = predictJ(*f, Q, o.step, o.prec);
      else if(what == 1 && k.value && k.velocity)
        e = predictV(*f, Q, V, o.prec);
      else if(what == 2 && full)
        e = predictN(*f, Q, V, A, o.step, o.prec);
      else if(what == 3 && full)
      {
        e = predictJ(*f, Q, o.step, o.prec);
        if(e == ACCEPT)
        { // the next checks rely on it
          e = both(e, predictV(*f, Q, V, o.prec));
          e = both(e, predictN(*f, Q, V, A, o.step, o.prec));
        }
      }
      expect = both(expect, e);
    }
    if(random && !must)
    { // is the verdict the same for all the values in [-1,1]?
      Verdict e = UNKNOWN;
      int corr = f->kind == 0 ? f->D->corrupt : -1;
      if(what == 0 && corr != JAC && corr != VALUE && bounded(*f, o))
        e = ACCEPT;
      if(what == 1 && corr != JAC && corr != VEL && f->kind != 3)
        e = ACCEPT;
      if((what == 0 || what == 3) && corruptInUnit(JAC) && o.prec <= 1e-2 && bounded(*f, o))
        e = REJECT;
      if((what == 1 || what == 3) && corruptInUnit(VEL))
        e = REJECT;
      if(what >= 2 && corruptInUnit(NACC) && f->D->delta > 0.1)
        e = UNKNOWN; // the terms may cancel
      expect = both(expect, e);
    }
    roots = save;
    bool threw = false, ret = false, oom = false, user = false;
    std::string err;
    std::stringstream out;
    auto * old = std::cout.rdbuf(out.rdbuf());
    const bool useAlloc = allocArmed;
    allocArmed = false;
    armedSet(*f, true);
    if(useAlloc)
      heap::failAt(allocAt);
    try
    {
      switch(what)
      {
        case 0:
          ret = tvm::utils::checkJacobian(f->f, o);
          break;
        case 1:
          ret = tvm::utils::checkVelocity(f->f, o);
          break;
        case 2:
          ret = tvm::utils::checkNormalAcceleration(f->f, o);
          break;
        default:
          ret = tvm::utils::checkFunction(f->f, o);
      }
    }
    catch(const UserError &)
    {
      threw = user = true;
    }
    catch(const std::bad_alloc &)
    {
      threw = oom = true;
    }
    catch(const std::exception & e)
    {
      threw = true;
      heap::NoFault nf;
      err = e.what();
    }
    heap::failAt(0);
    std::cout.rdbuf(old);
    std::cout.clear();
    bool allocFired = useAlloc && heap::fired();
    bool userFired = armedSet(*f, false);
    if(allocFired)
      c.count("fault.alloc");
    if(userFired)
      c.count("fault.user-function");
    const char * names[] = {"checkJacobian", "checkVelocity", "checkNormalAcceleration", "checkFunction"};
    c.log(names[what], threw ? 2 : ret);
    const std::string ctx = fmt("%s (kind %d, corrupt %d region %d, %d configurations, %zu samples)", names[what], f->kind,
                                f->D->corrupt, f->D->region, nc, o.samples);
    if(threw)
    {
      c.check(must || user || oom, "check-throws", ctx + ": " + err);
      c.check(!user || userFired, "unexpected-user-error", ctx);
      c.check(!oom || allocFired, "unexpected-alloc", ctx);
      c.count("probe.check-refused");
    }
    else
    {
      c.check(!userFired, "error-swallowed", ctx);
      c.check(!must, "check-not-refused", ctx);
      if(expect == ACCEPT && !allocFired)
        c.check(ret, "consistent-function-rejected", ctx + "\n" + out.str());
      if(expect == REJECT && !allocFired)
      {
        c.check(!ret, "inconsistent-function-accepted", ctx);
        if(o.verbose)
          c.check(!out.str().empty(), "check-says-nothing", ctx);
      }
      if(ret && !o.verbose)
        c.check(out.str().empty(), "check-not-quiet", ctx + "\n" + out.str());
      c.count(expect == ACCEPT ? "probe.check-accept" : expect == REJECT ? "probe.check-reject" : "probe.check-unjudged");
    }
    // only the variables of the function may have changed
    for(size_t i = 0; i < roots.size(); ++i)
    {
      bool mine = false;
      for(int j : f->vars)
        mine = mine || refs[static_cast<size_t>(j)].root == static_cast<int>(i);
      if(!mine)
        c.check(refs[i].x->value() == roots[i].q && tvm::dot(refs[i].x)->value() == roots[i].v, "variable-changed",
                ctx + ": a variable the function does not depend on");
    }
    adopt();
    c.sig(mix64(static_cast<uint64_t>(7000 + what * 100 + expect * 10 + nc)) ^ mix64(static_cast<uint64_t>(f->kind * 8 + random)));
  }
  /** the jacobian check by differences is far from its tolerance for all the values in [-1,1] */
  bool bounded(const FnM & f, const tvm::utils::CheckOptions & o)
  {
    if(f.kind == 3)
      return false;
    double best = 0, err = 0, scale = f.D->c.norm();
    for(auto & k : f.D->terms)
    {
      double w1 = k.w.cwiseAbs().sum();
      for(int j = 0; j < k.R.cols(); ++j)
      {
        best = std::max(best, k.R.col(j).norm() - 2 * k.q.norm() * w1 * std::abs(k.w(j)));
        err = std::max(err, o.step * k.q.norm() * k.w(j) * k.w(j));
      }
      scale += k.R.norm() * 4 + k.q.norm() * w1 * w1;
    }
    return err + 1e-14 * scale / o.step < 0.3 * o.prec * best;
  }
  // -------------------------------------------------------------------------------- steps
  void step(const Op & op)
  {
    hist = mix64(hist + static_cast<uint64_t>(op.kind));
    Rng r(static_cast<uint64_t>(op.arg(op.a.size() ? op.a.size() - 1 : 0)));
    switch(op.kind)
    {
      case F_NEW:
        newFn(static_cast<int>(std::abs(op.arg(0)) % 5), r);
        c.count("op.function");
        break;
      case F_KILL:
        fn[std::abs(op.arg(0)) % 5].reset();
        c.count("op.function-dropped");
        break;
      case UF_NEW: {
        int i = pickFn(std::abs(op.arg(1)));
        if(i < 0 || fn[i]->vars.empty())
          return;
        UfM & u = uf[std::abs(op.arg(0)) % 4];
        u.u.reset();
        u.f = fn[i];
        std::copy(u.f->on, u.f->on + NWHAT, u.on);
        u.u = std::make_unique<tvm::utils::UpdatelessFunction>(u.f->f);
        c.check(u.u->function() == u.f->f, "wrapped-function");
        c.check(u.u->variables().numberOfVariables() == static_cast<int>(u.f->vars.size()), "wrapped-variables");
        c.count("op.wrapper");
        break;
      }
      case UF_KILL: {
        UfM & u = uf[std::abs(op.arg(0)) % 4];
        u.u.reset();
        u.f.reset();
        break;
      }
      case EVAL: {
        int i = pickUf(std::abs(op.arg(0)));
        if(i < 0)
          return;
        evaluate(i, static_cast<int>(std::abs(op.arg(1)) % NWHAT), static_cast<int>(std::abs(op.arg(2)) % NFORMS), r);
        break;
      }
      case WRITE: {
        auto & x = refs[static_cast<size_t>(std::abs(op.arg(0))) % refs.size()];
        auto & R = roots[static_cast<size_t>(x.root)];
        if(op.arg(1))
        {
          VectorXd nv = rnd(r, x.tl);
          R.v.segment(x.to, x.tl) = nv;
          tvm::dot(x.x)->set(nv);
        }
        else
        {
          VectorXd nq = rnd(r, x.rl);
          R.q.segment(x.ro, x.rl) = nq;
          x.x->set(nq);
        }
        judgeVariables("after a write");
        c.count("op.write");
        break;
      }
      case PARAM: {
        int i = pickFn(std::abs(op.arg(0)));
        if(i < 0)
          return;
        FnM & f = *fn[i];
        if(f.kind == 0 || f.kind == 5)
        {
          for(auto & k : f.D->terms)
            fill(r, f, k, UserFn::isLinear(k));
          f.D->c = rnd(r, f.D->m);
        }
        else if(f.kind == 1)
        {
          auto & l = static_cast<tvm::function::BasicLinearFunction &>(*f.f);
          auto j = static_cast<size_t>(r.below(static_cast<int64_t>(f.vars.size())));
          auto & x = refs[static_cast<size_t>(f.vars[j])];
          if(r.chance(20))
          { // refused
            bool threw = false;
            try
            {
              if(r.chance(50))
                l.A(rndM(r, f.D->m + 1, x.rl), *x.x);
              else
                l.b(rnd(r, f.D->m + 1));
            }
            catch(const std::runtime_error &)
            {
              threw = true;
            }
            c.check(threw, "not-refused", "coefficients with a wrong size");
            return;
          }
          if(r.chance(70))
          {
            f.D->terms[j].R = rndM(r, f.D->m, x.rl);
            if(f.vars.size() == 1 && r.chance(50))
              l.A(f.D->terms[j].R);
            else
              l.A(f.D->terms[j].R, *x.x);
          }
          else
          {
            f.D->c = rnd(r, f.D->m);
            l.b(f.D->c);
          }
        }
        else if(f.kind == 2)
        {
          auto & l = static_cast<tvm::function::BasicLinearFunction &>(*f.f);
          bool threw = false;
          try
          {
            switch(r.below(3))
            {
              case 0:
                l.A(MatrixXd::Identity(f.D->m, f.D->m));
                break;
              case 1:
                l.A(MatrixXd::Identity(f.D->m, f.D->m), *refs[static_cast<size_t>(f.vars[0])].x);
                break;
              default:
                l.b(rnd(r, f.D->m));
            }
          }
          catch(const std::runtime_error &)
          {
            threw = true;
          }
          c.check(threw, "not-refused", "coefficients of an identity function");
        }
        c.count("op.parameters");
        break;
      }
      case ADDV:
      case REMV: {
        int i = pickFn(std::abs(op.arg(0)));
        if(i < 0 || (fn[i]->kind != 0 && fn[i]->kind != 5))
          return;
        FnM & f = *fn[i];
        const bool ul = f.kind == 5;
        auto * u = ul ? nullptr : static_cast<UserFn *>(f.f.get());
        auto * l = ul ? static_cast<UserLin *>(f.f.get()) : nullptr;
        int ref = family[static_cast<size_t>(std::abs(op.arg(1))) % family.size()];
        auto it = std::find(f.vars.begin(), f.vars.end(), ref);
        auto & x = refs[static_cast<size_t>(ref)];
        if(op.kind == ADDV)
        {
          bool lin = ul || r.chance(50);
          if(ul && !x.euclid)
            return;
          if(it != f.vars.end())
          { // already there: nothing changes
            ul ? l->addVar(x.x) : u->addVar(x.x, lin);
          }
          else
          {
            Term k;
            k.ref = ref;
            fill(r, f, k, lin);
            lin = UserFn::isLinear(k);
            if(ul)
              l->addVar(x.x);
            else if(r.chance(30))
            {
              tvm::VariableVector vv;
              vv.add(x.x);
              u->addVars(vv, lin);
            }
            else
              u->addVar(x.x, lin);
            f.D->terms.push_back(k);
            f.vars.push_back(ref);
            f.lin.push_back(lin);
          }
          c.count("op.add-variable");
        }
        else
        {
          if(it == f.vars.end())
          {
            bool threw = false;
            try
            {
              ul ? l->remVar(x.x) : u->remVar(x.x);
            }
            catch(const std::exception &)
            {
              threw = true;
            }
            c.check(threw, "not-refused", "removing a variable the function has not");
          }
          else
          {
            auto j = it - f.vars.begin();
            ul ? l->remVar(x.x) : u->remVar(x.x);
            f.vars.erase(it);
            f.lin.erase(f.lin.begin() + j);
            f.D->terms.erase(f.D->terms.begin() + j);
          }
          c.count("op.remove-variable");
        }
        judgeFn(f);
        break;
      }
      case RESIZE: {
        int i = pickFn(std::abs(op.arg(0)));
        if(i < 0 || (fn[i]->kind != 0 && fn[i]->kind != 5) || fn[i]->used)
          return;
        FnM & f = *fn[i];
        f.D->m = static_cast<int>(r.range(1, 5));
        if(f.kind == 5)
          static_cast<UserLin &>(*f.f).setSize(f.D->m);
        else
          static_cast<UserFn &>(*f.f).setSize(f.D->m);
        for(auto & k : f.D->terms)
          fill(r, f, k, UserFn::isLinear(k));
        for(size_t k = 0; k < f.lin.size(); ++k)
          if(f.lin[k] != UserFn::isLinear(f.D->terms[k]))
            f.D->terms[k].q(0) = 0.5;
        f.D->c = rnd(r, f.D->m);
        judgeFn(f);
        c.count("op.resize");
        break;
      }
      case OUTPUT: {
        int i = pickFn(std::abs(op.arg(0)));
        if(i < 0 || fn[i]->kind != 0 || fn[i]->used)
          return;
        FnM & f = *fn[i];
        auto & u = static_cast<UserFn &>(*f.f);
        int w = static_cast<int>(std::abs(op.arg(1)) % NWHAT);
        if(r.chance(30))
        {
          f.locked = !f.locked;
          f.locked ? u.lock() : u.unlock();
          c.check(u.isLocked() == f.locked, "lock");
        }
        bool threw = false, on = r.chance(60);
        try
        {
          u.enable(w, on);
        }
        catch(const std::runtime_error &)
        {
          threw = true;
        }
        c.check(threw == f.locked, "lock", threw ? "change refused without lock" : "change accepted with lock");
        if(!threw)
          f.on[w] = on;
        judgeFn(f);
        c.count("op.output");
        break;
      }
      case CHECK: {
        int i = pickFn(std::abs(op.arg(0)));
        if(i < 0)
          return;
        check(i, static_cast<int>(std::abs(op.arg(1)) % 4), r);
        c.count("op.check");
        break;
      }
      case ARM:
        if(op.arg(0) % 2)
          armK = 1 + static_cast<int>(std::abs(op.arg(1)) % 3);
        else
        {
          allocArmed = true;
          allocAt = 1 + static_cast<int>(std::abs(op.arg(1)) % 12);
        }
        break;
      case NOISE: { // other objects come and go
        std::vector<tvm::VariablePtr> tmp;
        for(int i = 0; i < 3; ++i)
          tmp.push_back(tvm::Space(1 + static_cast<int>(r.below(4))).createVariable("tmp"));
        auto l = std::make_shared<tvm::function::IdentityFunction>(tmp[0]);
        tmp[0]->setZero();
        tvm::dot(tmp[0])->setZero();
        tvm::utils::UpdatelessFunction u(l);
        VectorXd z = rnd(r, tmp[0]->size());
        c.check(u.value(z) == z, "wrong-output", "identity");
        break;
      }
    }
  }
};

void execute(const Trace & t, Ctx & c)
{
  srand(static_cast<unsigned>(t.seed)); // the random configurations of the checks
  heap::begin(static_cast<int>(t.c("heap")), t.seed);
  {
    World_ w(t, c);
    w.setup();
    for(size_t i = 0; i < t.ops.size(); ++i)
    {
      c.sh->opIndex = static_cast<int>(i);
      w.step(t.ops[i]);
      c.sh->hash = c.hash;
      ++c.sh->opsRun;
    }
  }
  heap::end();
}
Op mk(int k, std::vector<int64_t> a)
{
  Op o;
  o.kind = k;
  o.a = std::move(a);
  return o;
}
void generate(Rng & r, Trace & t, bool thorough)
{
  auto & f = t.cfg;
  f["heap"] = r.below(3);
  f["n0"] = r.range(1, 4);
  f["n1"] = r.range(1, 4);
  f["pa"] = r.range(1, 3);
  f["pb"] = r.range(1, 3);
  f["gap"] = r.below(2);
  f["ne"] = r.chance(50) ? 0 : r.below(4);
  f["k1"] = r.below(4);
  f["k2"] = r.below(4);
  f["split"] = r.chance(60);
  int nf = static_cast<int>(r.range(1, 3));
  for(int i = 0; i < nf; ++i)
    t.ops.push_back(mk(F_NEW, {i, r.big()}));
  int nu = static_cast<int>(r.range(1, 3));
  for(int i = 0; i < nu; ++i)
    t.ops.push_back(mk(UF_NEW, {i, r.below(nf), 0}));
  bool faults = r.chance(50), structure = r.chance(50), checks = r.chance(50), misuse = r.chance(60);
  int n = static_cast<int>(thorough ? r.range(20, 150) : r.range(10, 60));
  for(int i = 0; i < n; ++i)
  {
    int k = static_cast<int>(r.below(100));
    if(k < 45)
      t.ops.push_back(mk(EVAL, {r.below(4), r.below(NWHAT), misuse && r.chance(25) ? r.range(BAD_COUNT, FOREIGN) : r.below(3), r.big()}));
    else if(k < 55)
      t.ops.push_back(mk(WRITE, {r.below(8), r.below(2), r.big()}));
    else if(k < 61)
      t.ops.push_back(mk(PARAM, {r.below(5), r.big()}));
    else if(k < 66)
      t.ops.push_back(mk(F_NEW, {r.below(5), r.big()}));
    else if(k < 73)
      t.ops.push_back(mk(UF_NEW, {r.below(4), r.below(5), 0}));
    else if(k < 75)
      t.ops.push_back(mk(r.chance(50) ? F_KILL : UF_KILL, {r.below(5), 0}));
    else if(k < 83)
    {
      if(structure)
      {
        int s = static_cast<int>(r.below(4));
        t.ops.push_back(mk(s == 0 ? ADDV : s == 1 ? REMV : s == 2 ? RESIZE : OUTPUT, {r.below(5), r.below(5), r.big()}));
      }
    }
    else if(k < 92)
    {
      if(checks)
        t.ops.push_back(mk(CHECK, {r.below(5), r.below(4), r.big()}));
    }
    else if(k < 98)
    {
      if(faults)
        t.ops.push_back(mk(ARM, {r.below(2), r.below(24), 0}));
    }
    else
      t.ops.push_back(mk(NOISE, {r.big()}));
  }
}
const std::vector<const char *> kinds = {"function",     "function-drop",   "wrapper",         "wrapper-drop", "evaluate",
                                         "write",        "parameters",      "add-variable",    "remove-variable", "resize",
                                         "output",       "check",           "arm-fault",       "noise"};
WorldReg reg({"function", generate, execute, kinds,
              "variables, functions (linear, identity, expressions, base classes of user functions), update plans, the on-demand wrapper, the "
              "finite-difference checks",
              "user functions (the model's own, they throw when the plan says so), the C library's random numbers (seeded), the heap",
              "at least one evaluation was judged",
              "distinct combinations of (output, call form, kind of function, number of variables, part asked, kind of history) judged"});
PropReg preg({"C22", "function", 60000, 1200000});
} // namespace
