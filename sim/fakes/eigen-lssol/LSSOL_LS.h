// Stub of eigen-lssol (LS): min ||Ax-b||^2, l <= (x, Cx) <= u. Destroys A and b, as the real one does.
#pragma once
#include "../../qp.h"
#include <ostream>
namespace Eigen
{
namespace lssol
{
enum class eType
{
  LS1
};
enum class eStatus
{
  STRONG_MINIMUM,
  INFEASIBLE
};
inline std::ostream & operator<<(std::ostream & o, eStatus s) { return o << static_cast<int>(s); }
} // namespace lssol
class LSSOLStub
{
public:
  LSSOLStub() { sim::num::onConstruct(); }
#define SIM_LSSOL_PARAM(T, name, def) \
  void name(T v) { name##_ = v; }     \
  T name() const { return name##_; }  \
  T name##_ = def;
  SIM_LSSOL_PARAM(double, crashTol, 0.01)
  SIM_LSSOL_PARAM(int, feasibilityMaxIter, 50)
  SIM_LSSOL_PARAM(double, feasibilityTol, 1e-8)
  SIM_LSSOL_PARAM(double, infiniteBnd, 1e10)
  SIM_LSSOL_PARAM(double, infiniteStep, 1e10)
  SIM_LSSOL_PARAM(int, optimalityMaxIter, 50)
  SIM_LSSOL_PARAM(bool, persistence, false)
  SIM_LSSOL_PARAM(int, printLevel, 0)
  SIM_LSSOL_PARAM(double, rankTol, 1e-8)
  SIM_LSSOL_PARAM(bool, warm, true)
  SIM_LSSOL_PARAM(bool, forceMinSize, true)
  lssol::eStatus inform() const { return st_; }
  void print_inform() const {}
  const VectorXd & result() const { return x_; }

protected:
  void resizeBase(int n, int m)
  {
    n_ = n;
    m_ = m;
    sim::num::StubScope s;
    x_.setConstant(n, std::numeric_limits<double>::quiet_NaN()); // the real library leaves it uninitialised
  }
  bool run(sim::num::Call & k, const MatrixXd & C, const VectorXd & l, const VectorXd & u)
  {
    if(C.rows() != m_ || (m_ && C.cols() != n_) || l.size() != n_ + m_ || u.size() != n_ + m_)
      sim::num::wiringError("lssol: data sizes differ from the declared problem");
    k.backend = "lssol";
    k.self = this;
    k.n = n_;
    k.rows.A = C;
    k.rows.l = l.tail(m_);
    k.rows.u = u.tail(m_);
    k.Aeq.resize(0, n_);
    k.beq.resize(0);
    k.xl = l.head(n_);
    k.xu = u.head(n_);
    k.hasBounds = true;
    bool r = sim::num::serve(k, x_);
    st_ = r ? lssol::eStatus::STRONG_MINIMUM : lssol::eStatus::INFEASIBLE;
    return r;
  }
  int n_ = 0, m_ = 0;
  VectorXd x_;
  lssol::eStatus st_ = lssol::eStatus::STRONG_MINIMUM;
};
class LSSOL_LS : public LSSOLStub
{
public:
  void resize(int n, int m, lssol::eType) { resizeBase(n, m); }
  bool solve(Ref<MatrixXd> A, Ref<VectorXd> b, const Ref<const MatrixXd> & C, const Ref<const VectorXd> & l,
             const Ref<const VectorXd> & u)
  {
    sim::num::StubScope s;
    if(A.cols() != n_ || A.rows() != b.size())
      sim::num::wiringError("lssol: objective sizes differ from the declared problem");
    sim::num::Call k;
    k.H = A.transpose() * A;
    k.c = -A.transpose() * b;
    A.setConstant(3.25e5); // the real solver factorises in place
    b.setConstant(-7.5e5);
    return run(k, C, l, u);
  }
};
} // namespace Eigen
