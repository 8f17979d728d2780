// Stub of eigen-qld: constraints A x + b = 0 (first nEq rows) and A x + b >= 0.
#pragma once
#include "../../qp.h"
namespace Eigen
{
class QLDDirect
{
public:
  QLDDirect() { sim::num::onConstruct(); }
  void problem(int n, int nEq, int nIneq, int /*ldq*/)
  {
    n_ = n;
    nEq_ = nEq;
    nIneq_ = nIneq;
    sim::num::StubScope s;
    x_.setConstant(n, std::numeric_limits<double>::quiet_NaN()); // the real library leaves it uninitialised
  }
  bool solve(const Ref<const MatrixXd> & Q,
             const Ref<const VectorXd> & c,
             const Ref<const MatrixXd> & A,
             const Ref<const VectorXd> & b,
             const Ref<const VectorXd> & xl,
             const Ref<const VectorXd> & xu,
             int nEq,
             bool isDecomp,
             double)
  {
    sim::num::StubScope s;
    if(Q.rows() != n_ || Q.cols() != n_ || c.size() != n_ || nEq != nEq_ || A.rows() != nEq_ + nIneq_
       || b.size() != A.rows() || (A.rows() && A.cols() != n_) || xl.size() != n_ || xu.size() != n_)
      sim::num::wiringError("qld: data sizes differ from the declared problem");
    sim::num::Call k;
    k.backend = "qld";
    k.self = this;
    k.n = n_;
    k.cholesky = isDecomp;
    if(isDecomp)
    {
      MatrixXd R = Q.triangularView<Upper>();
      k.H = R.transpose() * R;
    }
    else
      k.H = Q;
    k.c = c;
    k.Aeq = A.topRows(nEq);
    k.beq = -b.head(nEq);
    k.rows.A = A.bottomRows(nIneq_);
    k.rows.l = -b.tail(nIneq_);
    k.rows.u = VectorXd::Constant(nIneq_, 1e300);
    k.xl = xl;
    k.xu = xu;
    k.hasBounds = true;
    bool r = sim::num::serve(k, x_);
    fail_ = r ? 0 : 1;
    return r;
  }
  const VectorXd & result() const { return x_; }
  int fail() const { return fail_; }

private:
  int n_ = 0, nEq_ = 0, nIneq_ = 0, fail_ = 0;
  VectorXd x_;
};
} // namespace Eigen
