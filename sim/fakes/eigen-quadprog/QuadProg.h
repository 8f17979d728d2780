// Stub of eigen-quadprog: records what it is given and solves with the reference QP solver.
#pragma once
#include "../../qp.h"
#include <Eigen/LU>
namespace Eigen
{
class QuadProgDense
{
public:
  QuadProgDense() { sim::num::onConstruct(); }
  void problem(int n, int nEq, int nIneq)
  {
    n_ = n;
    nEq_ = nEq;
    nIneq_ = nIneq;
    sim::num::StubScope s;
    x_.setConstant(n, std::numeric_limits<double>::quiet_NaN()); // the real library leaves it uninitialised
  }
  bool solve(const Ref<const MatrixXd> & Q,
             const Ref<const VectorXd> & c,
             const Ref<const MatrixXd> & Aeq,
             const Ref<const VectorXd> & beq,
             const Ref<const MatrixXd> & A,
             const Ref<const VectorXd> & b,
             bool isDecomp)
  {
    sim::num::StubScope s;
    if(Q.rows() != n_ || Q.cols() != n_ || c.size() != n_ || Aeq.rows() != nEq_ || beq.size() != nEq_
       || A.rows() != nIneq_ || b.size() != nIneq_ || (nEq_ && Aeq.cols() != n_) || (nIneq_ && A.cols() != n_))
      sim::num::wiringError("quadprog: data sizes differ from the declared problem");
    sim::num::Call k;
    k.backend = "quadprog";
    k.self = this;
    k.n = n_;
    k.cholesky = isDecomp;
    if(isDecomp && n_ > 0)
    {
      MatrixXd R = MatrixXd(Q.triangularView<Upper>()).fullPivLu().inverse();
      k.H = R.transpose() * R;
    }
    else
      k.H = Q;
    k.c = c;
    k.Aeq = Aeq;
    k.beq = beq;
    k.rows.A = A;
    k.rows.l = VectorXd::Constant(nIneq_, -1e300);
    k.rows.u = b;
    bool r = sim::num::serve(k, x_);
    fail_ = r ? 0 : 1;
    return r;
  }
  const VectorXd & result() const { return x_; }
  int fail() const { return fail_; }

private:
  int n_ = 0, nEq_ = 0, nIneq_ = 0, fail_ = 0;
  VectorXd x_;
};
} // namespace Eigen
