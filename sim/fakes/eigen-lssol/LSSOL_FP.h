// Stub of eigen-lssol (FP): feasible point.
#pragma once
#include "LSSOL_LS.h"
namespace Eigen
{
class LSSOL_FP : public LSSOLStub
{
public:
  void resize(int n, int m) { resizeBase(n, m); }
  bool solve(const Ref<const MatrixXd> & C, const Ref<const VectorXd> & l, const Ref<const VectorXd> & u)
  {
    sim::num::StubScope s;
    sim::num::Call k;
    k.H = MatrixXd::Zero(n_, n_);
    k.c = VectorXd::Zero(n_);
    return run(k, C, l, u);
  }
};
} // namespace Eigen
