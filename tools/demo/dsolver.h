// A small dense solver plugged in the public solver interface: it records the data it is given, and solves
// the equality constrained part of the problem (inequalities and bounds are recorded only).
#pragma once
#include <tvm/ControlProblem.h>
#include <tvm/LinearizedControlProblem.h>
#include <tvm/Task.h>
#include <tvm/Variable.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/abstract/Function.h>
#include <tvm/scheme/WeightedLeastSquares.h>
#include <tvm/scheme/internal/AssignmentTarget.h>
#include <tvm/solver/abstract/LeastSquareSolver.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/task_dynamics/Proportional.h>
#include <tvm/task_dynamics/ProportionalDerivative.h>
#include <Eigen/Dense>
#include <cmath>
#include <cstdio>
#include <cstdlib>

namespace demo
{
using namespace tvm;
using Eigen::MatrixXd;
using Eigen::VectorXd;

struct Data
{
  MatrixXd A, C;
  VectorXd b, l, u, xl, xu, x;
  int calls = 0;
  bool fail = false, raise = false;
};
inline Data & last()
{
  static Data d;
  return d;
}

class DSolver : public solver::abstract::LeastSquareSolver
{
  using ROW = decltype(VectorXd().tail(1));

public:
  DSolver() : LeastSquareSolver(false), Cin_(C_.bottomRows(0)), lin_(l_.tail(0)), uin_(u_.tail(0)) {}

protected:
  using LCP = LinearConstraintPtr;
  void initializeBuild_(int nObj, int nEq, int nIneq, bool useBounds) override
  {
    min_ = false;
    resize_(nObj, nEq, nIneq, useBounds);
  }
  ImpactFromChanges resize_(int nObj, int nEq, int nIneq, bool) override
  {
    int n = variables().totalSize();
    ImpactFromChanges i;
    i.objectives_ = i.equalityConstraints_ = i.inequalityConstraints_ = i.bounds_ = true;
    A_.setZero(nObj, n);
    b_.setZero(nObj);
    C_.setZero(nEq + nIneq, n);
    l_.setConstant(nEq + nIneq, -1e20);
    u_.setConstant(nEq + nIneq, 1e20);
    xl_.setConstant(n, -1e20);
    xu_.setConstant(n, 1e20);
    return i;
  }
  void addBound_(LCP bound, RangePtr range, bool first) override
  {
    scheme::internal::AssignmentTarget t(range, xl_, xu_);
    addAssignement(bound, t, bound->variables()[0], first);
  }
  void addEqualityConstraint_(LCP c) override
  {
    RangePtr r = std::make_shared<Range>(nextEqualityConstraintRange_(*c));
    scheme::internal::AssignmentTarget t(r, C_, l_, u_, constraint::RHS::AS_GIVEN);
    addAssignement(c, nullptr, t, variables(), substitutions());
  }
  void addIneqalityConstraint_(LCP c) override
  {
    RangePtr r = std::make_shared<Range>(nextInequalityConstraintRange_(*c));
    scheme::internal::AssignmentTarget t(r, C_, l_, u_, constraint::RHS::AS_GIVEN);
    addAssignement(c, nullptr, t, variables(), substitutions());
  }
  void addObjective_(LCP c, SolvingRequirementsPtr req, double w) override
  {
    RangePtr r = std::make_shared<Range>(nextObjectiveRange_(*c));
    scheme::internal::AssignmentTarget t(r, A_, b_, constraint::Type::EQUAL, constraint::RHS::AS_GIVEN);
    addAssignement(c, req, t, variables(), substitutions(), w);
  }
  void setMinimumNorm_() override { min_ = true; }
  void resetBounds_() override
  {
    xl_.setConstant(-1e20);
    xu_.setConstant(1e20);
  }
  void postAssignmentProcess_() override
  {
    if(min_)
    {
      A_.setIdentity();
      b_.setZero();
    }
  }
  bool solve_() override
  {
    Data & d = last();
    ++d.calls;
    d.A = A_, d.b = b_, d.C = C_, d.l = l_, d.u = u_, d.xl = xl_, d.xu = xu_;
    int n = variables().totalSize(), m = 0;
    MatrixXd E(C_.rows(), n);
    VectorXd e(C_.rows());
    for(int i = 0; i < C_.rows(); ++i)
      if(l_(i) == u_(i))
      {
        E.row(m) = C_.row(i);
        e(m++) = l_(i);
      }
    MatrixXd K = MatrixXd::Zero(n + m, n + m);
    K.topLeftCorner(n, n) = A_.transpose() * A_;
    K.bottomLeftCorner(m, n) = E.topRows(m);
    K.topRightCorner(n, m) = E.topRows(m).transpose();
    VectorXd r(n + m);
    r.head(n) = A_.transpose() * b_;
    r.tail(m) = e.head(m);
    x_ = VectorXd(K.completeOrthogonalDecomposition().solve(r)).head(n);
    d.x = x_;
    if(d.raise)
      throw std::runtime_error("solver out of order");
    return !d.fail;
  }
  const VectorXd & result_() const override { return x_; }
  bool handleDoubleSidedConstraint_() const override { return true; }
  Range nextEqualityConstraintRange_(const constraint::abstract::LinearConstraint & c) const override
  { return {eqSize_, c.size()}; }
  Range nextInequalityConstraintRange_(const constraint::abstract::LinearConstraint & c) const override
  { return {nEq_ + ineqSize_, constraintSize(c)}; }
  Range nextObjectiveRange_(const constraint::abstract::LinearConstraint & c) const override
  { return {objSize_, c.size()}; }
  void removeBounds_(const Range & r) override
  {
    xl_.segment(r.start, r.dim).setConstant(-1e20);
    xu_.segment(r.start, r.dim).setConstant(1e20);
  }
  void updateEqualityTargetData(scheme::internal::AssignmentTarget & t) override { t.changeData(MatrixRef(C_), l_, u_); }
  void updateInequalityTargetData(scheme::internal::AssignmentTarget & t) override { t.changeData(MatrixRef(C_), l_, u_); }
  void updateBoundTargetData(scheme::internal::AssignmentTarget & t) override { t.changeData(VectorRef(xl_), VectorRef(xu_)); }
  void updateObjectiveTargetData(scheme::internal::AssignmentTarget & t) override { t.changeData(MatrixRef(A_), VectorRef(b_)); }
  void applyImpactLogic(ImpactFromChanges & i) override
  {
    if(i.equalityConstraints_ || i.inequalityConstraints_)
      i.equalityConstraints_ = i.inequalityConstraints_ = true;
  }
  void printProblemData_() const override {}
  void printDiagnostic_() const override {}

private:
  MatrixXd A_, C_;
  VectorXd b_, l_, u_, xl_, xu_, x_;
  decltype(MatrixXd().bottomRows(1)) Cin_;
  ROW lin_, uin_;
  bool min_ = false;
};

class DFactory : public solver::abstract::LSSolverFactory
{
public:
  DFactory() : LSSolverFactory("demo") {}
  std::unique_ptr<LSSolverFactory> clone() const override { return std::make_unique<DFactory>(*this); }
  std::unique_ptr<solver::abstract::LeastSquareSolver> createSolver() const override
  { return std::make_unique<DSolver>(); }
};
inline int & status()
{
  static int s = 0;
  return s;
}
inline void expect(bool b, const char * what)
{
  if(!b)
  {
    std::printf("FAILED: %s\n", what);
    status() = 1;
  }
}
} // namespace demo
