// Stub of LexLS: simple bounds level (n x 2) and general levels [A l u], solved lexicographically.
#pragma once
#include "../../qp.h"
#include <string>
namespace LexLS
{
using Index = unsigned int;
using RealScalar = double;
enum RegularizationType
{
  REGULARIZATION_NONE = 0,
  REGULARIZATION_TIKHONOV
};
enum ConstraintActivationType
{
  CTR_INACTIVE = 0,
  CTR_ACTIVE_LB = 1,
  CTR_ACTIVE_UB = 2,
  CTR_ACTIVE_EQ = 3,
  CORRECT_SIGN_OF_LAMBDA
};
enum ObjectiveType
{
  GENERAL_OBJECTIVE = 0,
  SIMPLE_BOUNDS_OBJECTIVE
};
enum TerminationStatus
{
  TERMINATION_STATUS_UNKNOWN = -1,
  PROBLEM_SOLVED = 0,
  PROBLEM_SOLVED_CYCLING_HANDLING,
  MAX_NUMBER_OF_FACTORIZATIONS_EXCEEDED
};
struct ConstraintIdentifier
{
  Index obj_index = 0, ctr_index = 0;
  ConstraintActivationType ctr_type = CTR_INACTIVE;
};
struct ParametersLexLSI
{
  Index max_number_of_factorizations = 200;
  RealScalar tol_linear_dependence = 1e-12, tol_wrong_sign_lambda = 1e-8, tol_correct_sign_lambda = 1e-12,
             tol_feasibility = 1e-13;
  RegularizationType regularization_type = REGULARIZATION_NONE;
  Index max_number_of_CG_iterations = 10;
  RealScalar variable_regularization_factor = 0;
  bool cycling_handling_enabled = false;
  Index cycling_max_counter = 50;
  RealScalar cycling_relax_step = 1e-8;
  std::string output_file_name;
  bool modify_x_guess_enabled = false, modify_type_active_enabled = false, modify_type_inactive_enabled = false,
       set_min_init_ctr_violation = true, use_phase1_v0 = false, log_working_set_enabled = false,
       deactivate_first_wrong_sign = false;
};
namespace internal
{
class LexLSI
{
public:
  LexLSI() { sim::num::onConstruct(); }
  void setParameters(const ParametersLexLSI &) {}
  void resize(Index n, Index nObj, const Index * dim, const ObjectiveType * type)
  {
    sim::num::StubScope s;
    n_ = static_cast<int>(n);
    dim_.assign(dim, dim + nObj);
    type_.assign(type, type + nObj);
    data_.assign(nObj, Eigen::MatrixXd());
    set_.assign(nObj, false);
    x_.setConstant(n_, std::numeric_limits<double>::quiet_NaN());
  }
  void reset()
  {
    sim::num::StubScope s;
    set_.assign(dim_.size(), false);
  }
  void setData(Index l, const Index * idx, const Eigen::MatrixXd & d)
  {
    sim::num::StubScope s;
    if(l >= dim_.size() || type_[l] != SIMPLE_BOUNDS_OBJECTIVE || d.rows() != static_cast<int>(dim_[l]) || d.cols() != 2)
      sim::num::wiringError("lexls: bound data differ from the declared level");
    data_[l] = d;
    set_[l] = true;
    idx_.assign(idx, idx + d.rows());
  }
  void setData(Index l, const Eigen::MatrixXd & d)
  {
    sim::num::StubScope s;
    if(l >= dim_.size() || type_[l] != GENERAL_OBJECTIVE || d.rows() != static_cast<int>(dim_[l]) || d.cols() != n_ + 2)
      sim::num::wiringError("lexls: level data differ from the declared level");
    data_[l] = d;
    set_[l] = true;
  }
  void activate(Index obj, Index ctr, ConstraintActivationType, bool = true)
  {
    if(obj >= dim_.size() || ctr >= dim_[obj])
      sim::num::wiringError("lexls: activation of a constraint that does not exist");
  }
  void set_x0(const Eigen::VectorXd & x)
  {
    if(x.size() != n_)
      sim::num::wiringError("lexls: wrong initial guess size");
  }
  TerminationStatus solve()
  {
    sim::num::StubScope s;
    sim::num::Call k;
    k.backend = "lexls";
    k.self = this;
    k.n = n_;
    k.hierarchical = true;
    k.xl = Eigen::VectorXd::Constant(n_, -1e300);
    k.xu = Eigen::VectorXd::Constant(n_, 1e300);
    for(size_t l = 0; l < dim_.size(); ++l)
    {
      if(!set_[l])
        sim::num::wiringError("lexls: a level was not given data");
      if(type_[l] == SIMPLE_BOUNDS_OBJECTIVE)
      {
        k.hasBounds = true;
        for(int i = 0; i < data_[l].rows(); ++i)
        {
          if(idx_[static_cast<size_t>(i)] >= static_cast<Index>(n_))
            sim::num::wiringError("lexls: bound on a variable that does not exist");
          k.xl(static_cast<int>(idx_[static_cast<size_t>(i)])) = data_[l](i, 0);
          k.xu(static_cast<int>(idx_[static_cast<size_t>(i)])) = data_[l](i, 1);
        }
      }
      else
      {
        sim::num::Block b;
        b.A = data_[l].leftCols(n_);
        b.l = data_[l].col(n_);
        b.u = data_[l].col(n_ + 1);
        k.levels.push_back(b);
      }
    }
    bool r = sim::num::serve(k, x_);
    return r ? PROBLEM_SOLVED : MAX_NUMBER_OF_FACTORIZATIONS_EXCEEDED;
  }
  const Eigen::VectorXd & get_x() const { return x_; }
  void getActiveCtr(Index l, std::vector<ConstraintActivationType> & a)
  {
    sim::num::StubScope s;
    a.clear();
    for(Index i = 0; i < dim_[l]; ++i)
      a.push_back(active(l, i));
  }
  void getActiveCtr_order(std::vector<ConstraintIdentifier> & a)
  {
    sim::num::StubScope s;
    a.clear();
    for(Index l = 0; l < dim_.size(); ++l)
      for(Index i = 0; i < dim_[l]; ++i)
      {
        ConstraintIdentifier c;
        c.obj_index = l;
        c.ctr_index = i;
        c.ctr_type = active(l, i);
        if(c.ctr_type != CTR_INACTIVE)
          a.push_back(c);
      }
  }
  void print(const char *) const {}

private:
  ConstraintActivationType active(Index l, Index i) const
  {
    double v, lo, up;
    const auto & d = data_[l];
    int r = static_cast<int>(i);
    if(type_[l] == SIMPLE_BOUNDS_OBJECTIVE)
    {
      v = x_(static_cast<int>(idx_[i]));
      lo = d(r, 0);
      up = d(r, 1);
    }
    else
    {
      v = d.row(r).head(n_).dot(x_);
      lo = d(r, n_);
      up = d(r, n_ + 1);
    }
    if(lo == up)
      return CTR_ACTIVE_EQ;
    if(v <= lo + 1e-9)
      return CTR_ACTIVE_LB;
    if(v >= up - 1e-9)
      return CTR_ACTIVE_UB;
    return CTR_INACTIVE;
  }
  int n_ = 0;
  std::vector<Index> dim_, idx_;
  std::vector<ObjectiveType> type_;
  std::vector<Eigen::MatrixXd> data_;
  std::vector<bool> set_;
  Eigen::VectorXd x_;
};
} // namespace internal
} // namespace LexLS
