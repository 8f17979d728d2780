// Reference dense convex QP solver and the record of what the real solver adapters hand to the numerical back-ends.
#pragma once
#include <Eigen/Core>
#include <deque>
#include <string>
#include <vector>

namespace sim::num
{
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;

struct QPResult
{
  bool ok = false;
  bool infeasible = false;
  Vec x;
};
/** min 1/2 x'Hx + c'x s.t. Aeq x = beq, l <= A x <= u, xl <= x <= xu (infinite when |.|>=big). H only needs to be PSD. */
QPResult solveQP(const Mat & H,
                 const Vec & c,
                 const Mat & Aeq,
                 const Vec & beq,
                 const Mat & A,
                 const Vec & l,
                 const Vec & u,
                 const Vec & xl,
                 const Vec & xu,
                 double big = 1e8);

/** l <= A x <= u */
struct Block
{
  Mat A;
  Vec l, u;
};
/** lexicographic least squares: strict bounds, then levels in order. */
QPResult solveLex(int n, const Vec & xl, const Vec & xu, const std::vector<Block> & levels, double big = 1e8);

/** Exactly what an adapter handed to its numerical solver, converted from the back-end's convention. */
struct Call
{
  std::string backend;
  const void * self = nullptr;
  int n = 0;
  bool hierarchical = false;
  Mat H; // objective 1/2 x'Hx + c'x
  Vec c;
  bool cholesky = false;
  Mat Aeq;
  Vec beq;
  Block rows;
  Vec xl, xu;
  std::vector<Block> levels; // hierarchical back-end: general levels
  bool hasBounds = false;
  int outcome = 0; // injected
  bool ok = false;
  Vec x;
};

enum Outcome
{
  OK = 0,
  FAIL = 1, // the numerical solver reports failure
  FAILNAN = 2, // idem, with NaN in its result
  THROW = 3 // the numerical solver throws (out of memory)
};
struct Hub
{
  std::vector<Call> calls;
  int next = OK; // outcome of the next call only
  int64_t eigenAllocs = 0; // allocations made by the stubs themselves
  bool record = true;
  std::string wiring; // a wiring error seen by a stub (size mismatch)
  int constructFail = 0; // >0: creating a back-end throws
  uint64_t created = 0;
  bool settle = false; // a level the reference cannot solve is left where the earlier ones put it
};
Hub & hub();
/** solves and records; common end of every stub. May throw std::runtime_error (injected). */
bool serve(Call & c, Vec & result);

/** Sections of the stubs: no injected allocation failure, Eigen allocations allowed. */
struct StubScope
{
  StubScope();
  ~StubScope();
  bool was;
  int64_t before;
};
void onConstruct();
struct StubError
{
  std::string msg;
};
[[noreturn]] void wiringError(const std::string & m);
} // namespace sim::num
