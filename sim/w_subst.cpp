// World "substitutions" (C03): histories of a set of substitution hints, at the level of the set itself: hints of
// every shape are added, removed, renewed and updated while the constraints they use change, allocations fail, and the
// points described by (substitution functions, additional variables, additional constraints) are compared with
// the points satisfying the original constraints.
#include "core.h"
#include <Eigen/Dense>
#include <algorithm>
#include <iostream>
#include <memory>
#include <new>
#include <tvm/Space.h>
#include <tvm/Variable.h>
#include <tvm/VariableVector.h>
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/hint/Substitution.h>
#include <tvm/hint/internal/DiagonalCalculator.h>
#include <tvm/hint/internal/GenericCalculator.h>
#include <tvm/hint/internal/Substitutions.h>

using namespace sim;
using tvm::Space;
using tvm::VariablePtr;
using tvm::VariableVector;
using tvm::constraint::BasicLinearConstraint;
using tvm::constraint::RHS;
using tvm::constraint::Type;
using tvm::hint::Substitution;
using tvm::hint::internal::DiagonalCalculator;
using tvm::hint::internal::GenericCalculator;
using tvm::hint::internal::Substitutions;
using tvm::internal::MatrixProperties;

namespace
{
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;

enum Kind
{
  HINT,
  UNHINT,
  CHANGE,
  FINALIZE,
  JUDGE,
  DROP,
  NK
};
const std::vector<const char *> kinds = {"add-hint", "remove-hint", "change-constraint", "finalize", "judge", "drop-handles"};

double num(Rng & r) { return static_cast<double>(r.range(-1000, 1000)) / 500.; }

struct PieceM
{ // what a constraint depends on, or what is substituted: components [s, s+n) of base b
  int b, s, n;
};
struct CstrM
{
  std::shared_ptr<BasicLinearConstraint> c;
  std::vector<PieceM> vars; // as declared
  std::vector<VariablePtr> v;
  std::vector<bool> varying; // the matrix may change
  int m = 0;
  RHS rhs = RHS::AS_GIVEN;
  Mat A; // m x total, over the components of all bases
  Vec b; // right hand side of A v = b, with its sign
};
struct HintM
{
  std::vector<CstrM> cs;
  std::vector<PieceM> x;
  int rank = 0, m = 0, n = 0;
  bool diag = false;
  std::unique_ptr<Substitution> h;
  std::vector<std::vector<bool>> mask; // [constraint][substituted variable]
};

struct SWorld
{
  const Trace & t;
  Ctx & c;
  std::vector<VariablePtr> bases;
  std::vector<int> start;
  int N = 0;
  VariableVector all;
  std::unique_ptr<Substitutions> subs;
  std::vector<HintM> hints;
  bool final = true; // finalized since the last change
  int judged = 0;

  SWorld(const Trace & t_, Ctx & c_) : t(t_), c(c_)
  {
    int nb = static_cast<int>(t.c("bases", 5));
    for(int i = 0; i < nb; ++i)
    {
      int n = static_cast<int>(t.c(fmt("size%d", i).c_str(), 3));
      bases.push_back(Space(n).createVariable(fmt("v%d", i)));
      start.push_back(N);
      N += n;
      all.add(bases.back());
    }
    subs = std::make_unique<Substitutions>();
  }

  VariablePtr part(const PieceM & p)
  {
    auto & b = bases[static_cast<size_t>(p.b)];
    if(p.s == 0 && p.n == b->size())
      return b;
    return b->subvariable(Space(p.n), "part", Space(p.s));
  }
  int at(const PieceM & p) const { return start[static_cast<size_t>(p.b)] + p.s; }
  std::vector<bool> substituted() const
  {
    std::vector<bool> r(static_cast<size_t>(N), false);
    for(auto & h : hints)
      for(auto & p : h.x)
        std::fill_n(r.begin() + at(p), p.n, true);
    return r;
  }

  static Mat randM(Rng & r, int m, int n)
  {
    Mat a(m, n);
    for(int i = 0; i < m; ++i)
      for(int j = 0; j < n; ++j)
        a(i, j) = num(r);
    return a;
  }
  Mat xMatrix(const std::vector<const HintM *> & hs) const
  {
    int m = 0, n = 0;
    for(auto h : hs)
    {
      m += h->m;
      n += h->n;
    }
    Mat a(m, n);
    int r = 0;
    for(auto h : hs)
      for(auto & k : h->cs)
      {
        int col = 0;
        for(auto g : hs)
          for(auto & p : g->x)
          {
            a.block(r, col, k.m, p.n) = k.A.middleCols(at(p), p.n);
            col += p.n;
          }
        r += k.m;
      }
    return a;
  }
  struct RankM
  {
    int rank;
    bool clear; // no singular value is near the limit
    double smin;
  };
  static RankM rankOf(const Mat & a)
  {
    RankM r{0, true, 1e300};
    if(a.rows() == 0 || a.cols() == 0)
      return r;
    Vec s = a.jacobiSvd().singularValues();
    double ref = std::max(1., s[0]);
    for(int i = 0; i < s.size(); ++i)
    {
      if(s[i] > 0.03 * ref)
      {
        ++r.rank;
        r.smin = std::min(r.smin, s[i]);
      }
      else if(s[i] > 1e-12 * ref)
        r.clear = false;
    }
    return r;
  }

  /** least squares, what is below an absolute limit being zero (rounding errors of a zero matrix) */
  static Vec solve(const Mat & a, const Vec & b)
  {
    Eigen::JacobiSVD<Mat> d(a, Eigen::ComputeThinU | Eigen::ComputeThinV);
    const Vec & sv = d.singularValues();
    Vec y = d.matrixU().transpose() * b;
    for(int i = 0; i < y.size(); ++i)
      y[i] = sv[i] > 1e-9 * std::max(1., sv[0]) ? y[i] / sv[i] : 0.;
    return d.matrixV() * y;
  }

  /** fills the blocks multiplying the substituted variables, of rank h.rank; false if it cannot. */
  bool fillX(HintM & h, Rng & r)
  {
    for(int tries = 0; tries < 4; ++tries)
    {
      Mat a = h.cs.size() > 60 ? Mat(2 * Mat::Identity(h.m, h.n) + 0.02 * randM(r, h.m, h.n)) : h.rank == std::min(h.m, h.n) ? randM(r, h.m, h.n) : Mat(randM(r, h.m, h.rank) * randM(r, h.rank, h.n));
      int row = 0;
      for(size_t i = 0; i < h.cs.size(); ++i)
      {
        int col = 0;
        for(size_t j = 0; j < h.x.size(); ++j)
        {
          h.cs[i].A.middleCols(at(h.x[j]), h.x[j].n).setZero();
          if(h.mask[i][j])
            h.cs[i].A.middleCols(at(h.x[j]), h.x[j].n) = a.block(row, col, h.cs[i].m, h.x[j].n);
          col += h.x[j].n;
        }
        row += h.cs[i].m;
      }
      RankM k = rankOf(xMatrix({&h}));
      if(!k.clear)
        continue;
      if(h.cs.empty() || !h.cs[0].c) // under construction: the rank is what it is
        h.rank = k.rank;
      if(k.rank == h.rank)
        return true;
    }
    return false;
  }
  void fillRhs(CstrM & k, Rng & r)
  {
    k.b = Vec::Zero(k.m);
    if(k.rhs != RHS::ZERO && !r.chance(15))
      for(int i = 0; i < k.m; ++i)
        k.b[i] = num(r);
  }

  void addHint(const Op & o)
  {
    Rng r(static_cast<uint64_t>(o.arg(0)) * 7919u + 11);
    int style = static_cast<int>(o.arg(1)) % 10; // 0-6 general, 7 diagonal, 8 rows of a diagonal, 9 many constraints
    bool varying = o.arg(2) % 3 != 0;
    std::vector<bool> used = substituted();
    HintM h;
    // substituted variables: free pieces
    std::vector<PieceM> cand;
    for(int b = 0; b < static_cast<int>(bases.size()); ++b)
    {
      int n = bases[static_cast<size_t>(b)]->size();
      int s = 0;
      while(s < n)
      {
        if(used[static_cast<size_t>(start[static_cast<size_t>(b)] + s)])
        {
          ++s;
          continue;
        }
        int e = s;
        while(e < n && !used[static_cast<size_t>(start[static_cast<size_t>(b)] + e)])
          ++e;
        if(e - s > 1 && t.c("parts") && r.chance(35))
        { // a part of it
          int l = static_cast<int>(r.range(1, e - s));
          int q = s + static_cast<int>(r.below(e - s - l + 1));
          cand.push_back({b, q, l});
        }
        else
          cand.push_back({b, s, e - s});
        s = e;
      }
    }
    if(cand.size() < 1)
      return;
    for(size_t i = cand.size(); i-- > 1;)
      std::swap(cand[i], cand[static_cast<size_t>(r.below(static_cast<int64_t>(i) + 1))]);
    size_t nx = style >= 7 ? 1 : static_cast<size_t>(1 + r.below(3) * r.below(2));
    nx = std::min(nx, cand.size());
    if(style == 9)
    { // the largest
      std::sort(cand.begin(), cand.end(), [](const PieceM & p, const PieceM & q) { return p.n > q.n; });
      if(cand[0].n < 10)
        style = 0;
    }
    h.x.assign(cand.begin(), cand.begin() + static_cast<long>(nx));
    for(auto & p : h.x)
      h.n += p.n;
    // constraints
    std::vector<int> first, rows, zeros; // style 8
    if(style == 9)
    {
      h.m = static_cast<int>(h.n - r.below(2));
      for(int i = 0; i < h.m; ++i)
      {
        h.cs.emplace_back();
        h.cs.back().m = 1;
      }
    }
    else if(style >= 7)
    {
      h.diag = true;
      h.cs.emplace_back();
      if(style == 7)
      {
        h.m = h.n;
        for(int i = 0; i < h.n; ++i)
          rows.push_back(i);
      }
      else
      {
        for(int i = 0; i < h.n; ++i)
        {
          int w = static_cast<int>(r.below(4));
          if(w < 2)
            rows.push_back(i);
          else if(w == 2)
            zeros.push_back(i);
        }
        if(rows.empty())
          return;
        h.m = static_cast<int>(rows.size() + zeros.size());
      }
      h.cs[0].m = h.m;
    }
    else
    {
      h.m = static_cast<int>(r.range(1, std::min(h.n, 6)));
      if(r.chance(25))
        h.m = std::min(h.n, 8);
      int left = h.m;
      while(left > 0)
      {
        h.cs.emplace_back();
        int k = h.cs.size() >= 3 ? left : static_cast<int>(r.range(1, left));
        h.cs.back().m = k;
        left -= k;
      }
    }
    h.mask.assign(h.cs.size(), std::vector<bool>(h.x.size(), true));
    if(h.x.size() > 1 && r.chance(40))
      for(size_t i = 0; i < h.cs.size(); ++i)
        for(size_t j = 0; j < h.x.size(); ++j)
          if(r.chance(30))
            h.mask[i][j] = false;
    for(size_t i = 0; i < h.cs.size(); ++i)
      if(std::none_of(h.mask[i].begin(), h.mask[i].end(), [](bool b) { return b; }))
        h.mask[i][static_cast<size_t>(r.below(static_cast<int64_t>(h.x.size())))] = true;
    for(size_t j = 0; j < h.x.size(); ++j)
    {
      bool any = false;
      for(size_t i = 0; i < h.cs.size(); ++i)
        any = any || h.mask[i][j];
      if(!any)
        h.mask[static_cast<size_t>(r.below(static_cast<int64_t>(h.cs.size())))][j] = true;
    }
    // other variables of the constraints
    for(size_t i = 0; i < h.cs.size(); ++i)
    {
      auto & k = h.cs[i];
      int w = static_cast<int>(r.below(8));
      k.rhs = w < 2 ? RHS::ZERO : (w < 5 ? RHS::AS_GIVEN : RHS::OPPOSITE);
      k.A = Mat::Zero(k.m, N);
      std::set<int> whole; // bases declared as a whole
      for(size_t j = 0; j < h.x.size(); ++j)
        if(h.mask[i][j])
        {
          auto & p = h.x[j];
          bool part = p.n < bases[static_cast<size_t>(p.b)]->size();
          // the constraint on the whole of a variable a part of which is substituted
          if(part && !h.diag && r.chance(40) && std::none_of(k.vars.begin(), k.vars.end(), [&](const PieceM & q) { return q.b == p.b; })
             && std::count_if(h.x.begin(), h.x.end(), [&](const PieceM & q) { return q.b == p.b; }) == 1)
          {
            whole.insert(p.b);
            int nb = bases[static_cast<size_t>(p.b)]->size();
            k.A.middleCols(start[static_cast<size_t>(p.b)], nb) = randM(r, k.m, nb);
            k.vars.push_back({p.b, 0, nb});
          }
          else
            k.vars.push_back(p);
        }
      int ny = static_cast<int>(r.range(0, t.c("maxy", 3)));
      for(int y = 0; y < ny; ++y)
      {
        int b = static_cast<int>(r.below(static_cast<int64_t>(bases.size())));
        bool taken = false;
        for(auto & q : k.vars)
          taken = taken || q.b == b;
        for(auto & q : h.x)
          taken = taken || q.b == b;
        if(taken)
          continue;
        int nb = bases[static_cast<size_t>(b)]->size();
        PieceM p{b, 0, nb};
        // hints must not overlap pieces the other hints substitute otherwise than by containing them
        if(nb > 1 && t.c("parts") && r.chance(20))
        {
          p.n = static_cast<int>(r.range(1, nb));
          p.s = static_cast<int>(r.below(nb - p.n + 1));
          bool ok = true;
          for(auto & g : hints)
            for(auto & q : g.x)
              if(q.b == b && q.s < p.s + p.n && p.s < q.s + q.n && !(p.s <= q.s && q.s + q.n <= p.s + p.n))
                ok = false;
          if(!ok)
            p = {b, 0, nb};
        }
        k.vars.push_back(p);
        k.A.middleCols(at(p), p.n) = randM(r, k.m, p.n);
      }
      fillRhs(k, r);
    }
    int propsKind = 0;
    if(h.diag)
    {
      auto & k = h.cs[0];
      int x0 = at(h.x[0]);
      k.A.middleCols(x0, h.n).setZero();
      propsKind = static_cast<int>(r.below(4)); // 0 identity, 1 minus identity, 2 diagonal, 3 multiple of identity
      double mul = num(r);
      if(std::abs(mul) < 0.3)
        mul = 1.25;
      std::vector<int> rowOf; // row of each diagonal element
      int row = 0;
      for(int i = 0; i < h.n; ++i)
      {
        bool nz = std::find(rows.begin(), rows.end(), i) != rows.end();
        bool z = std::find(zeros.begin(), zeros.end(), i) != zeros.end();
        if(nz)
        {
          double v = num(r);
          if(std::abs(v) < 0.3)
            v = -0.75;
          k.A(row, x0 + i) = propsKind == 0 ? 1. : propsKind == 1 ? -1. : propsKind == 2 ? v : mul;
        }
        if(nz || z)
          ++row;
      }
      h.rank = static_cast<int>(rows.size());
    }
    else
    {
      h.rank = std::min(h.m, h.n);
      bool deficient = h.m > 1 && r.chance(static_cast<int>(t.c("deficient", 25)));
      if(deficient)
        h.rank = static_cast<int>(r.range(1, h.m - 1));
      if(!fillX(h, r) || h.rank == 0)
        return;
    }
    // build
    for(auto & k : h.cs)
    {
      std::vector<tvm::MatrixConstRef> as;
      std::vector<Mat> keep;
      keep.reserve(k.vars.size());
      for(auto & p : k.vars)
      {
        k.v.push_back(part(p));
        keep.push_back(k.A.middleCols(at(p), p.n));
      }
      for(auto & a : keep)
        as.push_back(a);
      if(k.rhs == RHS::ZERO)
        k.c = std::make_shared<BasicLinearConstraint>(as, k.v, Type::EQUAL);
      else
        k.c = std::make_shared<BasicLinearConstraint>(as, k.v, Vec(k.rhs == RHS::OPPOSITE ? Vec(-k.b) : k.b), Type::EQUAL, k.rhs);
      k.varying.assign(k.v.size(), varying);
      bool xConst = !varying;
      for(size_t i = 0; i < k.v.size(); ++i)
      {
        if(h.diag && style == 7 && k.vars[i].b == h.x[0].b)
        {
          switch(propsKind)
          {
            case 0:
              k.c->A(keep[i], *k.v[i], {MatrixProperties::IDENTITY});
              xConst = true;
              k.varying[i] = false;
              break;
            case 1:
              k.c->A(keep[i], *k.v[i], {MatrixProperties::MINUS_IDENTITY});
              xConst = true;
              k.varying[i] = false;
              break;
            case 2:
              k.c->A(keep[i], *k.v[i], {MatrixProperties::DIAGONAL, MatrixProperties::Invertibility(true), MatrixProperties::Constness(!varying)});
              break;
            default:
              k.c->A(keep[i], *k.v[i],
                     {MatrixProperties::MULTIPLE_OF_IDENTITY, MatrixProperties::Invertibility(true), MatrixProperties::Constness(!varying)});
              break;
          }
        }
        else if(varying)
          k.c->A(keep[i], *k.v[i], {});
      }
      (void)xConst;
    }
    std::vector<tvm::LinearConstraintPtr> cs;
    for(auto & k : h.cs)
      cs.push_back(k.c);
    std::vector<VariablePtr> xs;
    for(auto & p : h.x)
      xs.push_back(part(p));
    int rank = h.rank;
    bool asDefault = h.rank == h.m && r.chance(70);
    if(asDefault)
      rank = tvm::constant::fullRank;
    int ctor = static_cast<int>(r.below(2));
    if(style == 8)
    {
      std::vector<Eigen::DenseIndex> nz(rows.begin(), rows.end()), z(zeros.begin(), zeros.end());
      bool contiguous = zeros.empty() && rows.back() - rows.front() + 1 == static_cast<int>(rows.size());
      if(contiguous && r.chance(60))
      {
        if(rows.back() + 1 == h.n && r.chance(50))
          h.h = std::make_unique<Substitution>(cs[0], xs[0], rank, DiagonalCalculator(rows.front()));
        else
          h.h = std::make_unique<Substitution>(cs[0], xs[0], rank, DiagonalCalculator(rows.front(), static_cast<int>(rows.size())));
      }
      else
      {
        std::reverse(nz.begin(), nz.end()); // any order
        h.h = std::make_unique<Substitution>(cs[0], xs[0], rank, DiagonalCalculator(nz, z));
      }
      c.count("probe.hint-diagonal-rows");
    }
    else if(style == 6)
      h.h = std::make_unique<Substitution>(cs, xs, rank, GenericCalculator());
    else if(cs.size() == 1 && xs.size() == 1 && ctor)
      h.h = std::make_unique<Substitution>(cs[0], xs[0], rank);
    else if(cs.size() == 1 && ctor)
      h.h = std::make_unique<Substitution>(cs[0], xs, rank);
    else if(xs.size() == 1 && ctor)
      h.h = std::make_unique<Substitution>(cs, xs[0], rank);
    else
      h.h = std::make_unique<Substitution>(cs, xs, rank);
    if(style == 7)
      c.count("probe.hint-diagonal");
    if(h.rank < h.m)
      c.count("probe.hint-rank-deficient");
    if(h.cs.size() > 60)
      c.count("probe.hint-of-many-constraints");
    for(auto & p : h.x)
      if(p.n < bases[static_cast<size_t>(p.b)]->size())
        c.count("probe.hint-on-part");
    subs->add(*h.h);
    hints.push_back(std::move(h));
    final = false;
    c.count("op.hint-add");
  }

  void removeHint(const Op & o)
  {
    if(hints.empty())
      return;
    size_t k = static_cast<size_t>(o.arg(0)) % hints.size();
    if(!hints[k].h)
    { // the user dropped his handle: take the copy
      auto s = subs->getSubstitutionFor(*hints[k].cs[0].c);
      c.check(s != nullptr, "hint-of-constraint", "no hint found for a constraint used by one");
      Substitution copy = *s;
      subs->remove(copy);
    }
    else
    {
      Substitution copy = *hints[k].h;
      if(o.arg(1) % 2)
        subs->remove(copy);
      else
        subs->remove(*hints[k].h);
      if(o.arg(1) % 5 == 4)
        subs->remove(copy); // no longer there: no effect
    }
    hints.erase(hints.begin() + static_cast<long>(k));
    final = false;
    c.count("op.hint-remove");
  }

  void change(const Op & o)
  {
    if(hints.empty())
      return;
    Rng r(static_cast<uint64_t>(o.arg(1)) * 104729u + 3);
    HintM & h = hints[static_cast<size_t>(o.arg(0)) % hints.size()];
    bool matrices = o.arg(2) % 2;
    std::vector<Mat> old;
    for(auto & k : h.cs)
      old.push_back(k.A);
    if(matrices)
    {
      bool xv = true;
      for(auto & k : h.cs)
        for(size_t i = 0; i < k.vars.size(); ++i)
          if(!k.varying[i])
            xv = xv && std::none_of(h.x.begin(), h.x.end(), [&](const PieceM & p) { return p.b == k.vars[i].b; });
      if(h.diag && xv)
      {
        double mul = 0.5 + static_cast<double>(r.below(100)) / 50.;
        h.cs[0].A.middleCols(at(h.x[0]), h.n) *= mul;
      }
      else if(xv && !fillX(h, r))
        for(size_t i = 0; i < h.cs.size(); ++i)
          h.cs[i].A = old[i];
      std::vector<bool> mine(static_cast<size_t>(N), false);
      for(auto & p : h.x)
        std::fill_n(mine.begin() + at(p), p.n, true);
      for(auto & k : h.cs)
        for(size_t i = 0; i < k.vars.size(); ++i)
        {
          if(!k.varying[i])
            continue;
          auto & p = k.vars[i];
          bool nul = r.chance(8);
          for(int j = at(p); j < at(p) + p.n; ++j)
            if(!mine[static_cast<size_t>(j)])
              k.A.col(j) = nul ? Mat(Mat::Zero(k.m, 1)) : randM(r, k.m, 1);
          MatrixProperties pr;
          auto j = k.c->jacobian(*k.v[i]);
          if(j.properties().isDiagonal())
            pr = j.properties();
          k.c->A(Mat(k.A.middleCols(at(p), p.n)), *k.v[i], pr);
        }
      c.count("op.change-matrices");
    }
    if(!matrices || r.chance(50))
    {
      for(auto & k : h.cs)
      {
        fillRhs(k, r);
        if(k.rhs != RHS::ZERO)
          k.c->b(k.rhs == RHS::OPPOSITE ? Vec(-k.b) : k.b);
      }
      c.count("op.change-rhs");
    }
  }

  void finalize(const Op & o)
  {
    int64_t fail = o.arg(0);
    if(fail > 0 && !final && t.c("alloc"))
    {
      heap::failAt(fail);
      bool thrown = false;
      try
      {
        subs->finalize();
      }
      catch(const std::bad_alloc &)
      {
        thrown = true;
      }
      bool fired = heap::fired();
      heap::failAt(0);
      c.check(fired == thrown, "allocation-failure-hidden", "finalize() and a failing allocation");
      if(fired)
        c.count("fault.alloc");
      final = !thrown;
      return;
    }
    subs->finalize();
    final = true;
  }

  /** interdependent hints, and the worst conditioning of what is eliminated together */
  bool judgeable(bool & mayRefuse)
  {
    size_t n = hints.size();
    std::vector<std::vector<bool>> reach(n, std::vector<bool>(n, false));
    for(size_t i = 0; i < n; ++i)
      for(size_t j = 0; j < n; ++j)
        for(auto & k : hints[i].cs)
          for(auto & p : k.vars)
            for(auto & x : hints[j].x)
              if(p.b == x.b && p.s < x.s + x.n && x.s < p.s + p.n)
                reach[i][j] = true;
    for(size_t k = 0; k < n; ++k)
      for(size_t i = 0; i < n; ++i)
        for(size_t j = 0; j < n; ++j)
          if(reach[i][k] && reach[k][j])
            reach[i][j] = true;
    mayRefuse = false;
    bool ok = true;
    int chain = 0;
    for(size_t i = 0; i < n; ++i)
    {
      std::vector<const HintM *> g{&hints[i]};
      bool def = hints[i].rank < hints[i].m;
      for(size_t j = 0; j < n; ++j)
      {
        if(j != i && reach[i][j] && reach[j][i])
        {
          g.push_back(&hints[j]);
          def = def || hints[j].rank < hints[j].m;
        }
        else if(j != i && reach[i][j])
          ++chain;
      }
      int m = 0;
      for(auto h : g)
        m += h->m;
      RankM k = rankOf(xMatrix(g));
      if(!k.clear)
        ok = false;
      if(g.size() > 1)
      {
        c.count("probe.interdependent-hints");
        if(def)
          mayRefuse = true;
        else if(k.rank != m)
          mayRefuse = true; // not independent
      }
    }
    if(chain)
      c.count("probe.chained-hints");
    return ok;
  }

  void setAll(Rng & r)
  {
    for(auto & b : bases)
    {
      Vec v(b->size());
      for(int i = 0; i < v.size(); ++i)
        v[i] = num(r);
      b->set(v);
    }
  }
  Vec get() const
  {
    Vec v(N);
    for(size_t i = 0; i < bases.size(); ++i)
      v.segment(start[i], bases[i]->size()) = bases[i]->value();
    return v;
  }
  /** columns of a variable of a result: components of bases, or an additional variable */
  bool columns(const tvm::Variable & v, const VariableVector & z, int & col)
  {
    if(z.totalSize() > 0 && z.contains(v))
    {
      col = N + v.getMappingIn(z).start;
      return true;
    }
    c.check(all.contains(v), "unknown-variable", fmt("variable %s is neither one of the problem nor an additional one", v.name().c_str()));
    col = v.getMappingIn(all).start;
    return false;
  }

  void judge(const Op & o)
  {
    Rng r(static_cast<uint64_t>(o.arg(0)) * 15485863u + 5);
    if(!final)
    {
      Op f;
      f.kind = FINALIZE;
      finalize(f);
    }
    bool mayRefuse = false;
    bool ok = judgeable(mayRefuse);
    try
    {
      subs->updateSubstitutions();
    }
    catch(const std::runtime_error & e)
    {
      c.check(!ok || mayRefuse, "valid-hints-refused", fmt("%zu hints: %s", hints.size(), e.what()));
      c.count("refused");
      return;
    }
    // ---- the original constraints
    std::vector<bool> X = substituted();
    int M = 0;
    for(auto & h : hints)
      M += h.m;
    Mat A = Mat::Zero(M, N);
    Vec b(M);
    int row = 0;
    for(auto & h : hints)
      for(auto & k : h.cs)
      {
        A.middleRows(row, k.m) = k.A;
        b.segment(row, k.m) = k.b;
        row += k.m;
        c.check(subs->uses(k.c), "hint-of-constraint", "a constraint used by a hint is not said to be used");
        auto s = subs->getSubstitutionFor(*k.c);
        c.check(s && std::find(s->constraints().begin(), s->constraints().end(), k.c) != s->constraints().end(), "hint-of-constraint",
                "the hint found for a constraint does not use it");
      }
    c.check(subs->substitutions().size() == hints.size(), "hints", fmt("%zu hints instead of %zu", subs->substitutions().size(), hints.size()));
    // ---- the substituted variables are those of the hints
    std::vector<bool> gotX(static_cast<size_t>(N), false);
    for(auto & v : subs->variables())
    {
      c.check(all.contains(*v), "unknown-variable", "a substituted variable is not one of the hints'");
      auto rg = v->getMappingIn(all);
      for(int i = rg.start; i < rg.end(); ++i)
      {
        c.check(!gotX[static_cast<size_t>(i)], "substituted-variables", fmt("component %d is substituted twice", i));
        gotX[static_cast<size_t>(i)] = true;
      }
    }
    c.check(gotX == X, "substituted-variables", "the substituted variables are not those of the hints");
    VariableVector z(subs->additionalVariables());
    int nz = z.totalSize();
    for(auto & v : z.variables())
      c.check(!all.contains(*v), "additional-variable", "an additional variable is one of the problem");
    // ---- x as a function of the others (through the data of the functions, checked against the values below)
    Mat F = Mat::Zero(N, N + nz);
    Vec f0 = Vec::Zero(N);
    c.check(subs->variableSubstitutions().size() == subs->variables().size(), "substituted-variables", "not one function per substituted variable");
    for(size_t i = 0; i < subs->variables().size(); ++i)
    {
      auto & fn = subs->variableSubstitutions()[i];
      auto rg = subs->variables()[i]->getMappingIn(all);
      c.check(fn->size() == rg.dim, "substituted-variables", "size of a function");
      for(auto & v : fn->variables())
      {
        int col;
        bool isZ = columns(*v, z, col);
        Mat j = fn->jacobian(*v);
        F.block(rg.start, col, rg.dim, v->size()) = j;
        if(!isZ)
          for(int q = col; q < col + v->size(); ++q)
            c.check(!X[static_cast<size_t>(q)], "substitution-not-resolved",
                    fmt("variable %s is expressed with a substituted one", subs->variables()[i]->name().c_str()));
        checkProps(fn->jacobian(*v).properties(), j, "matrix of a substitution");
      }
      f0.segment(rg.start, rg.dim) = fn->b();
      if(fn->b().properties().isZero())
        c.check(f0.segment(rg.start, rg.dim).isZero(0), "stale-property", "offset of a substitution said to be zero");
    }
    // ---- the remaining constraints
    int mr = 0;
    for(auto & k : subs->additionalConstraints())
      mr += k->size();
    Mat G = Mat::Zero(mr, N + nz);
    Vec g(mr);
    row = 0;
    for(auto & k : subs->additionalConstraints())
    {
      c.check(k->type() == Type::EQUAL, "additional-constraint", "not an equality");
      for(auto & v : k->variables())
      {
        int col;
        bool isZ = columns(*v, z, col);
        if(!isZ)
          for(int q = col; q < col + v->size(); ++q)
            c.check(!X[static_cast<size_t>(q)], "substitution-not-resolved", "a remaining constraint is expressed with a substituted variable");
        Mat j = k->jacobian(*v);
        G.block(row, col, k->size(), v->size()) = j;
        checkProps(k->jacobian(*v).properties(), j, "matrix of an additional constraint");
      }
      switch(k->rhs())
      {
        case RHS::ZERO:
          g.segment(row, k->size()).setZero();
          break;
        case RHS::AS_GIVEN:
          g.segment(row, k->size()) = k->e();
          break;
        case RHS::OPPOSITE:
          g.segment(row, k->size()) = -k->e();
          break;
      }
      row += k->size();
    }
    for(size_t i = 0; i < bases.size(); ++i)
      checkSubstitute(bases[i], X, z);
    // ---- values written by updateVariableValues
    setAll(r);
    Vec zv(nz);
    for(int i = 0; i < nz; ++i)
      zv[i] = num(r);
    if(nz)
      z.set(zv);
    Vec w(N + nz);
    Vec before = get();
    w << before, zv;
    for(int i = 0; i < N; ++i)
      if(X[static_cast<size_t>(i)])
        w[i] = 0;
    subs->updateVariableValues();
    Vec after = get();
    Vec pred = F * w + f0;
    bool finite = F.allFinite() && G.allFinite() && f0.allFinite() && g.allFinite();
    if(ok)
      c.check(finite, "non-finite-substitution", "a substitution with non finite coefficients");
    else if(!finite)
      return;
    double scale = 1 + F.cwiseAbs().maxCoeff() + (mr ? G.cwiseAbs().maxCoeff() : 0) + f0.cwiseAbs().maxCoeff();
    for(int i = 0; i < N; ++i)
    {
      double e = X[static_cast<size_t>(i)] ? pred[i] : before[i];
      c.check(std::abs(after[i] - e) <= 1e-9 * scale * N, "written-value", fmt("component %d is %.12g instead of %.12g", i, after[i], e));
    }
    // ---- the points they describe are those of the original constraints
    if(!ok || scale > 2e3)
    {
      c.count("skipped.ill-conditioned");
      return;
    }
    RankM ra = rankOf(A);
    std::vector<int> W; // free components of (y, z)
    for(int i = 0; i < N + nz; ++i)
      if(i >= N || !X[static_cast<size_t>(i)])
        W.push_back(i);
    Mat Gw(mr, static_cast<int>(W.size()));
    for(size_t j = 0; j < W.size(); ++j)
      Gw.col(static_cast<int>(j)) = G.col(W[j]);
    RankM rg = rankOf(Gw);
    if(!ra.clear || !rg.clear)
    {
      c.count("skipped.ill-conditioned");
      return;
    }
    Vec x0 = Vec::Zero(N), w0 = Vec::Zero(static_cast<int>(W.size()));
    double ea = 0, eg = 0;
    if(M > 0)
    {
      x0 = solve(A, b);
      ea = (A * x0 - b).norm() / (1 + b.norm());
    }
    if(mr > 0 && !W.empty())
    {
      w0 = solve(Gw, g);
      eg = (Gw * w0 - g).norm() / (1 + g.norm());
    }
    else if(mr > 0)
      eg = g.norm();
    bool feas = ea < 1e-7, infeas = ea > 1e-3;
    bool rfeas = eg < 1e-6, rinfeas = eg > 1e-5;
    if(!feas && !infeas)
    {
      c.count("skipped.ill-conditioned");
      return;
    }
    if(feas)
      c.check(!rinfeas, "points-lost", fmt("%zu hints: the constraints can be satisfied (%g) but what remains cannot (%g)", hints.size(), ea, eg));
    if(c.verbose)
      std::cout << "A|b\n" << A << "\n|" << b.transpose() << "\nF\n" << F << "\nG\n" << G << "\n|" << g.transpose() << "\n";
    if(infeas)
      c.check(!rfeas, "points-gained", fmt("%zu hints: the constraints cannot be satisfied (%g) but what remains can (%g)", hints.size(), ea, eg));
    if(infeas)
    {
      c.count("probe.infeasible-constraints");
      return;
    }
    int da = N - ra.rank, dg = static_cast<int>(W.size()) - rg.rank;
    c.check(da == dg, da > dg ? "points-lost" : "points-gained",
            fmt("%zu hints: the points form a space of dimension %d instead of %d (%d additional variables, %d remaining constraints)",
                hints.size(), dg, da, nz, mr));
    // points of the remaining problem satisfy the constraints
    Mat K;
    if(mr > 0 && !W.empty())
    {
      Eigen::JacobiSVD<Mat> svd(Gw, Eigen::ComputeFullV);
      K = svd.matrixV().rightCols(dg);
    }
    else
      K = Mat::Identity(static_cast<int>(W.size()), static_cast<int>(W.size()));
    for(int s = 0; s < 3; ++s)
    {
      Vec q(dg);
      for(int i = 0; i < dg; ++i)
        q[i] = num(r);
      Vec ww = w0 + (dg ? Vec(K * q) : Vec(Vec::Zero(w0.size())));
      // through the values, as a user gets them
      setAll(r);
      Vec full = Vec::Zero(N + nz);
      for(size_t j = 0; j < W.size(); ++j)
        full[W[j]] = ww[static_cast<int>(j)];
      for(size_t i = 0; i < bases.size(); ++i)
      {
        Vec v = bases[i]->value();
        for(int j = 0; j < v.size(); ++j)
          if(!X[static_cast<size_t>(start[i] + j)])
            v[j] = full[start[i] + j];
        bases[i]->set(v);
      }
      if(nz)
        z.set(Vec(full.tail(nz)));
      subs->updateVariableValues();
      Vec v = get();
      double res = M ? (A * v - b).cwiseAbs().maxCoeff() : 0;
      double sc = 1 + v.cwiseAbs().maxCoeff() * (M ? A.cwiseAbs().maxCoeff() : 1);
      c.check(res <= 1e-6 * scale * sc, "constraint-not-satisfied",
              fmt("%zu hints: the values written miss a constraint they were eliminated with by %g", hints.size(), res));
      for(auto & h : hints)
        for(auto & k : h.cs)
        { // as the constraint itself says
          (void)k;
        }
    }
    ++judged;
    c.count("nontrivial", hints.empty() ? 0 : 1);
    uint64_t sg = hints.size();
    for(auto & h : hints)
      sg = mix64(sg * 31 + static_cast<uint64_t>(h.m * 100 + h.n * 10 + h.rank) + static_cast<uint64_t>(h.cs.size() * 1000 + h.x.size() * 10000));
    c.sig(sg);
    c.log("judged", da);
    c.log("nz", nz);
    c.log("mr", mr);
  }
  void checkProps(const MatrixProperties & p, const Mat & a, const char * what)
  {
    if(p.isZero())
      c.check(a.isZero(0), "stale-property", fmt("%s said to be zero", what));
    if(p.isIdentity())
      c.check(a.isIdentity(1e-12), "stale-property", fmt("%s said to be the identity", what));
    if(p.isMinusIdentity())
      c.check((-a).isIdentity(1e-12), "stale-property", fmt("%s said to be minus the identity", what));
    if(p.isDiagonal() && !p.isZero())
      c.check(a.rows() == a.cols() && Mat(a - Mat(a.diagonal().asDiagonal())).isZero(1e-12), "stale-property", fmt("%s said to be diagonal", what));
  }
  /** the variables a variable is replaced by */
  void checkSubstitute(const VariablePtr & v, const std::vector<bool> & X, const VariableVector & z)
  {
    auto out = subs->substitute(v);
    auto rg = v->getMappingIn(all);
    std::vector<bool> need(static_cast<size_t>(N), false), needZ(static_cast<size_t>(z.totalSize()), false);
    for(int i = rg.start; i < rg.end(); ++i)
      need[static_cast<size_t>(i)] = !X[static_cast<size_t>(i)];
    for(size_t i = 0; i < subs->variables().size(); ++i)
      if(subs->variables()[i]->intersects(*v))
        for(auto & d : subs->variableSubstitutions()[i]->variables())
        {
          int col;
          if(columns(*d, z, col))
            std::fill_n(needZ.begin() + (col - N), d->size(), true);
          else
            std::fill_n(need.begin() + col, d->size(), true);
        }
    std::vector<bool> got(static_cast<size_t>(N), false), gotZ(needZ.size(), false);
    for(auto & d : out.variables())
    {
      int col;
      if(columns(*d, z, col))
        std::fill_n(gotZ.begin() + (col - N), d->size(), true);
      else
        std::fill_n(got.begin() + col, d->size(), true);
    }
    c.check(got == need && gotZ == needZ, "replaced-by", fmt("the variables replacing %s are not those of the functions", v->name().c_str()));
  }

  void drop(const Op & o)
  {
    if(hints.empty())
      return;
    // the user forgets his handle; the constraints are kept alive by the set
    hints[static_cast<size_t>(o.arg(0)) % hints.size()].h.reset();
    c.count("op.drop-handle");
  }
  void step(const Op & o)
  {
    switch(o.kind)
    {
      case HINT:
        addHint(o);
        break;
      case UNHINT:
        removeHint(o);
        break;
      case CHANGE:
        change(o);
        break;
      case FINALIZE:
        finalize(o);
        break;
      case JUDGE:
        judge(o);
        break;
      case DROP:
        drop(o);
        break;
    }
  }
};

void generate(Rng & r, Trace & t, bool thorough)
{
  int nb = static_cast<int>(r.range(2, 7));
  t.cfg["bases"] = nb;
  int maxs = static_cast<int>(r.range(1, 5));
  for(int i = 0; i < nb; ++i)
    t.cfg[fmt("size%d", i)] = r.range(1, maxs);
  bool many = r.chance(2);
  if(many)
    t.cfg["size0"] = r.range(66, 72);
  t.cfg["parts"] = r.chance(50);
  t.cfg["maxy"] = r.range(0, 4);
  t.cfg["deficient"] = r.chance(40) ? 0 : r.range(10, 60);
  t.cfg["alloc"] = r.chance(30);
  t.cfg["heap"] = r.below(4);
  t.seed = r.next();
  int n = static_cast<int>(r.range(6, thorough ? 60 : 30));
  int wh = static_cast<int>(r.range(15, 40)), wr = static_cast<int>(r.range(3, 25)), wc = static_cast<int>(r.range(5, 40)),
      wj = static_cast<int>(r.range(15, 40)), wf = t.cfg["alloc"] ? 12 : 4;
  int general = static_cast<int>(r.below(3));
  for(int i = 0; i < n; ++i)
  {
    Op o;
    int64_t w = r.below(wh + wr + wc + wj + wf + 3);
    if(w < wh)
    {
      o.kind = HINT;
      int style = static_cast<int>(r.below(9));
      if(general == 1)
        style = static_cast<int>(r.below(7));
      if(general == 2 && r.chance(50))
        style = static_cast<int>(r.range(7, 8));
      if(many && r.chance(60))
        style = 9;
      o.a = {r.big(), style, r.below(3)};
    }
    else if((w -= wh) < wr)
    {
      o.kind = UNHINT;
      o.a = {r.below(8), r.below(5)};
    }
    else if((w -= wr) < wc)
    {
      o.kind = CHANGE;
      o.a = {r.below(8), r.big(), r.below(2)};
    }
    else if((w -= wc) < wj)
    {
      o.kind = JUDGE;
      o.a = {r.big()};
    }
    else if((w -= wj) < wf)
    {
      o.kind = FINALIZE;
      o.a = {r.chance(70) ? r.range(1, r.chance(50) ? 40 : 400) : 0};
    }
    else
    {
      o.kind = DROP;
      o.a = {r.below(8)};
    }
    t.ops.push_back(o);
  }
  Op o;
  o.kind = JUDGE;
  o.a = {r.big()};
  t.ops.push_back(o);
}

void execute(const Trace & t, Ctx & c)
{
  heap::begin(static_cast<int>(t.c("heap")), t.seed);
  {
    SWorld w(t, c);
    for(size_t i = 0; i < t.ops.size(); ++i)
    {
      c.sh->opIndex = static_cast<int>(i);
      w.step(t.ops[i]);
    }
  }
  heap::end();
}

WorldReg reg({"substitutions", generate, execute, kinds,
              "tvm::hint::internal::Substitutions, SubstitutionUnit, tvm::hint::Substitution, the generic, diagonal and automatic "
              "calculators, BasicLinearConstraint, BasicLinearFunction, DependencyGraph, variables (real code)",
              "the heap (simulated: placement, reuse and failures decided by the seed)",
              "a run is a seeded history of hints added, removed and renewed while their constraints change; non-trivial when the "
              "points described with at least one hint were compared with those of the original constraints",
              "distinct sets of hints (sizes, ranks, numbers of constraints and variables) judged"});
PropReg preg({"C03", "substitutions", 40000, 600000});
} // namespace
