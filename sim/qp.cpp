#include <sstream>
#include <cstdlib>
#include "qp.h"
#include "core.h"
#include <Eigen/Dense>

namespace sim::num
{
Hub & hub()
{
  static Hub h;
  return h;
}

static QPResult gi(const Mat & H, const Vec & c, const Mat & G, const Vec & h)
{ // min 1/2 y'Hy + c'y s.t. G y >= h (rows normalised), H positive definite. Goldfarb-Idnani, dense, recomputed.
  QPResult R;
  const int n = static_cast<int>(H.rows()), m = static_cast<int>(G.rows());
  if(n == 0)
  {
    R.x = Vec(0);
    R.ok = true;
    for(int i = 0; i < m; ++i)
      if(h(i) > 1e-7)
        R.ok = false, R.infeasible = true;
    return R;
  }
  Eigen::LLT<Mat> llt(H);
  Vec x = llt.solve(-c);
  std::vector<int> act;
  Vec lam(0);
  for(int iter = 0; iter < 2000; ++iter)
  {
    // most violated
    int p = -1;
    double worst = 0;
    for(int i = 0; i < m; ++i)
    {
      bool in = false;
      for(int a : act)
        in |= (a == i);
      if(in)
        continue;
      double s = G.row(i).dot(x) - h(i);
      double tol = 1e-10 * (1 + std::abs(h(i)) + x.norm());
      if(s < -tol && s < worst)
      {
        worst = s;
        p = i;
      }
    }
    if(p < 0)
    {
      R.ok = true;
      R.x = x;
      // nearly dependent constraints can leave active ones violated: there is no feasible point then
      for(int i = 0; i < m; ++i)
        if(G.row(i).dot(x) - h(i) < -1e-6 * (1 + std::abs(h(i)) + x.norm()))
        {
          R.ok = false;
          R.infeasible = true;
        }
      return R;
    }
    double lp = 0;
    for(int inner = 0; inner < 2000; ++inner)
    {
      const int k = static_cast<int>(act.size());
      Vec np = G.row(p).transpose();
      Vec hn = llt.solve(np);
      Vec z = hn, r(k);
      if(k > 0)
      {
        Mat N(n, k);
        for(int j = 0; j < k; ++j)
          N.col(j) = G.row(act[static_cast<size_t>(j)]).transpose();
        Mat HN = llt.solve(N);
        Mat S = N.transpose() * HN;
        r = S.ldlt().solve(HN.transpose() * np);
        z = hn - HN * r;
      }
      double t1 = std::numeric_limits<double>::infinity();
      int drop = -1;
      for(int j = 0; j < k; ++j)
        if(r(j) > 1e-14 && lam(j) / r(j) < t1)
        {
          t1 = lam(j) / r(j);
          drop = j;
        }
      double nz = np.dot(z);
      double t2 = nz > 1e-10 * np.dot(hn) ? (h(p) - np.dot(x)) / nz : std::numeric_limits<double>::infinity();
      double t = std::min(t1, t2);
      if(!std::isfinite(t))
      {
        R.infeasible = true;
        R.x = x;
        return R;
      }
      if(std::isfinite(t2))
        x += t * z;
      for(int j = 0; j < k; ++j)
        lam(j) -= t * r(j);
      lp += t;
      if(t == t2)
      {
        act.push_back(p);
        Vec l2(k + 1);
        l2.head(k) = lam;
        l2(k) = lp;
        lam = l2;
        break;
      }
      Vec l2(k - 1);
      for(int j = 0, q = 0; j < k; ++j)
        if(j != drop)
          l2(q++) = lam(j);
      lam = l2;
      act.erase(act.begin() + drop);
    }
  }
  R.x = x;
  return R;
}

QPResult solveQP(const Mat & H,
                 const Vec & c,
                 const Mat & Aeq_,
                 const Vec & beq_,
                 const Mat & A,
                 const Vec & l,
                 const Vec & u,
                 const Vec & xl,
                 const Vec & xu,
                 double big)
{
  const int n = static_cast<int>(H.rows());
  QPResult R;
  R.x = Vec::Zero(n);
  if(!(H.allFinite() && c.allFinite() && Aeq_.allFinite() && beq_.allFinite() && A.allFinite()))
    return R;
  if(n == 0)
  { // nothing to decide
    for(int i = 0; i < Aeq_.rows(); ++i)
      R.infeasible |= std::abs(beq_(i)) > 1e-6;
    for(int i = 0; i < A.rows(); ++i)
      R.infeasible |= l(i) > 1e-6 || u(i) < -1e-6;
    R.ok = !R.infeasible;
    return R;
  }
  // equalities, including l==u rows
  std::vector<Vec> er;
  std::vector<double> eb;
  for(int i = 0; i < Aeq_.rows(); ++i)
    er.push_back(Aeq_.row(i).transpose()), eb.push_back(beq_(i));
  std::vector<Vec> gr;
  std::vector<double> gh;
  for(int i = 0; i < A.rows(); ++i)
  {
    if(l(i) == u(i) && std::abs(l(i)) < big)
      er.push_back(A.row(i).transpose()), eb.push_back(l(i));
    else
    {
      if(l(i) > -big)
        gr.push_back(A.row(i).transpose()), gh.push_back(l(i));
      if(u(i) < big)
        gr.push_back(-A.row(i).transpose()), gh.push_back(-u(i));
    }
  }
  for(int i = 0; i < n && xl.size() == n; ++i)
  {
    if(xl(i) == xu(i) && std::abs(xl(i)) < big)
      er.push_back(Vec::Unit(n, i)), eb.push_back(xl(i));
    else
    {
      if(xl(i) > -big)
        gr.push_back(Vec::Unit(n, i)), gh.push_back(xl(i));
      if(xu(i) < big)
        gr.push_back(-Vec::Unit(n, i)), gh.push_back(-xu(i));
    }
  }
  Vec x0 = Vec::Zero(n);
  Mat Z = Mat::Identity(n, n);
  if(!er.empty())
  {
    Mat E(er.size(), n);
    Vec b(er.size());
    for(size_t i = 0; i < er.size(); ++i)
    {
      double s = std::max(er[i].norm(), 1e-12);
      E.row(static_cast<int>(i)) = er[i].transpose() / s;
      b(static_cast<int>(i)) = eb[i] / s;
    }
    Eigen::CompleteOrthogonalDecomposition<Mat> cod;
    cod.setThreshold(1e-9);
    cod.compute(E);
    x0 = cod.solve(b);
    if((E * x0 - b).norm() > 1e-7 * (1 + b.norm()))
    {
      R.infeasible = true;
      return R;
    }
    Eigen::ColPivHouseholderQR<Mat> qr;
    qr.setThreshold(1e-9);
    qr.compute(E.transpose());
    Mat Q = qr.householderQ();
    int r = static_cast<int>(qr.rank());
    Z = Q.rightCols(n - r);
  }
  const int m = static_cast<int>(Z.cols());
  Mat Hr = Z.transpose() * H * Z;
  double sc = std::max(1e-3, m ? Hr.diagonal().cwiseAbs().maxCoeff() : 1.);
  Hr = 0.5 * (Hr + Hr.transpose()).eval();
  Hr += 1e-11 * sc * Mat::Identity(m, m);
  Vec cr = Z.transpose() * (c + H * x0);
  std::vector<int> keep;
  Mat G(gr.size(), m);
  Vec h(gr.size());
  int q = 0;
  for(size_t i = 0; i < gr.size(); ++i)
  {
    double full = std::max(gr[i].norm(), 1e-12);
    Vec g = Z.transpose() * gr[i] / full;
    double hh = (gh[i] - gr[i].dot(x0)) / full;
    double s = g.norm();
    if(s < 1e-9)
    {
      if(hh > 1e-7 * (1 + std::abs(gh[i])))
      {
        R.infeasible = true;
        return R;
      }
      continue;
    }
    G.row(q) = g.transpose() / s;
    h(q++) = hh / s;
  }
  QPResult r = gi(Hr, cr, G.topRows(q), h.head(q));
  r.x = (x0 + Z * r.x).eval();
  return r;
}

QPResult solveLex(int n, const Vec & xl, const Vec & xu, const std::vector<Block> & levels, double big)
{
  std::vector<Block> done;
  QPResult last;
  last.ok = true;
  last.x = Vec::Zero(n);
  for(size_t k = 0; k < levels.size(); ++k)
  {
    Block b = levels[k];
    // rows that only hold the round-off of a substitution ask for nothing
    for(int i = 0; n > 0 && i < b.A.rows(); ++i)
      if(b.A.row(i).norm() < 1e-10 * std::max(1., b.A.cwiseAbs().maxCoeff()))
      {
        b.A.row(i).setZero();
        b.l(i) = -2 * big;
        b.u(i) = 2 * big;
      }
    const int mk = static_cast<int>(b.A.rows());
    int md = 0;
    for(auto & d : done)
      md += static_cast<int>(d.A.rows());
    if(getenv("SIM_DUMPLEX"))
    {
      static Eigen::IOFormat f(12, 0, " ", "; ", "", "", "[", "]");
      std::ostringstream ss;
      ss << "level " << k << " A " << b.A.format(f) << " l " << b.l.transpose() << " u " << b.u.transpose() << " xl " << xl.transpose() << " xu " << xu.transpose() << " x " << last.x.transpose() << "\n";
      fputs(ss.str().c_str(), stderr);
    }
    if(k == 0 && n > 0)
    { // the first level can often be fulfilled exactly
      QPResult q = solveQP(Mat::Identity(n, n), Vec::Zero(n), Mat(0, n), Vec(0), b.A, b.l, b.u, xl, xu, big);
      if(q.ok && q.x.norm() < 1e6)
      {
        last.x = q.x;
        done.push_back(b);
        continue;
      }
    }
    Mat A = Mat::Zero(md + mk, n + mk);
    Vec l(md + mk), u(md + mk);
    int r = 0;
    for(auto & d : done)
    {
      A.block(r, 0, d.A.rows(), n) = d.A;
      l.segment(r, d.A.rows()) = d.l;
      u.segment(r, d.A.rows()) = d.u;
      r += static_cast<int>(d.A.rows());
    }
    // the regularisation below is meant for data of magnitude 1
    double scale = mk && n > 0 ? b.A.cwiseAbs().maxCoeff() : 1;
    if(!(scale > 1e-12))
      scale = 1;
    A.block(r, 0, mk, n) = b.A / scale;
    A.block(r, n, mk, mk).setIdentity();
    for(int i = 0; i < mk; ++i)
    {
      l(r + i) = std::abs(b.l(i)) < big ? b.l(i) / scale : b.l(i);
      u(r + i) = std::abs(b.u(i)) < big ? b.u(i) / scale : b.u(i);
    }
    Mat H = Mat::Zero(n + mk, n + mk);
    H.bottomRightCorner(mk, mk).setIdentity();
    H.topLeftCorner(n, n).diagonal().array() += 1e-10;
    Vec XL = Vec::Constant(n + mk, -2 * big), XU = Vec::Constant(n + mk, 2 * big);
    if(xl.size() == n)
    {
      XL.head(n) = xl;
      XU.head(n) = xu;
    }
    QPResult q = solveQP(H, Vec::Zero(n + mk), Mat(0, n + mk), Vec(0), A, l, u, XL, XU, big);
    // What earlier levels froze may be at a vertex of what they have to respect: then it can only be kept up to
    // rounding. Work around the point they left, which fulfils all of it by definition, and if that is not enough
    // approach the solution by steps of a better conditioned problem.
    auto strays = [&](const QPResult & res) {
      for(int i = 0; i < r && res.ok; ++i)
        if(std::max(l(i) - A.row(i).dot(res.x), A.row(i).dot(res.x) - u(i)) > 1e-8 * (1 + A.row(i).norm()))
          return true;
      for(int i = 0; i < n && res.ok; ++i)
        if(std::max(XL(i) - res.x(i), res.x(i) - XU(i)) > 1e-8 * (1 + std::abs(res.x(i))))
          return true;
      return false;
    };
    const QPResult first = q;
    for(int attempt = 0; (!q.ok || strays(q)) && k > 0 && attempt < 4; ++attempt)
    {
      const double reg = attempt < 2 ? 1e-6 : 1e-4, rel = attempt % 2 ? 1e-9 : 1e-11;
      Vec at = last.x;
      H.topLeftCorner(n, n).diagonal().setConstant(reg);
      for(int step = 0; step < 20; ++step)
      {
        Vec z0 = Vec::Zero(n + mk);
        z0.head(n) = at;
        Vec l2 = l, u2 = u, xl2 = XL, xu2 = XU;
        Vec a0 = A * z0;
        for(int i = 0; i < l2.size(); ++i)
        {
          if(std::abs(l2(i)) < big)
            l2(i) -= a0(i);
          if(std::abs(u2(i)) < big)
            u2(i) -= a0(i);
          if(i < r)
          {
            const double tol = rel * A.row(i).head(n).norm();
            l2(i) = std::min(l2(i), -tol);
            u2(i) = std::max(u2(i), tol);
          }
        }
        for(int i = 0; i < n; ++i)
        {
          const double tol = rel;
          if(std::abs(xl2(i)) < big)
            xl2(i) = std::min(xl2(i) - z0(i), -tol);
          if(std::abs(xu2(i)) < big)
            xu2(i) = std::max(xu2(i) - z0(i), tol);
        }
        QPResult q2 = solveQP(H, Vec::Zero(n + mk), Mat(0, n + mk), Vec(0), A, l2, u2, xl2, xu2, big);
        if(!q2.ok)
        {
          q.ok = false;
          break;
        }
        q = q2;
        q.x.head(n) += at;
        const bool there = (q.x.head(n) - at).norm() < 1e-10 * (1 + at.norm());
        at = q.x.head(n);
        if(there)
          break;
      }
    }
    if((!q.ok || strays(q)) && k > 0 && hub().settle)
    { // leave this level where the earlier ones put it
      q.ok = true;
      q.x = Vec::Zero(n + mk);
      q.x.head(n) = last.x;
      for(int i = 0; i < mk; ++i)
      {
        const double v = A.row(r + i).head(n).dot(last.x);
        q.x(n + i) = std::max(l(r + i) - v, 0.) + std::min(u(r + i) - v, 0.);
      }
    }
    if(!q.ok)
      q = first;
    if(!q.ok)
    {
      q.x = q.x.head(n).eval();
      return q;
    }
    Vec w = q.x.tail(mk);
    last.x = q.x.head(n);
    Block d = b;
    for(int i = 0; i < mk; ++i)
    {
      if(b.l(i) == b.u(i) || std::abs(w(i)) * scale > 1e-7)
      {
        double v = b.A.row(i).dot(last.x);
        d.l(i) = d.u(i) = v;
        if(b.l(i) != b.u(i))
        { // violated inequality: may not get worse
          d.l(i) = std::min(b.l(i), v);
          d.u(i) = std::max(b.u(i), v);
        }
      }
    }
    done.push_back(d);
  }
  if(getenv("SIM_DUMPLEX"))
  {
    std::ostringstream ss;
    ss << "lexresult " << last.x.transpose() << "\n";
    fputs(ss.str().c_str(), stderr);
  }
  last.ok = true;
  return last;
}

StubScope::StubScope() : was(Eigen::internal::is_malloc_allowed()), before(heap::eigenAllocCount())
{
  static_cast<void>(heap::NoFault::enter());
  Eigen::internal::set_is_malloc_allowed(true);
}
StubScope::~StubScope()
{
  Eigen::internal::set_is_malloc_allowed(was);
  hub().eigenAllocs += heap::eigenAllocCount() - before;
  heap::NoFault::leave();
}
void wiringError(const std::string & m) { throw Violation{"solver-wiring", m}; }
void onConstruct()
{
  ++hub().created;
  if(hub().constructFail > 0 && --hub().constructFail == 0)
    throw std::runtime_error("simulated: the numerical solver cannot be created");
}

bool serve(Call & c, Vec & result)
{
  Hub & h = hub();
  c.outcome = h.next;
  h.next = OK;
  if(c.outcome == OK)
  {
    QPResult r = c.hierarchical ? solveLex(c.n, c.hasBounds ? c.xl : Vec(), c.hasBounds ? c.xu : Vec(), c.levels)
                                : solveQP(c.H, c.c, c.Aeq, c.beq, c.rows.A, c.rows.l, c.rows.u, c.xl, c.xu);
    c.ok = r.ok;
    c.x = r.x;
    result = r.x;
  }
  else
  {
    c.ok = false;
    c.x = Vec::Constant(c.n, c.outcome == FAILNAN ? std::numeric_limits<double>::quiet_NaN() : 0.);
    if(c.outcome == FAIL)
      for(int i = 0; i < c.n; ++i)
        c.x(i) = 1000 + i;
    result = c.x;
  }
  bool ok = c.ok;
  int out = c.outcome;
  if(h.record)
    h.calls.push_back(c);
  if(out == THROW)
    throw std::runtime_error("simulated: the numerical solver ran out of memory");
  return ok;
}
} // namespace sim::num
