// World "graph" (C07): update plans over random dependency graphs, rewired, re-planned and executed, updates that throw.
// World "depgraph" (C07): the ordering structure under histories of node/edge additions and removals.
// World "graphlog" (C18): what the process-wide log and the probe say about live plans.
#include "core.h"
#include <algorithm>
#include <iostream>
#include <memory>
#include <queue>
#include <tvm/diagnostic/GraphProbe.h>
#include <tvm/graph/CallGraph.h>
#include <tvm/graph/abstract/Node.h>
#include <tvm/graph/abstract/OutputSelector.h>
#include <tvm/graph/internal/Logger.h>
#include <sstream>
#include <tvm/LinearizedControlProblem.h>
#include <tvm/Task.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/task_dynamics/Constant.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/task_dynamics/Proportional.h>
#include <tvm/task_dynamics/ProportionalDerivative.h>

using namespace sim;
namespace
{
using tvm::graph::CallGraph;
using tvm::graph::internal::Inputs;
struct UserError
{
};
struct GWorld;
constexpr int NO = 5, NU = 5, ND = 9;
// update (node,u) computes val[u]; output o combines the values of its updates, or mirrors another output
struct Dep
{
  int node, id;
};
struct NodeModel
{
  std::vector<Dep> outUp[NO]; // output -> own updates (id)
  int direct[NO][2]; // output -> (node,output), -1 none
  std::vector<int> internal[NU];
  std::vector<Dep> input[NU]; // (node, output)
  bool alive = false;
  bool dyn = false;
  bool disabled[NO] = {};
};

class BaseNode : public tvm::graph::abstract::Node<BaseNode>
{
public:
  SET_OUTPUTS(BaseNode, O0, O1, O2)
  SET_UPDATES(BaseNode, U0, U1, U2)
  BaseNode(GWorld * w, int id) : w(w), id(id)
  { registerUpdates(Update::U0, &BaseNode::u0, Update::U1, &BaseNode::u1, Update::U2, &BaseNode::u2); }
  void u0() { run(0); }
  void u1() { run(1); }
  void u2() { run(2); }
  void run(int u);
  uint64_t out(int o) const;
  Eigen::VectorXd value(int o) const
  {
    Eigen::VectorXd v(1);
    v << static_cast<double>(out(o) % 100003);
    return v;
  }
  Eigen::VectorXd v0() const { return value(0); }
  Eigen::VectorXd v1() const { return value(1); }
  Eigen::VectorXd v2() const { return value(2); }
  GWorld * w;
  int id;
  uint64_t source = 0;
  uint64_t val[NU] = {};
};
// a class extending another one: more outputs and updates, outputs that can be disabled
class ExtNode : public tvm::graph::abstract::OutputSelector<ExtNode, BaseNode>
{
public:
  SET_OUTPUTS(ExtNode, O3, O4)
  SET_UPDATES(ExtNode, U3, U4)
  using Base = tvm::graph::abstract::OutputSelector<ExtNode, BaseNode>;
  ExtNode(GWorld * w, int id) : Base(w, id)
  { registerUpdates(Update::U3, &ExtNode::u3, Update::U4, &ExtNode::u4); }
  void u3() { run(3); }
  void u4() { run(4); }
  Eigen::VectorXd v3() const { return value(3); }
  Eigen::VectorXd v4() const { return value(4); }
  void dis(int o)
  {
    if(o < 3)
      disableOutput(static_cast<BaseNode::Output_>(o));
    else
      disableOutput(static_cast<ExtNode::Output_>(o));
  }
  void ena(int o)
  {
    if(o < 3)
      enableOutput(static_cast<BaseNode::Output_>(o));
    else
      enableOutput(static_cast<ExtNode::Output_>(o));
  }
  // open the declaration interface to the harness
  void declOut(int o, int u)
  {
    if(o < 3 && u < 3)
      this->template addOutputDependency<ExtNode>(static_cast<BaseNode::Output_>(o), static_cast<BaseNode::Update_>(u));
    else if(o < 3)
      this->template addOutputDependency<ExtNode>(static_cast<BaseNode::Output_>(o), static_cast<ExtNode::Update_>(u));
    else if(u < 3)
      this->template addOutputDependency<ExtNode>(static_cast<ExtNode::Output_>(o), static_cast<BaseNode::Update_>(u));
    else
      this->template addOutputDependency<ExtNode>(static_cast<ExtNode::Output_>(o), static_cast<ExtNode::Update_>(u));
  }
  void declInt(int a, int b)
  {
    if(a < 3 && b < 3)
      this->template addInternalDependency<ExtNode>(static_cast<BaseNode::Update_>(a), static_cast<BaseNode::Update_>(b));
    else if(a < 3)
      this->template addInternalDependency<ExtNode>(static_cast<BaseNode::Update_>(a), static_cast<ExtNode::Update_>(b));
    else if(b < 3)
      this->template addInternalDependency<ExtNode>(static_cast<ExtNode::Update_>(a), static_cast<BaseNode::Update_>(b));
    else
      this->template addInternalDependency<ExtNode>(static_cast<ExtNode::Update_>(a), static_cast<ExtNode::Update_>(b));
  }
  template<typename EU, typename EO>
  void declInM(EU u, const std::shared_ptr<ExtNode> & s, EO o, int o2, bool byRef)
  {
    if(byRef)
      o2 < 3 ? this->template addInputDependency<ExtNode>(u, *s, o, static_cast<BaseNode::Output_>(o2))
             : this->template addInputDependency<ExtNode>(u, *s, o, static_cast<ExtNode::Output_>(o2));
    else
      o2 < 3 ? this->template addInputDependency<ExtNode>(u, s, o, static_cast<BaseNode::Output_>(o2))
             : this->template addInputDependency<ExtNode>(u, s, o, static_cast<ExtNode::Output_>(o2));
  }
  template<typename EU>
  void declInS(EU u, const std::shared_ptr<ExtNode> & s, int o, bool byRef, int o2)
  {
    if(o2 >= 0) // several outputs at once
      o < 3 ? declInM(u, s, static_cast<BaseNode::Output_>(o), o2, byRef)
            : declInM(u, s, static_cast<ExtNode::Output_>(o), o2, byRef);
    else if(byRef)
      o < 3 ? this->template addInputDependency<ExtNode>(u, *s, static_cast<BaseNode::Output_>(o))
            : this->template addInputDependency<ExtNode>(u, *s, static_cast<ExtNode::Output_>(o));
    else
      o < 3 ? this->template addInputDependency<ExtNode>(u, s, static_cast<BaseNode::Output_>(o))
            : this->template addInputDependency<ExtNode>(u, s, static_cast<ExtNode::Output_>(o));
  }
  void declIn(int u, const std::shared_ptr<ExtNode> & s, int o, bool byRef, int o2)
  {
    if(u < 3)
      declInS(static_cast<BaseNode::Update_>(u), s, o, byRef, o2);
    else
      declInS(static_cast<ExtNode::Update_>(u), s, o, byRef, o2);
  }
  template<typename EO>
  void declDirS(EO o, const std::shared_ptr<ExtNode> & s, int i, bool byRef)
  {
    if(byRef)
      i < 3 ? this->template addDirectDependency<ExtNode>(o, *s, static_cast<BaseNode::Output_>(i))
            : this->template addDirectDependency<ExtNode>(o, *s, static_cast<ExtNode::Output_>(i));
    else
      i < 3 ? this->template addDirectDependency<ExtNode>(o, s, static_cast<BaseNode::Output_>(i))
            : this->template addDirectDependency<ExtNode>(o, s, static_cast<ExtNode::Output_>(i));
  }
  void declDir(int o, const std::shared_ptr<ExtNode> & s, int i, bool byRef)
  {
    if(o < 3)
      declDirS(static_cast<BaseNode::Output_>(o), s, i, byRef);
    else
      declDirS(static_cast<ExtNode::Output_>(o), s, i, byRef);
  }
};
using NodeP = std::shared_ptr<ExtNode>;

struct GWorld
{
  Ctx & c;
  static constexpr int NI = 3, NP = 2;
  std::vector<NodeP> node; // user handles (may be dropped)
  std::vector<std::weak_ptr<ExtNode>> weak;
  std::vector<NodeModel> m;
  struct InM
  {
    std::shared_ptr<Inputs> in;
    std::set<std::pair<int, int>> req; // (node, output)
    std::set<int> held; // nodes given as shared pointers
    std::set<int> sole; // nodes that nothing else keeps alive
  };
  InM in[NI];
  struct PlanM
  {
    std::unique_ptr<CallGraph> g;
    std::vector<int> uses; // inputs objects
    std::set<std::pair<int, int>> need; // requested outputs when it was built
    bool stale = true; // must be rebuilt before it is executed
    std::set<std::pair<int, int>> calls; // what it has to run
    bool cyclic = false;
    bool built = false;
  };
  PlanM plan[NP];
  std::vector<std::pair<int, int>> order; // updates executed
  int throwAt = 0;

  explicit GWorld(Ctx & c) : c(c) {}
  ExtNode * raw(int n) { return weak[(size_t)n].lock().get(); }
  // --- model
  void closureOut(int n, int o, std::set<std::pair<int, int>> & calls, std::set<std::pair<int, int>> & outs)
  {
    if(!outs.insert({n, o}).second)
      return;
    auto & M = m[(size_t)n];
    if(!M.outUp[o].empty())
      for(auto & d : M.outUp[o])
        closureCall(n, d.id, calls, outs);
    else if(M.direct[o][0] >= 0)
      closureOut(M.direct[o][0], M.direct[o][1], calls, outs);
  }
  void closureCall(int n, int u, std::set<std::pair<int, int>> & calls, std::set<std::pair<int, int>> & outs)
  {
    if(!calls.insert({n, u}).second)
      return;
    auto & M = m[(size_t)n];
    for(int v : M.internal[u])
      closureCall(n, v, calls, outs);
    for(auto & d : M.input[u])
      closureOut(d.node, d.id, calls, outs);
  }
  // the updates an output stands for
  void updatesOf(int n, int o, std::set<std::pair<int, int>> & r, int depth = 0)
  {
    auto & M = m[(size_t)n];
    if(!M.outUp[o].empty())
      for(auto & d : M.outUp[o])
        r.insert({n, d.id});
    else if(M.direct[o][0] >= 0 && depth < 64)
      updatesOf(M.direct[o][0], M.direct[o][1], r, depth + 1);
  }
  std::set<std::pair<int, int>> depsOf(int n, int u)
  {
    std::set<std::pair<int, int>> r;
    for(int v : m[(size_t)n].internal[u])
      r.insert({n, v});
    for(auto & d : m[(size_t)n].input[u])
      updatesOf(d.node, d.id, r);
    return r;
  }
  bool hasCycle(const std::set<std::pair<int, int>> & calls)
  {
    std::map<std::pair<int, int>, int> st;
    std::function<bool(std::pair<int, int>)> dfs = [&](std::pair<int, int> k) {
      int & s = st[k];
      if(s == 1)
        return true;
      if(s == 2)
        return false;
      s = 1;
      for(auto & d : depsOf(k.first, k.second))
        if(dfs(d))
          return true;
      st[k] = 2;
      return false;
    };
    for(auto & k : calls)
      if(dfs(k))
        return true;
    return false;
  }
  // values computed directly from the current sources
  uint64_t refUpdate(int n, int u, std::map<std::pair<int, int>, uint64_t> & memo)
  {
    auto it = memo.find({n, u});
    if(it != memo.end())
      return it->second;
    uint64_t h = mix64((uint64_t)(n * 16 + u) ^ 0x55) + raw(n)->source * 31;
    for(int v : m[(size_t)n].internal[u])
      h += mix64(refUpdate(n, v, memo) ^ 0x1234);
    for(auto & d : m[(size_t)n].input[u])
      h += mix64(refOut(d.node, d.id, memo) ^ 0x9876);
    return memo[{n, u}] = h;
  }
  uint64_t refOut(int n, int o, std::map<std::pair<int, int>, uint64_t> & memo)
  {
    auto & M = m[(size_t)n];
    uint64_t h = mix64((uint64_t)o) + raw(n)->source;
    if(!M.outUp[o].empty())
      for(auto & d : M.outUp[o])
        h += mix64(refUpdate(n, d.id, memo));
    else if(M.direct[o][0] >= 0)
      return refOut(M.direct[o][0], M.direct[o][1], memo);
    return h;
  }
  // --- operations
  int newNode()
  {
    int id = (int)node.size();
    node.push_back(std::make_shared<ExtNode>(this, id));
    weak.push_back(node.back());
    NodeModel M;
    for(auto & d : M.direct)
      d[0] = d[1] = -1;
    M.alive = true;
    m.push_back(M);
    return id;
  }
  bool usable(int n) { return n >= 0 && n < (int)node.size() && node[(size_t)n]; }
  bool disabledNow(int n, int o) { return m[(size_t)n].disabled[o]; }
  void stale()
  {
    for(auto & p : plan)
      p.stale = true;
  }
  void declare(int n, int what, int a, int s, int o, bool byRef, int o2 = -1)
  {
    if(!usable(n))
      return;
    auto & N = *node[(size_t)n];
    auto & M = m[(size_t)n];
    c.count("op.declare-dependency");
    try
    {
      switch(what)
      {
        case 0:
        {
          bool bad = M.direct[a][0] >= 0;
          bool threw = false;
          try
          {
            N.declOut(a, o % NU);
          }
          catch(const std::runtime_error &)
          {
            threw = true;
          }
          c.check(threw == bad, "declaration", "mixing direct and update dependencies of an output");
          if(!threw)
            M.outUp[a].push_back({n, o % NU});
          break;
        }
        case 1:
          N.declInt(a % NU, o % NU);
          M.internal[a % NU].push_back(o % NU);
          break;
        case 2:
        {
          if(!usable(s))
            return;
          byRef = byRef || s == n; // a node does not own itself
          bool bad = disabledNow(s, o) || (o2 >= 0 && disabledNow(s, o2));
          bool threw = false;
          try
          {
            N.declIn(a % NU, node[(size_t)s], o, byRef, o2);
          }
          catch(const std::runtime_error &)
          {
            threw = true;
          }
          c.check(threw == bad, "declaration", "disabled outputs cannot be inputs, enabled ones can");
          if(threw)
          {
            c.count("fault.disabled-output");
            return;
          }
          M.input[a % NU].push_back({s, o});
          if(o2 >= 0)
          {
            M.input[a % NU].push_back({s, o2});
            c.count("op.declare-several-outputs");
          }
          break;
        }
        case 3:
        {
          if(!usable(s) || s >= n) // a cycle of direct dependencies has no update: not specified
            return;
          bool bad = disabledNow(s, o) || M.direct[a][0] >= 0 || !M.outUp[a].empty();
          bool threw = false;
          try
          {
            N.declDir(a, node[(size_t)s], o, byRef);
          }
          catch(const std::runtime_error &)
          {
            threw = true;
          }
          c.check(threw == bad, "declaration", "direct dependency");
          if(threw)
            return;
          M.direct[a][0] = s;
          M.direct[a][1] = o;
          break;
        }
      }
    }
    catch(const std::runtime_error & e)
    {
      c.fail("declaration", e.what());
    }
    if(what >= 2 && byRef)
      pinned.insert(s);
    stale();
    if(what == 2 || what == 3)
      edgeHolds[{n, s}] = edgeHolds[{n, s}] || !byRef;
  }
  void killNode(int n);
  void killInputs(int i);
  void createOthers(int64_t seed, bool pause);
  void logCheck(int k, int64_t seed);
  bool t_log = false;
  std::vector<NodeP> others;
  std::vector<std::shared_ptr<Inputs>> othersIn;
  std::set<int> pinned; // declared by reference: the user keeps it alive
  std::map<std::pair<int, int>, bool> edgeHolds;
  void request(int i, int n, int o, bool byRef)
  {
    if(!usable(n))
      return;
    auto & I = in[i];
    if(!I.in)
      I.in = std::make_shared<Inputs>();
    bool threw = false;
    try
    {
      if(byRef)
        o < 3 ? I.in->addInput(*node[(size_t)n], static_cast<BaseNode::Output_>(o))
              : I.in->addInput(*node[(size_t)n], static_cast<ExtNode::Output_>(o));
      else
        o < 3 ? I.in->addInput(node[(size_t)n], static_cast<BaseNode::Output_>(o))
              : I.in->addInput(node[(size_t)n], static_cast<ExtNode::Output_>(o));
    }
    catch(const std::runtime_error &)
    {
      threw = true;
    }
    c.check(threw == disabledNow(n, o), "request", fmt("requesting output %d of node %d", o, n));
    if(threw)
    {
      c.count("fault.disabled-output");
      return;
    }
    c.count("op.add-input");
    I.req.insert({n, o});
    if(byRef)
      pinned.insert(n);
    else
      I.held.insert(n);
  }
  void unrequest(int i, int n, int o, bool all)
  {
    auto & I = in[i];
    if(!I.in || n >= (int)node.size() || I.sole.count(n))
      return;
    auto sp = weak[(size_t)n].lock();
    if(!sp)
      return;
    ExtNode * p = sp.get();
    bool has = false, hasNode = false;
    for(auto & r : I.req)
    {
      hasNode |= r.first == n;
      has |= r.first == n && r.second == o;
    }
    bool threw = false;
    try
    {
      if(all)
        I.in->removeInput(p);
      else
        o < 3 ? I.in->removeInput(p, static_cast<BaseNode::Output_>(o)) : I.in->removeInput(p, static_cast<ExtNode::Output_>(o));
    }
    catch(const std::runtime_error &)
    {
      threw = true;
    }
    c.check(threw == !(all ? hasNode : has), "removal", "removal of an input accepted/refused wrongly");
    if(threw)
    {
      c.count("fault.invalid-removal");
      return;
    }
    c.count("op.remove-input");
    for(auto it = I.req.begin(); it != I.req.end();)
      if(it->first == n && (all || it->second == o))
        it = I.req.erase(it);
      else
        ++it;
    if(std::none_of(I.req.begin(), I.req.end(), [n](auto & q) { return q.first == n; }))
      I.held.erase(n);
    sp.reset();
    stale();
    for(auto & P : plan)
      if(std::find(P.uses.begin(), P.uses.end(), i) != P.uses.end())
        P.built = false; // only a rebuild from scratch is meaningful now
  }
  void build(int k, bool scratch, int mask)
  {
    auto & P = plan[k];
    if(!P.g)
      P.g = std::make_unique<CallGraph>();
    if(scratch || !P.built)
    {
      P.g->clear();
      P.uses.clear();
      P.need.clear();
      scratch = true;
    }
    else if(P.stale)
      return; // dependencies were declared or inputs removed since: a rebuild is needed
    c.count(scratch ? "op.rebuild" : "op.extend");
    for(int i = 0; i < NI; ++i)
      if((mask >> i & 1) && in[i].in)
      {
        P.g->add(in[i].in);
        P.uses.push_back(i);
        P.need.insert(in[i].req.begin(), in[i].req.end());
      }
    std::set<std::pair<int, int>> outs;
    P.calls.clear();
    for(auto & r : P.need)
      closureOut(r.first, r.second, P.calls, outs);
    P.cyclic = hasCycle(P.calls);
    bool threw = false;
    try
    {
      P.g->update();
    }
    catch(const std::exception &)
    {
      threw = true;
    }
    c.log("build", (int64_t)P.calls.size() * 2 + threw);
    if(P.cyclic)
      c.count("fault.cycle");
    c.check(threw || !P.cyclic, "cycle-not-reported", fmt("%zu updates with a cycle were planned", P.calls.size()));
    c.check(!threw || P.cyclic, "acyclic-refused", "an acyclic plan was refused");
    P.stale = P.cyclic;
    P.built = !P.cyclic;
  }
  void execute(int k, int fault)
  {
    auto & P = plan[k];
    if(!P.g || P.stale || !P.built)
      return;
    order.clear();
    throwAt = fault;
    bool threw = false;
    // what was there before is wrong: every needed update must bring its value
    for(auto & w : weak)
      if(auto p = w.lock())
        for(auto & v : p->val)
          v = 0xDEAD;
    try
    {
      P.g->execute();
    }
    catch(const UserError &)
    {
      threw = true;
    }
    c.count("op.execute");
    std::set<std::pair<int, int>> done;
    for(size_t i = 0; i < order.size(); ++i)
    {
      auto & u = order[i];
      c.log("ran", u.first * 16 + u.second);
      c.check(P.calls.count(u) != 0, "unneeded-update", fmt("update %d of node %d is not needed", u.second, u.first));
      c.check(done.insert(u).second, "update-ran-twice", fmt("update %d of node %d", u.second, u.first));
      for(auto & d : depsOf(u.first, u.second))
        c.check(done.count(d) != 0, "update-too-early",
                fmt("update %d of node %d ran before update %d of node %d", u.second, u.first, d.second, d.first));
    }
    if(threw)
    {
      c.count("fault.update-throws");
      return;
    }
    c.check(done.size() == P.calls.size(), "update-missing",
            fmt("%zu updates ran, %zu are needed", done.size(), P.calls.size()));
    std::map<std::pair<int, int>, uint64_t> memo;
    for(auto & r : P.need)
    {
      c.check(raw(r.first)->out(r.second) == refOut(r.first, r.second, memo), "output-value",
              fmt("output %d of node %d is not up to date", r.second, r.first));
      c.log("out", (int64_t)raw(r.first)->out(r.second));
    }
    if(done.size() > 2)
      c.count("nontrivial");
    uint64_t s = done.size() * 131 + P.need.size();
    for(auto & u : order)
      s = mix64(s ^ (uint64_t)(depsOf(u.first, u.second).size() * 32 + (unsigned)u.second));
    c.sig(s);
  }
};
void GWorld::killNode(int n)
{
  if(!usable(n) || pinned.count(n))
    return;
  for(auto & e : edgeHolds)
    if(e.first.second == n)
      return;
  for(auto & I : in)
    for(auto & q : I.req)
      if(q.first == n)
        return;
  for(auto & P : plan)
    if(P.built || P.stale)
    {
      for(auto & u : P.calls)
        if(u.first == n)
          return;
      for(auto & q : P.need)
        if(q.first == n)
          return;
    }
  for(auto it = edgeHolds.begin(); it != edgeHolds.end();)
    it = it->first.first == n ? edgeHolds.erase(it) : std::next(it);
  node[(size_t)n].reset();
  m[(size_t)n].alive = false;
  c.count("op.node-destroyed");
}
void GWorld::killInputs(int i)
{
  auto & I = in[i];
  if(!I.in || !I.sole.empty())
    return;
  for(auto & P : plan)
    if(std::find(P.uses.begin(), P.uses.end(), i) != P.uses.end())
      P.built = false;
  I = InM();
  c.count("op.inputs-destroyed");
}
void GWorld::createOthers(int64_t seed, bool pause)
{
  auto & logger = tvm::graph::internal::Logger::logger();
  Rng r((uint64_t)seed);
  if(pause)
  {
    logger.disable();
    c.count("fault.log-paused");
  }
  else
    c.count("op.other-objects");
  int k = (int)r.range(1, 3);
  std::vector<NodeP> mine;
  auto inputs = std::make_shared<Inputs>();
  for(int j = 0; j < k; ++j)
  {
    mine.push_back(std::make_shared<ExtNode>(this, -1));
    auto & N = *mine.back();
    N.declOut((int)r.below(NO), (int)r.below(NU));
    N.declInt((int)r.below(NU), (int)r.below(NU));
    int s = node.empty() ? -1 : (int)r.below((int64_t)node.size());
    int o = (int)r.below(NO);
    if(usable(s) && !disabledNow(s, o))
      N.declIn((int)r.below(NU), node[(size_t)s], o, false, -1);
    inputs->addInput(mine.back(), ExtNode::Output_::O3);
  }
  CallGraph g;
  g.add(inputs);
  try
  {
    g.update();
  }
  catch(const std::exception &)
  { // random declarations can make a cycle
  }
  if(r.chance(50))
    for(auto & n : mine)
      others.push_back(n);
  else if(r.chance(50))
    othersIn.push_back(inputs);
  if(pause)
    logger.enable();
}
/** what the log and the probe say about an up-to-date plan */
void GWorld::logCheck(int k, int64_t seed)
{
  using tvm::diagnostic::GraphProbe;
  using tvm::graph::internal::Log;
  auto & P = plan[k];
  if(!P.g || P.stale || !P.built)
    return;
  if(P.uses.empty())
    return;
  std::set<std::pair<int, int>> now;
  for(int i : P.uses)
    now.insert(in[i].req.begin(), in[i].req.end());
  if(now != P.need)
    return; // the inputs changed since the plan was built: it is to be rebuilt
  const Log & log = tvm::graph::internal::Logger::logger().log();
  std::map<std::uintptr_t, int> who;
  for(size_t n = 0; n < weak.size(); ++n)
    if(auto p = weak[n].lock())
      who[reinterpret_cast<std::uintptr_t>(p.get())] = (int)n;
  auto nodeOf = [&](const Log::Pointer & p, const char * what) {
    auto it = who.find(p.value);
    c.check(it != who.end(), "log-foreign-object", std::string(what) + " of an object that is not in the plan");
    return it->second;
  };
  auto outId = [&](const Log::Output & o) {
    bool base = o.id == Log::EnumValue(static_cast<BaseNode::Output_>(o.id.value));
    bool ext = o.id == Log::EnumValue(static_cast<ExtNode::Output_>(o.id.value));
    c.check(o.id.value < 3 ? base : ext, "log-output", "identity of an output");
    c.check(o.name == fmt("O%d", o.id.value), "log-output", "name of an output: " + o.name);
    return std::pair<int, int>{nodeOf(o.owner, "output"), o.id.value};
  };
  auto upId = [&](const Log::Update & u) {
    c.check(u.name == fmt("U%d", u.id.value), "log-update", "name of an update: " + u.name);
    return std::pair<int, int>{nodeOf(u.owner, "update"), u.id.value};
  };
  auto asOutput = [&](int n, int o) {
    auto * p = raw(n);
    return o < 3 ? Log::Output{Log::EnumValue(static_cast<BaseNode::Output_>(o)), fmt("O%d", o), Log::Pointer(p)}
                 : Log::Output{Log::EnumValue(static_cast<ExtNode::Output_>(o)), fmt("O%d", o), Log::Pointer(p)};
  };
  using Set = std::set<std::pair<int, int>>;
  auto compare = [&](const std::pair<std::vector<Log::Output>, std::vector<Log::Update>> & sub, const Set & outs, const Set & ups) {
    Set o, u;
    for(auto & x : sub.first)
      c.check(o.insert(outId(x)).second, "log-output-twice");
    for(auto & x : sub.second)
      c.check(u.insert(upId(x)).second, "log-update-twice");
    c.check(o == outs, "log-outputs", fmt("%zu outputs reported, %zu in the plan", o.size(), outs.size()));
    c.check(u == ups, "log-updates", fmt("%zu updates reported, %zu in the plan", u.size(), ups.size()));
  };
  Set outs, ups;
  for(auto & q : P.need)
    closureOut(q.first, q.second, ups, outs);
  c.count("op.check-log");
  compare(log.subGraph(P.g.get()), outs, ups);
  Rng r((uint64_t)seed);
  // one output
  if(!outs.empty())
  {
    auto it = outs.begin();
    std::advance(it, r.below((int64_t)outs.size()));
    Set o, u;
    closureOut(it->first, it->second, u, o);
    compare(log.subGraph(asOutput(it->first, it->second)), o, u);
  }
  // the probe
  GraphProbe probe;
  int skip = r.chance(30) ? (int)r.below(NO) : -1; // an output without accessor
  if(skip != 0)
    probe.registerAccessor<ExtNode>(BaseNode::Output_::O0, &ExtNode::v0);
  if(skip != 1)
    probe.registerAccessor<ExtNode>(BaseNode::Output_::O1, &ExtNode::v1);
  if(skip != 2)
    probe.registerAccessor<ExtNode>(BaseNode::Output_::O2, &ExtNode::v2);
  if(skip != 3)
    probe.registerAccessor<ExtNode>(ExtNode::Output_::O3, &ExtNode::v3);
  if(skip != 4)
    probe.registerAccessor<ExtNode>(ExtNode::Output_::O4, &ExtNode::v4);
  Set seen;
  for(auto & v : probe.listOutputVal(P.g.get()))
  {
    auto id = outId(std::get<0>(v));
    c.check(seen.insert(id).second, "probe-output-twice");
    auto & M = std::get<2>(v);
    c.check(!std::get<1>(v) && M.rows() == 1 && M.cols() == 1 && M(0, 0) == raw(id.first)->value(id.second)(0), "probe-value",
            fmt("output %d of node %d", id.second, id.first));
  }
  Set expect;
  for(auto & q : outs)
    if(q.second != skip)
      expect.insert(q);
  c.check(seen == expect, "probe-outputs", fmt("%zu values listed, %zu outputs in the plan", seen.size(), expect.size()));
  // following the plan backward, through the outputs which values are selected
  double lim = r.chance(50) ? -1 : (double)r.below(100003);
  auto sel = [lim](const Eigen::MatrixXd & M) { return M(0, 0) >= lim; };
  auto selected = [&](const std::pair<int, int> & q) {
    return q.second != skip && raw(q.first)->value(q.second)(0) >= lim;
  };
  std::set<std::pair<int, int>> roots, fo, fu;
  std::function<void(const GraphProbe::ProbeNode &)> walk = [&](const GraphProbe::ProbeNode & pn) {
    if(pn.val.index() == 0)
    {
      auto id = outId(mpark::get<0>(pn.val));
      fo.insert(id);
      c.check(pn.children.empty() || selected(id), "follow-up", "goes through an output that is not selected");
      for(auto & ch : pn.children)
      {
        auto & M = m[(size_t)id.first];
        bool ok;
        if(ch->val.index() == 0)
          ok = outId(mpark::get<0>(ch->val)) == std::pair<int, int>{M.direct[id.second][0], M.direct[id.second][1]};
        else
        {
          auto u = upId(mpark::get<1>(ch->val));
          ok = u.first == id.first
               && std::any_of(M.outUp[id.second].begin(), M.outUp[id.second].end(), [&](auto & d) { return d.id == u.second; });
        }
        c.check(ok, "follow-up", "an output is said to depend on something it does not depend on");
        walk(*ch);
      }
    }
    else
    {
      auto id = upId(mpark::get<1>(pn.val));
      fu.insert(id);
      for(auto & ch : pn.children)
      {
        auto & M = m[(size_t)id.first];
        bool ok;
        if(ch->val.index() == 0)
        {
          auto o = outId(mpark::get<0>(ch->val));
          ok = std::any_of(M.input[id.second].begin(), M.input[id.second].end(),
                           [&](auto & d) { return d.node == o.first && d.id == o.second; });
        }
        else
        {
          auto u = upId(mpark::get<1>(ch->val));
          ok = u.first == id.first
               && std::count(M.internal[id.second].begin(), M.internal[id.second].end(), u.second);
        }
        c.check(ok, "follow-up", "an update is said to depend on something it does not depend on");
        walk(*ch);
      }
    }
  };
  std::streambuf * cout = std::cout.rdbuf(nullptr); // it prints what it has no accessor for
  std::vector<std::unique_ptr<GraphProbe::ProbeNode>> trees;
  try
  {
    trees = probe.followUp(P.g.get(), sel);
  }
  catch(...)
  {
    std::cout.rdbuf(cout);
    throw;
  }
  std::cout.rdbuf(cout);
  for(auto & tr : trees)
  {
    c.check(tr->val.index() == 0, "follow-up", "a root is not an output");
    roots.insert(outId(mpark::get<0>(tr->val)));
    walk(*tr);
  }
  // reference: reached outputs, trimmed where not selected
  Set eroots, eo, eu;
  std::function<void(int, int)> goU, goO = [&](int n, int o) {
    if(!eo.insert({n, o}).second || !selected({n, o}))
      return;
    auto & M = m[(size_t)n];
    if(M.direct[o][0] >= 0)
      goO(M.direct[o][0], M.direct[o][1]);
    for(auto & d : M.outUp[o])
      goU(n, d.id);
  };
  goU = [&](int n, int u) {
    if(!eu.insert({n, u}).second)
      return;
    for(auto & d : m[(size_t)n].input[u])
      goO(d.node, d.id);
    for(int v : m[(size_t)n].internal[u])
      goU(n, v);
  };
  for(auto & q : P.need)
    if(selected(q))
    {
      eroots.insert(q);
      goO(q.first, q.second);
    }
  c.check(roots == eroots, "follow-up", fmt("%zu roots, %zu expected", roots.size(), eroots.size()));
  c.check(fo == eo && fu == eu, "follow-up",
          fmt("%zu outputs and %zu updates reached, %zu and %zu expected", fo.size(), fu.size(), eo.size(), eu.size()));
  std::string dot = log.generateDot(P.g.get());
  c.check(ups.empty() || dot.find("digraph") == 0, "dot");
  c.log("log", (int64_t)(outs.size() * 64 + ups.size()));
  if(ups.size() > 2)
    c.count("nontrivial");
  uint64_t sg = outs.size() * 131 + ups.size();
  for(auto & u : ups)
    sg = mix64(sg ^ (uint64_t)(depsOf(u.first, u.second).size() * 32 + (unsigned)u.second));
  if(t_log)
    c.sig(sg);
}
void BaseNode::run(int u)
{
  GWorld & W = *w;
  if(W.throwAt && (int)W.order.size() + 1 == W.throwAt)
    throw UserError{};
  W.order.push_back({id, u});
  uint64_t h = mix64((uint64_t)(id * 16 + u) ^ 0x55) + source * 31;
  for(int v : W.m[(size_t)id].internal[u])
    h += mix64(val[v] ^ 0x1234);
  for(auto & d : W.m[(size_t)id].input[u])
    h += mix64(W.raw(d.node)->out(d.id) ^ 0x9876);
  val[u] = h;
}
uint64_t BaseNode::out(int o) const
{
  auto & M = w->m[(size_t)id];
  if(M.outUp[o].empty() && M.direct[o][0] >= 0)
    return w->raw(M.direct[o][0])->out(M.direct[o][1]);
  uint64_t h = mix64((uint64_t)o) + source;
  for(auto & d : M.outUp[o])
    h += mix64(val[d.id]);
  return h;
}

enum GK
{
  G_NODE,
  G_DECL,
  G_REQ,
  G_UNREQ,
  G_BUILD,
  G_EXEC,
  G_SOURCE,
  G_DROP,
  G_DISABLE,
  G_KILLPLAN,
  G_KILLNODE, // nothing refers to the node any more: it goes, its address can be used again
  G_KILLIN,
  G_OTHERS, // objects unrelated to the plans, created while the log is paused or not
  G_LOGCHECK
};
void genGraphWith(Rng & r, Trace & t, bool thorough, bool logging)
{
  t.cfg["heap"] = r.below(4);
  bool faults = r.chance(70);
  t.cfg["faults"] = faults;
  int nn = (int)r.range(2, thorough ? 16 : 9);
  int kills = r.chance(40) ? (int)r.range(2, 15) : 0; // nodes and inputs that go
  int cyc = r.chance(25) ? (int)r.range(1, 15) : 0; // percentage of edges that may close a cycle
  int ops = (int)r.range(15, thorough ? 160 : 70);
  int made = 0;
  auto node = [&]() {
    t.ops.push_back({G_NODE, made, {}});
    // own declarations
    int k = (int)r.range(1, 4);
    for(int i = 0; i < k; ++i)
      t.ops.push_back({G_DECL, made, {0, r.below(NO), made, r.below(NU), 0}});
    if(r.chance(50))
    {
      int64_t a = r.range(1, NU - 1), b = r.below(a);
      if(r.chance(cyc))
        std::swap(a, b);
      t.ops.push_back({G_DECL, made, {1, a, made, b, 0}});
    }
    int e = made ? (int)r.range(0, r.chance(15) ? 9 : 4) : 0;
    for(int i = 0; i < e; ++i)
    {
      int64_t s = r.below(made);
      t.ops.push_back({G_DECL, made, {r.chance(75) ? 2 : 3, r.below(NO), s, r.below(NO), r.below(2), r.chance(25) ? r.range(1, NO) : 0}});
    }
    ++made;
  };
  for(int i = 0; i < nn / 2 + 1; ++i)
    node();
  for(int i = 0; i < ops; ++i)
  {
    int64_t x = r.below(100);
    Op o;
    o.actor = (int)r.below(made);
    if(kills && r.chance(kills))
    {
      o.kind = r.chance(70) ? G_KILLNODE : G_KILLIN;
      o.a = {r.below(3)};
      t.ops.push_back(o);
      if(made < nn)
        node();
      continue;
    }
    if(logging && r.chance(20))
    {
      o.kind = r.chance(35) ? G_OTHERS : G_LOGCHECK;
      if(o.kind == G_LOGCHECK)
        o.actor = (int)r.below(2);
      o.a = {r.below(1 << 20), r.below(3)};
      t.ops.push_back(o);
      continue;
    }
    if(x < 8 && made < nn)
    {
      node();
      continue;
    }
    else if(x < 22)
    {
      int64_t what = r.below(4);
      int64_t s = r.below(made);
      int64_t a = r.below(NO), b = r.below(NO);
      if(!r.chance(cyc))
      {
        if(what == 1)
        {
          if(a == b)
            a = (b + 1) % NU;
          if(a < b)
            std::swap(a, b);
        }
        if(what >= 2)
        {
          if(o.actor == 0)
            continue;
          s = r.below(o.actor);
        }
      }
      o.kind = G_DECL;
      o.a = {what, a, s, b, r.below(2), r.chance(25) ? r.range(1, NO) : 0};
    }
    else if(x < 45)
      o.kind = G_REQ, o.a = {r.below(3), r.below(NO), r.below(2)};
    else if(x < 53)
      o.kind = G_UNREQ, o.a = {r.below(3), r.below(NO), r.below(3)};
    else if(x < 68)
      o.kind = G_BUILD, o.actor = (int)r.below(2), o.a = {r.below(3), r.range(1, 7)};
    else if(x < 84)
      o.kind = G_EXEC, o.actor = (int)r.below(2), o.a = {faults && r.chance(15) ? r.range(1, 8) : 0};
    else if(x < 92)
      o.kind = G_SOURCE, o.a = {r.below(1000)};
    else if(x < 95)
      o.kind = G_DROP;
    else if(x < 98)
      o.kind = G_DISABLE, o.a = {r.below(NO), r.below(2)};
    else
      o.kind = G_KILLPLAN, o.actor = (int)r.below(2);
    t.ops.push_back(o);
  }
  for(int k = 0; k < 2; ++k)
  {
    t.ops.push_back({G_BUILD, k, {0, 7}});
    t.ops.push_back({G_EXEC, k, {0}});
    if(logging)
      t.ops.push_back({G_LOGCHECK, k, {r.below(1 << 20), 0}});
  }
}
void genGraph(Rng & r, Trace & t, bool thorough) { genGraphWith(r, t, thorough, false); }
void genLog(Rng & r, Trace & t, bool thorough) { genGraphWith(r, t, thorough, true); }
void runGraph(const Trace & t, Ctx & c)
{
  heap::begin((int)t.c("heap"), t.seed);
  auto W = std::make_unique<GWorld>(c);
  GWorld & w = *W;
  w.t_log = t.world == "graphlog";
  int i = 0;
  for(const auto & o : t.ops)
  {
    c.sh->opIndex = i++;
    c.sh->hash = c.hash;
    ++c.sh->opsRun;
    switch(o.kind)
    {
      case G_NODE:
        if(w.node.size() < 24)
          w.newNode();
        break;
      case G_DECL:
        w.declare(o.actor, (int)(o.arg(0) % 4), (int)(o.arg(1) % NO), (int)o.arg(2), (int)(o.arg(3) % NO), o.arg(4) & 1,
                  o.arg(5) > 0 ? (int)((o.arg(5) - 1) % NO) : -1);
        break;
      case G_REQ:
        w.request((int)(o.arg(0) % 3), o.actor, (int)(o.arg(1) % NO), o.arg(2) & 1);
        break;
      case G_UNREQ:
        w.unrequest((int)(o.arg(0) % 3), o.actor, (int)(o.arg(1) % NO), o.arg(2) == 0);
        break;
      case G_BUILD:
        w.build(o.actor % 2, o.arg(0) != 2, (int)(o.arg(1) & 7));
        break;
      case G_EXEC:
        w.execute(o.actor % 2, (int)o.arg(0));
        break;
      case G_SOURCE:
        if(w.usable(o.actor))
          w.node[(size_t)o.actor]->source = (uint64_t)o.arg(0);
        break;
      case G_DROP: // the user lets go of a node that others hold
      {
        int n = o.actor;
        if(!w.usable(n) || w.pinned.count(n))
          break;
        bool held = false; // something that is not itself dropped has to hold it
        for(auto & e : w.edgeHolds)
          if(e.first.second == n && e.second && w.usable(e.first.first))
            held = true;
        for(auto & I : w.in)
          if(I.held.count(n))
          {
            held = true;
            I.sole.insert(n);
          }
        if(!held)
          break;
        c.count("fault.user-handle-dropped");
        // keep the holders
        for(auto & e : w.edgeHolds)
          if(e.first.second == n && e.second)
            w.pinned.insert(e.first.first);
        w.node[(size_t)n].reset();
        c.check(!w.weak[(size_t)n].expired(), "input-not-kept-alive", fmt("node %d died although it is a declared input", n));
        break;
      }
      case G_DISABLE:
        if(w.usable(o.actor))
        {
          int out = (int)(o.arg(0) % NO);
          if(o.arg(1))
            w.node[(size_t)o.actor]->dis(out);
          else
            w.node[(size_t)o.actor]->ena(out);
          w.m[(size_t)o.actor].disabled[out] = o.arg(1) != 0;
          c.check(w.node[(size_t)o.actor]->isOutputEnabled(out) == !o.arg(1), "output-enabling");
        }
        break;
      case G_KILLPLAN:
        w.plan[o.actor % 2] = GWorld::PlanM();
        break;
      case G_KILLNODE:
        w.killNode(o.actor);
        break;
      case G_KILLIN:
        w.killInputs((int)(o.arg(0) % 3));
        break;
      case G_OTHERS:
        w.createOthers(o.arg(0), o.arg(1) == 0);
        break;
      case G_LOGCHECK:
        w.logCheck(o.actor % 2, o.arg(0));
        break;
    }
  }
  W.reset();
  heap::end();
}
std::vector<const char *> regKinds()
{
  return {"node", "declare", "request", "unrequest", "build", "execute", "source", "drop-handle", "disable-output",
          "kill-plan", "kill-node", "kill-inputs", "other-objects", "check-log"};
}
WorldReg regG({"graph",
               genGraph,
               runGraph,
               regKinds(),
               "tvm::graph::CallGraph, DependencyGraph, Inputs, Node, OutputSelector (real code)",
               "user nodes (harness), the heap (simulated)",
               "a run is a seeded history of node creation, dependency declaration, input requests/removals, plan builds and "
               "executions; non-trivial when an execution ran at least three updates; distinct by the hash of its event log",
               "distinct executed update orders (by in-degree and update id)"});
PropReg propG({"C07", "graph", 16000, 300000});
WorldReg regL({"graphlog",
               genLog,
               runGraph,
               regKinds(),
               "tvm::graph::internal::Logger, Log, tvm::diagnostic::GraphProbe, CallGraph, Inputs, Node (real code)",
               "user nodes (harness), the heap (simulated)",
               "a run is a seeded history of node creation and destruction, declarations, input requests/removals, plan builds, "
               "log pauses and probes; non-trivial when the log of a plan of at least three updates was checked; distinct by the "
               "hash of its event log",
               "distinct sets of updates (by update id and number of dependencies) of a probed plan"});
PropReg propL({"C18", "graphlog", 12000, 200000});

// ------------------------------------------------------------------------------------------------ problemlog
// the log and the probe seen by a user: the update plan of a problem which tasks come and go
enum PK
{
  P_ADD,
  P_REMOVE,
  P_WRITE,
  P_UPDATE,
  P_PROBE,
  P_DROP,
  P_PAUSED
};
void genProblemLog(Rng & r, Trace & t, bool thorough)
{
  t.cfg["heap"] = r.below(4);
  int n = (int)r.range(10, thorough ? 90 : 45);
  int paused = r.chance(40) ? (int)r.range(2, 12) : 0;
  int drop = r.chance(25) ? (int)r.range(1, 6) : 0;
  for(int i = 0; i < n; ++i)
  {
    int64_t x = r.below(100);
    int64_t sd = r.below(1 << 20);
    if(r.chance(paused))
      t.ops.push_back({P_PAUSED, 0, {sd}});
    else if(r.chance(drop))
      t.ops.push_back({P_DROP, 0, {sd}});
    else if(x < 30)
      t.ops.push_back({P_ADD, 0, {sd}});
    else if(x < 50)
      t.ops.push_back({P_REMOVE, 0, {sd}});
    else if(x < 60)
      t.ops.push_back({P_WRITE, 0, {sd}});
    else if(x < 80)
      t.ops.push_back({P_UPDATE, 0, {sd}});
    else
    {
      if(x < 92)
        t.ops.push_back({P_UPDATE, 0, {sd}});
      t.ops.push_back({P_PROBE, 0, {sd}});
    }
  }
}
struct PTask
{
  tvm::TaskWithRequirementsPtr tr;
  bool twoBounds = false;
};
void runProblemLog(const Trace & t, Ctx & c)
{
  namespace td = tvm::task_dynamics;
  using tvm::constraint::Type;
  using tvm::diagnostic::GraphProbe;
  heap::begin((int)t.c("heap"), t.seed);
  {
    Rng init(t.seed);
    auto rnd = [](Rng & r) { return (double)r.range(-50, 50) / 10; };
    std::vector<tvm::VariablePtr> vars;
    for(int i = 0; i < 3; ++i)
    {
      vars.push_back(tvm::Space((int)init.range(1, 4)).createVariable(fmt("v%d", i)));
      Eigen::VectorXd v(vars.back()->size());
      for(auto & e : v)
        e = rnd(init);
      vars.back()->set(v);
      tvm::dot(vars.back(), 1)->set(v);
    }
    auto pb = std::make_unique<tvm::LinearizedControlProblem>();
    std::vector<PTask> tasks;
    bool upToDate = false;
    auto makeTask = [&](Rng & r) {
      auto & x = vars[(size_t)r.below(3)];
      tvm::FunctionPtr f;
      if(r.chance(50) || tasks.empty())
      {
        int m = (int)r.range(1, 3);
        Eigen::MatrixXd A(m, x->size());
        Eigen::VectorXd b(m);
        for(int i = 0; i < m; ++i)
        {
          b(i) = rnd(r);
          for(int j = 0; j < x->size(); ++j)
            A(i, j) = rnd(r);
        }
        f = std::make_shared<tvm::function::BasicLinearFunction>(A, x, b);
      }
      else if(r.chance(50))
        f = std::make_shared<tvm::function::IdentityFunction>(x);
      else
        f = tasks[(size_t)r.below((int64_t)tasks.size())].tr->task.function(); // shared with another task
      Type ty = (Type)r.below(4);
      PTask p;
      p.twoBounds = ty == Type::DOUBLE_SIDED;
      std::shared_ptr<td::abstract::TaskDynamics> d;
      switch(r.below(4))
      {
        case 0:
          d = std::make_shared<td::P>(1 + std::abs(rnd(r)));
          break;
        case 1:
          d = std::make_shared<td::PD>(1 + std::abs(rnd(r)));
          break;
        case 2:
          d = std::make_shared<td::Constant>();
          break;
        default:
          d = std::make_shared<td::None>();
      }
      if(p.twoBounds)
        p.tr = std::make_shared<tvm::TaskWithRequirements>(
            tvm::Task(f, ty, *d, Eigen::VectorXd::Constant(f->size(), -1), Eigen::VectorXd::Constant(f->size(), 2)),
            tvm::requirements::SolvingRequirements{});
      else
        p.tr = std::make_shared<tvm::TaskWithRequirements>(tvm::Task(f, ty, *d), tvm::requirements::SolvingRequirements{});
      return p;
    };
    int i = 0;
    for(const auto & o : t.ops)
    {
      c.sh->opIndex = i++;
      c.sh->hash = c.hash;
      ++c.sh->opsRun;
      Rng r((uint64_t)o.arg(0));
      switch(o.kind)
      {
        case P_ADD:
        {
          if(tasks.size() > 6)
            break;
          auto p = makeTask(r);
          pb->add(p.tr);
          tasks.push_back(p);
          upToDate = false;
          c.count("op.add-task");
          break;
        }
        case P_REMOVE:
        {
          if(tasks.empty())
            break;
          size_t k = (size_t)r.below((int64_t)tasks.size());
          pb->remove(*tasks[k].tr);
          tasks.erase(tasks.begin() + (long)k);
          upToDate = false;
          c.count("op.remove-task");
          break;
        }
        case P_WRITE:
        {
          auto & x = vars[(size_t)r.below(3)];
          Eigen::VectorXd v(x->size());
          for(auto & e : v)
            e = rnd(r);
          x->set(v);
          break;
        }
        case P_UPDATE:
          pb->update();
          upToDate = true;
          c.count("op.update");
          break;
        case P_DROP: // another problem
          pb = std::make_unique<tvm::LinearizedControlProblem>();
          tasks.clear();
          upToDate = false;
          c.count("op.problem-replaced");
          break;
        case P_PAUSED: // things that are not in the problem
        {
          auto & logger = tvm::graph::internal::Logger::logger();
          logger.disable();
          {
            auto p = makeTask(r);
            tvm::LinearizedControlProblem other;
            other.add(p.tr);
            other.update();
          }
          logger.enable();
          c.count("fault.log-paused");
          break;
        }
        case P_PROBE:
        {
          if(!upToDate)
            break;
          c.count("op.probe");
          // what the outputs of the live objects are
          using Key = std::tuple<std::uintptr_t, std::string, const tvm::Variable *>;
          std::map<Key, Eigen::MatrixXd> val;
          std::set<Key> needed;
          auto at = [](const void * p) { return reinterpret_cast<std::uintptr_t>(p); };
          for(auto & p : tasks)
          {
            auto f = p.tr->task.function();
            auto d = p.tr->task.taskDynamics();
            val[{at(f.get()), "Value", nullptr}] = f->value();
            val[{at(f.get()), "Velocity", nullptr}] = f->velocity();
            val[{at(f.get()), "NormalAcceleration", nullptr}] = f->normalAcceleration();
            if(auto l = std::dynamic_pointer_cast<tvm::function::abstract::LinearFunction>(f))
              val[{at(f.get()), "B", nullptr}] = l->b();
            for(auto & x : f->variables())
              val[{at(f.get()), "Jacobian", x.get()}] = f->jacobian(*x);
            val[{at(d.get()), "Value", nullptr}] = d->value();
            if(p.twoBounds)
              val[{at(p.tr->task.secondBoundTaskDynamics().get()), "Value", nullptr}]
                  = p.tr->task.secondBoundTaskDynamics()->value();
            auto k = pb->constraint(*p.tr);
            for(auto & x : k->variables())
            {
              val[{at(k.get()), "Jacobian", x.get()}] = k->jacobian(*x);
              needed.insert({at(k.get()), "Jacobian", x.get()});
            }
            auto ty = k->type();
            auto rhs = [&](const char * n, const Eigen::VectorXd & v) {
              val[{at(k.get()), n, nullptr}] = v;
              needed.insert({at(k.get()), n, nullptr});
            };
            if(ty == Type::EQUAL)
              rhs("E", k->e());
            if(ty == Type::GREATER_THAN || ty == Type::DOUBLE_SIDED)
              rhs("L", k->l());
            if(ty == Type::LOWER_THAN || ty == Type::DOUBLE_SIDED)
              rhs("U", k->u());
          }
          GraphProbe probe;
          std::set<Key> seen;
          for(auto & v : probe.listOutputVal(&pb->updateGraph()))
          {
            auto & out = std::get<0>(v);
            Key k{out.owner.value, out.name, std::get<1>(v).get()};
            auto it = val.find(k);
            c.check(it != val.end(), "log-foreign-object", "output " + out.name + " of an object that is not in the problem");
            c.check(seen.insert(k).second, "probe-output-twice", out.name);
            c.check(it->second == std::get<2>(v), "probe-value", out.name);
          }
          for(auto & k : needed)
            c.check(seen.count(k) != 0, "probe-outputs", std::get<1>(k) + " of a constraint of the problem is not listed");
          auto trees = probe.followUp(&pb->updateGraph());
          std::ostringstream os;
          probe.print(os, trees);
          c.check(tasks.empty() == trees.empty(), "follow-up");
          c.log("probe", (int64_t)seen.size());
          if(tasks.size() > 1)
            c.count("nontrivial");
          c.sig(seen.size() * 64 + needed.size() * 8 + tasks.size());
          break;
        }
      }
    }
  }
  heap::end();
}
WorldReg regP({"problemlog",
               genProblemLog,
               runProblemLog,
               {"add-task", "remove-task", "write", "update", "probe", "replace-problem", "paused-objects"},
               "tvm::graph::internal::Logger, Log, tvm::diagnostic::GraphProbe, LinearizedControlProblem, functions, task dynamics, "
               "constraints (real code)",
               "the heap (simulated)",
               "a run is a seeded history of tasks added to and removed from a problem, problems replaced, log pauses, updates and "
               "probes of the update plan of the problem; non-trivial when a plan of at least two tasks was probed",
               "distinct (values listed, values required, tasks)"});
PropReg propPL({"C18", "problemlog", 10000, 150000});

// ------------------------------------------------------------------------------------------------ depgraph
using tvm::graph::internal::DependencyGraph;
enum DK
{
  D_NODE,
  D_EDGE,
  D_REMOVE,
  D_ORDER,
  D_GROUP,
  D_REDUCE,
  D_CLEAR
};
void genDep(Rng & r, Trace & t, bool thorough)
{
  t.cfg["heap"] = r.below(4);
  int n = (int)r.range(15, thorough ? 150 : 70);
  int acyclic = r.chance(60);
  t.cfg["acyclic"] = acyclic;
  int rem = r.chance(60) ? (int)r.range(1, 12) : 0;
  for(int i = 0; i < n; ++i)
  {
    int64_t x = r.below(100);
    if(x < rem)
      t.ops.push_back({D_REMOVE, 0, {r.below(64)}});
    else if(x < 30)
      t.ops.push_back({D_NODE, 0, {}});
    else if(x < 80)
      t.ops.push_back({D_EDGE, 0, {r.below(64), r.below(64)}});
    else if(x < 90)
      t.ops.push_back({D_ORDER, 0, {}});
    else if(x < 95)
      t.ops.push_back({D_GROUP, 0, {}});
    else if(x < 99)
      t.ops.push_back({D_REDUCE, 0, {}});
    else
      t.ops.push_back({D_CLEAR, 0, {}});
  }
  t.ops.push_back({D_ORDER, 0, {}});
  t.ops.push_back({D_GROUP, 0, {}});
  t.ops.push_back({D_REDUCE, 0, {}});
}
void runDep(const Trace & t, Ctx & c)
{
  heap::begin((int)t.c("heap"), t.seed);
  DependencyGraph g;
  size_t n = 0;
  std::set<std::pair<size_t, size_t>> E;
  bool acyclic = t.c("acyclic") != 0;
  int i = 0;
  auto reach = [&](std::vector<std::vector<char>> & R) {
    R.assign(n, std::vector<char>(n, 0));
    for(auto & e : E)
      R[e.first][e.second] = 1;
    for(size_t k = 0; k < n; ++k)
      for(size_t a = 0; a < n; ++a)
        if(R[a][k])
          for(size_t b = 0; b < n; ++b)
            R[a][b] |= R[k][b];
  };
  for(const auto & o : t.ops)
  {
    c.sh->opIndex = i++;
    c.sh->hash = c.hash;
    ++c.sh->opsRun;
    switch(o.kind)
    {
      case D_NODE:
        if(n < 40)
        {
          c.check(g.addNode() == n, "node-id");
          ++n;
        }
        break;
      case D_EDGE:
        if(n > 1)
        {
          size_t a = (size_t)o.arg(0) % n, b = (size_t)o.arg(1) % n;
          if(acyclic && a == b)
            break;
          if(acyclic && a < b)
            std::swap(a, b);
          bool fresh = E.insert({a, b}).second;
          c.check(g.addEdge(a, b) == fresh, "edge", "addEdge does not tell whether the edge is new");
        }
        break;
      case D_REMOVE:
        if(n > 0)
        {
          size_t k = (size_t)o.arg(0) % n;
          c.count("op.remove-node");
          g.removeNode(k);
          std::set<std::pair<size_t, size_t>> F;
          for(auto e : E)
            if(e.first != k && e.second != k)
              F.insert({e.first - (e.first > k), e.second - (e.second > k)});
          E = F;
          --n;
        }
        break;
      case D_CLEAR:
        g.clear();
        n = 0;
        E.clear();
        break;
      case D_ORDER:
      case D_GROUP:
      {
        std::vector<std::vector<char>> R;
        reach(R);
        bool cyc = false;
        for(size_t k = 0; k < n; ++k)
          cyc |= R[k][k];
        c.count(cyc ? "fault.cycle" : "op.order");
        bool threw = false;
        std::vector<size_t> ord;
        std::vector<std::vector<size_t>> grp;
        try
        {
          if(o.kind == D_ORDER)
            ord = g.order();
          else
          {
            grp = g.groupedOrder();
            for(auto & G : grp)
              ord.insert(ord.end(), G.begin(), G.end());
          }
        }
        catch(const std::logic_error &)
        {
          threw = true;
        }
        c.check(threw || !cyc, "cycle-not-reported", fmt("%zu of %zu nodes ordered in a graph with a cycle", ord.size(), n));
        c.check(!threw || !cyc == false, "acyclic-refused");
        if(threw)
          break;
        c.check(ord.size() == n && std::set<size_t>(ord.begin(), ord.end()).size() == n, "order-incomplete",
                fmt("%zu of %zu nodes are ordered", ord.size(), n));
        std::vector<size_t> pos(n);
        for(size_t k = 0; k < n; ++k)
          pos[ord[k]] = k;
        if(o.kind == D_ORDER)
          for(auto & e : E)
            c.check(pos[e.second] < pos[e.first], "order", fmt("%zu comes before %zu it depends on", e.first, e.second));
        else
        { // one group per weakly connected component, each of them ordered
          std::vector<int> comp(n, -1);
          for(size_t k = 0; k < grp.size(); ++k)
            for(size_t v : grp[k])
              comp[v] = (int)k;
          std::vector<size_t> uf(n);
          for(size_t k = 0; k < n; ++k)
            uf[k] = k;
          std::function<size_t(size_t)> root = [&](size_t v) { return uf[v] == v ? v : uf[v] = root(uf[v]); };
          for(auto & e : E)
          {
            uf[root(e.first)] = root(e.second);
            c.check(comp[e.first] == comp[e.second], "group", "an edge joins two groups");
            c.check(pos[e.second] < pos[e.first], "order", "group not ordered");
          }
          for(size_t a = 0; a < n; ++a)
            for(size_t b = 0; b < a; ++b)
              c.check((comp[a] == comp[b]) == (root(a) == root(b)), "group", fmt("nodes %zu and %zu", a, b));
        }
        if(n > 3 && E.size() > 2)
          c.count("nontrivial");
        uint64_t s = n;
        for(size_t v : ord)
          s = mix64(s ^ v);
        c.sig(s);
        c.log("order", (int64_t)s);
        break;
      }
      case D_REDUCE:
      {
        std::vector<std::vector<char>> R;
        reach(R);
        auto r = g.reduce();
        std::vector<int> comp(n, -1);
        size_t total = 0;
        for(size_t k = 0; k < r.first.size(); ++k)
          for(size_t v : r.first[k])
          {
            comp[v] = (int)k;
            ++total;
          }
        c.check(total == n, "reduce");
        for(size_t a = 0; a < n; ++a)
          for(size_t b = 0; b < a; ++b)
            c.check((comp[a] == comp[b]) == (R[a][b] && R[b][a]), "reduce",
                    fmt("nodes %zu and %zu are %sin the same strongly connected component", a, b, comp[a] == comp[b] ? "" : "not "));
        std::set<std::pair<size_t, size_t>> F;
        for(auto & e : E)
          if(comp[e.first] != comp[e.second])
            F.insert({(size_t)comp[e.first], (size_t)comp[e.second]});
        c.check(r.second.edges() == F && r.second.size() == r.first.size(), "reduce", "edges of the reduced graph");
        c.log("reduce", (int64_t)r.first.size());
        c.count("op.reduce");
        break;
      }
    }
    c.check(g.size() == n && g.edges() == E, "graph-content");
  }
  heap::end();
}
WorldReg regD({"depgraph",
               genDep,
               runDep,
               {"node", "edge", "remove-node", "order", "grouped-order", "reduce", "clear"},
               "tvm::graph::internal::DependencyGraph (real code)",
               "the heap (simulated)",
               "seeded histories of node/edge additions and node removals interleaved with orderings; non-trivial when a graph of "
               "more than three nodes and two edges was ordered",
               "distinct orders"});
PropReg propD({"C07", "depgraph", 16000, 300000});

} // namespace
