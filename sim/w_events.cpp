// Worlds "events" (C08) and "callbacks" (C09): histories of registrations, deaths, re-entrant actions, deliveries.
#include "core.h"
#include <algorithm>
#include <memory>
#include <tvm/event/Listener.h>
#include <tvm/event/Source.h>
#include <tvm/internal/CallbackManager.h>
#include <tvm/internal/PairElementToken.h>
#include <tvm/requirements/AnisotropicWeight.h>
#include <tvm/requirements/Weight.h>

using namespace sim;
namespace
{
// ------------------------------------------------------------------------------------------------ C08: events
struct UserError
{
};
struct EvWorld;
struct Frame
{
  int src, evt;
  std::vector<int> mustBefore; // registered and alive when the delivery started
  std::vector<int> got;
  bool aborted = false;
  Frame * up = nullptr;
};
struct LSN : tvm::event::Listener
{
  EvWorld * w;
  int id;
  uint64_t canary = 0xC0FFEE;
  std::vector<std::array<int64_t, 3>> script; // what to do at the next receptions
  LSN(EvWorld * w, int id) : w(w), id(id) {}
  ~LSN() override;

protected:
  void process(tvm::event::Type evt, const tvm::event::Source & n) override;
};
struct LSrc : tvm::event::Source
{
};

struct EvWorld
{
  Ctx & c;
  static constexpr int NS = 3, NL = 10, NE = 3;
  std::unique_ptr<LSrc> src[NS];
  std::shared_ptr<LSN> lis[NL];
  int nextId = 0;
  std::map<int, int> slotOf; // id -> slot, alive listeners
  std::vector<int> reg[NS][NE]; // ids by order of registration
  std::vector<int> processing; // listeners being served
  Frame * top = nullptr;
  int depth = 0;
  explicit EvWorld(Ctx & c) : c(c) {}

  bool alive(int id) { return slotOf.count(id) != 0; }
  void make(int slot)
  {
    kill(slot);
    int id = nextId++;
    lis[slot] = std::make_shared<LSN>(this, id);
    slotOf[id] = slot;
  }
  void kill(int slot)
  {
    if(!lis[slot])
      return;
    int id = lis[slot]->id;
    slotOf.erase(id);
    c.log("kill", id);
    if(top)
      c.count("fault.listener-death-during-delivery");
    else
      c.count("fault.listener-death");
    auto p = std::move(lis[slot]);
    p.reset();
  }
  void regist(int s, int slot, int e)
  {
    if(!lis[slot] || !src[s])
      return;
    int id = lis[slot]->id;
    auto & r = reg[s][e];
    if(std::find(r.begin(), r.end(), id) != r.end())
      return; // registering twice for the same event is not specified
    r.push_back(id);
    c.log("regist", s * 1000 + id * 10 + e);
    if(top)
      c.count("op.register-reentrant");
    src[s]->regist(lis[slot], static_cast<tvm::event::Type>(e));
  }
  void notify(int s, int e)
  {
    if(!src[s] || depth >= 3)
      return;
    Frame f;
    f.src = s;
    f.evt = e;
    for(int id : reg[s][e])
      if(alive(id))
        f.mustBefore.push_back(id);
    f.up = top;
    top = &f;
    ++depth;
    c.log("notify", s * 10 + e);
    int dead = 0;
    for(int id : reg[s][e])
      dead += !alive(id);
    if(dead)
      c.count("probe.notify-with-dead-listeners");
    if(depth > 1)
      c.count("op.notify-reentrant");
    try
    {
      src[s]->notify(static_cast<tvm::event::Type>(e));
    }
    catch(const UserError &)
    {
      f.aborted = true;
    }
    --depth;
    top = f.up;
    // exactly once to every listener alive during the whole delivery
    if(!f.aborted)
      for(int id : f.mustBefore)
        if(alive(id) && std::count(f.got.begin(), f.got.end(), id) != 1)
          c.fail("listener-not-notified", fmt("listener %d got event %d of source %d %d times", id, e, s,
                                              (int)std::count(f.got.begin(), f.got.end(), id)));
    // order of registration
    std::vector<int> pos;
    for(int id : f.got)
      pos.push_back(static_cast<int>(std::find(reg[s][e].begin(), reg[s][e].end(), id) - reg[s][e].begin()));
    if(!std::is_sorted(pos.begin(), pos.end()))
      c.fail("delivery-order", fmt("event %d of source %d delivered out of order of registration", e, s));
    if(f.got.size() > 1 || dead)
      c.count("nontrivial");
    c.sig(hashStr("ev") ^ f.got.size() * 131 + static_cast<uint64_t>(dead) * 17 + static_cast<uint64_t>(depth) * 7
          + (f.aborted ? 3 : 0) + reg[s][e].size() * 1009);
  }
  void received(int id, int evt, const tvm::event::Source & n)
  {
    c.log("received", id * 10 + evt);
    // a listener released while it processes an event lives until the end of that processing
    c.check(alive(id) || std::find(processing.begin(), processing.end(), id) != processing.end(), "dead-listener-notified",
            fmt("listener %d", id));
    c.check(top != nullptr, "spurious-delivery");
    c.check(top->evt == evt, "wrong-event", fmt("listener %d received event %d instead of %d", id, evt, top->evt));
    c.check(static_cast<const tvm::event::Source *>(src[top->src].get()) == &n, "wrong-source");
    auto & r = reg[top->src][evt];
    c.check(std::find(r.begin(), r.end(), id) != r.end(), "not-registered",
            fmt("listener %d received event %d it was not registered for", id, evt));
    c.check(std::find(top->got.begin(), top->got.end(), id) == top->got.end(), "delivered-twice",
            fmt("listener %d event %d", id, evt));
    top->got.push_back(id);
  }
  void act(const std::array<int64_t, 3> & s, int self)
  {
    switch(s[0] % 7)
    {
      case 1: // dies while it processes the event
        if(alive(self))
          kill(slotOf[self]);
        break;
      case 2:
        kill(static_cast<int>(s[1] % NL));
        break;
      case 3:
        regist(top->src, static_cast<int>(s[1] % NL), top->evt);
        break;
      case 4:
      {
        int slot = static_cast<int>(s[1] % NL);
        for(int k = 0; k < 4; ++k) // several new listeners: the registry has to grow
        {
          int sl = (slot + k) % NL;
          if(!lis[sl])
          {
            make(sl);
            regist(top->src, sl, top->evt);
          }
        }
        break;
      }
      case 5:
        notify(static_cast<int>(s[1] % NS), static_cast<int>(s[2] % NE));
        break;
      case 6:
        c.count("fault.listener-throws");
        throw UserError{};
      default:
        break;
    }
  }
};
LSN::~LSN() { canary = 0; }
void LSN::process(tvm::event::Type evt, const tvm::event::Source & n)
{
  EvWorld & W = *w;
  int me = id;
  W.received(me, static_cast<int>(evt), n);
  if(!script.empty())
  {
    auto s = script.front();
    script.erase(script.begin());
    struct Scope
    {
      std::vector<int> & v;
      ~Scope() { v.pop_back(); }
    } scope{W.processing};
    W.processing.push_back(me);
    W.act(s, me);
  }
  W.c.check(canary == 0xC0FFEE, "listener-destroyed-while-processing", fmt("listener %d", me));
}

enum EvK
{
  EV_MAKE,
  EV_KILL,
  EV_REG,
  EV_NOTIFY,
  EV_SCRIPT,
  EV_RESET,
  EV_RELAY
};
void genEvents(Rng & r, Trace & t, bool thorough)
{
  t.cfg["heap"] = r.below(4);
  t.cfg["faults"] = r.chance(80);
  int pk[7] = {(int)r.range(5, 20), (int)r.range(0, 20),  (int)r.range(15, 40), (int)r.range(15, 40),
               (int)r.range(0, 30), (int)r.range(0, 3), (int)r.range(0, 5)};
  if(!t.cfg["faults"])
    pk[1] = 0;
  int tot = 0;
  for(int k : pk)
    tot += k;
  int ns = (int)r.range(1, 3), ne = (int)r.range(1, 3), nl = (int)r.range(2, 10);
  int n = (int)r.range(10, thorough ? 120 : 60);
  for(int i = 0; i < nl / 2; ++i)
    t.ops.push_back({EV_MAKE, i, {}});
  for(int i = 0; i < n; ++i)
  {
    int64_t x = r.below(tot);
    int k = 0;
    while(x >= pk[k])
      x -= pk[k++];
    Op o;
    o.kind = k;
    o.actor = (int)r.below(nl);
    int64_t act = r.range(1, 6);
    if(act == 6 && !(t.cfg["faults"] && r.chance(30)))
      act = 3;
    if(!t.cfg["faults"] && (act == 1 || act == 2))
      act = 5;
    if(k == EV_SCRIPT)
      o.a = {act, r.below(10), r.below(ne)};
    else
      o.a = {r.below(ns), r.below(ne), r.below(10)};
    t.ops.push_back(o);
  }
  for(int s = 0; s < ns; ++s)
    for(int e = 0; e < ne; ++e)
      t.ops.push_back({EV_NOTIFY, 0, {s, e, 0}});
}
void runEvents(const Trace & t, Ctx & c)
{
  heap::begin((int)t.c("heap"), t.seed);
  EvWorld w(c);
  for(auto & s : w.src)
    s = std::make_unique<LSrc>();
  int i = 0;
  for(const auto & o : t.ops)
  {
    c.sh->opIndex = i++;
    c.sh->hash = c.hash;
    ++c.sh->opsRun;
    int a = (int)(o.actor % EvWorld::NL);
    int s = (int)(o.arg(0) % EvWorld::NS), e = (int)(o.arg(1) % EvWorld::NE);
    switch(o.kind)
    {
      case EV_MAKE:
        c.count("op.create-listener");
        w.make(a);
        break;
      case EV_KILL:
        w.kill(a);
        break;
      case EV_REG:
        c.count("op.register");
        w.regist(s, a, e);
        break;
      case EV_NOTIFY:
        c.count("op.notify");
        w.notify(s, e);
        break;
      case EV_SCRIPT:
        if(w.lis[a])
          w.lis[a]->script.push_back({o.arg(0), o.arg(1), o.arg(2)});
        break;
      case EV_RESET: // the source dies, and another one takes its place
        c.count("op.recreate-source");
        w.src[s].reset();
        w.src[s] = std::make_unique<LSrc>();
        for(auto & r : w.reg[s])
          r.clear();
        break;
      case EV_RELAY: // an emission immediately followed by the same one
        w.notify(s, e);
        w.notify(s, e);
        break;
    }
  }
  for(auto & l : w.lis)
    l.reset();
  heap::end();
}
WorldReg regEv({"events",
                genEvents,
                runEvents,
                {"make", "kill", "register", "notify", "script", "recreate-source", "notify-twice"},
                "tvm::event::Source, tvm::event::Listener (real code)",
                "the heap (simulated: placement and reuse decided by the seed, freed memory poisoned)",
                "a run is a seeded history of listener creation/death, registration and emission, with scripts executed from "
                "inside deliveries; it is non-trivial when a delivery reached at least two listeners or skipped a dead one; "
                "distinct by the hash of its event log",
                "distinct (listeners served, dead entries, registry size, nesting depth, aborted) tuples seen at a delivery"});
PropReg propEv({"C08", "events", 40000, 600000});

// --------------------------------------------------------------------------------------------- C09: callbacks
using tvm::internal::CallbackManager;
using tvm::internal::PairElementToken;
struct CbWorld;
struct CbFrame
{
  int mgr;
  std::vector<int> before;
  std::map<int, int> got;
  bool aborted = false;
  CbFrame * up;
};
struct CbWorld
{
  Ctx & c;
  static constexpr int NM = 4, NT = 12;
  // 0-1: plain managers; 2: weight requirement; 3: anisotropic weight requirement
  CallbackManager plain[2];
  tvm::requirements::WeightBase<false> weight;
  tvm::requirements::AnisotropicWeightBase<false> aniso;
  // the tokens: some alone, some in a vector that grows and shrinks
  std::unique_ptr<PairElementToken> tok[NT];
  std::vector<PairElementToken> vec;
  // model: what is each token paired with: -1 nothing, >=0 callback id, <=-2: token -(k+2)
  int mTok[NT];
  std::vector<int> mVec;
  struct CB
  {
    int mgr;
    bool registered = true;
  };
  std::vector<CB> cbs;
  std::map<int, std::vector<std::array<int64_t, 2>>> scripts;
  CbFrame * top = nullptr;
  int depth = 0;
  double wv = 1, av = 1;

  explicit CbWorld(Ctx & c) : c(c), aniso(Eigen::VectorXd::Ones(2))
  {
    for(int & m : mTok)
      m = -1;
  }
  CallbackManager & mgr(int i)
  {
    if(i < 2)
      return plain[i];
    if(i == 2)
      return weight;
    return aniso;
  }
  bool live(int id)
  { // registered and its token is alive
    if(!cbs[(size_t)id].registered)
      return false;
    for(int i = 0; i < NT; ++i)
      if(tok[i] && mTok[i] == id)
        return true;
    for(int m : mVec)
      if(m == id)
        return true;
    return false;
  }
  struct Cap
  { // what the callback captures: destroyed with it
    CbWorld * w;
    int id;
    std::shared_ptr<uint64_t> canary;
  };
  std::function<void()> fn(int m)
  {
    int id = (int)cbs.size();
    cbs.push_back({m, true});
    auto cap = std::make_shared<uint64_t>(0xAB1EULL + (uint64_t)id);
    return [this, id, cap]() {
      Ctx & cc = c;
      invoked(id);
      // what the callback captured must still be there once it has acted
      cc.check(*cap == 0xAB1EULL + (uint64_t)id, "callback-destroyed-while-running", fmt("callback %d", id));
    };
  }
  void invoked(int id)
  {
    c.log("cb", id);
    c.check(top != nullptr, "spurious-callback", fmt("callback %d ran without notification", id));
    c.check(cbs[(size_t)id].mgr == top->mgr, "callback-of-other-manager", fmt("callback %d", id));
    c.check(live(id), "dead-callback-ran",
            fmt("callback %d ran after it was %s", id, cbs[(size_t)id].registered ? "orphaned" : "unregistered"));
    c.check(++top->got[id] == 1, "callback-ran-twice", fmt("callback %d", id));
    auto & s = scripts[id];
    if(!s.empty())
    {
      auto a = s.front();
      s.erase(s.begin());
      act(a, id);
    }
  }
  void lost(int partner)
  { // a token that was paired with partner (a token index coded) dies
    if(partner <= -2)
    {
      int k = -partner - 2;
      mTok[k] = -1;
    }
  }
  int tokenOf(int id)
  {
    for(int i = 0; i < NT; ++i)
      if(tok[i] && mTok[i] == id)
        return i;
    for(size_t i = 0; i < mVec.size(); ++i)
      if(mVec[i] == id)
        return 100 + (int)i;
    return -1;
  }
  PairElementToken & at(int i) { return i >= 100 ? vec[(size_t)(i - 100)] : *tok[i]; }
  int & mAt(int i) { return i >= 100 ? mVec[(size_t)(i - 100)] : mTok[i]; }

  void unregister(int id)
  {
    int k = tokenOf(id);
    if(k < 0 || !cbs[(size_t)id].registered)
      return;
    c.log("unregister", id);
    cbs[(size_t)id].registered = false;
    PairElementToken & t = at(k);
    mAt(k) = -1;
    c.count(top ? "op.unregister-reentrant" : "op.unregister");
    mgr(cbs[(size_t)id].mgr).unregisterCallback(t);
  }
  void destroy(int i)
  {
    if(!tok[i])
      return;
    c.log("destroy", i);
    int p = mTok[i];
    lost(p);
    mTok[i] = -1;
    c.count(top ? "fault.token-death-during-run" : "fault.token-death");
    tok[i].reset();
  }
  void registerTo(int m, int slot, int how)
  {
    c.log("register", m * 100 + slot);
    c.count(top ? "op.register-reentrant" : "op.register");
    auto f = fn(m);
    int id = (int)cbs.size() - 1;
    switch(how % 3)
    {
      case 0: // a brand new token
        destroy(slot);
        tok[slot] = std::make_unique<PairElementToken>(mgr(m).registerCallback(f));
        mTok[slot] = id;
        break;
      case 1: // assigned to an existing token, paired or not
        if(!tok[slot])
        {
          tok[slot] = std::make_unique<PairElementToken>();
          mTok[slot] = -1;
        }
        lost(mTok[slot]);
        mTok[slot] = -1;
        *tok[slot] = mgr(m).registerCallback(f);
        mTok[slot] = id;
        break;
      default: // directly in a container that may have to grow
        if(vec.size() > 40)
        {
          tok[slot] ? (void)0 : (void)(tok[slot] = std::make_unique<PairElementToken>());
          lost(mTok[slot]);
          mTok[slot] = -1;
          *tok[slot] = mgr(m).registerCallback(f);
          mTok[slot] = id;
        }
        else
        {
          vec.emplace_back(mgr(m).registerCallback(f));
          mVec.push_back(id);
        }
        break;
    }
  }
  void notify(int m, int how)
  {
    if(depth >= 3)
      return;
    CbFrame f;
    f.mgr = m;
    for(size_t i = 0; i < cbs.size(); ++i)
      if(cbs[i].mgr == m && live((int)i))
        f.before.push_back((int)i);
    f.up = top;
    top = &f;
    ++depth;
    c.log("notify", m * 10 + how);
    if(depth > 1)
      c.count("op.notify-reentrant");
    try
    {
      if(m == 2)
      {
        wv = wv + 0.5;
        double nv = wv;
        switch(how % 3)
        {
          case 0:
            weight.value(nv);
            break;
          case 1:
            weight = nv;
            break;
          default:
            weight = tvm::requirements::WeightBase<true>(nv);
            break;
        }
      }
      else if(m == 3)
      {
        av = av + 0.5;
        Eigen::VectorXd nv = Eigen::Vector2d(av, 2 * av);
        switch(how % 3)
        {
          case 0:
            aniso.value(nv);
            break;
          case 1:
            aniso = nv;
            break;
          default:
            aniso = tvm::requirements::AnisotropicWeightBase<true>(nv);
            break;
        }
      }
      else
        plain[m].run();
    }
    catch(const UserError &)
    {
      f.aborted = true;
    }
    --depth;
    top = f.up;
    if(m == 2 && depth == 0 && !f.aborted)
      c.check(weight.value() == wv, "requirement-value", "the weight does not hold the value given");
    if(m == 3 && depth == 0 && !f.aborted)
      c.check(aniso.value()[0] == av && aniso.value()[1] == 2 * av, "requirement-value",
              "the anisotropic weight does not hold the value given");
    if(!f.aborted)
      for(int id : f.before)
        if(live(id) && f.got[id] != 1)
          c.fail("callback-not-run", fmt("callback %d of manager %d was not run at a notification (form %d)", id, m, how));
    if(f.got.size() > 1)
      c.count("nontrivial");
    c.sig(hashStr("cb") ^ (f.got.size() * 131 + f.before.size() * 1009 + (uint64_t)depth * 7 + (uint64_t)m * 3
                           + (f.aborted ? 90001 : 0) + (vec.size() << 20)));
  }
  void act(const std::array<int64_t, 2> & s, int self)
  {
    int n = (int)cbs.size();
    switch(s[0] % 8)
    {
      case 1:
        unregister(self);
        break;
      case 2:
        unregister((int)(s[1] % n));
        break;
      case 3: // its own token dies
      {
        int k = tokenOf(self);
        if(k >= 0 && k < 100)
          destroy(k);
        break;
      }
      case 4:
        destroy((int)(s[1] % NT));
        break;
      case 5:
        for(int k = 0; k < 3; ++k)
          registerTo(top->mgr, (int)((s[1] + k) % NT), 1 + k % 2);
        break;
      case 6:
        notify((int)(s[1] % NM), (int)s[1]);
        break;
      case 7:
        c.count("fault.callback-throws");
        throw UserError{};
      default:
        break;
    }
  }
  void checkPairs()
  {
    for(int i = 0; i < NT; ++i)
    {
      if(!tok[i])
        continue;
      int m = mTok[i];
      bool paired = m <= -2 || m >= 0;
      c.check(tok[i]->isPaired() == paired, "pairing", fmt("token %d is %spaired", i, tok[i]->isPaired() ? "" : "not "));
      if(!paired)
        continue;
      c.check(tok[i]->otherPairElement().isPairedWith(*tok[i]), "pairing", fmt("token %d: partner elsewhere", i));
      c.check(tok[i]->isPairedWith(tok[i]->otherPairElement()), "pairing", "asymmetric");
      if(m <= -2)
        c.check(tok[i]->isPairedWith(*tok[-m - 2]) && &tok[i]->otherPairElement() == tok[-m - 2].get(), "pairing",
                fmt("token %d is not paired with %d", i, -m - 2));
      else
        for(int j = 0; j < NT; ++j)
          if(tok[j])
            c.check(&tok[i]->otherPairElement() != tok[j].get(), "pairing", "paired with a token of somebody else");
    }
    c.check(vec.size() == mVec.size(), "pairing");
    for(size_t i = 0; i < vec.size(); ++i)
    {
      c.check(vec[i].isPaired() == (mVec[i] >= 0), "pairing", fmt("stored token %d", (int)i));
      if(mVec[i] >= 0)
        c.check(vec[i].otherPairElement().isPairedWith(vec[i]), "pairing", fmt("stored token %d: partner elsewhere", (int)i));
    }
  }
};
enum CbK
{
  CB_REG,
  CB_NOTIFY,
  CB_UNREG,
  CB_DESTROY,
  CB_MOVE,
  CB_MOVEASSIGN,
  CB_PAIR,
  CB_SWAP,
  CB_VECPOP,
  CB_VECGROW,
  CB_VECERASE,
  CB_SCRIPT,
  CB_BADUNREG,
  CB_REPAIR
};
void genCb(Rng & r, Trace & t, bool thorough)
{
  t.cfg["heap"] = r.below(4);
  t.cfg["faults"] = r.chance(80);
  const int K = 14;
  int pk[K];
  int base[K] = {30, 35, 8, 6, 8, 8, 5, 4, 3, 3, 4, 15, 2, 2};
  int tot = 0;
  for(int k = 0; k < K; ++k)
  {
    pk[k] = r.chance(20) && k > 1 ? 0 : (int)r.range(base[k] / 2, base[k] * 2);
    if(!t.cfg["faults"] && (k == CB_DESTROY || k == CB_SCRIPT))
      pk[k] = 0;
    tot += pk[k];
  }
  int n = (int)r.range(10, thorough ? 150 : 70);
  int nm = (int)r.range(1, 4), nt = (int)r.range(2, 12), off = (int)r.below(4);
  for(int i = 0; i < n; ++i)
  {
    int64_t x = r.below(tot);
    int k = 0;
    while(x >= pk[k])
      x -= pk[k++];
    Op o;
    o.kind = k;
    o.actor = (int)((off + r.below(nm)) % 4);
    o.a = {r.below(nt), r.below(nt), r.below(6)};
    if(k == CB_SCRIPT)
    {
      o.a = {r.big() % 64, r.range(1, 6), r.below(24)};
      if(r.chance(10))
        o.a[1] = 7;
    }
    t.ops.push_back(o);
  }
  for(int m = 0; m < 4; ++m)
    t.ops.push_back({CB_NOTIFY, m, {0, 0, r.below(3)}});
}
void runCb(const Trace & t, Ctx & c)
{
  heap::begin((int)t.c("heap"), t.seed);
  auto W = std::make_unique<CbWorld>(c);
  CbWorld & w = *W;
  const int NT = CbWorld::NT;
  int i = 0;
  for(const auto & o : t.ops)
  {
    c.sh->opIndex = i++;
    c.sh->hash = c.hash;
    ++c.sh->opsRun;
    int m = o.actor % 4, a = (int)(o.arg(0) % NT), b = (int)(o.arg(1) % NT);
    switch(o.kind)
    {
      case CB_REG:
        w.registerTo(m, a, (int)o.arg(2));
        break;
      case CB_NOTIFY:
        c.count("op.notify");
        w.notify(m, (int)o.arg(2));
        break;
      case CB_UNREG:
        if(!w.cbs.empty())
          w.unregister((int)((o.arg(0) * 7 + o.arg(1)) % (int64_t)w.cbs.size()));
        break;
      case CB_DESTROY:
        w.destroy(a);
        break;
      case CB_MOVE: // move construction
        if(w.tok[a] && a != b)
        {
          c.count("op.move-construct");
          w.destroy(b);
          int p = w.mTok[a];
          w.tok[b] = std::make_unique<PairElementToken>(std::move(*w.tok[a]));
          w.mTok[b] = p;
          if(p <= -2)
            w.mTok[-p - 2] = -(b + 2);
          w.mTok[a] = -1;
        }
        break;
      case CB_MOVEASSIGN:
        if(w.tok[a] && w.tok[b] && a != b && w.mTok[a] != -(b + 2))
        {
          c.count("op.move-assign");
          w.lost(w.mTok[b]);
          int p = w.mTok[a];
          *w.tok[b] = std::move(*w.tok[a]);
          w.mTok[b] = p;
          if(p <= -2)
            w.mTok[-p - 2] = -(b + 2);
          w.mTok[a] = -1;
        }
        break;
      case CB_PAIR:
      {
        if(a == b)
          break;
        for(int k : {a, b})
          if(!w.tok[k])
          {
            w.tok[k] = std::make_unique<PairElementToken>();
            w.mTok[k] = -1;
          }
        bool possible = w.mTok[a] == -1 && w.mTok[b] == -1;
        c.count("op.pair");
        bool threw = false;
        try
        {
          w.tok[a]->pairWith(*w.tok[b]);
        }
        catch(const std::runtime_error &)
        {
          threw = true;
        }
        c.check(threw == !possible, "pairing", fmt("pairWith %s", threw ? "refused" : "accepted"));
        if(possible)
        {
          w.mTok[a] = -(b + 2);
          w.mTok[b] = -(a + 2);
        }
        break;
      }
      case CB_SWAP:
        if(w.tok[a] && w.tok[b] && a != b && w.mTok[a] != -(b + 2))
        {
          c.count("op.swap");
          std::swap(*w.tok[a], *w.tok[b]);
          std::swap(w.mTok[a], w.mTok[b]);
          for(int k : {a, b})
            if(w.mTok[k] <= -2)
              w.mTok[-w.mTok[k] - 2] = -(k + 2);
        }
        break;
      case CB_VECPOP:
        if(!w.vec.empty())
        {
          c.count("fault.token-death");
          w.mVec.pop_back();
          w.vec.pop_back();
        }
        break;
      case CB_VECGROW:
        if(w.tok[a] && w.mTok[a] >= -1)
        {
          c.count("op.store-token");
          int p = w.mTok[a];
          w.vec.push_back(std::move(*w.tok[a]));
          w.mVec.push_back(p);
          w.mTok[a] = -1;
        }
        break;
      case CB_VECERASE:
        if(!w.vec.empty())
        {
          c.count("op.erase-token");
          size_t k = (size_t)(o.arg(0) * 5 + o.arg(1)) % w.vec.size();
          w.mVec.erase(w.mVec.begin() + (long)k);
          w.vec.erase(w.vec.begin() + (long)k);
        }
        break;
      case CB_SCRIPT:
        if(!w.cbs.empty())
          w.scripts[(int)(o.arg(0) % (int64_t)w.cbs.size())].push_back({o.arg(1), o.arg(2)});
        break;
      case CB_BADUNREG: // unregistering a token that designates no callback of this manager is refused
        if(w.tok[a] && !(w.mTok[a] >= 0 && w.cbs[(size_t)w.mTok[a]].mgr == m))
        {
          c.count("fault.invalid-unregister");
          bool threw = false;
          try
          {
            w.mgr(m).unregisterCallback(*w.tok[a]);
          }
          catch(const std::exception &)
          {
            threw = true;
          }
          c.check(threw, "invalid-unregister-accepted");
        }
        break;
      case CB_REPAIR: // destroy then re-create at the same place
        w.destroy(a);
        w.tok[a] = std::make_unique<PairElementToken>();
        w.mTok[a] = -1;
        break;
    }
    w.checkPairs();
  }
  // managers die before or after the tokens
  if(t.ops.size() % 2)
  {
    for(auto & k : w.tok)
      k.reset();
    w.vec.clear();
  }
  W.reset();
  heap::end();
}
WorldReg regCb({"callbacks",
                genCb,
                runCb,
                {"register", "notify", "unregister", "destroy-token", "move-construct", "move-assign", "pair", "swap", "vec-pop",
                 "vec-store", "vec-erase", "script", "bad-unregister", "recreate-token"},
                "tvm::internal::CallbackManager, PairElementToken, SingleSolvingRequirement (real code)",
                "the heap (simulated: placement and reuse decided by the seed, freed memory poisoned)",
                "a run is a seeded history of registrations, token moves/deaths, unregistrations and notifications, with scripts "
                "run from inside callbacks; non-trivial when a notification ran at least two callbacks; distinct by the hash of "
                "its event log",
                "distinct (callbacks run, callbacks live, nesting depth, manager, container size, aborted) tuples seen at a notification"});
PropReg propCb({"C09", "callbacks", 40000, 600000});
} // namespace
