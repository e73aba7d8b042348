// A minimal sparta environment (scheduler, clock, tree) for one case.
#pragma once
#include <memory>
#include <string>
#include "sparta/sparta.hpp"
#include "sparta/kernel/Scheduler.hpp"
#include "sparta/simulation/Clock.hpp"
#include "sparta/simulation/ClockManager.hpp"
#include "sparta/simulation/RootTreeNode.hpp"
#include "sparta/simulation/TreeNode.hpp"
#include "sparta/events/EventSet.hpp"
#include "sparta/statistics/StatisticSet.hpp"

namespace vh {

// A value whose live instances are counted
struct Tracked {
    static long & live() { static long n = 0; return n; }
    long v = 0;
    const Tracked * self = this;      // an object that is moved bit by bit is noticed when it is destroyed
    long pad[2] = {0, 0};
    Tracked() { ++live(); }
    explicit Tracked(long x) : v(x) { pad[0] = pad[1] = x; ++live(); }
    Tracked(const Tracked & o) : v(o.v) { pad[0] = o.pad[0]; pad[1] = o.pad[1]; ++live(); }
    Tracked(Tracked && o) : v(o.v) { pad[0] = o.pad[0]; pad[1] = o.pad[1]; o.v = -777; ++live(); }
    Tracked & operator=(const Tracked & o) { v = o.v; pad[0] = o.pad[0]; pad[1] = o.pad[1]; return *this; }
    Tracked & operator=(Tracked && o) { v = o.v; pad[0] = o.pad[0]; pad[1] = o.pad[1]; if(&o != this) o.v = -777; return *this; }
    ~Tracked() { v = -888; if(self != this) live() += 1000000; self = nullptr; --live(); }
    bool operator==(const Tracked & o) const { return v == o.v; }
    bool operator<(const Tracked & o) const { return v < o.v; }
    friend std::ostream & operator<<(std::ostream & os, const Tracked & t) { return os << t.v; }
};

struct Env {
    std::unique_ptr<sparta::Scheduler> sched_p;
    std::unique_ptr<sparta::Clock> clk_p;
    std::unique_ptr<sparta::RootTreeNode> rtn_p;
    sparta::Scheduler & sched;
    sparta::Clock * clk;
    sparta::RootTreeNode & rtn;
    Env() :
        sched_p(new sparta::Scheduler()),
        clk_p(new sparta::Clock("clk", sched_p.get())),
        rtn_p(new sparta::RootTreeNode()),
        sched(*sched_p), clk(clk_p.get()), rtn(*rtn_p)
    {
        rtn.setClock(clk);
    }
    bool entered = false;
    void finalize() { rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize(); entered = true; }
    ~Env() { rtn.enterTeardown(); rtn_p.reset(); clk_p.reset(); sched_p.reset(); }
};

} // namespace vh
