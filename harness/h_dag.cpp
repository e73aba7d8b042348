// Drives precedence declarations and Scheduler::finalize. case <n> <gops> <early cycle detection> {kind phase}*n
// kinds: 1 Event, 2 UniqueEvent, 3 SingleCycleUniqueEvent, 4 PayloadEvent (all Tick), 5 PhasedUniqueEvent (any phase)
// link a b m (m: 0 precedes, 1 operator>>, 2 >> of unique_ptrs, 3 event >> unique_ptr, 4 unique_ptr >> event)
// glink mode a1 a2 b1 b2; unlink a b; fin; tick e...
#include "common.hpp"
#include "sparta_env.hpp"
#include "sparta/events/Event.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include "sparta/events/PayloadEvent.hpp"
#include "sparta/events/PhasedUniqueEvent.hpp"
#include "sparta/events/SingleCycleUniqueEvent.hpp"
#include "sparta/events/GlobalOrderingPoint.hpp"
#include "sparta/events/Precedence.hpp"
using namespace vh;
using sparta::SchedulingPhase;
using E1 = sparta::Event<SchedulingPhase::Tick>;
using E2 = sparta::UniqueEvent<SchedulingPhase::Tick>;
using E3 = sparta::SingleCycleUniqueEvent<SchedulingPhase::Tick>;
using E4 = sparta::PayloadEvent<Tracked, SchedulingPhase::Tick>;
using E5 = sparta::PhasedUniqueEvent;

template<class A, class B, class = void> struct CanPrec : std::false_type {};
template<class A, class B> struct CanPrec<A, B, std::void_t<decltype(std::declval<A&>() >> std::declval<B&>())>> : std::true_type {};

struct Ev {
    std::vector<long> * log; long idx, kind, phase;
    std::unique_ptr<E1> e1; std::unique_ptr<E2> e2; std::unique_ptr<E3> e3; std::unique_ptr<E4> e4; std::unique_ptr<E5> e5;
    void fire() { log->push_back(idx); }
    void firep(const Tracked &) { log->push_back(idx); }
    sparta::Scheduleable & s() { switch(kind) { case 1: return *e1; case 2: return *e2; case 3: return e3->getScheduleable(); case 4: return e4->getScheduleable(); default: return *e5; } }
    template<class F> void with(F && f) { switch(kind) { case 1: f(e1); break; case 2: f(e2); break; case 3: f(e3); break; case 4: f(e4); break; default: f(e5); } }
    void sched() { with([](auto & e) { using T = std::decay_t<decltype(*e)>;
        if constexpr(std::is_same_v<T, E4>) { Tracked t(1); e->preparePayload(t)->schedule(sparta::Clock::Cycle(1)); } else e->schedule(sparta::Clock::Cycle(1)); }); }
};

int main() {
    for(auto & c : read_cases()) {
        emit_case(c.params);
        auto & P = c.params;
        long n = P[0], g = P[1];
        Env env;
        if(P[2]) env.sched.getDAG()->enableEarlyCycleDetect();
        sparta::EventSet es(&env.rtn);
        std::vector<long> log;
        std::vector<std::unique_ptr<Ev>> ev;
        std::vector<std::unique_ptr<sparta::GlobalOrderingPoint>> gop;
        for(long i = 0; i < n; ++i) {
            auto e = std::make_unique<Ev>();
            e->log = &log; e->idx = i + 1; e->kind = P[3 + 2*i]; e->phase = P[4 + 2*i];
            std::string nm = "e" + std::to_string(i + 1);
            auto h = sparta::SpartaHandler::from_member<Ev, &Ev::fire>(e.get(), nm.c_str());
            auto hp = sparta::SpartaHandler::from_member_1<Ev, Tracked, &Ev::firep>(e.get(), nm.c_str());
            switch(e->kind) {
            case 1: e->e1.reset(new E1(&es, nm, h)); break;
            case 2: e->e2.reset(new E2(&es, nm, h)); break;
            case 3: e->e3.reset(new E3(&es, nm, h)); break;
            case 4: e->e4.reset(new E4(&es, nm, hp)); break;
            default: e->e5.reset(new E5(&es, nm, static_cast<SchedulingPhase>(e->phase), h)); break;
            }
            ev.push_back(std::move(e));
        }
        // ordering points are looked up by name: each use constructs its own
        auto G = [&](long i) { return sparta::GlobalOrderingPoint(&env.rtn, "gop" + std::to_string(i)); };
        for(long i = 0; i < g; ++i) G(n + 1 + i);
        env.rtn.enterConfiguring(); env.rtn.enterFinalized();
        bool fin = false;
        for(auto & op : c.ops) {
            if(op.o == "tick" && !fin) continue;
            auto r = guarded([&]() -> Ints {
                auto E = [&](size_t i) -> Ev & { return *ev.at(op.at(i) - 1); };
                if(op.o == "link") {
                    long a = op.at(0), b = op.at(1), m = op.at(2);
                    if(a > n && b > n) { if(fin) throw std::runtime_error("finalised"); env.sched.getDAG()->link(G(a).getGOPoint(), G(b).getGOPoint()); return {}; }
                    if(a > n) { if(m == 0) G(a).getGOPoint()->precedes(E(1).s()); else E(1).with([&](auto & e) { G(a) >> *e; }); return {}; }
                    if(b > n) { if(m == 0) E(0).s().precedes(*G(b).getGOPoint()); else E(0).with([&](auto & e) { *e >> G(b); }); return {}; }
                    if(m == 0) { E(0).s().precedes(E(1).s()); return {}; }
                    bool five = E(0).kind == 5 || E(1).kind == 5;
                    if(five) { E(0).s() >> E(1).s(); return {}; }
                    bool done = false;
                    E(0).with([&](auto & x) { E(1).with([&](auto & y) {
                        using X = std::decay_t<decltype(*x)>; using Y = std::decay_t<decltype(*y)>;
                        if constexpr(!std::is_same_v<X, E5> && !std::is_same_v<Y, E5>) {
                            if constexpr(CanPrec<X, Y>::value) {
                                done = true;
                                if(m == 1) *x >> *y; else if(m == 2) x >> y; else if(m == 3) *x >> y; else x >> *y;
                            }
                        }
                    }); });
                    if(!done) E(0).s().precedes(E(1).s());
                    return {};
                }
                if(op.o == "glink") {
                    long mode = op.at(0);
                    using sparta::EventGroup;
                    auto grp = [&](Ev & a, Ev & b) -> EventGroup {
                        std::unique_ptr<EventGroup> r;
                        a.with([&](auto & x) { b.with([&](auto & y) {
                            using X = std::decay_t<decltype(*x)>; using Y = std::decay_t<decltype(*y)>;
                            constexpr bool bad = std::is_same_v<X, E5> || std::is_same_v<Y, E5> || std::is_same_v<X, E3> || std::is_same_v<Y, E3>;
                            if constexpr(!bad) r.reset(new EventGroup(*x, *y));
                        }); });
                        if(!r) bad_op(op);
                        return *r; };
                    if(mode == 0) { grp(E(1), E(2)) >> grp(E(3), E(4)); }
                    else if(mode == 1) { auto gr = grp(E(1), E(2)); if(E(3).kind == 1) gr >> *E(3).e1; else if(E(3).kind == 2) gr >> *E(3).e2; else bad_op(op); }
                    else { auto gr = grp(E(3), E(4)); if(E(1).kind == 1) *E(1).e1 >> gr; else if(E(1).kind == 2) *E(1).e2 >> gr; else bad_op(op); }
                    return {};
                }
                if(op.o == "unlink") return {(long)E(0).s().unlink(&E(1).s())};
                if(op.o == "fin") { env.sched.finalize(); fin = true; return {}; }
                if(op.o == "tick") { log.clear(); for(long x : op.a) ev.at(x - 1)->sched(); env.sched.run(2, true, false); return log; }
                bad_op(op);
            });
            emit(op, r.first.c_str(), r.second);
        }
        env.sched.clearEvents();
    }
}
