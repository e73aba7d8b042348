// Drives sparta::Scheduler and the event classes. case <n> {kind phase continuing period}*n <gops> <edges> {a b}* <slots>
// Ops between "h" and "hend" form the next handler block; every firing event executes one block.
#include "common.hpp"
#include "sparta_env.hpp"
#include "sparta/events/Event.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include "sparta/events/PayloadEvent.hpp"
#include "sparta/events/PhasedUniqueEvent.hpp"
#include "sparta/events/SingleCycleUniqueEvent.hpp"
#include "sparta/events/PhasedPayloadEvent.hpp"
#include "sparta/events/GlobalOrderingPoint.hpp"
#include "sparta/events/Precedence.hpp"
#include <optional>
#include <map>
using namespace vh;
using sparta::SchedulingPhase;

struct Sim;
struct Slot {                       // one event of the configuration
    Sim * sim; long idx, kind, phase, cont, per;
    sparta::Clock * clk = nullptr;
    std::unique_ptr<sparta::RootTreeNode> dummy;
    std::unique_ptr<sparta::PhasedUniqueEvent> u;
    std::unique_ptr<sparta::PhasedSingleCycleUniqueEvent> sc;
    std::unique_ptr<sparta::PhasedPayloadEvent<Tracked>> p;
    std::shared_ptr<void> evn;
    sparta::Scheduleable * s = nullptr;
    void fire();
    void firep(const Tracked & t);
};

struct Sim {
    sparta::Scheduler sched;
    std::unique_ptr<sparta::Clock> root;
    std::map<long, std::unique_ptr<sparta::Clock>> clks;
    sparta::RootTreeNode rtn;
    std::map<long, std::unique_ptr<sparta::TreeNode>> nodes;
    std::map<long, std::unique_ptr<sparta::EventSet>> sets;
    std::vector<std::unique_ptr<Slot>> ev;
    std::vector<std::unique_ptr<sparta::GlobalOrderingPoint>> gops;
    std::vector<std::optional<sparta::ScheduleableHandle>> hs;
    std::vector<std::vector<Op>> blocks; size_t bi = 0;
    bool inhand = false;
    long base = 0;

    St st() {
        St s;
        auto nxt = [&]() -> long { if(sched.isRunning() || inhand) return -2; auto t = sched.nextEventTick();
            return t == sparta::Scheduler::INDEFINITE ? -1 : (long)t; };
        s.add("cur", (long)sched.getCurrentTick()).add("el", (long)sched.getElapsedTicks()).add("fin", (int)sched.isFinished())
         .add("run", (int)sched.isRunning()).add("nxt", nxt()).add("live", Tracked::live() - base)
         .add("ph", (long)sched.getCurrentSchedulingPhase());
        return s;
    }
    void exec(const Op & op) {
        // operations on an empty handle slot are skipped
        if((op.o == "hsched" || op.o == "hcancel") && !hs.at(op.at(0))) return;
        auto r = guarded([&]() -> Ints {
            const auto & o = op.o;
            auto E = [&](size_t i) -> Slot & { return *ev.at(op.at(i) - 1); };
            if(o == "sched") { auto & e = E(0); if(e.kind == 3) e.sc->schedule(op.at(1)); else e.s->schedule((sparta::Clock::Cycle)op.at(1)); return {}; }
            if(o == "schedt") { E(0).s->scheduleRelativeTick(op.at(1), &sched); return {}; }
            if(o == "pay") { Tracked t(op.at(1)); E(0).p->preparePayload(t)->schedule((sparta::Clock::Cycle)op.at(2)); return {}; }
            if(o == "prep") { Tracked t(op.at(1)); sparta::ScheduleableHandle h = E(0).p->preparePayload(t); auto & s = hs.at(op.at(2)); if(s) *s = h; else s = h; return {}; }
            if(o == "hsched") { (*hs.at(op.at(0)))->schedule((sparta::Clock::Cycle)op.at(1)); return {}; }
            if(o == "hdrop") { hs.at(op.at(0)).reset(); return {}; }
            if(o == "hcopy") { auto & d = hs.at(op.at(0)); auto & s = hs.at(op.at(1)); if(!s) d.reset(); else if(d) *d = *s; else d = *s; return {}; }
            if(o == "hmove") { auto & d = hs.at(op.at(0)); auto & s = hs.at(op.at(1)); d.reset(); if(s) { d.emplace(std::move(*s)); s.reset(); } return {}; }
            if(o == "hcancel") { (*hs.at(op.at(0)))->cancel(); return {}; }
            if(o == "cancel") { auto & e = E(0); if(e.kind == 4) return {(long)e.p->cancel()}; if(e.kind == 3) e.sc->cancel(); else e.s->cancel(); return {}; }
            if(o == "cancelat") { auto & e = E(0); if(e.kind == 4) return {(long)e.p->cancel(op.at(1))}; e.s->cancel(op.at(1)); return {}; }
            if(o == "cancelif") { auto & e = E(0); if(op.at(1) & 1) { long v = op.at(1); return {(long)e.p->cancelIf([v](const Tracked & t){ return t.v == v; })}; }
                                  Tracked t(op.at(1)); return {(long)e.p->cancelIf(t)}; }
            if(o == "issch") { auto & e = E(0); if(e.kind == 4) return {(long)e.p->isScheduled()}; if(e.kind == 3) return {(long)e.sc->isScheduled()}; return {(long)e.s->isScheduled()}; }
            if(o == "isschat") { auto & e = E(0); if(e.kind == 4) return {(long)e.p->isScheduled(op.at(1))}; return {(long)e.s->isScheduled(op.at(1))}; }
            if(o == "nout") return {(long)E(0).p->getNumOutstandingEvents()};
            if(o == "getif") { Tracked t(op.at(1)); return {(long)E(0).p->getHandleIf(t).size()}; }
            if(o == "confirm") { Tracked t(op.at(1)); return {(long)E(0).p->confirmIf(t)}; }
            if(o == "stop") { sched.stopRunning(); return {}; }
            if(o == "clear") { sched.clearEvents(); return {}; }
            if(o == "restart") { sched.restartAt(op.at(0)); return {}; }
            bad_op(op);
        });
        emit(op, r.first.c_str(), r.second, st());
    }
    void fired(long e, long v) {
        inhand = true;
        emit(Op{"fire", {e, v}}, "ok", {}, st());
        if(bi < blocks.size()) { size_t b = bi++; for(auto & op : blocks[b]) exec(op); }
    }
    void hend(long v) { inhand = false; emit(Op{"hend", {v}}, "ok", {}, st()); }
};
void Slot::fire() { sim->fired(idx, 0); sim->hend(0); }
void Slot::firep(const Tracked & t) { sim->fired(idx, t.v); sim->hend(t.v); }   // the payload as the handler sees it at its end

int main() {
    for(auto & c : read_cases()) {
        emit_case(c.params);
        auto & P = c.params;
        long n = P[0];
        Tracked::live() = 0;
        {
            Sim sim;
            sim.root.reset(new sparta::Clock("root", &sim.sched));
            sim.rtn.setClock(sim.root.get());
            // one clock and node per distinct period
            for(long i = 0; i < n; ++i) {
                long per = P[4 + 4*i];
                if(sim.clks.count(per)) continue;
                auto ck = std::make_unique<sparta::Clock>("clk" + std::to_string(per), &sim.sched);
                ck->setPeriod(per);
                auto nd = std::make_unique<sparta::TreeNode>(&sim.rtn, "n" + std::to_string(per), "d");
                nd->setClock(ck.get());
                sim.sets[per] = std::make_unique<sparta::EventSet>(nd.get());
                sim.nodes[per] = std::move(nd); sim.clks[per] = std::move(ck);
            }
            for(long i = 0; i < n; ++i) {
                auto s = std::make_unique<Slot>();
                s->sim = &sim; s->idx = i + 1; s->kind = P[1 + 4*i]; s->phase = P[2 + 4*i]; s->cont = P[3 + 4*i]; s->per = P[4 + 4*i];
                auto * es = sim.sets[s->per].get();
                auto ph = static_cast<SchedulingPhase>(s->phase);
                std::string nm = "e" + std::to_string(i + 1);
                auto h = sparta::SpartaHandler::from_member<Slot, &Slot::fire>(s.get(), nm.c_str());
                Slot * sp = s.get();
                switch(s->kind) {
                case 1: {
                    auto mk = [&](auto tag) { using EvT = sparta::Event<decltype(tag)::value>; auto e = std::make_shared<EvT>(es, nm, h); sp->s = e.get(); sp->evn = e; };
                    switch(ph) {
                        case SchedulingPhase::Trigger: mk(std::integral_constant<SchedulingPhase, SchedulingPhase::Trigger>()); break;
                        case SchedulingPhase::Update: mk(std::integral_constant<SchedulingPhase, SchedulingPhase::Update>()); break;
                        case SchedulingPhase::PortUpdate: mk(std::integral_constant<SchedulingPhase, SchedulingPhase::PortUpdate>()); break;
                        case SchedulingPhase::Flush: mk(std::integral_constant<SchedulingPhase, SchedulingPhase::Flush>()); break;
                        case SchedulingPhase::Collection: mk(std::integral_constant<SchedulingPhase, SchedulingPhase::Collection>()); break;
                        case SchedulingPhase::Tick: mk(std::integral_constant<SchedulingPhase, SchedulingPhase::Tick>()); break;
                        default: mk(std::integral_constant<SchedulingPhase, SchedulingPhase::PostTick>()); break;
                    }
                    break; }
                case 2: s->u.reset(new sparta::PhasedUniqueEvent(es, nm, ph, h)); s->s = s->u.get(); break;
                case 3: s->sc.reset(new sparta::PhasedSingleCycleUniqueEvent(es, nm, ph, h)); s->s = &s->sc->getScheduleable(); break;
                case 4: {
                    auto hp = sparta::SpartaHandler::from_member_1<Slot, Tracked, &Slot::firep>(s.get(), nm.c_str());
                    s->p.reset(new sparta::PhasedPayloadEvent<Tracked>(es, nm, ph, hp)); s->s = &s->p->getScheduleable(); break; }
                default: std::exit(3);
                }
                if(s->kind == 3) s->sc->setContinuing(s->cont); else if(s->kind == 4) s->p->setContinuing(s->cont); else s->s->setContinuing(s->cont);
                sim.ev.push_back(std::move(s));
            }
            long g = P[1 + 4*n], m = P[2 + 4*n];
            for(long i = 0; i < g; ++i) sim.gops.emplace_back(new sparta::GlobalOrderingPoint(&sim.rtn, "gop" + std::to_string(i)));
            for(long j = 0; j < m; ++j) {
                long a = P[3 + 4*n + 2*j], b = P[4 + 4*n + 2*j];
                if(a <= n && b <= n) sim.ev[a-1]->s->precedes(*sim.ev[b-1]->s);
                else sim.sched.getDAG()->link(a <= n ? sim.ev[a-1]->s->getVertex() : sim.gops[a-n-1]->getGOPoint(),
                                              b <= n ? sim.ev[b-1]->s->getVertex() : sim.gops[b-n-1]->getGOPoint());
            }
            sim.hs.resize(P.back());
            sim.rtn.enterConfiguring(); sim.rtn.enterFinalized(); sim.sched.finalize();
            sim.base = Tracked::live();
            // split into top-level ops and handler blocks
            std::vector<Op> top; std::vector<Op> * blk = nullptr;
            for(auto & op : c.ops) {
                if(op.o == "h") { sim.blocks.emplace_back(); blk = &sim.blocks.back(); }
                else if(op.o == "hend") blk = nullptr;
                else if(blk) blk->push_back(op);
                else top.push_back(op);
            }
            for(auto & op : top) {
                if(op.o != "run") { sim.exec(op); continue; }
                long n = op.at(0);
                // emitted as running, since what follows happens inside
                if(n == 0) { sim.sched.run(0, op.at(1), false); emit(op, "ok", {}, sim.st()); continue; }
                { St s = sim.st(); auto x = s.s; auto p = x.find("\"run\":0"); if(p != std::string::npos) x[p + 6] = '1'; s.s = x; emit(op, "ok", {}, s); }
                auto r = guarded([&]() -> Ints { sim.sched.run(n < 0 ? sparta::Scheduler::INDEFINITE : (sparta::Scheduler::Tick)n, op.at(1), false); return {}; });
                emit(Op{"runend", {(long)sim.sched.getCurrentTick()}}, r.first.c_str(), {}, sim.st());
            }
            sim.hs.clear();
            sim.sched.clearEvents();
            sim.rtn.enterTeardown();
        }
    }
}
