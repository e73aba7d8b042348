// Clock trees. case mode n (parent ratio_parent ratio_child | parent freq 0)*n
//   at | conv i x | cross s d a b | rev x s d a b | run n | h t ... hend (done in the handler of tick t)
#include <map>
#include "common.hpp"
#include "sparta_env.hpp"
#include "sparta/events/Event.hpp"
#include "sparta/simulation/ClockManager.hpp"
using namespace vh;

struct Sim {
    sparta::Scheduler sched; sparta::RootTreeNode rtn; sparta::ClockManager cm{&sched};
    std::vector<sparta::Clock::Handle> ck;
    std::unique_ptr<sparta::EventSet> es;
    std::unique_ptr<sparta::Event<sparta::SchedulingPhase::Tick>> beat;
    std::map<long, std::vector<Op>> blocks;
    bool first = false;
    void exec(const Op & op) {
        auto r = guarded([&]() -> Ints {
            auto C = [&](size_t i) { return ck.at(op.at(i) - 1).get(); };
            if(op.o == "at") {
                Ints v{(long)sched.getCurrentTick()};
                for(auto & c : ck) { v.push_back(c->currentCycle()); v.push_back(c->elapsedCycles()); v.push_back(c->isPosedge()); }
                return v;
            }
            if(op.o == "conv") { auto c = C(0); uint64_t x = op.at(1);
                return {(long)c->getTick(x), (long)c->getCycle(c->getTick(x)), (long)c->getCycle(x), (long)c->getAbsoluteTick(x + 1)}; }
            if(op.o == "cross") return {(long)sparta::calculateClockCrossingDelay(op.at(2), C(0), op.at(3), C(1))};
            if(op.o == "rev") return {(long)sparta::calculateReverseClockCrossingDelay(op.at(0), op.at(3), C(1), op.at(4), C(2))};
            bad_op(op);
        });
        emit(op, r.first.c_str(), r.second);
    }
    void onBeat() {
        if(!first) emit(Op{"beat", {}}, "ok", {});
        first = false;
        beat->scheduleRelativeTick(1, &sched);
        auto it = blocks.find(sched.getCurrentTick());
        if(it != blocks.end()) for(auto & op : it->second) exec(op);
    }
};

int main() {
    for(auto & c : read_cases()) {
        emit_case(c.params);
        Sim s; auto & P = c.params;
        auto root = s.cm.makeRoot(&s.rtn);
        s.ck.push_back(root);
        for(long i = 0; i < P[1]; ++i) {
            long p = P[2 + 3*i], a = P[3 + 3*i], b = P[4 + 3*i];
            auto nm = "c" + std::to_string(i);
            auto h = P[0] ? s.cm.makeClock(nm, s.ck.at(p - 1), (double)a)
                          : (a == 1 && b == 1 && i % 2) ? s.cm.makeClock(nm, s.ck.at(p - 1)) : s.cm.makeClock(nm, s.ck.at(p - 1), a, b);
            s.ck.push_back(h);
        }
        auto r = guarded([&]() -> Ints { s.cm.normalize(); Ints v; for(auto & k : s.ck) v.push_back(k->getPeriod()); return v; });
        s.rtn.setClock(root.get());
        sparta::TreeNode nd(&s.rtn, "n", "d"); nd.setClock(root.get());
        s.es.reset(new sparta::EventSet(&nd));
        s.beat.reset(new sparta::Event<sparta::SchedulingPhase::Tick>(s.es.get(), "beat", sparta::SpartaHandler::from_member<Sim, &Sim::onBeat>(&s, "b")));
        s.rtn.enterConfiguring(); s.rtn.enterFinalized(); s.sched.finalize();
        emit(Op{"norm", {}}, r.first.c_str(), r.second);
        s.beat->scheduleRelativeTick(0, &s.sched);
        std::vector<Op> top; std::vector<Op> * blk = nullptr;
        for(auto & op : c.ops) {
            if(op.o == "h") blk = &s.blocks[op.at(0)];
            else if(op.o == "hend") blk = nullptr;
            else if(blk) blk->push_back(op);
            else top.push_back(op);
        }
        for(auto & op : top) {
            if(op.o != "run") { s.exec(op); continue; }
            emit(op, "ok", {});
            s.first = true;
            auto q = guarded([&]() -> Ints { s.sched.run(op.at(0), true, false); return {}; });
            emit(Op{"runend", {}}, q.first.c_str(), {});
        }
        s.sched.clearEvents();
        s.rtn.enterTeardown();
    }
}
