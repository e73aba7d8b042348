// Synchronising ports. case L (ps pr hd rv ready)*L
//   e t ... end / l t ... end: operations of tick t before / after all deliveries; run n
#include <map>
#include "common.hpp"
#include "sparta_env.hpp"
#include "sparta/events/Event.hpp"
#include "sparta/ports/SyncPort.hpp"
#include "sparta/ports/PortSet.hpp"
using namespace vh;
using P_ = sparta::SchedulingPhase;

struct Sim;
struct Link {
    Sim * sim; long idx;
    std::unique_ptr<sparta::SyncOutPort<Tracked>> out; std::unique_ptr<sparta::SyncInPort<Tracked>> in;
    void rx(const Tracked & t);
};
struct Sim {
    Env env;
    std::map<long, std::unique_ptr<sparta::Clock>> clks;
    std::map<long, std::unique_ptr<sparta::TreeNode>> nds; std::map<long, std::unique_ptr<sparta::PortSet>> ps;
    std::unique_ptr<sparta::EventSet> es;
    std::vector<std::unique_ptr<Link>> links;
    std::unique_ptr<sparta::Event<P_::Trigger>> early;
    std::unique_ptr<sparta::Event<P_::PostTick>> late;
    std::map<long, std::vector<Op>> eb, lb;
    bool first = true; std::string err;
    void exec(const Op & op) {
        auto r = guarded([&]() -> Ints {
            auto & k = *links.at(op.at(0) - 1); auto & o = op.o;
            if(o == "send") { Tracked t(op.at(1)); long d = op.at(2);
                if(op.at(3)) return {(long)(d ? k.out->sendAndAllowSlide(t, d) : k.out->sendAndAllowSlide(t))};
                return {(long)(d ? k.out->send(t, d) : k.out->send(t))}; }
            if(o == "try") { if(!k.out->isReady()) return {-1}; return {(long)k.out->send(Tracked(op.at(1)))}; }
            if(o == "isready") return {k.out->isReady()};
            if(o == "readyps") return {k.out->isReadyPS()};
            if(o == "setready") { k.in->setReady(op.at(1)); return {}; }
            if(o == "next") return {(long)k.out->computeNextAvailableCycleForSend(op.at(1), op.at(2))};
            if(o == "idriven") return {op.at(1) < 0 ? k.in->isDriven() : k.in->isDriven(op.at(1))};
            if(o == "odriven") return {op.at(1) < 0 ? k.out->isDriven() : k.out->isDriven(op.at(1))};
            if(o == "dq") { auto & c = *k.in; bool r = c.dataReceived(); return {r, c.dataReceivedThisCycle(), r ? c.peekData().v : -1}; }
            if(o == "pull") return {k.in->pullData().v};
            bad_op(op);
        });
        emit(op, r.first.c_str(), r.second);
    }
    void block(std::map<long, std::vector<Op>> & m) { auto it = m.find(env.sched.getCurrentTick()); if(it != m.end()) for(auto & op : it->second) exec(op); }
    void onEarly() {
        long t = env.sched.getCurrentTick();
        if(!first) emit(Op{"beat", {}}, "ok", {t});
        first = false;
        early->scheduleRelativeTick(1, &env.sched); late->scheduleRelativeTick(0, &env.sched);
        block(eb);
    }
    void onLate() { emit(Op{"late", {}}, "ok", {(long)env.sched.getCurrentTick()}); block(lb); }
};
void Link::rx(const Tracked & t) { emit(Op{"rx", {idx}}, "ok", {t.v, (long)sim->env.sched.getCurrentTick()}); }

int main() {
    for(auto & c : read_cases()) {
        emit_case(c.params);
        Sim s; auto & P = c.params;
        auto portset = [&](long per) {
            if(!s.ps.count(per)) {
                s.clks[per].reset(new sparta::Clock("clk" + std::to_string(per), &s.env.sched)); s.clks[per]->setPeriod(per);
                s.nds[per].reset(new sparta::TreeNode(&s.env.rtn, "n" + std::to_string(per), "d")); s.nds[per]->setClock(s.clks[per].get());
                s.ps[per].reset(new sparta::PortSet(s.nds[per].get()));
            }
            return s.ps[per].get();
        };
        s.es.reset(new sparta::EventSet(&s.env.rtn));
        for(long i = 0; i < P[0]; ++i) {
            auto k = std::make_unique<Link>(); k->sim = &s; k->idx = i + 1;
            long a = P[1 + 5*i], b = P[2 + 5*i], hd = P[3 + 5*i], rdy = P[5 + 5*i];
            auto po = portset(a), pi = portset(b);
            k->out.reset(new sparta::SyncOutPort<Tracked>(po, "out" + std::to_string(i), s.clks[a].get(), i % 2));
            k->in.reset(i % 2 ? new sparta::SyncInPort<Tracked>(pi, "in" + std::to_string(i), s.clks[b].get(), P_::Tick)
                              : new sparta::SyncInPort<Tracked>(pi, "in" + std::to_string(i), s.clks[b].get()));
            if(hd % 2) k->in->setPortDelay(hd / 2.0); else if(hd) k->in->setPortDelay((sparta::Clock::Cycle)(hd / 2));
            if(!rdy || i % 2) k->in->setInitialReadyState(rdy);
            k->in->registerConsumerHandler(sparta::SpartaHandler::from_member_1<Link, Tracked, &Link::rx>(k.get(), "rx"));
            if(i % 2) k->out->bind(*k->in); else k->in->bind(*k->out);
            s.links.push_back(std::move(k));
        }
        s.early.reset(new sparta::Event<P_::Trigger>(s.es.get(), "early", sparta::SpartaHandler::from_member<Sim, &Sim::onEarly>(&s, "e")));
        s.late.reset(new sparta::Event<P_::PostTick>(s.es.get(), "late", sparta::SpartaHandler::from_member<Sim, &Sim::onLate>(&s, "l")));
        s.env.finalize();
        s.early->scheduleRelativeTick(0, &s.env.sched);
        std::vector<Op> * b = nullptr;
        for(auto & op : c.ops) {
            if(op.o == "e") b = &s.eb[op.at(0)];
            else if(op.o == "l") b = &s.lb[op.at(0)];
            else if(op.o == "end") b = nullptr;
            else if(b) b->push_back(op);
            else if(op.o == "run") {
                try { s.env.sched.run(op.at(0), true); }
                catch(const std::exception & e) { emit(Op{"stuck", {}}, "exc", {}); break; }
            }
            else bad_op(op);
        }
    }
}
