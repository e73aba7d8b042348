// Data and signal ports.
// case NI NO ND NB NP NC (sig ph delay period)*NI (sig presume_zero)*NO phase*ND (out in)*NB (out drv)*NP (in drv)*NC
#include <map>
#include "common.hpp"
#include "sparta_env.hpp"
#include "sparta/events/Event.hpp"
#include "sparta/ports/DataPort.hpp"
#include "sparta/ports/SignalPort.hpp"
#include "sparta/ports/PortSet.hpp"
using namespace vh;
using sparta::SchedulingPhase;

struct Sim;
struct Node {                      // an in port or a driver
    Sim * sim = nullptr; long idx = 0; bool isin = false, sig = false;
    std::unique_ptr<sparta::DataInPort<Tracked>> di; std::unique_ptr<sparta::SignalInPort> si;
    std::shared_ptr<void> keep; sparta::Scheduleable * drv = nullptr;
    void data(const Tracked & t); void signal(); void fire();
};
struct Out { bool sig; std::unique_ptr<sparta::DataOutPort<Tracked>> d; std::unique_ptr<sparta::SignalOutPort> s; };

struct Sim {
    Env env;
    std::map<long, std::unique_ptr<sparta::Clock>> clks;
    std::map<long, std::unique_ptr<sparta::TreeNode>> nds; std::map<long, std::unique_ptr<sparta::PortSet>> ps;
    std::unique_ptr<sparta::EventSet> es;
    std::vector<std::unique_ptr<Node>> nodes; std::vector<Out> outs;
    long ni = 0;
    std::vector<std::vector<Op>> blocks; size_t bi = 0;
    St st() { St s; s.add("cur", (long)env.sched.getCurrentTick()); return s; }
    void handler(long e, long v) {
        emit(Op{"begin", {e, v}}, "ok", {}, st());
        if(bi < blocks.size()) { size_t b = bi++; for(auto & op : blocks[b]) exec(op); }
        emit(Op{"end", {}}, "ok", {}, st());
    }
    void exec(const Op & op) {
        auto I = [&]() -> Node & { return *nodes.at(op.at(0) - 1); };
        auto O = [&]() -> Out & { return outs.at(op.at(0) - 1); };
        const auto & o = op.o;
        if(o == "send") {
            emit(op, "ok", {}, st());
            auto r = guarded([&]() -> Ints { if(O().sig) O().s->send(op.at(2)); else { Tracked t(op.at(1)); O().d->send(t, op.at(2)); } return {}; });
            emit(Op{"sendend", {}}, r.first.c_str(), {}, st());
            return;
        }
        auto r = guarded([&]() -> Ints {
            if(o == "drv") { nodes.at(ni + op.at(0) - 1)->drv->scheduleRelativeTick(op.at(1), &env.sched); return {}; }
            if(o == "ocancel") return {(long)O().d->cancel()};
            if(o == "icancel") return {(long)I().di->cancel()};
            long v = op.a.size() > 1 ? op.at(1) : 0;
            if(o == "ocancelif") { if(v & 1) return {(long)O().d->cancelIf([v](const Tracked & t) { return t.v == v; })}; Tracked t(v); return {(long)O().d->cancelIf(t)}; }
            if(o == "icancelif") { if(v & 1) return {(long)I().di->cancelIf([v](const Tracked & t) { return t.v == v; })}; Tracked t(v); return {(long)I().di->cancelIf(t)}; }
            if(o == "odriven") return {(long)(v < 0 ? O().d->isDriven() : O().d->isDriven(v))};
            if(o == "idriven") return {(long)(v < 0 ? I().di->isDriven() : I().di->isDriven(v))};
            if(o == "dq") {
                if(I().sig) { auto & c = *I().si; bool r = c.dataReceived(); return {r, c.dataReceivedThisCycle(), r ? (long)c.peekData() : -1, r ? (long)c.getReceivedTimeStamp() : -1}; }
                auto & c = *I().di; bool r = c.dataReceived(); return {r, c.dataReceivedThisCycle(), r ? c.peekData().v : -1, r ? (long)c.getReceivedTimeStamp() : -1};
            }
            if(o == "pull") return {I().sig ? (long)I().si->pullData() : I().di->pullData().v};
            if(o == "clr") { if(I().sig) I().si->clearData(); else I().di->clearData(); return {}; }
            bad_op(op);
        });
        emit(op, r.first.c_str(), r.second, st());
    }
};
void Node::data(const Tracked & t) { sim->handler(idx, t.v); }
void Node::signal() { sim->handler(idx, 1); }
void Node::fire() { sim->handler(idx, 0); }

int main() {
    for(auto & c : read_cases()) {
        emit_case(c.params);
        Sim s; auto & P = c.params;
        long ni = P[0], no = P[1], nd = P[2], nb = P[3], np = P[4], nc = P[5];
        s.ni = ni;
        auto portset = [&](long per) {
            if(!s.ps.count(per)) {
                s.clks[per].reset(new sparta::Clock("clk" + std::to_string(per), &s.env.sched)); s.clks[per]->setPeriod(per);
                s.nds[per].reset(new sparta::TreeNode(&s.env.rtn, "n" + std::to_string(per), "d")); s.nds[per]->setClock(s.clks[per].get());
                s.ps[per].reset(new sparta::PortSet(s.nds[per].get()));
            }
            return s.ps[per].get();
        };
        s.es.reset(new sparta::EventSet(&s.env.rtn));
        for(long i = 0; i < ni; ++i) {
            auto n = std::make_unique<Node>(); n->sim = &s; n->idx = i + 1; n->isin = true;
            n->sig = P[6 + 4*i]; auto ph = (SchedulingPhase)P[7 + 4*i]; long d = P[8 + 4*i], per = P[9 + 4*i];
            auto nm = "in" + std::to_string(i);
            // use the constructor without a phase where it picks the wanted one
            bool dflt = (d == 0 && ph == SchedulingPhase::Tick) || (d > 0 && ph == SchedulingPhase::PortUpdate);
            if(n->sig) {
                n->si.reset(dflt ? new sparta::SignalInPort(portset(per), nm, d) : new sparta::SignalInPort(portset(per), nm, ph, d));
                n->si->registerConsumerHandler(sparta::SpartaHandler::from_member<Node, &Node::signal>(n.get(), "s"));
            } else {
                n->di.reset(dflt ? new sparta::DataInPort<Tracked>(portset(per), nm, d) : new sparta::DataInPort<Tracked>(portset(per), nm, ph, d));
                n->di->registerConsumerHandler(sparta::SpartaHandler::from_member_1<Node, Tracked, &Node::data>(n.get(), "d"));
            }
            s.nodes.push_back(std::move(n));
        }
        long b = 6 + 4*ni;
        for(long o = 0; o < no; ++o) {
            Out x; x.sig = P[b + 2*o]; bool pz = P[b + 2*o + 1];
            auto nm = "out" + std::to_string(o);
            if(x.sig) x.s.reset(new sparta::SignalOutPort(portset(1), nm, pz)); else x.d.reset(new sparta::DataOutPort<Tracked>(portset(1), nm, pz));
            s.outs.push_back(std::move(x));
        }
        b += 2*no;
        for(long d = 0; d < nd; ++d) {
            auto n = std::make_unique<Node>(); n->sim = &s; n->idx = ni + d + 1; Node * np_ = n.get();
            auto h = sparta::SpartaHandler::from_member<Node, &Node::fire>(np_, "f"); auto nm = "drv" + std::to_string(d);
            auto mk = [&](auto tag) { auto e = std::make_shared<sparta::Event<decltype(tag)::value>>(s.es.get(), nm, h); np_->drv = e.get(); np_->keep = e; };
            #define PH(X) case (long)SchedulingPhase::X: mk(std::integral_constant<SchedulingPhase, SchedulingPhase::X>()); break;
            switch(P[b + d]) { PH(Trigger) PH(Update) PH(PortUpdate) PH(Flush) PH(Collection) PH(Tick) PH(PostTick) default: std::exit(3); }
            s.nodes.push_back(std::move(n));
        }
        b += nd;
        auto inp = [&](long i) -> sparta::InPort & { auto & n = *s.nodes.at(i - 1); if(n.sig) return *n.si; return *n.di; };
        auto outp = [&](long o) -> sparta::OutPort & { auto & x = s.outs.at(o - 1); if(x.sig) return *x.s; return *x.d; };
        for(long k = 0; k < np; ++k) outp(P[b + 2*nb + 2*k]).registerProducingEvent(*s.nodes.at(ni + P[b + 2*nb + 2*k + 1] - 1)->drv);
        for(long k = 0; k < nc; ++k) inp(P[b + 2*nb + 2*np + 2*k]).registerConsumerEvent(*s.nodes.at(ni + P[b + 2*nb + 2*np + 2*k + 1] - 1)->drv);
        for(long k = 0; k < nb; ++k) { auto & o = outp(P[b + 2*k]); auto & i = inp(P[b + 2*k + 1]); if(k % 2) sparta::bind(i, o); else sparta::bind(o, i); }
        s.env.finalize();
        std::vector<Op> top; std::vector<Op> * blk = nullptr;
        for(auto & op : c.ops) {
            if(op.o == "h") { s.blocks.emplace_back(); blk = &s.blocks.back(); }
            else if(op.o == "hend") blk = nullptr;
            else if(blk) blk->push_back(op);
            else top.push_back(op);
        }
        for(auto & op : top) {
            if(op.o != "run") { s.exec(op); continue; }
            emit(op, "ok", {}, s.st());
            auto q = guarded([&]() -> Ints { s.env.sched.run(op.at(0), true, false); return {}; });
            emit(Op{"runend", {}}, q.first.c_str(), {}, s.st());
        }
        try { s.env.sched.clearEvents(); } catch(const std::exception &) { std::_Exit(9); }
        s.env.rtn.enterTeardown();
    }
}
