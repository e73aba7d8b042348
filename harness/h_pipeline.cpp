// Drives sparta::Pipeline. case <payload> <precedence> <kind of handlers of stage 0> ...
#include <algorithm>
#include "common.hpp"
#include "sparta_env.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include "sparta/resources/Pipeline.hpp"
using namespace vh;
using T = Tracked;

struct Log { long phase, stage, idx, val; };

template<class EventT>
struct Run {
    using PL = sparta::Pipeline<T, EventT>;
    static constexpr bool pay = !std::is_same_v<EventT, sparta::PhasedUniqueEvent>;
    const Case & c;
    Env env;
    sparta::EventSet es;
    sparta::UniqueEvent<sparta::SchedulingPhase::Flush> evm;
    sparta::UniqueEvent<sparta::SchedulingPhase::PostTick> evp;
    sparta::UniqueEvent<sparta::SchedulingPhase::Tick> prod, cons;
    PL p;
    uint32_t n;
    std::vector<Log> log;
    size_t pos = 0;
    bool has_prod = false, has_cons = false;
    long prod_at = -1, cons_at = -1;

    struct Stage { Run * r; long s, idx, phase;
        void run() { r->log.push_back({phase, s, idx, r->p.isValid(s) ? r->p[s].v : 0}); }
        void runp(const T & t) { r->log.push_back({phase, s, idx, t.v}); } };
    std::vector<std::unique_ptr<Stage>> stages;
    template<sparta::SchedulingPhase ph> void reg(uint32_t s, long idx, long phase) {
        stages.emplace_back(new Stage{this, s, idx, phase});
        if constexpr(pay) p.template registerHandlerAtStage<ph>(s, sparta::SpartaHandler::from_member_1<Stage, T, &Stage::runp>(stages.back().get(), "h"));
        else p.template registerHandlerAtStage<ph>(s, sparta::SpartaHandler::from_member<Stage, &Stage::run>(stages.back().get(), "h"));
    }
    void onProd() { prod_at = log.size(); }
    void onCons() { cons_at = log.size(); }
    Run(const Case & c) : c(c), es(nullptr), evm(&es, "mid_ev", sparta::SpartaHandler::from_member<Run, &Run::mid>(this, "m")),
        evp(&es, "post_ev", sparta::SpartaHandler::from_member<Run, &Run::post>(this, "p")),
        prod(&es, "prod_ev", sparta::SpartaHandler::from_member<Run, &Run::onProd>(this, "p")),
        cons(&es, "cons_ev", sparta::SpartaHandler::from_member<Run, &Run::onCons>(this, "c")),
        p("pl", c.params.size() - 2, env.clk), n(c.params.size() - 2)
    {
        auto set = [&](auto & e) { e.setScheduleableClock(env.clk); e.setScheduler(&env.sched); };
        set(evm); set(evp); set(prod); set(cons);
        for(uint32_t k = 0; k < n; ++k) {
            uint32_t s = c.params[1] == 2 ? k : n - 1 - k;       // registration order opposite to the precedence
            switch(c.params[s + 2]) {
                case 1: reg<sparta::SchedulingPhase::Tick>(s, 0, 1); break;
                case 2: reg<sparta::SchedulingPhase::Tick>(s, 0, 1); reg<sparta::SchedulingPhase::Tick>(s, 1, 1); break;
                case 3: reg<sparta::SchedulingPhase::Collection>(s, 0, 0); break;
                case 4: reg<sparta::SchedulingPhase::Collection>(s, 0, 0); reg<sparta::SchedulingPhase::Tick>(s, 1, 1); break;
                default: break;
            }
        }
        if(c.params[1]) {
            std::vector<uint32_t> ticks;
            for(uint32_t s = 0; s < n; ++s) if(long k = c.params[s + 2]; k == 1 || k == 2 || k == 4) ticks.push_back(s);
            if(c.params[1] == 2) std::reverse(ticks.begin(), ticks.end());
            if(!ticks.empty()) {
                p.setProducerForStage(ticks.front(), prod); p.setConsumerForStage(ticks.back(), cons);
                has_prod = true;
            }
            p.setDefaultStagePrecedence(c.params[1] == 1 ? PL::Precedence::FORWARD : PL::Precedence::BACKWARD);
        }
        env.finalize();
        env.sched.run(1, true);
    }
    ~Run() { env.rtn.enterTeardown(); }
    void line(const Op & op, const std::pair<std::string, Ints> & r) {
        St s; Ints st, it, sa;
        const PL & cp = p;
        for(uint32_t i = 0; i < n; ++i) { st.push_back(p.isValid(i) ? cp.at(i).v : 0); sa.push_back(p.isStalledOrStallingAtStage(i)); }
        if(p.numValid() & 1) { for(auto x = p.begin(); x != p.end(); ++x) it.push_back(x.isValid() ? x->v : 0); }
        else for(auto x = cp.begin(); x != cp.end(); x++) it.push_back(x.isValid() ? (*x).v : 0);
        s.add("num", p.empty() ? 0 : p.size()).add("any", p.isAnyValid()).add("app", p.isAppended() ? p.readAppendedData().v : 0)
         .add("last", p.isLastValid()).add("st", st).add("it", it).add("stall", p.isStalledOrStalling()).add("stallat", sa);
        emit(op, r.first.c_str(), r.second, s);
    }
    void one(const Op & op) {
        line(op, guarded([&]() -> Ints {
            const auto & o = op.o;
            if(o == "append") { T t(op.at(0)); if(op.at(0) & 1) p.append(t); else p.append(std::move(t)); return {}; }
            if(o == "write") { T t(op.at(1)); if(op.at(1) & 1) p.writeStage(op.at(0), t); else p.writeStage(op.at(0), std::move(t)); return {}; }
            if(o == "inval") { p.invalidateStage(op.at(0)); return {}; }
            if(o == "flush") { uint32_t s = op.at(0); if(s < n && p.numValid() & 1) p.flushStage(typename PL::iterator(&p, s)); else p.flushStage(s); return {}; }
            if(o == "flall") { p.flushAllStages(); return {}; }
            if(o == "flapp") { p.flushAppend(); return {}; }
            if(o == "stall") { p.stall(op.at(0), op.at(1), op.at(2), op.at(3)); return {}; }
            if(o == "unstall") { p.clearStall(); return {}; }
            if(o == "activ") { if(op.at(1)) p.activateEventAtStage(op.at(0)); else p.deactivateEventAtStage(op.at(0)); return {}; }
            if(o == "read") return {p[op.at(0)].v};
            if(o == "update") { p.update(); return {}; }
            if(o == "own") { p.performOwnUpdates(); return {}; }
            bad_op(op);
        }));
    }
    bool more() const { return pos + 1 < c.ops.size(); }
    void mid() {
        line(c.ops[pos], {"ok", {}});
        for(long m = c.ops[pos].at(0); m > 0 && more(); --m) one(c.ops[++pos]);
    }
    void post() {
        if(!more() || c.ops[pos + 1].o != "ran") { log.clear(); return; }
        ++pos;
        if(has_prod) {       // the producer of the first and the consumer of the last stage enclose all Tick handlers
            for(long i = 0; i < (long)log.size(); ++i)
                if(log[i].phase == 1 && (i < prod_at || i >= cons_at)) log[i].idx += 100;
        }
        if(!c.params[1]) std::stable_sort(log.begin(), log.end(), [](const Log & a, const Log & b) { return a.phase != b.phase ? a.phase < b.phase : a.stage < b.stage; });
        Ints v;
        for(auto & l : log) { v.push_back(l.stage); v.push_back(l.idx); v.push_back(l.val); }
        log.clear();
        line(c.ops[pos], {"ok", v});
        for(long m = c.ops[pos].at(0); m > 0 && more(); --m) one(c.ops[++pos]);
    }
    void all() {
        for(; pos < c.ops.size(); ++pos) {
            if(c.ops[pos].o == "step") {
                evm.schedule(sparta::Clock::Cycle(0)); evp.schedule(sparta::Clock::Cycle(0));
                if(has_prod) { prod.schedule(sparta::Clock::Cycle(0)); cons.schedule(sparta::Clock::Cycle(0)); }
                prod_at = cons_at = -1;
                env.sched.run(1, true);
            }
            else one(c.ops[pos]);
        }
    }
};

int main() {
    for(auto & c : read_cases()) {
        emit_case(c.params);
        if(c.params[0]) { Run<sparta::PhasedPayloadEvent<T>> r(c); r.all(); }
        else { Run<sparta::PhasedUniqueEvent> r(c); r.all(); }
    }
}
