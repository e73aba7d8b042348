// Drives sparta::Pipe. case <stages>. "step m": one cycle; the m operations that follow are made in its Tick phase.
#include "common.hpp"
#include "sparta_env.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include "sparta/resources/Pipe.hpp"
using namespace vh;
using T = Tracked;
using Pipe = sparta::Pipe<T>;

struct Run {
    const Case & c;
    Env env;
    sparta::EventSet es;
    sparta::UniqueEvent<sparta::SchedulingPhase::Tick> ev;
    Pipe p;
    size_t pos = 0;
    long inside = 0;
    Run(const Case & c) : c(c), es(nullptr), ev(&es, "inside_ev", sparta::SpartaHandler::from_member<Run, &Run::handler>(this, "h")), p("p", c.params[0], env.clk) {
        ev.setScheduleableClock(env.clk); ev.setScheduler(&env.sched);
        env.finalize();
        env.sched.run(1, true);
    }
    ~Run() { env.rtn.enterTeardown(); }
    void line(const Op & op, const std::pair<std::string, Ints> & r) {
        St s; Ints st, it;
        const Pipe & cp = p;
        for(uint32_t i = 0; i < p.capacity(); ++i) st.push_back(p.isValid(i) ? p.read(i).v : 0);
        bool alt = p.numValid() & 1;
        if(alt) { for(auto x = p.begin(); x != p.end(); ++x) it.push_back(x.isValid() ? (*x).v : 0); }
        else for(auto x = cp.begin(); x != cp.end(); x++) it.push_back(x.isValid() ? (*x).v : 0);
        s.add("num", p.size()).add("empty", p.empty()).add("any", p.isAnyValid()).add("cap", p.capacity())
         .add("app", p.isAppended() ? p.readAppendedData().v : 0).add("last", p.isLastValid()).add("st", st).add("it", it);
        emit(op, r.first.c_str(), r.second, s);
    }
    void one(const Op & op) {
        line(op, guarded([&]() -> Ints {
            const auto & o = op.o;
            if(o == "append") { T t(op.at(0)); switch(op.at(0) & 3) { case 0: p.append(t); break; case 1: p.append(std::move(t)); break;
                                case 2: p.push_front(t); break; default: p.push_front(std::move(t)); } return {}; }
            if(o == "write") { T t(op.at(1)); if(op.at(1) & 1) p.writePS(op.at(0), t); else p.writePS(op.at(0), std::move(t)); return {}; }
            if(o == "inval") { p.invalidatePS(op.at(0)); return {}; }
            if(o == "invlast") { p.invalidateLastPS(); return {}; }
            if(o == "flush") { p.flushPS(op.at(0)); return {}; }
            if(o == "flapp") { p.flushAppend(); return {}; }
            if(o == "flall") { p.flushAll(); return {}; }
            if(o == "clear") { p.clear(); return {}; }
            if(o == "flif") { p.flushIf(T(op.at(0))); return {}; }
            if(o == "flfn") { long v = op.at(0); p.flushIf([v](const T & t) { return t.v == v; }); return {}; }
            if(o == "shift") return {p.shiftAppend()};
            if(o == "read") return {p.read(op.at(0)).v};
            if(o == "access") { p.access(op.at(0)).v = op.at(1); return {}; }
            if(o == "rlast") return {p.readLast().v};
            if(o == "rapp") return {p.readAppendedData().v};
            if(o == "update") { p.update(); return {}; }
            if(o == "own") { p.performOwnUpdates(); return {}; }
            if(o == "resize") { p.resize(op.at(0)); return {}; }
            bad_op(op);
        }));
    }
    void handler() {
        line(c.ops[pos], {"ok", {}});
        for(long m = c.ops[pos].at(0); m > 0 && pos + 1 < c.ops.size(); --m) one(c.ops[++pos]);
    }
    void all() {
        for(; pos < c.ops.size(); ++pos) {
            if(c.ops[pos].o == "step") {
                if(c.ops[pos].at(0) > 0) { ev.schedule(sparta::Clock::Cycle(0)); env.sched.run(1, true); }
                else { env.sched.run(1, true); line(c.ops[pos], {"ok", {}}); }
            }
            else one(c.ops[pos]);
        }
    }
};

int main() {
    for(auto & c : read_cases()) {
        emit_case(c.params);
        Run r(c);
        r.all();
    }
}
