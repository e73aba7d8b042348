// Drives sparta::SharedData. case <manual> <period>. "step p i o v": see the specification.
#include "common.hpp"
#include "sparta_env.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include "sparta/resources/SharedData.hpp"
using namespace vh;
using T = Tracked;

template<bool manual> struct Run {
    using SD = sparta::SharedData<T, manual>;
    const Case & c;
    Env env;
    std::unique_ptr<sparta::ClockManager> cm;
    sparta::Clock::Handle root, sub;
    sparta::Clock * clk;
    sparta::EventSet es;
    sparta::UniqueEvent<sparta::SchedulingPhase::PortUpdate> e0;
    sparta::UniqueEvent<sparta::SchedulingPhase::Flush> e1;
    sparta::UniqueEvent<sparta::SchedulingPhase::Collection> e2;
    sparta::UniqueEvent<sparta::SchedulingPhase::Tick> e3;
    sparta::UniqueEvent<sparta::SchedulingPhase::PostTick> e4;
    std::unique_ptr<SD> d[2];
    Ints seen;
    const Op * cur = nullptr;
    size_t pos = 0;
    template<int p> void handler() {
        for(auto & x : look()) seen.push_back(x);
        if(cur && cur->at(0) == p) {
            static const char * names[] = {"", "write", "wps", "clps", "clns", "clear", "none"};
            act(names[cur->at(2)], cur->at(1), cur->at(3));
        }
        if(p == 4) drive();      // all other operations are made at the end of a cycle
    }
    Run(const Case & c) : c(c), cm(new sparta::ClockManager(env.sched_p.get())), root(cm->makeRoot(&env.rtn, "root")), sub(cm->makeClock("sub", root, 1, c.params[1])), clk(sub.get()), es(nullptr),
#define EV(n) e##n(&es, "ev" #n, sparta::SpartaHandler::from_member<Run, &Run::template handler<n>>(this, "h"))
        EV(0), EV(1), EV(2), EV(3), EV(4)
#undef EV
    {
        cm->normalize();
        auto set = [&](auto & e) { e.setScheduleableClock(clk); e.setScheduler(&env.sched); };
        set(e0); set(e1); set(e2); set(e3); set(e4);
        for(auto & x : d) x = fresh();
        env.finalize();
    }
    std::unique_ptr<SD> fresh() { return std::make_unique<SD>("sd", clk, T(5)); }
    ~Run() { for(auto & x : d) x.reset(); env.rtn.enterTeardown(); }
    Ints look() {
        Ints r;
        for(auto & x : d) {
            const SD & cx = *x;
            r.push_back(cx.isValid() ? cx.read().v : 0);
            r.push_back(cx.isValidNS() ? cx.readNS().v : 0);
        }
        return r;
    }
    bool act(const std::string & o, long i, long v) {
        SD & s = *d[i];
        if(o == "write") { T t(v); if(v & 1) s.write(t); else s.write(std::move(t)); }
        else if(o == "wps") { T t(v); if(v & 1) s.writePS(t); else s.writePS(std::move(t)); }
        else if(o == "clps") s.clearPS();
        else if(o == "clns") s.clearNS();
        else if(o == "clear") s.clear();
        else if(o == "none") ;
        else return false;
        return true;
    }
    void all() { e4.schedule(sparta::Clock::Cycle(0)); env.sched.run(); }
    void drive() {
        if(cur) line(*cur, {"ok", seen});
        cur = nullptr; seen.clear();
        for(; pos < c.ops.size();) {
            const auto & op = c.ops[pos++];
            if(op.o == "step") {
                cur = &op;
                sparta::Clock::Cycle n(1);
                e0.schedule(n); e1.schedule(n); e2.schedule(n); e3.schedule(n); e4.schedule(n);
                return;
            }
            line(op, guarded([&]() -> Ints {
                const auto & o = op.o;
                long i = op.at(0);
                SD & s = *d[i];
                if(o == "acps") { s.access().v = op.at(1); return {}; }
                if(o == "acns") { s.accessNS().v = op.at(1); return {}; }
                if(o == "rdps") return {s.read().v};
                if(o == "rdns") return {s.readNS().v};
                if(o == "update") { if constexpr(manual) s.update(); return {}; }
                if(o == "copy") { d[i].reset(); d[i] = std::make_unique<SD>(*d[1 - i]); return {}; }
                if(o == "move") { d[i].reset(); d[i] = std::make_unique<SD>(std::move(*d[1 - i])); d[1 - i] = fresh(); return {}; }
                if(o == "asgc") { s = *d[1 - i]; return {}; }
                if(o == "asgm") { s = std::move(*d[1 - i]); d[1 - i] = fresh(); return {}; }
                if(act(o, i, op.a.size() > 1 ? op.at(1) : 0)) return {};
                bad_op(op);
            }));
        }
    }
    void line(const Op & op, const std::pair<std::string, Ints> & r) {
        St st;
        st.add("st", look());
        emit(op, r.first.c_str(), r.second, st);
    }
};
int main() {
    for(auto & c : read_cases()) {
        emit_case(c.params);
        if(c.params[0]) { Run<true> r(c); r.all(); } else { Run<false> r(c); r.all(); }
    }
}
