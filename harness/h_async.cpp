// Events posted from other threads.
// case n (phase thread delay)*n heartbeat-phase
//   post th e d     thread th posts event e with delay d (th 0: the simulation thread itself), and is waited for
//   storm n steps seed per   3 threads post `per` events each while the simulation runs n ticks, `steps` times
//   cancel e | run n | h ... hend (operations done inside the next handler)
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include "common.hpp"
#include "sparta_env.hpp"
#include "sparta/events/AsyncEvent.hpp"
using namespace vh;
using sparta::SchedulingPhase;

struct Worker {
    std::mutex m; std::condition_variable cv; std::function<void()> job; bool quit = false; bool busy = false;
    std::thread t{[this] { loop(); }};
    void loop() {
        std::unique_lock<std::mutex> l(m);
        for(;;) {
            cv.wait(l, [&] { return quit || busy; });
            if(busy) { auto j = job; l.unlock(); j(); l.lock(); busy = false; cv.notify_all(); }
            else if(quit) return;
        }
    }
    void start(std::function<void()> f) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return !busy; }); job = f; busy = true; cv.notify_all(); }
    void wait() { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return !busy; }); }
    ~Worker() { { std::lock_guard<std::mutex> l(m); quit = true; cv.notify_all(); } t.join(); }
};

struct Sim;
struct AEv {
    Sim * sim = nullptr; long idx = 0, th = 0, d = -1;
    std::shared_ptr<void> keep; sparta::Scheduleable * s = nullptr;
    std::function<void()> cancel;
    void fire();
};
struct Sim {
    Env env;
    std::unique_ptr<sparta::EventSet> es;
    std::vector<std::unique_ptr<AEv>> ev;
    std::shared_ptr<void> beat_keep; sparta::Scheduleable * beat = nullptr;
    std::vector<std::unique_ptr<Worker>> w;
    std::vector<std::vector<Op>> blocks; size_t bi = 0;

    void post(long th, long e, long d) {
        auto * s = ev.at(e - 1)->s;
        auto f = [this, s, d] { s->scheduleRelativeTick(d, &env.sched); };
        if(th == 0) f(); else { w.at(th - 1)->start(f); w.at(th - 1)->wait(); }
    }
    void exec(const Op & op) {
        if(op.o == "post") { auto r = guarded([&]() -> Ints { post(op.at(0), op.at(1), op.at(2)); return {}; }); emit(op, r.first.c_str(), {}); }
        else if(op.o == "cancel") { auto r = guarded([&]() -> Ints { ev.at(op.at(0) - 1)->cancel(); return {}; }); emit(op, r.first.c_str(), {}); }
        else bad_op(op);
    }
    void block() { if(bi < blocks.size()) { size_t b = bi++; for(auto & op : blocks[b]) exec(op); } }
    void onBeat() {
        emit(Op{"beat", {(long)env.sched.getCurrentTick()}}, "ok", {});
        beat->schedule(sparta::Clock::Cycle(1));
        block();
    }
    void run(long n) {
        emit(Op{"run", {n}}, "ok", {});
        auto r = guarded([&]() -> Ints { env.sched.run(n, true, false); return {}; });
        emit(Op{"runend", {(long)env.sched.getCurrentTick()}}, r.first.c_str(), {});
    }
    void storm(long n, long steps, long seed, long per) {
        struct P { long e, d; };
        std::vector<std::vector<P>> plan(3);
        Ints all;
        unsigned long x = seed * 2654435761u + 12345;
        auto rnd = [&](unsigned long k) { x = x * 6364136223846793005ul + 1442695040888963407ul; return (x >> 33) % k; };
        for(long k = 0; k < per; ++k) for(long th = 1; th <= 3; ++th) {
            std::vector<long> ok;
            for(auto & e : ev) if(e->th == 0 || e->th == th) ok.push_back(e->idx);
            if(ok.empty()) continue;
            long e = ok[rnd(ok.size())];
            long d = ev[e-1]->d >= 0 ? ev[e-1]->d : rnd(4);
            plan[th-1].push_back({e, d});
            all.insert(all.end(), {th, e, d});
        }
        emit(Op{"storm", all}, "ok", {});
        std::atomic<int> go{0};
        for(int t = 0; t < 3; ++t) w[t]->start([this, &plan, &go, t, seed] {
            go++; while(go < 3) {}
            volatile unsigned spin = 0; unsigned y = seed * 31 + t;
            for(auto & p : plan[t]) {
                ev[p.e-1]->s->scheduleRelativeTick(p.d, &env.sched);
                y = y * 1103515245 + 12345;
                if((y >> 16) % 8 == 0) for(unsigned k = 0; k < (y >> 20) % 2000; ++k) spin = spin + 1;
            }
        });
        for(long k = 0; k < steps; ++k) run(n);
        for(auto & x : w) x->wait();
        emit(Op{"joined", {}}, "ok", {});
    }
};
void AEv::fire() { emit(Op{"fire", {idx, (long)sim->env.sched.getCurrentTick()}}, "ok", {}); sim->block(); }

int main() {
    for(auto & c : read_cases()) {
        emit_case(c.params);
        Sim sim;
        sim.es.reset(new sparta::EventSet(&sim.env.rtn));
        {
            auto h = sparta::SpartaHandler::from_member<Sim, &Sim::onBeat>(&sim, "beat");
            auto mk = [&](auto tag) { auto e = std::make_shared<sparta::Event<decltype(tag)::value>>(sim.es.get(), "beat", h); sim.beat = e.get(); sim.beat_keep = e; };
            #define PH(X) case (long)SchedulingPhase::X: mk(std::integral_constant<SchedulingPhase, SchedulingPhase::X>()); break;
            switch(c.params[1 + 3*c.params[0]]) { PH(Trigger) PH(Update) PH(PortUpdate) PH(Flush) PH(Collection) PH(Tick) PH(PostTick) default: std::exit(3); }
        }
        for(int i = 0; i < 3; ++i) sim.w.emplace_back(new Worker);
        for(long i = 0; i < c.params[0]; ++i) {
            auto a = std::make_unique<AEv>();
            a->sim = &sim; a->idx = i + 1; a->th = c.params[2 + 3*i]; a->d = c.params[3 + 3*i];
            AEv * ap = a.get();
            auto nm = "a" + std::to_string(i);
            auto h = sparta::SpartaHandler::from_member<AEv, &AEv::fire>(ap, "f");
            auto mk = [&](auto tag) {
                auto e = std::make_shared<sparta::AsyncEvent<decltype(tag)::value>>(sim.es.get(), nm, h);
                ap->s = e.get(); ap->keep = e; ap->cancel = [p = e.get()] { p->cancel(); };
            };
            switch(c.params[1 + 3*i]) { PH(Trigger) PH(Update) PH(PortUpdate) PH(Flush) PH(Collection) PH(Tick) PH(PostTick) default: std::exit(3); }
            sim.ev.push_back(std::move(a));
        }
        sim.env.finalize();
        sim.beat->schedule(sparta::Clock::Cycle(0));
        std::vector<Op> top; std::vector<Op> * blk = nullptr;
        for(auto & op : c.ops) {
            if(op.o == "h") { sim.blocks.emplace_back(); blk = &sim.blocks.back(); }
            else if(op.o == "hend") blk = nullptr;
            else if(blk) blk->push_back(op);
            else top.push_back(op);
        }
        for(auto & op : top) {
            if(op.o == "run") sim.run(op.at(0));
            else if(op.o == "storm") sim.storm(op.at(0), op.at(1), op.at(2), op.at(3));
            else sim.exec(op);
        }
        sim.w.clear();
        sim.env.sched.clearEvents();
        sim.beat_keep.reset(); sim.ev.clear(); sim.es.reset();
    }
}
