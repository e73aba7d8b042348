// Drives sparta::PriorityQueue. case <capacity (0: unbounded)> <direction> <handles>
#include "common.hpp"
#include "sparta_env.hpp"
#include "sparta/resources/PriorityQueue.hpp"
#include <list>
using namespace vh;
using T = Tracked;
struct Cmp { long dir = 0; bool operator()(const T & a, const T & b) const { return dir * (b.v / 10 - a.v / 10) > 0; } };
template<size_t N> void run(const Case & c) {
    using PQ = sparta::PriorityQueue<T, Cmp, N>;
    Cmp cmp; cmp.dir = c.params[1];
    PQ q(cmp);
    const PQ & cq = q;
    std::vector<typename PQ::iterator> h(c.params[2]);
    std::vector<const T *> ptr(c.params[2], nullptr);      // the element a handle points to
    auto nth = [&](long n) { auto it = q.begin(); while(n--) ++it; return it; };
    auto drop = [&](auto gone) { for(auto & p : ptr) if(p && gone(p)) p = nullptr; };
    auto same = [&](const T & t) { return [&t](const T * p) { return p == &t; }; };
    for(auto & op : c.ops) {
        auto r = guarded([&]() -> Ints {
            const auto & o = op.o;
            if(o == "insert") { T t(op.at(0)); q.insert(t); return {}; }
            if(o == "force") { T t(op.at(0)); q.forceFront(t); return {}; }
            if(o == "pop") { if(!q.empty()) drop(same(q.top())); q.pop(); return {}; }
            if(o == "top") return {q.top().v};
            if(o == "back") return {q.back().v};
            if(o == "clear") { drop([](auto) { return true; }); q.clear(); return {}; }
            if(o == "remove") { T t(op.at(0)); drop([&](auto p) { return *p == t; }); q.remove(t); return {}; }
            if(o == "remat") { T & t = *nth(op.at(0)); drop([&](auto p) { return *p == t; }); q.remove(t); return {}; }
            if(o == "erase") { auto it = nth(op.at(0)); drop(same(*it)); q.erase(it); return {}; }
            if(o == "hset") { h.at(op.at(0)) = nth(op.at(1)); ptr.at(op.at(0)) = &*h.at(op.at(0)); return {}; }
            if(o == "hget") return {(*h.at(op.at(0))).v};
            if(o == "hinc") { auto & i = h.at(op.at(0)); ++i; ptr.at(op.at(0)) = i == q.end() ? nullptr : &*i; return {}; }
            if(o == "herase") { auto it = h.at(op.at(0)); drop(same(*it)); q.erase(it); return {}; }
            bad_op(op);
        });
        St s;
        Ints vals, hv;
        size_t n = 0;
        for(auto it = cq.begin(); it != cq.end() && n < 300; ++it, ++n) vals.push_back((*it).v);
        for(size_t i = 0; i < h.size(); ++i) hv.push_back(ptr[i] ? h[i]->v : -1);
        s.add("size", q.size()).add("empty", (int)q.empty()).add("vals", vals).add("live", Tracked::live()).add("hv", hv);
        emit(op, r.first.c_str(), r.second, s);
    }
}
int main() {
    for(auto & c : read_cases()) {
        emit_case(c.params);
        Tracked::live() = 0;
        switch(c.params[0]) {
            case 0: run<0>(c); break;
            case 2: run<2>(c); break;
            case 3: run<3>(c); break;
            case 8: run<8>(c); break;
            default: std::exit(3);
        }
    }
}
