// Drives sparta::Queue from a script. case <capacity> <handles>
#include "common.hpp"
#include "sparta_env.hpp"
#include "sparta/resources/Queue.hpp"
using namespace vh;
using T = Tracked;
int main() {
    for(auto & c : read_cases()) {
        emit_case(c.params);
        Env env;
        Tracked::live() = 0;
        {
            sparta::Queue<T> q("q", c.params[0], env.clk);
            const sparta::Queue<T> & cq = q;
            std::vector<sparta::Queue<T>::iterator> h(c.params[1]);
            for(auto & op : c.ops) {
                auto r = guarded([&]() -> Ints {
                    const auto & o = op.o;
                    if(o == "push") { T t(op.at(0)); h.at(op.at(1)) = (op.at(0) & 1) ? q.push(t) : q.push(std::move(t)); return {}; }
                    if(o == "pop") { q.pop(); return {}; }
                    if(o == "popback") { q.pop_back(); return {}; }
                    if(o == "clear") { q.clear(); return {}; }
                    if(o == "front") return {q.front().v};
                    if(o == "back") return {q.back().v};
                    if(o == "read") return {cq.read(op.at(0)).v};
                    if(o == "write") { q.access(op.at(0)).v = op.at(1); return {}; }
                    if(o == "hbegin") { h.at(op.at(0)) = q.begin(); return {}; }
                    if(o == "hend") { h.at(op.at(0)) = q.end(); return {}; }
                    if(o == "hcopy") { h.at(op.at(0)) = h.at(op.at(1)); return {}; }
                    if(o == "hinc") { ++h.at(op.at(0)); return {}; }
                    if(o == "hdec") { --h.at(op.at(0)); return {}; }
                    if(o == "hget") { return {(*h.at(op.at(0))).v}; }
                    bad_op(op);
                });
                St s;
                Ints vals, iter;
                for(uint32_t i = 0; q.isValid(i); ++i) vals.push_back(cq.read(i).v);
                size_t n = 0;
                for(auto it = cq.begin(); it != cq.end() && n < 1000; ++it, ++n) iter.push_back((*it).v);
                std::vector<Ints> hv;
                for(auto & i : h) { if(i.isValid()) hv.push_back({1, i->v, (long)i.getIndex()}); else hv.push_back({0}); }
                s.add("size", q.size()).add("free", q.numFree()).add("empty", (int)q.empty()).add("vals", vals)
                 .add("iter", iter).add("live", Tracked::live()).add("hv", hv);
                emit(op, r.first.c_str(), r.second, s);
            }
        }
    }
}
