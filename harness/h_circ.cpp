// Drives sparta::CircularBuffer. case <capacity> <handles>
#include "common.hpp"
#include "sparta_env.hpp"
#include "sparta/resources/CircularBuffer.hpp"
using namespace vh;
using T = Tracked;
using Buf = sparta::CircularBuffer<T>;
int main() {
    for(auto & c : read_cases()) {
        emit_case(c.params);
        Env env;
        Tracked::live() = 0;
        {
            sparta::StatisticSet ss(&env.rtn);
            Buf b("b", c.params[0], env.clk, c.params[0] & 1 ? &ss : nullptr);
            const Buf & cb = b;
            std::vector<Buf::iterator> h(c.params[1]);
            for(auto & op : c.ops) {
                auto r = guarded([&]() -> Ints {
                    const auto & o = op.o;
                    auto H = [&](size_t i) -> Buf::iterator & { return h.at(op.at(i)); };
                    if(o == "push") { T t(op.at(0)); if(op.at(0) & 1) b.push_back(t); else b.push_back(std::move(t)); return {}; }
                    if(o == "insh") { T t(op.at(1)); Buf::const_iterator p(H(0));
                        switch(op.at(1) & 3) { case 0: H(2) = b.insert(p, t); break; case 1: H(2) = b.insert(p, std::move(t)); break;
                                               case 2: H(2) = b.insert(H(0), t); break; default: H(2) = b.insert(H(0), std::move(t)); }
                        return {}; }
                    if(o == "eraseh") { b.erase(Buf::const_iterator(H(0))); return {}; }
                    if(o == "eraser") { if(op.at(0) & 1) b.erase(Buf::const_reverse_iterator(Buf::const_iterator(H(0)))); else b.erase(Buf::reverse_iterator(H(0))); return {}; }
                    if(o == "clear") { b.clear(); return {}; }
                    if(o == "read") return {b[op.at(0)].v};
                    if(o == "hbegin") { H(0) = b.begin(); return {}; }
                    if(o == "hend") { H(0) = b.end(); return {}; }
                    if(o == "hcopy") { H(0) = H(1); return {}; }
                    if(o == "hinc") { if(op.at(0) & 1) ++H(0); else H(0)++; return {}; }
                    if(o == "hdec") { if(op.at(0) & 1) --H(0); else H(0)--; return {}; }
                    if(o == "hget") { long v = (*H(0)).v; if(v != H(0)->v) v = -9999; return {v}; }
                    if(o == "hset") { (*H(0)).v = op.at(1); return {}; }
                    if(o == "hcmp") return {H(0) == H(1), H(0) != H(1), H(0) < H(1), H(0) > H(1)};
                    if(o == "rget") { Buf::reverse_iterator x(H(0)); if(!x.isValid()) return {0}; return {1, (*x).v}; }
                    bad_op(op);
                });
                St s;
                Ints vals, fwd, rev;
                for(uint32_t i = 0; b.isValid(i) && i < 300; ++i) vals.push_back(b[i].v);
                size_t n = 0;
                for(auto it = cb.begin(); it != cb.end() && n < 300; ++it, ++n) fwd.push_back((*it).v);
                n = 0;
                for(auto it = b.rbegin(); it != b.rend() && n < 300; ++it, ++n) rev.push_back((*it).v);
                std::vector<Ints> hv;
                for(auto & i : h) { if(i.isValid()) hv.push_back({1, i->v}); else hv.push_back({0}); }
                s.add("size", b.size()).add("free", b.numFree()).add("cap", b.capacity()).add("vals", vals)
                 .add("fwd", fwd).add("rev", rev).add("live", Tracked::live()).add("hv", hv);
                emit(op, r.first.c_str(), r.second, s);
            }
            env.rtn.enterTeardown();
        }
    }
}
