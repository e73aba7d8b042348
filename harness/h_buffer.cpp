// Drives sparta::Buffer. case <capacity> <handles> <grow>
#include "common.hpp"
#include "sparta_env.hpp"
#include "sparta/resources/Buffer.hpp"
using namespace vh;
using T = Tracked;
using Buf = sparta::Buffer<T>;
int main() {
    for(auto & c : read_cases()) {
        emit_case(c.params);
        Env env;
        Tracked::live() = 0;
        {
            std::unique_ptr<Buf> bp(new Buf("b", c.params[0], env.clk));
            if(c.params[2]) bp->makeInfinite(c.params[2]);
            std::vector<Buf::iterator> h(c.params[1]);
            for(auto & op : c.ops) {
                auto r = guarded([&]() -> Ints {
                    const auto & o = op.o; Buf & b = *bp; const Buf & cb = b;
                    auto H = [&](size_t i) -> Buf::iterator & { return h.at(op.at(i)); };
                    if(o == "push") { T t(op.at(0)); H(1) = (op.at(0) & 1) ? b.push_back(t) : b.push_back(std::move(t)); return {}; }
                    if(o == "insi") { T t(op.at(1)); H(2) = (op.at(1) & 1) ? b.insert(op.at(0), t) : b.insert(op.at(0), std::move(t)); return {}; }
                    if(o == "insh") { T t(op.at(1)); Buf::const_iterator p(H(0)); Buf::const_reverse_iterator rp(p);
                        switch(op.at(1) & 3) { case 0: H(2) = b.insert(p, t); break; case 1: H(2) = b.insert(p, std::move(t)); break;
                                               case 2: H(2) = b.insert(rp, t); break; default: H(2) = b.insert(rp, std::move(t)); }
                        return {}; }
                    if(o == "erasei") { b.erase(op.at(0)); return {}; }
                    if(o == "eraseh") { H(1) = b.erase(Buf::const_iterator(H(0))); return {}; }
                    if(o == "eraser") { H(1) = b.erase(Buf::const_reverse_iterator(Buf::const_iterator(H(0)))).base(); return {}; }
                    if(o == "clear") { b.clear(); return {}; }
                    if(o == "read") return {cb.read(op.at(0)).v};
                    if(o == "write") { b.access(op.at(0)).v = op.at(1); return {}; }
                    if(o == "back") { b.accessBack().v = op.at(0); return {}; }
                    if(o == "hbegin") { H(0) = b.begin(); return {}; }
                    if(o == "hend") { H(0) = b.end(); return {}; }
                    if(o == "hcopy") { H(0) = H(1); return {}; }
                    if(o == "hinc") { if(op.at(0) & 1) ++H(0); else H(0)++; return {}; }
                    if(o == "hdec") { if(op.at(0) & 1) --H(0); else H(0)--; return {}; }
                    if(o == "hget") { long v = (*H(0)).v; if(v != H(0)->v) v = -9999; return {v}; }
                    if(o == "hread") { return {cb.read(Buf::const_iterator(H(0))).v}; }
                    if(o == "hset") { b.access(Buf::const_iterator(H(0))).v = op.at(1); return {}; }
                    if(o == "hcmp") return {H(0) == H(1), H(0) != H(1), H(0) < H(1), H(0) > H(1)};
                    if(o == "grow") { b.makeInfinite(op.at(0)); return {}; }
                    if(o == "move") { std::unique_ptr<Buf> n(new Buf(std::move(b))); bp = std::move(n); for(auto & x : h) x = Buf::iterator(); return {}; }
                    bad_op(op);
                });
                St s;
                Ints vals, fwd, rev;
                Buf & b = *bp; const Buf & cb = b;
                for(uint32_t i = 0; b.isValid(i); ++i) vals.push_back(cb.read(i).v);
                size_t n = 0;
                for(auto it = cb.begin(); it != cb.end() && n < 300; ++it, ++n) fwd.push_back((*it).v);
                n = 0;
                for(auto it = cb.rbegin(); it != cb.rend() && n < 300; ++it, ++n) rev.push_back((*it).v);
                std::vector<Ints> hv;
                for(auto & i : h) { if(i.isValid()) hv.push_back({1, i->v}); else hv.push_back({0}); }
                s.add("size", b.size()).add("free", b.numFree()).add("cap", b.capacity()).add("empty", (int)b.empty()).add("vals", vals)
                 .add("fwd", fwd).add("rev", rev).add("live", Tracked::live()).add("hv", hv);
                emit(op, r.first.c_str(), r.second, s);
            }
        }
    }
}
