// Drives sparta::Array / FrontArray, aged and not. case <capacity> <aged> <handles>
#include "common.hpp"
#include "sparta_env.hpp"
#include "sparta/resources/FrontArray.hpp"
using namespace vh;
using T = Tracked;

template<sparta::ArrayType AT>
void run(const Case & c) {
    using Arr = sparta::FrontArray<T, AT>;
    constexpr bool aged = AT == sparta::ArrayType::AGED;
    Env env;
    Tracked::live() = 0;
    {
        sparta::StatisticSet ss(&env.rtn);
        const uint32_t cap = c.params[0];
        Arr b("b", cap, env.clk, cap & 1 ? &ss : nullptr);
        const Arr & cb = b;
        struct Handle { typename Arr::iterator i; bool used = false; };
        std::vector<Handle> h(c.params[2]);
        for(auto & op : c.ops) {
            auto r = guarded([&]() -> Ints {
                const auto & o = op.o;
                auto H = [&](size_t i) -> typename Arr::iterator & { return h.at(op.at(i)).i; };
                if(o == "write") { T t(op.at(1)); if(op.at(1) & 1) b.write(op.at(0), t); else b.write(op.at(0), std::move(t)); return {}; }
                if(o == "wself") { b.write(op.at(0), b.read(op.at(1))); return {}; }
                if(o == "erase") { b.erase(static_cast<uint32_t>(op.at(0))); return {}; }
                if(o == "clear") { b.clear(); return {}; }
                if(o == "read") return {cb.read(op.at(0)).v};
                if(o == "access") { b.access(op.at(0)).v = op.at(1); return {}; }
                if(o == "oldest") { auto i = b.getOldestIndex(op.at(0)); return {i.getIndex(), (*i).v}; }
                if(o == "youngest") { const auto i = b.getYoungestIndex(op.at(0)); return {i.getIndex(), i->v}; }
                if(o == "cmp") { uint32_t i = op.at(0), j = op.at(1); bool y = b.isYounger(i, j); return {y, b.isOlder(i, j)}; }
                if(o == "wfront") { T t(op.at(0)); switch(op.at(0) & 3) { case 0: return {b.writeFront(t)}; case 1: return {b.writeFront(std::move(t))};
                                    case 2: return {b.push_front(t)}; default: return {b.push_front(std::move(t))}; } }
                if(o == "wback") { T t(op.at(0)); switch(op.at(0) & 3) { case 0: return {b.writeBack(t)}; case 1: return {b.writeBack(std::move(t))};
                                    case 2: return {b.push_back(t)}; default: return {b.push_back(std::move(t))}; } }
                if(o == "rvalid") return {b.readValid(op.at(0)).v};
                if constexpr(aged) {
                    if(o == "eraold") { b.erase(b.getAgedList().back()); return {}; }
                    if(o == "next") { uint32_t i = op.at(0); bool f = b.getNextOldestIndex(i); return {f, i}; }
                    if(o == "habegin") { H(0) = b.abegin(); h.at(op.at(0)).used = true; return {}; }
                }
                if(o == "age") return {b.getAge(op.at(0))};
                if(o == "hbegin") { H(0) = b.begin(); h.at(op.at(0)).used = true; return {}; }
                if(o == "hcirc") { H(0) = b.getCircularIterator(op.at(1)); h.at(op.at(0)).used = true; return {}; }
                if(o == "hinc") { if(op.at(0) & 1) ++H(0); else H(0)++; return {}; }
                if(o == "hget") { typename Arr::const_iterator k(H(0)); long v = op.at(0) & 1 ? (*k).v : (*H(0)).v; if(v != H(0)->v) v = -9999; return {v}; }
                if(o == "hset") { (*H(0)).v = op.at(1); return {}; }
                if(o == "hwrite") { T t(op.at(1)); if(op.at(1) & 1) b.write(H(0), t); else b.write(H(0), std::move(t)); return {}; }
                if(o == "herase") { b.erase(H(0)); return {}; }
                if(o == "heq") return {H(0) == H(1), H(0) != H(1)};
                if(o == "hcmp") { bool y = H(0).isYounger(H(1)); if(y != (H(0) < H(1))) throw std::logic_error("<");
                                  return {y, H(0).isOlder(H(1))}; }
                bad_op(op);
            });
            St s;
            Ints vals, walk, ag, list, ages;
            for(uint32_t i = 0; i < cap; ++i) vals.push_back(b.isValid(i) ? b.read(i).v : -1);
            size_t n = 0;
            for(auto it = cb.begin(); it != cb.end() && n < 300; ++it, ++n) walk.push_back(it.isValid() ? (*it).v : -1);
            if constexpr(aged) {
                n = 0;
                for(auto it = b.abegin(); it != b.aend() && n < 300; ++it, ++n) ag.push_back(it.getIndex());
                n = 0;
                Ints ag2;
                for(auto it = cb.abegin(); it != cb.aend() && n < 300; ++it, ++n) ag2.push_back(it.getIndex());
                if(ag2 != ag) ag.push_back(-99);
                for(auto x : b.getAgedList()) list.push_back(x);
                for(auto i : ag) ages.push_back(b.getAge(i));
            }
            std::vector<Ints> hv;
            for(auto & i : h) {
                if(!i.used) { hv.push_back({}); continue; }
                bool end = i.i == b.end();
                hv.push_back({i.i.isValid(), end ? -1 : (i.i.isIndexValid() ? long(i.i.getIndex()) : -2)});
            }
            s.add("num", b.numValid()).add("free", b.numFree()).add("cap", b.capacity()).add("live", Tracked::live())
             .add("vals", vals).add("walk", walk).add("aged", ag).add("list", list).add("ages", ages).add("hv", hv);
            emit(op, r.first.c_str(), r.second, s);
        }
        env.rtn.enterTeardown();
    }
}

int main() {
    for(auto & c : read_cases()) {
        emit_case(c.params);
        if(c.params[1]) run<sparta::ArrayType::AGED>(c); else run<sparta::ArrayType::NORMAL>(c);
    }
}
