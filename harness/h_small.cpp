// Drives FastList, BitArray and TieredMap. case and codes: see spec/FastList.tla, BitArray.tla and TieredMap.tla
#include "common.hpp"
#include "sparta_env.hpp"
#include <algorithm>
#include <cstring>
#include <iterator>
#include <map>
#include "sparta/utils/FastList.hpp"
#include "sparta/utils/BitArray.hpp"
#include "sparta/utils/TieredMap.hpp"
using namespace vh;

struct Elem : Tracked { explicit Elem(long x) : Tracked(x) { if(x < 0) throw std::runtime_error("no such element"); } };

static void list(const Case & c) {
    {
    sparta::utils::FastList<Elem> l(c.params[1]);
    const auto & cl = l;
    std::vector<const Elem *> where;               // in list order
    const auto pos = [&](long i) { auto it = l.begin(); while(i-- > 0) ++it; return it; };

    for(const auto & op : c.ops) {
        auto r = guarded([&]() -> Ints {
            Ints v;
            const auto added = [&](size_t i, sparta::utils::FastList<Elem>::iterator it) {
                where.insert(where.begin() + i, &*it);
                v.push_back(it->v); ++it; if(it != l.end()) v.push_back((*it).v);
            };
            if(op.o == "back") { auto it = l.emplace_back(op.at(0)); added(where.size(), it); }
            else if(op.o == "front") { auto it = l.emplace_front(op.at(0)); added(0, it); }
            else if(op.o == "ins") { auto it = l.insert(pos(op.at(0)), op.at(1)); added(op.at(0), it); }
            else if(op.o == "emp") { auto it = l.emplace(pos(op.at(0)), op.at(1)); added(op.at(0), it); }
            else if(op.o == "del") { auto it = l.erase(pos(op.at(0))); where.erase(where.begin() + op.at(0)); if(it != l.end()) v.push_back(it->v); }
            else if(op.o == "popb") { l.pop_back(); where.pop_back(); }
            else if(op.o == "popf") { l.pop_front(); where.erase(where.begin()); }
            else if(op.o == "set") { auto it = pos(op.at(0)); it->v = op.at(1); }
            else if(op.o == "clear") { l.clear(); where.clear(); }
            else bad_op(op);
            return v;
        });
        Ints q, q2; long moved = 0; size_t i = 0;
        for(auto it = cl.begin(); it != cl.end(); ++it) { q.push_back(it->v); moved += i >= where.size() || where[i] != &*it; ++i; }
        for(auto & e : l) q2.push_back(e.v);
        if(q != q2) q.push_back(-999);
        if(l.empty() != q.empty()) q.push_back(-998);
        Ints ends; if(!q.empty()) { ends = {l.front().v, l.back().v}; if(cl.front().v != ends[0] || cl.back().v != ends[1]) ends.push_back(-1); }
        emit(op, r.first.c_str(), r.second, St().add("q", q).add("size", l.size()).add("live", Tracked::live()).add("moved", moved).add("max", l.max_size()).add("ends", ends));
    }
    }
    if(Tracked::live() != 0) { std::fprintf(stderr, "elements left over: %ld\n", Tracked::live()); std::_Exit(4); }
}

static void bits(const Case & c) {
    using B = sparta::utils::BitArray;
    B a(uint8_t(0)), b(uint8_t(0));
    const auto bytes = [](const B & x) { const unsigned char * d = static_cast<const unsigned char *>(x.getValue()); return Ints(d, d + x.getSize()); };
    for(const auto & op : c.ops) {
        auto r = guarded([&]() -> Ints {
            B & i = op.at(0) == 1 ? a : b; B & j = op.at(0) == 1 ? b : a;
            if(op.o == "make") { if(op.at(2) == 2) i = B(uint16_t(op.at(1))); else i = B(uint16_t(op.at(1)), op.at(2)); }
            else if(op.o == "raw") { std::vector<uint8_t> d; for(long k = 0; k < op.at(1); ++k) d.push_back(3 * k + 129); if(op.at(1) == op.at(2)) { B t(d.data(), d.size()); i = t; } else { B t(d.data(), d.size(), op.at(2)); i = t; } }
            else if(op.o == "fill") { if(op.at(2) == 1) i.fill(uint8_t(op.at(1))); else i.fill(uint16_t(op.at(1))); }
            else if(op.o == "sh") { if(op.at(1) >= 0) i <<= op.at(1); else i >>= -op.at(1); }
            else if(op.o == "shto") { if(op.at(1) >= 0) i = j << op.at(1); else i = j >> -op.at(1); }
            else if(op.o == "and") i &= j;
            else if(op.o == "or") i |= j;
            else if(op.o == "andto") i = j & i;
            else if(op.o == "orto") i = j | i;
            else if(op.o == "not") { B t = ~i; i = t; }
            else if(op.o == "notto") i = ~j;
            else if(op.o == "copy") i = j;
            else if(op.o == "ctor") { B t(j); B u(t); i = u; }
            else if(op.o == "move") { i = std::move(j); j = B(uint8_t(0)); }
            else if(op.o == "mctor") { B t(std::move(j)); B u(std::move(t)); i = std::move(u); j = B(uint8_t(0)); }
            else if(op.o == "self") { B & s = i; i = s; }
            else if(op.o == "swap") std::swap(a, b);
            else bad_op(op);
            return {};
        });
        long eq = a == b; if((a != b) == (a == b) || (b == a) != (a == b)) eq = -1;
        emit(op, r.first.c_str(), r.second, St().add("a", bytes(a)).add("b", bytes(b)).add("eq", eq).add("n", Ints{long(a.getSize()), long(b.getSize())})
             .add("low", Ints{long(a.getValue<uint16_t>()), long(b.getValue<uint8_t>())}));
    }
}

template<class K> static void tiers(const Case & c) {
    using M = sparta::TieredMap<K, long>;
    M m(c.params[1]);
    const M & cm = m;
    const int shift = c.params[2] - 24;
    std::vector<std::pair<long, long>> keys; std::vector<const void *> where;
    const auto key = [&](const Op & op) { return K((K(op.at(0)) << shift) + K(op.at(1))); };
    for(const auto & op : c.ops) {
        auto r = guarded([&]() -> Ints {
            if(op.o == "clear") { m.clear(); keys.clear(); where.clear(); return {}; }
            const K k = key(op);
            const auto seen = [&](const typename M::pair_t * x) -> Ints { if(!x) return {}; return {op.at(0), op.at(1), x->first == k ? long(x->second) : -9}; };
            const auto note = [&](long * at) { if(m.size() > keys.size()) { keys.push_back({op.at(0), op.at(1)}); where.push_back(at); } };
            if(op.o == "set") { long & x = m[k]; note(&x); x = op.at(2); return {}; }
            if(op.o == "get") { long & x = m[k]; note(&x); return {x}; }
            if(op.o == "find") return seen(m.find(k));
            if(op.o == "cfind") return seen(cm.find(k));
            if(op.o == "try") return seen(m.tryGet(k));
            if(op.o == "ctry") return seen(cm.tryGet(k));
            bad_op(op);
        });
        std::vector<Ints> all; long moved = 0; size_t i = 0;
        for(auto it = m.begin(); it != m.end(); ++it, ++i) {
            if(i >= keys.size()) { moved += 100; break; }
            all.push_back({keys[i].first, keys[i].second, *it});
            moved += where[i] != &*it;
        }
        i = 0; for(auto it = cm.begin(); it != cm.end(); it++, ++i) if(i >= all.size() || *it != all[i][2]) moved += 1000;
        emit(op, r.first.c_str(), r.second, St().add("m", all).add("size", m.size()).add("moved", moved));
    }
}

int main() {
    for(auto & c : read_cases()) {
        emit_case(c.params);
        switch(c.params[0]) {
        case 1: list(c); break;
        case 2: bits(c); break;
        default: if(c.params[2] == 32) tiers<uint32_t>(c); else tiers<uint64_t>(c);
        }
    }
    std::_Exit(0);
}
