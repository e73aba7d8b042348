// Drives SimpleCache and SimpleCache2 with LRU and tree PLRU replacement. case: see spec/Cache.tla
#include "common.hpp"
#include <list>
#include <map>
#include <memory>
#include "sparta/sparta.hpp"
#include "cache/SimpleCache.hpp"
#include "cache/SimpleCache2.hpp"
#include "cache/LRUReplacement.hpp"
#include "cache/TreePLRUReplacement.hpp"
using namespace vh;
using namespace sparta::cache;
static long L, STRIDE, BASE;
static long off(long c) { return c == 3 ? L - 1 : c - 1; }
static uint64_t addr(long b) { return (uint64_t)b * STRIDE; }
using Bytes = std::vector<uint8_t>;
struct Memory {
    std::map<uint64_t, Bytes> m;
    Bytes & at(uint64_t a) {
        auto & v = m[a / STRIDE];
        if(v.empty()) { v.resize(L, 99); for(long c = 1; c <= 3; ++c) v[off(c)] = (7 * (a / STRIDE) + c) % 251; }
        return v;
    }
};
struct C1 : SimpleCache<LineData> {
    Memory & m; bool bad = false;
    C1(Memory & m, const ReplacementIF & r, long kb) : SimpleCache(kb, L, STRIDE, LineData(L), r), m(m) {}
    void castout_(const LineData & l) override { SimpleCache::castout_(l); if(!l.isValid()) bad = true; m.at(l.getAddr()).assign(l.getDataPtr(), l.getDataPtr() + L); }
    void reload_(uint64_t a, LineData & l) override { SimpleCache::reload_(a, l); memcpy(l.getDataPtr(), m.at(a).data(), L); }
    void writeNextLevel_(uint64_t a, uint32_t n, const uint8_t * b) override { SimpleCache::writeNextLevel_(a, n, b); memcpy(m.at(a / STRIDE * STRIDE).data() + a % STRIDE, b, n); }
    Cache<LineData> & c() { return cache_; }
};
// usable with and without the non-temporal mark
struct Line : LineDataWithNT {
    using LineDataWithNT::LineDataWithNT; using LineDataWithNT::reset;
    void reset(uint64_t a) { LineDataWithNT::reset(a, false); }
};
struct C2 : SimpleCache2<Line> {
    C2(const ReplacementIF & r, long bytes, bool kb) : SimpleCache2(kb ? bytes / 1024 : bytes, L, STRIDE, Line(L), r, kb) {}
    auto & c() { return cache_; }
};
static long nt(const LineData &) { return 0; }
static long nt(const Line & l) { return l.isNT(); }
template<class C> St observe(C & c, const Ints & st) {
    std::vector<Ints> l, r;
    for(auto & s : c) {
        Ints v;
        for(auto & w : s) {
            if(!w.isValid()) { v.push_back(0); continue; }
            v.insert(v.end(), {1, (long)(w.getAddr() / STRIDE), w.isModified(), nt(w)});
            for(long k = 1; k <= 3; ++k) v.push_back(w.getDataPtr()[off(k)]);
        }
        l.push_back(v); r.push_back({(long)s.getReplacementIF()->getLRUWay() + 1, (long)s.getReplacementIF()->getMRUWay() + 1});
    }
    return St().add("l", l).add("r", r).add("st", st);
}
// one or two neighbouring watched bytes
static Ints get(const Bytes & v) { return Ints(v.begin(), v.end()); }
static Bytes put(const Op & op) { Bytes b; for(long i = 0; i < op.at(2); ++i) b.push_back(op.at(3) + op.at(1) + i); return b; }
int main() {
    for(auto & c : read_cases()) {
        emit_case(c.params);
        const auto & p = c.params;
        const long type = p[0], sets = p[2], ways = p[3];
        L = p[4]; STRIDE = p[5];
        std::unique_ptr<ReplacementIF> rep;
        if(p[1] == 1) rep.reset(new LRUReplacement(ways)); else rep.reset(new TreePLRUReplacement(ways));
        Memory m;
        std::unique_ptr<C1> c1; std::unique_ptr<C2> c2;
        const long bytes = sets * ways * L;
        if(type == 1) c1.reset(new C1(m, *rep, bytes / 1024)); else c2.reset(new C2(*rep, bytes, bytes % 1024 == 0));
        rep.reset();
        for(auto & op : c.ops) {
            auto r = guarded([&]() -> Ints {
                const auto & o = op.o;
                if(o == "mode") { c1->setWriteThroughMode(op.at(0)); c1->setWriteAllocateMode(op.at(1)); return {}; }
                if(o == "clear") { c1->resetStats(); return {}; }
                if(o == "invall") { if(type == 1) c1->invalidateAll(); else c2->invalidateAll(); return {}; }
                const long b = op.at(0); const uint64_t A = addr(b), B = A + (b % 2 ? L / 2 : 0);
                if(o == "hit") {
                    auto at = [&](auto & x, auto & y) -> Ints {
                        const LineData * l = x.peekLine(B); bool cold;
                        if(x.isHit(B) != (l != nullptr) || y.getItem(B) != l || y.getItem(B, cold) != l || (l && (l->getSetIndex() != (uint32_t)(b % sets) || y.peekCacheSet(B).getSetIndex() != l->getSetIndex()))) return {-9};
                        return {l ? (long)l->getWay() + 1 : 0};
                    };
                    return type == 1 ? at(*c1, c1->c()) : at(*c2, c2->c());
                }
                if(o == "open") {
                    auto f = [&](auto & y) -> long { long w = y.findInvalidWay(B); if(y.getCacheSet(B).hasOpenWay() != (w < ways)) return -9; return w == ways ? 0 : w + 1; };
                    if(type == 2 && c2->hasOpenWay(B) != (f(c2->c()) > 0)) return {-9};
                    return {type == 1 ? f(c1->c()) : f(c2->c())};
                }
                if(o == "read") { Bytes v(op.at(2)); if(!c1->read(A + off(op.at(1)), v.size(), v.data())) return {-9}; return get(v); }
                if(o == "write") { Bytes v = put(op); if(!c1->write(A + off(op.at(1)), v.size(), v.data())) return {-9}; return {}; }
                if(o == "line") return {(long)c1->getLine(B)->getWay() + 1};
                if(o == "hitc") { bool need, dirty = false; uint64_t ca; bool h = c1->isHitWithCastout(B, need, ca, dirty); return need ? Ints{h, 1, (long)(ca / STRIDE), dirty} : Ints{h, 0}; }
                if(o == "inv") { c1->invalidateLine(B); return {}; }
                if(o == "fill" || o == "filli" || o == "fillnt") {
                    auto & l = o == "fill" ? c2->getLineForReplacement(B) : o == "filli" ? c2->getLineForReplacementWithInvalidCheck(B) : c2->getLineForReplacement(B, op.at(1) == 1);
                    if(o == "fillnt") c2->allocateWithMRUUpdate(l, B, op.at(1) == 1); else { l.setNT(false); c2->allocateWithMRUUpdate(l, B); }
                    for(long k = 1; k <= 3; ++k) l.getDataPtr()[off(k)] = (7 * b + k) % 251;
                    if(c2->getLine(B) != &l) return {-9};
                    return {(long)l.getWay() + 1};
                }
                auto * l = c2->getLine(B);
                if(!l || c2->peekLine(B) != l) return {-9};
                if(o == "rd") { Bytes v(op.at(2)); c2->readWithMRUUpdate(*l, A + off(op.at(1)), v.size(), v.data()); return get(v); }
                if(o == "wr") { Bytes v = put(op); c2->writeWithMRUUpdate(*l, A + off(op.at(1)), v.size(), v.data()); return {}; }
                if(o == "drop") { c2->invalidateLineWithLRUUpdate(*l); return {}; }
                if(o == "mru") { c2->touchMRU(*l); return {}; }
                if(o == "lru") { c2->touchLRU(*l); return {}; }
                bad_op(op);
            });
            if(type == 1) emit(op, r.first.c_str(), r.second, observe(c1->c(), {(long)c1->getNumCastouts(), (long)c1->getNumReloads(), (long)c1->getNumReads(), (long)c1->getNumWrites(), (long)c1->getNumReadMisses(), (long)c1->getNumWriteMisses(), (long)c1->getNumWriteNextLevel(), (long)c1->getNumGetLineMisses()}));
            else emit(op, r.first.c_str(), r.second, observe(*c2, Ints(8, 0)));
        }
    }
}
