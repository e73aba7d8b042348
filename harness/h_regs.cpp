// Drives sparta::Register, its fields and sets of them. case: see spec/Registers.tla
#include "common.hpp"
#include "sparta_env.hpp"
#include "sparta/functional/Register.hpp"
#include "sparta/functional/RegisterSet.hpp"
#include <memory>
using namespace vh;
using sparta::Register; using sparta::RegisterBase;
struct Watch {
    Register * r; Ints & seen; bool on = false;
    Watch(Register * r, Ints & s) : r(r), seen(s) {}
    void bytes(const sparta::DataView * d) { for(uint32_t i = 0; i < d->getSize(); ++i) seen.push_back(d->read<uint8_t>(i)); }
    void rd(const RegisterBase::ReadAccess & a) { seen.push_back(a.reg == r ? -2 : -20); bytes(a.value); }
    void wr(const RegisterBase::PostWriteAccess & a) { seen.push_back(a.reg == r ? -1 : -10); bytes(a.prior); bytes(a.final); }
    void set(bool x) {
        if(x == on) return;
        on = x;
        auto & rs = r->getReadNotificationSource(); auto & ws = r->getPostWriteNotificationSource();
        if(x) { rs.REGISTER_FOR_THIS(rd); ws.REGISTER_FOR_THIS(wr); } else { rs.DEREGISTER_FOR_THIS(rd); ws.DEREGISTER_FOR_THIS(wr); }
    }
};
inline uint8_t pat(long x, size_t i) { return (uint8_t)(x >= 256 ? x - 256 : x + 37 * i); }
template<class T> T val(long x) { uint8_t b[sizeof(T)]; for(size_t i = 0; i < sizeof(T); ++i) b[i] = pat(x, i); T t; memcpy(&t, b, sizeof(T)); return t; }
template<class T> Ints bytes(T t) { uint8_t b[sizeof(T)]; memcpy(b, &t, sizeof(T)); return Ints(b, b + sizeof(T)); }
template<class F> Ints typed(long n, F f) {
    switch(n) { case 1: return f(uint8_t()); case 2: return f(uint16_t()); case 4: return f(uint32_t()); case 8: return f(uint64_t()); }
    std::exit(3);
}
int main() {
    for(auto & c : read_cases()) {
        emit_case(c.params);
        const auto & p = c.params;
        // definitions, kept for as long as the registers
        std::vector<std::string> fnames; for(int i = 0; i < 64; ++i) fnames.push_back("f" + std::to_string(i));
        std::vector<std::string> rnames; for(int i = 0; i < 64; ++i) rnames.push_back("r" + std::to_string(i));
        std::vector<std::vector<unsigned char>> inits;
        std::vector<long> at, nf;
        std::vector<Register::Definition> defs;
        long free = 1;
        for(size_t i = 1; i < p.size(); ) {
            const long n = p[i], sub = p[i + 1], off = p[i + 2], ini = p[i + 3], k = p[i + 4];
            at.push_back(sub ? at[sub - 1] + off : free);
            if(!sub) free += n;
            inits.emplace_back();
            for(long j = 0; j < n; ++j) inits.back().push_back((unsigned char)(53 * (at.back() + j) + 7));
            std::vector<Register::Field::Definition> fs;
            for(long j = 0; j < k; ++j) fs.push_back({fnames[j].c_str(), "a field", (uint32_t)p[i + 5 + 3 * j], (uint32_t)p[i + 6 + 3 * j], p[i + 7 + 3 * j] == 1});
            nf.push_back(k);
            defs.push_back(Register::Definition{(uint32_t)defs.size(), rnames[defs.size()].c_str(), Register::GROUP_NUM_NONE, "", Register::GROUP_IDX_NONE, "a register", (uint32_t)n, fs, {}, nullptr,
                                                sub ? (uint32_t)(sub - 1) : Register::INVALID_ID, (uint32_t)off, ini ? inits.back().data() : nullptr, 0, 0});
            i += 5 + 3 * k;
        }
        std::vector<std::vector<unsigned char>> keep;   // (inits may have moved while growing, their data not)
        auto * all = (Register::Definition *)::operator new(sizeof(Register::Definition) * (defs.size() + 1));
        for(size_t i = 0; i < defs.size(); ++i) new(all + i) Register::Definition(defs[i]);
        new(all + defs.size()) Register::Definition(Register::DEFINITION_END);
        {
        Env env;
        auto rs = sparta::RegisterSet::create(&env.rtn, all);
        const size_t nr = defs.size();
        std::vector<Register *> reg; std::vector<std::vector<Register::Field *>> fld;
        for(size_t i = 0; i < nr; ++i) {
            reg.push_back(dynamic_cast<Register *>(rs->getRegister(rnames[i])));
            fld.emplace_back();
            for(long j = 0; j < nf[i]; ++j) fld.back().push_back(reg.back()->getField(fnames[j]));
        }
        env.finalize();
        env.rtn.bindTreeEarly(); env.rtn.bindTreeLate();
        Ints seen;
        std::vector<std::unique_ptr<Watch>> w;
        for(auto r : reg) w.emplace_back(new Watch(r, seen));
        auto plus = [&](Ints v) { v.insert(v.end(), seen.begin(), seen.end()); return v; };
        for(auto & op : c.ops) {
            seen.clear();
            auto r = guarded([&]() -> Ints {
                const auto & o = op.o;
                if(o == "resetall") { rs->reset(); return {}; }
                Register & R = *reg.at(op.at(0) - 1); RegisterBase & B = R;
                if(o == "read") return plus(typed(op.at(1), [&](auto t) { return bytes(B.read<decltype(t)>(op.at(2))); }));
                if(o == "peek") return typed(op.at(1), [&](auto t) { return bytes(B.peek<decltype(t)>(op.at(2))); });
                if(o == "dread") return typed(op.at(1), [&](auto t) { auto x = B.dmiRead<decltype(t)>(op.at(2)), y = R.dmiRead<decltype(t)>(op.at(2)); return x == y ? bytes(x) : Ints{-9}; });
                if(o == "write") return plus(typed(op.at(1), [&](auto t) { B.write<decltype(t)>(val<decltype(t)>(op.at(3)), op.at(2)); return Ints(); }));
                if(o == "writeu") return plus(typed(op.at(1), [&](auto t) { B.writeUnmasked<decltype(t)>(val<decltype(t)>(op.at(3)), op.at(2)); return Ints(); }));
                if(o == "rwriteu") return typed(op.at(1), [&](auto t) { R.writeUnmasked<decltype(t)>(val<decltype(t)>(op.at(3)), op.at(2)); return Ints(); });
                if(o == "poke") return plus(typed(op.at(1), [&](auto t) { B.poke<decltype(t)>(val<decltype(t)>(op.at(3)), op.at(2)); return Ints(); }));
                if(o == "pokeu") return plus(typed(op.at(1), [&](auto t) { B.pokeUnmasked<decltype(t)>(val<decltype(t)>(op.at(3)), op.at(2)); return Ints(); }));
                if(o == "dwrite") return plus(typed(op.at(1), [&](auto t) { if(op.at(3) % 2) B.dmiWrite<decltype(t)>(val<decltype(t)>(op.at(3)), op.at(2)); else R.dmiWrite<decltype(t)>(val<decltype(t)>(op.at(3)), op.at(2)); return Ints(); }));
                if(o[0] == 'b' && o != "b") {
                    const size_t n = op.at(1), off = op.at(2);
                    std::vector<uint8_t> buf(n);       // exactly as large, so that an access beyond it is noticed by the sanitizer
                    if(o == "bread") { B.read(buf.data(), n, off); return plus(Ints(buf.begin(), buf.end())); }
                    if(o == "bpeek") { B.peek(buf.data(), n, off); return plus(Ints(buf.begin(), buf.end())); }
                    for(size_t i = 0; i < n; ++i) buf[i] = pat(op.at(3), i);
                    if(o == "bwrite") { B.write(buf.data(), n, off); return plus({}); }
                    if(o == "bwriteu") { B.writeUnmasked(buf.data(), n, off); return plus({}); }
                    if(o == "bpoke") { B.poke(buf.data(), n, off); return plus({}); }
                    if(o == "bpokeu") { B.pokeUnmasked(buf.data(), n, off); return plus({}); }
                    bad_op(op);
                }
                if(o[0] == 'f') {
                    auto & f = *fld.at(op.at(0) - 1).at(op.at(1) - 1);
                    if(o == "fread") return plus(bytes(f.read()));
                    if(o == "fpeek") return plus(bytes(f.peek()));
                    uint64_t x = val<uint64_t>(op.at(3));
                    if(op.at(2) < 64) x &= (1ull << op.at(2)) - 1;
                    if(o == "fwrite") { f.write(x); return plus({}); }
                    if(o == "fpoke") { f.poke(x); return plus({}); }
                    if(o == "fpokeu") { f.pokeUnmasked(x); return plus({}); }
                    bad_op(op);
                }
                if(o == "rcheck") { auto v = B.readWithCheck(); if(seen.size() && seen[0] == -3) return seen; return plus(R.getNumBytes() == 4 ? bytes((uint32_t)v.getValue()) : bytes(v.getValue())); }
                if(o == "wcheck") { if(op.at(1) == 4) B.writeWithCheck<uint32_t>(val<uint32_t>(op.at(2))); else B.writeWithCheck<uint64_t>(val<uint64_t>(op.at(2)));
                                    if(seen.size() && seen[0] == -4) seen.resize(1 + op.at(1)); return seen; }
                if(o == "mask") { Ints v; for(uint32_t i = 0; i < R.getNumBytes(); ++i) v.push_back(R.getWriteMask<uint8_t>(i)); return v; }
                if(o == "reset") { R.reset(op.at(1)); return plus({}); }
                if(o == "observe") { w.at(op.at(0) - 1)->set(op.at(1)); return {}; }
                if(o == "cb") {
                    if(op.at(1)) {
                        R.addReadCB([&](RegisterBase * b) { seen.push_back(b == &R ? -3 : -30); return sparta::utils::ValidValue<uint64_t>(5); });
                        R.addWriteCB([&](RegisterBase * b, uint64_t x) { seen.push_back(b == &R ? -4 : -40); for(long y : bytes(x)) seen.push_back(y); return true; });
                    } else { R.addReadCB(nullptr); R.addWriteCB(nullptr); }
                    return {};
                }
                bad_op(op);
            });
            seen.clear();
            std::vector<Ints> rv, fv;
            for(size_t i = 0; i < nr; ++i) {
                Ints v; for(uint32_t j = 0; j < reg[i]->getNumBytes(); ++j) v.push_back(reg[i]->peek<uint8_t>(j)); rv.push_back(v);
                for(auto f : fld[i]) fv.push_back(bytes(f->peek()));
            }
            emit(op, r.first.c_str(), r.second, St().add("r", rv).add("f", fv));
        }
        for(auto & x : w) x->set(false);
        env.rtn.enterTeardown();
        }
    }
}
