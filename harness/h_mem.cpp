// Drives sparta::memory::MemoryObject and BlockingMemoryObjectIFNode. case <block size> <total size> <fill pattern size>
#include "common.hpp"
#include "sparta_env.hpp"
#include "sparta/memory/MemoryObject.hpp"
using namespace vh;
using sparta::memory::addr_t;
struct Watch {
    sparta::memory::BlockingMemoryIFNode & m; bool on = false; Ints seen;
    Watch(sparta::memory::BlockingMemoryIFNode & m) : m(m) {}
    void put(const uint8_t * p, addr_t n) { for(addr_t i = 0; i < n; ++i) seen.push_back(p[i]); }
    void r(const sparta::memory::BlockingMemoryIFNode::ReadAccess & a) { seen.push_back(a.addr); seen.push_back(a.size); put(a.data, a.size); }
    void w(const sparta::memory::BlockingMemoryIFNode::PostWriteAccess & a) { seen.push_back(a.addr); seen.push_back(a.size); put(a.prior, a.size); put(a.tried, a.size); }
    void set(bool x) {
        if(x == on) return;
        on = x;
        auto & rs = m.getReadNotificationSource(); auto & ws = m.getPostWriteNotificationSource();
        if(x) { rs.REGISTER_FOR_THIS(r); ws.REGISTER_FOR_THIS(w); } else { rs.DEREGISTER_FOR_THIS(r); ws.DEREGISTER_FOR_THIS(w); }
    }
};
int main() {
    for(auto & c : read_cases()) {
        emit_case(c.params);
        const long bs = c.params[0], total = c.params[1], fs = c.params[2];
        uint64_t fill = 0;
        for(long i = 0; i < fs; ++i) fill |= (uint64_t)(17 * (i + 1)) << (8 * i);
        Env env;
        sparta::TreeNode n(&env.rtn, "n", "n");
        sparta::memory::MemoryObject mem(&n, bs, total, fill, fs);
        sparta::memory::BlockingMemoryObjectIFNode mif(&n, "mem", "m", nullptr, mem);
        env.finalize();
        Watch w(mif);
        std::vector<uint8_t> buf;
        auto want = [&](long k) { buf.assign(k + 16, 0xee); return buf.data(); };
        auto data = [&](long x, long k) { buf.assign(k + 16, 0); for(long i = 0; i < k; ++i) buf[i] = (uint8_t)(x + i); return (const uint8_t *)buf.data(); };
        auto got = [&](bool ok, long k) -> Ints {
            if(!ok) return {0};
            for(long i = k; i < k + 16; ++i) if(buf[i] != 0xee) return {-1};          // wrote more than asked for
            Ints v{1}; for(long i = 0; i < k; ++i) v.push_back(buf[i]); v.insert(v.end(), w.seen.begin(), w.seen.end()); return v; };
        auto put = [&](bool ok) -> Ints { if(!ok) return {0}; Ints v{1}; v.insert(v.end(), w.seen.begin(), w.seen.end()); return v; };
        auto dmi = [&](long a, long k) -> sparta::memory::DMIBlockingMemoryIF * { try { return mif.getDMI(a, k); } catch(const sparta::SpartaException &) { return nullptr; } };
        for(auto & op : c.ops) {
            w.seen.clear();
            auto r = guarded([&]() -> Ints {
                const auto & o = op.o;
                if(o == "read") { mif.read(op.at(0), op.at(1), want(op.at(1))); return got(true, op.at(1)); }
                if(o == "tread") { bool b = mif.tryRead(op.at(0), op.at(1), want(op.at(1))); return got(b, op.at(1)); }
                if(o == "write") { mif.write(op.at(0), op.at(1), data(op.at(2), op.at(1))); return put(true); }
                if(o == "twrite") { bool b = mif.tryWrite(op.at(0), op.at(1), data(op.at(2), op.at(1))); return put(b); }
                if(o == "peek") { mif.peek(op.at(0), op.at(1), want(op.at(1))); return got(true, op.at(1)); }
                if(o == "tpeek") { bool b = mif.tryPeek(op.at(0), op.at(1), want(op.at(1))); return got(b, op.at(1)); }
                if(o == "poke") { mif.poke(op.at(0), op.at(1), data(op.at(2), op.at(1))); return put(true); }
                if(o == "tpoke") { bool b = mif.tryPoke(op.at(0), op.at(1), data(op.at(2), op.at(1))); return put(b); }
                if(o == "oread") { mem.read(op.at(0), op.at(1), want(op.at(1))); return got(true, op.at(1)); }
                if(o == "owrite") { mem.write(op.at(0), op.at(1), data(op.at(2), op.at(1))); return put(true); }
                if(o == "dread") { auto d = dmi(op.at(0), 1); if(!d) return {0}; bool b = d->tryRead(op.at(1), op.at(2), want(op.at(2))); return got(b, op.at(2)); }
                if(o == "dwrite") { auto d = dmi(op.at(0), 1); if(!d) return {0}; bool b = d->tryWrite(op.at(1), op.at(2), data(op.at(3), op.at(2))); return put(b); }
                if(o == "dmi") { auto d = dmi(op.at(0), op.at(1)); if(!d) return {0}; return {(long)d->getLowEnd(), (long)d->getRange()}; }
                if(o == "nodmi") { mif.invalidateAllDMI(); return {}; }
                if(o == "clean") { mem.clean(); return {}; }
                if(o == "observe") { w.set(op.at(0)); return {}; }
                bad_op(op);
            });
            Ints all;
            for(long a = 0; a < total; a += bs) { uint8_t b[256]; mem.read(a, bs, b); for(long i = 0; i < bs; ++i) all.push_back(b[i]); }
            auto & ss = mif.getStatisticSet();
            St s;
            s.add("m", all).add("nr", (long)ss.getCounterAs<sparta::Counter>("num_reads")->get()).add("nw", (long)ss.getCounterAs<sparta::Counter>("num_writes")->get());
            emit(op, r.first.c_str(), r.second, s);
        }
        w.set(false);
        env.rtn.enterTeardown();
    }
}
