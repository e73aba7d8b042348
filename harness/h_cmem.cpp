// Drives sparta::memory::CachedMemory. case <block size> <total size> <watermark>
#include "common.hpp"
#include "sparta_env.hpp"
#include "sparta/memory/MemoryObject.hpp"
#include "sparta/memory/CachedMemory.hpp"
using namespace vh;
namespace sm = sparta::memory;
int main() {
    for(auto & c : read_cases()) {
        emit_case(c.params);
        const long bs = c.params[0], total = c.params[1];
        Env env;
        sparta::TreeNode n(&env.rtn, "n", "n");
        sm::MemoryObject obj(&n, bs, total, 0, 1);
        sm::BlockingMemoryObjectIFNode down(&n, "down", "d", nullptr, obj);
        env.finalize();
        for(long i = 0; i < total; ++i) { uint8_t x = 100 + i; obj.write(i, 1, &x); }
        sm::CachedMemory<> cm("core", 3, c.params[2], bs, total, &down);
        const uint64_t base = (uint64_t)3 << 56;
        std::vector<uint8_t> buf;
        auto want = [&](long k) { buf.assign(k + 16, 0xee); return buf.data(); };
        auto data = [&](long x, long k) { buf.assign(k + 16, 0); for(long i = 0; i < k; ++i) buf[i] = (uint8_t)(x + i); return (const uint8_t *)buf.data(); };
        auto got = [&](long k) -> Ints { for(long i = k; i < k + 16; ++i) if(buf[i] != 0xee) return {-1}; Ints v; for(long i = 0; i < k; ++i) v.push_back(buf[i]); return v; };
        auto kth = [&](long k) -> sm::StoreData {
            for(auto & p : cm.getOutstandingWrites()) if(--k == 0) return p.second;
            return sm::StoreData(base + 0xffffff, 0, 1, data(0, 1), nullptr, nullptr); };
        for(auto & op : c.ops) {
            auto r = guarded([&]() -> Ints {
                const auto & o = op.o;
                if(o == "read") { cm.read(op.at(0), op.at(1), want(op.at(1))); return got(op.at(1)); }
                if(o == "peek") { cm.peek(op.at(0), op.at(1), want(op.at(1))); return got(op.at(1)); }
                if(o == "write") { cm.write(op.at(0), op.at(1), data(op.at(2), op.at(1))); return {}; }
                if(o == "poke") { cm.poke(op.at(0), op.at(1), data(op.at(2), op.at(1))); return {}; }
                if(o == "commit") { cm.commitWrite(kth(op.at(0))); return {}; }
                if(o == "drop") { cm.dropWrite(kth(op.at(0))); return {}; }
                if(o == "other") { auto p = data(op.at(2), op.at(1)); down.write(op.at(0), op.at(1), p); cm.mergeWrite(op.at(0), op.at(1), p); return {}; }
                if(o == "find") { Ints v; for(auto & w : cm.getOutstandingWritesForAddr(op.at(0))) v.push_back(w.getWriteID() - base); return v; }
                bad_op(op);
            });
            Ints see, mem, ids;
            want(total); cm.peek(0, total, buf.data()); see = got(total);
            want(total); down.peek(0, total, buf.data()); mem = got(total);
            for(auto & p : cm.getOutstandingWrites()) ids.push_back(p.first == p.second.getWriteID() ? (long)(p.first - base) : -1);
            St s;
            s.add("see", see).add("mem", mem).add("n", (long)cm.getNumOutstandingWrites()).add("ids", ids).add("last", ids.empty() ? 0 : (long)(cm.getLastOutstandingWrite().getWriteID() - base));
            emit(op, r.first.c_str(), r.second, s);
        }
        env.rtn.enterTeardown();
    }
}
