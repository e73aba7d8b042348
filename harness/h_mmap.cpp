// Drives sparta::memory::SimpleMemoryMapNode. case <block size> <window> <devices> <device size>
#include "common.hpp"
#include "sparta_env.hpp"
#include "sparta/memory/MemoryObject.hpp"
#include "sparta/memory/SimpleMemoryMapNode.hpp"
using namespace vh;
namespace sm = sparta::memory;
int main() {
    for(auto & c : read_cases()) {
        emit_case(c.params);
        const long bs = c.params[0], win = c.params[1], nd = c.params[2], dsz = c.params[3];
        Env env;
        sparta::TreeNode n(&env.rtn, "n", "n");
        std::vector<std::unique_ptr<sm::MemoryObject>> obj;
        std::vector<std::unique_ptr<sm::BlockingMemoryObjectIFNode>> dev;
        for(long d = 1; d <= nd; ++d) {
            obj.emplace_back(new sm::MemoryObject(&n, bs, dsz, 16 + d, 1));
            dev.emplace_back(new sm::BlockingMemoryObjectIFNode(&n, "d" + std::to_string(d), "d", nullptr, *obj.back()));
        }
        sm::SimpleMemoryMapNode map(&n, "map", "m", bs, win);
        env.finalize();
        std::vector<uint8_t> buf;
        auto want = [&](long k) { buf.assign(k + 16, 0xee); return buf.data(); };
        auto data = [&](long x, long k) { buf.assign(k + 16, 0); for(long i = 0; i < k; ++i) buf[i] = (uint8_t)(x + i); return (const uint8_t *)buf.data(); };
        auto got = [&](bool ok, long k) -> Ints {
            if(!ok) return {0};
            for(long i = k; i < k + 16; ++i) if(buf[i] != 0xee) return {-1};
            Ints v{1}; for(long i = 0; i < k; ++i) v.push_back(buf[i]); return v; };
        auto id = [&](const sm::BlockingMemoryIF * m) -> long { for(long d = 0; d < nd; ++d) if(dev[d].get() == m) return d + 1; return 0; };
        for(auto & op : c.ops) {
            auto r = guarded([&]() -> Ints {
                const auto & o = op.o;
                if(o == "add") { map.addMapping(op.at(0), op.at(1), dev.at(op.at(2) - 1).get(), op.at(3)); return {}; }
                if(o == "read") { map.read(op.at(0), op.at(1), want(op.at(1))); return got(true, op.at(1)); }
                if(o == "tread") { bool b = map.tryRead(op.at(0), op.at(1), want(op.at(1))); return got(b, op.at(1)); }
                if(o == "write") { map.write(op.at(0), op.at(1), data(op.at(2), op.at(1))); return {1}; }
                if(o == "twrite") return {map.tryWrite(op.at(0), op.at(1), data(op.at(2), op.at(1)))};
                if(o == "peek") { map.peek(op.at(0), op.at(1), want(op.at(1))); return got(true, op.at(1)); }
                if(o == "tpeek") { bool b = map.tryPeek(op.at(0), op.at(1), want(op.at(1))); return got(b, op.at(1)); }
                if(o == "poke") { map.poke(op.at(0), op.at(1), data(op.at(2), op.at(1))); return {1}; }
                if(o == "tpoke") return {map.tryPoke(op.at(0), op.at(1), data(op.at(2), op.at(1)))};
                if(o == "has") { map.verifyHasMapping(op.at(0), op.at(1)); return {}; }
                if(o == "dmi") { sm::DMIBlockingMemoryIF * d = map.getDMI(op.at(0), op.at(1)); if(!d) return {0}; return {1, (long)d->getLowEnd(), (long)d->getRange()}; }
                if(o == "dev") { uint8_t x = op.at(2); obj.at(op.at(0) - 1)->write(op.at(1), 1, &x); return {}; }
                bad_op(op);
            });
            std::vector<Ints> t, m, l;
            const auto & cm = map;
            for(long a = 0; a < win; a += bs) {
                Ints row;
                for(long x : {a, a + bs - 1}) {
                    auto p = cm.mapAddress(x);
                    long d = id(p.first);
                    if(id(map.findInterface(x)) != d || (map.findMapping(x) == nullptr) != (d == 0)) d = -1;
                    row.push_back(d); row.push_back(p.second);
                }
                t.push_back(row);
            }
            for(auto & o : obj) { Ints v; for(long a = 0; a < dsz; a += bs) { uint8_t b[256]; o->read(a, bs, b); for(long i = 0; i < bs; ++i) v.push_back(b[i]); } m.push_back(v); }
            for(auto x : map.getMappings()) l.push_back({(long)x->start, (long)x->end, id(x->memif), (long)x->dest_off});
            St s;
            s.add("t", t).add("n", (long)map.getNumMappings()).add("m", m).add("l", l);
            emit(op, r.first.c_str(), r.second, s);
        }
        env.rtn.enterTeardown();
    }
}
