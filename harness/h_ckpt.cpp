// Drives sparta's FastCheckpointer through PersistentFastCheckpointer. case <snapshot threshold> <number of values>
#include "common.hpp"
#include "sparta_env.hpp"
#include "sparta/functional/Register.hpp"
#include "sparta/functional/RegisterSet.hpp"
#include "sparta/memory/MemoryObject.hpp"
#include "sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp"
#include "sparta/serialization/checkpoint/Checkpointable.hpp"
#include <algorithm>
#include <set>
#include <sstream>
using namespace vh;
using sparta::Register;
namespace cp = sparta::serialization::checkpoint;
using Chk = cp::PersistentFastCheckpointer;
using Cp = cp::FastCheckpointer::checkpoint_type;
static Register::Definition regs[] = {
    { 0, "r0", Register::GROUP_NUM_NONE, "", Register::GROUP_IDX_NONE, "reg", 8,  {}, {}, nullptr, Register::INVALID_ID, 0, nullptr, 0, 0 },
    { 1, "r1", Register::GROUP_NUM_NONE, "", Register::GROUP_IDX_NONE, "reg", 4,  {}, {}, nullptr, Register::INVALID_ID, 0, nullptr, 0, 0 },
    Register::DEFINITION_END
};
struct Disk {
    std::vector<std::unique_ptr<Cp>> all;
    Ints last;
    void saveCheckpoints(std::vector<std::unique_ptr<Cp>> && v) { for(auto & p : v) { last.push_back(p->getID()); all.push_back(std::move(p)); } }
};
struct Open : Chk { using Chk::Chk; const std::vector<sparta::ArchData *> & datas() const { return getArchDatas(); } };
struct World {
    Env env;
    sparta::TreeNode n1, n2;
    std::unique_ptr<sparta::RegisterSet> s1, s2;
    sparta::memory::MemoryObject mem;
    sparta::memory::BlockingMemoryObjectIFNode mif;
    cp::Checkpointable cpb;
    uint64_t & c0;
    struct Big { char pad[60]; uint32_t x; } & c1;
    World() :
        n1(&env.rtn, "n1", "n"), n2(&n1, "n2", "n"), s1(sparta::RegisterSet::create(&n1, regs)), s2(sparta::RegisterSet::create(&n2, regs)),
        mem(&n2, 64, 4096, 0, 1), mif(&n2, "mem", "m", nullptr, mem),
        cpb(&n1), c0(cpb.allocateCheckpointable<uint64_t>(0)), c1(cpb.allocateCheckpointable<Big>()) { for(int i : {1, 4, 6, 7, 8}) set(i, 0); env.finalize(); env.sched.run(1, true, false); env.sched.restartAt(0); }
    // 1 r0 of one set, 2 a memory line, 3 memory line written through a DMI pointer, 4 r1 of another set, 5 another memory line, 6 r1 of the first set (same line as 1), 7 checkpointable struct, 8 checkpointable
    void set(int i, long v) {
        uint64_t x = (uint64_t)v * 0x0101010101010101ull;
        switch(i) {
            case 1: s1->getRegister("r0")->write<uint64_t>(x); break;
            case 2: mif.write(0x40, 8, (uint8_t *)&x); break;
            case 8: c0 = x; break;
            case 4: s2->getRegister("r1")->poke<uint32_t>((uint32_t)x); break;
            case 5: mif.poke(0xf7c, 4, (uint8_t *)&x); break;
            case 7: c1.x = (uint32_t)x; break;
            case 6: s1->getRegister("r1")->write<uint32_t>((uint32_t)x); break;
            case 3: mif.getDMI(0x208, 8)->write(0x208, 8, (uint8_t *)&x); break;
        }
    }
    long get(int i) {
        uint64_t x = 0;
        switch(i) {
            case 1: x = s1->getRegister("r0")->read<uint64_t>(); break;
            case 2: mif.read(0x40, 8, (uint8_t *)&x); break;
            case 8: x = c0; break;
            case 4: x = s2->getRegister("r1")->peek<uint32_t>(); x |= x << 32; break;
            case 5: mif.peek(0xf7c, 4, (uint8_t *)&x); x |= x << 32; break;
            case 7: x = c1.x; x |= x << 32; break;
            case 6: x = s1->getRegister("r1")->read<uint32_t>(); x |= x << 32; break;
            case 3: mif.read(0x208, 8, (uint8_t *)&x); break;
        }
        return x == (x & 0xff) * 0x0101010101010101ull ? (long)(x & 0xff) : -1;
    }
};
int main() {
    for(auto & c : read_cases()) {
        emit_case(c.params);
        World w;
        Disk disk;
        Open ck(w.env.rtn, &w.env.sched);
        ck.setSnapshotThreshold(c.params[0]);
        int nv = c.params[1];
        long curid = -1, made = 0;
        std::set<long> dead;
        std::vector<std::string> files;
        auto values = [&]() { Ints v; for(int i = 1; i <= nv; ++i) v.push_back(w.get(i)); return v; };
        for(auto & op : c.ops) {
            auto r = guarded([&]() -> Ints {
                const auto & o = op.o;
                if(o == "w") { w.set(op.at(0), op.at(1)); return {}; }
                if(o == "run") { w.env.sched.run(op.at(0), true); return {}; }
                if(o == "restart") { w.env.sched.restartAt(op.at(0)); return {}; }
                if(o == "head") { ck.createHead(); made = 1; curid = 0; return {}; }
                if(o == "wcreate") w.set(made, 1);
                if(o == "create" || o == "wcreate") { long id = ck.createCheckpoint(op.at(0)); made = id + 1; curid = id; return {id, ck.findCheckpoint(id)->isSnapshot() ? 1 : 0}; }
                if(o == "save") {
                    std::ostringstream f; long id = ck.save(f);
                    made = id + 1; curid = id; files.push_back(f.str());
                    return {id, ck.findCheckpoint(id)->isSnapshot() ? 1 : 0};
                }
                if(o == "restore") { std::istringstream f(files.at(op.at(0) - 1)); ck.restore(f); return {}; }
                if(o == "load") { ck.loadCheckpoint(op.at(0)); curid = op.at(0); return {}; }
                if(o == "delete") { ck.deleteCheckpoint(op.at(0)); dead.insert(op.at(0)); return {}; }
                if(o == "forget") { ck.forgetCurrent(); curid = made ? (long)ck.getHeadID() : -1; return {}; }
                if(o == "latest") { auto p = ck.findLatestCheckpointAtOrBefore(op.at(0), op.at(1)); return {p ? (long)p->getID() : -1}; }
                if(o == "chain") { Ints v; for(auto i : ck.getCheckpointChain(op.at(0))) if(i != Cp::UNIDENTIFIED_CHECKPOINT) v.push_back(i); return v; }
                if(o == "at") { Ints v; for(auto i : ck.getCheckpointsAt(op.at(0))) v.push_back(i); return v; }
                if(o == "squash") {
                    disk.last.clear();
                    ck.squashCurrentBranch(disk, op.at(0));
                    if(op.at(0)) { curid = ck.getHeadID(); made = curid + 1; }
                    return disk.last;
                }
                if(o == "peek") { disk.all.at(op.at(0) - 1)->load(ck.datas()); Ints v = values(); ck.loadCheckpoint(ck.getCurrentID()); return v; }
                bad_op(op);
            });
            Ints ids, has;
            long err = 0;
            for(auto i : ck.getCheckpoints()) ids.push_back(i);
            std::set<long> alive(ids.begin(), ids.end());
            for(long i = 0; i < made; ++i) {
                has.push_back(ck.hasCheckpoint(i) ? 1 : 0);
                auto p = ck.findCheckpoint(i);
                if((p != nullptr) != alive.count(i) || (p && (long)p->getID() != i)) ++err;
                for(auto j : ck.getNextIDs(i)) if(!alive.count(j) || !alive.count(i) || ck.findCheckpoint(j)->getTick() < p->getTick()) ++err;
                if(p && p->getPrevID() != Cp::UNIDENTIFIED_CHECKPOINT && !alive.count(p->getPrevID())) ++err;
            }
            if(ck.hasCheckpoint(made) || ck.hasCheckpoint(Cp::UNIDENTIFIED_CHECKPOINT)) ++err;
            if(ck.getNumSnapshots() + ck.getNumDeltas() != ck.getNumCheckpoints()) ++err;
            long cur = curid == -1 || dead.count(curid) ? -1 : (long)ck.getCurrentID();
            St s;
            s.add("v", values()).add("t", (long)w.env.sched.getCurrentTick()).add("ids", ids).add("n", ck.getNumCheckpoints()).add("sn", ck.getNumSnapshots())
             .add("cur", cur).add("ct", cur == -1 ? -1L : (long)ck.getCurrentTick()).add("hd", ck.getHead() ? (long)ck.getHeadID() : -1L).add("has", has).add("err", err);
            emit(op, r.first.c_str(), r.second, s);
        }
    }
}
