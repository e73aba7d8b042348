// Drives sparta's shared and weak pointers and the pooled allocator. case <pool blocks> <strong> <base> <weak>
#include "common.hpp"
#include "sparta/utils/SpartaSharedPointer.hpp"
#include "sparta/utils/SpartaSharedPointerAllocator.hpp"
#include <algorithm>
#include <memory>
#include <set>
#include <map>
using namespace vh;
struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
struct Base {
    virtual ~Base() {}
    virtual long value() const = 0;
    virtual long link() const = 0;
};
struct Node;
using P = sparta::SpartaSharedPointer<Node>;
using B = sparta::SpartaSharedPointer<Base>;
using W = sparta::SpartaWeakPointer<Node>;
using A = sparta::SpartaSharedPointerAllocator<Node>;
static std::map<const void *, long> s_live;      // storage of living objects
static long s_err = 0;
struct Node : Base {
    long pad[3];
    P next;
    long v;
    void come() {
        for(auto & x : s_live) { auto a = (const char *)x.first, b = (const char *)this; if(b < a + sizeof(Node) && a < b + sizeof(Node)) ++s_err; }
        s_live[this] = 1; for(auto & p : pad) p = v;
    }
    Node(long v) : v(v) { come(); }
    Node(long v, int) : v(v) { throw Boom(); }
    Node(long v, A & a) : v(v) { come(); try { next = sparta::allocate_sparta_shared_pointer<Node>(a, v + 10); } catch(...) { s_live.erase(this); throw; } }
    ~Node() { if(s_live.erase(this) != 1) ++s_err; if(pad[0] != v || pad[1] != v || pad[2] != v) ++s_err; v = pad[0] = -888; }
    void set(long x) { v = x; for(auto & p : pad) p = x; }
    long value() const override { return v; }
    long link() const override { return next ? next->v : 0; }
};
int main() {
    for(auto & c : read_cases()) {
        emit_case(c.params);
        s_live.clear(); s_err = 0;
        auto pool = new A(c.params[0], c.params[0]);          // may outlive cycles of objects: never destroyed
        A & a = *pool;
        {
        std::vector<P> st(c.params[1]);
        std::vector<B> ba(c.params[2]);
        std::vector<W> wk(c.params[3]);
        for(auto & op : c.ops) {
            auto r = guarded([&]() -> Ints {
                const auto & o = op.o;
                auto S = [&](size_t i) -> P & { return st.at(op.at(i)); };
                auto K = [&](size_t i) -> W & { return wk.at(op.at(i)); };
                if(o == "new") { S(0) = P(new Node(op.at(1))); return {}; }
                if(o == "newr") { S(0).reset(new Node(op.at(1))); return {}; }
                if(o == "pool") { S(0) = sparta::allocate_sparta_shared_pointer<Node>(a, op.at(1)); return {}; }
                if(o == "poolx") { S(0) = sparta::allocate_sparta_shared_pointer<Node>(a, op.at(1), 1); return {}; }
                if(o == "nest") { S(0) = sparta::allocate_sparta_shared_pointer<Node>(a, op.at(1), a); return {}; }
                if(o == "copy" || o == "selfc") { S(0) = S(1); return {}; }
                if(o == "move" || o == "selfm") { S(0) = std::move(S(1)); return {}; }
                if(o == "copyc") { P & x = S(0); x.~P(); new (&x) P(S(1)); return {}; }
                if(o == "movec") { P & x = S(0); x.~P(); new (&x) P(std::move(S(1))); return {}; }
                if(o == "null") { S(0).reset(); return {}; }
                if(o == "assn") { S(0) = nullptr; return {}; }
                if(o == "next") { S(1) = S(0)->next; return {}; }
                if(o == "nextm") { S(1) = std::move(S(0)->next); return {}; }
                if(o == "link") { Node * n = S(0).get(); if(&n->next != &S(1)) n->next = S(1); return {}; }
                if(o == "linkm") { Node * n = S(0).get(); n->next = std::move(S(1)); return {}; }
                if(o == "unlink") { S(0)->next.reset(); return {}; }
                if(o == "setv") { (*S(0)).set(op.at(1)); return {}; }
                if(o == "eq") { long e = S(0) == S(1), n = S(0) != S(1); return {e, n}; }
                if(o == "base") { ba.at(op.at(0)) = B(S(1)); return {}; }
                if(o == "bnull") { ba.at(op.at(0)).reset(); return {}; }
                if(o == "weak") { K(0) = W(S(1)); return {}; }
                if(o == "weakc") { K(0) = S(1); return {}; }
                if(o == "wcopy") { K(0) = K(1); return {}; }
                if(o == "wmove") { K(0) = std::move(K(1)); return {}; }
                if(o == "wnull") { K(0) = W(); return {}; }
                if(o == "lock") { S(0) = K(1).lock(); return {}; }
                bad_op(op);
            });
            St s;
            std::vector<Ints> vs, vb, vw;
            auto see = [](auto & p) -> Ints {
                if(!p) { if(p || p.get() || p != nullptr || !(p == nullptr) || p.use_count()) return {-1}; return {0}; }
                if(p.operator->() != p.get() || p == nullptr || !static_cast<bool>(p)) return {-2};
                return {1, (*p).value(), (long)p.use_count(), p->link()};
            };
            for(auto & p : st) vs.push_back(see(p));
            for(auto & p : ba) vb.push_back(see(p));
            for(auto & p : wk) vw.push_back({(long)p.expired(), p.use_count()});
            Ints live, outs;
            for(auto & x : s_live) live.push_back(static_cast<const Node *>(x.first)->v);
            for(auto x : a.getOutstandingAllocatedObjects()) outs.push_back(x->v);
            std::sort(live.begin(), live.end()); std::sort(outs.begin(), outs.end());
            s.add("st", vs).add("ba", vb).add("wk", vw).add("live", live).add("err", s_err).add("free", a.getNumFree()).add("made", a.getNumAllocated())
             .add("out", (int)a.hasOutstandingObjects()).add("outs", outs);
            emit(op, r.first.c_str(), r.second, s);
        }
        }
    }
}
