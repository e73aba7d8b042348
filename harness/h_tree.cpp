// Drives device trees (TreeNode, RootTreeNode). case and codes: see spec/Tree.tla
#include "common.hpp"
#include "sparta_env.hpp"
#include "sparta/simulation/TreeNodePrivateAttorney.hpp"
#include <algorithm>
#include <cstring>
#include <map>
#include <memory>
using namespace vh;
using sparta::TreeNode; using PA = sparta::TreeNodePrivateAttorney;
static std::string text(long x) { static const char * c = "\0ab01*+?"; std::string s; for(char d : std::to_string(x)) s += c[d - '0']; return x ? s : std::string(); }
static long code(const std::string & t) {
    if(t.empty()) return 0;
    if(t == "top") return 999;
    long r = 0;
    for(char ch : t) { const char * c = "ab01"; const char * p = std::strchr(c, ch); if(!p) return -7; r = 10 * r + (p - c) + 1; }
    return r;
}
static std::string path(const Op & op, size_t from) {
    std::string s;
    for(size_t i = from; i < op.a.size(); ++i) { if(op.a[i] == 0) s += "."; else { s += text(op.a[i]); if(i + 1 < op.a.size()) s += "."; } }
    return s;
}
struct Tree;
struct Node : TreeNode {
    Node * late = nullptr; Ints * bound = nullptr; long id;
    Node(const std::string & n, const std::string & g, group_idx_type i, long id) : TreeNode(n, g, i, "a node"), id(id) {}
    void createResource_() override { if(late) { try { addChild(late); } catch(const sparta::SpartaException &) {} } }
    void onBindTreeEarly_() override { bound->push_back(id); }
};
struct RootNode : sparta::RootTreeNode {
    Node * late = nullptr; Ints * bound = nullptr;
    void createResource_() override { if(late) { try { addChild(late); } catch(const sparta::SpartaException &) {} } }
    void onBindTreeEarly_() override { bound->push_back(1); }
};
struct Watch {
    Ints seen; std::map<const TreeNode *, long> * ids;
    void added(const TreeNode & n) { auto i = ids->find(&n); if(i != ids->end()) seen.push_back(i->second); }
};
int main() {
    for(auto & c : read_cases()) {
        emit_case(c.params);
        const auto & p = c.params;
        const long n = p[0];
        sparta::Scheduler sched;
        sparta::Clock c1("c1", &sched), c2("c2", &sched), c3("c3", &sched);
        sparta::Clock * clks[] = {nullptr, &c1, &c2, &c3};
        {
        std::map<const TreeNode *, long> ids;
        Watch w{{}, &ids};
        Ints bound;
        auto * root = new RootNode; root->bound = &bound;
        std::vector<TreeNode *> nd{nullptr, root};
        std::vector<Node *> own{nullptr, nullptr};
        ids[root] = 1;
        root->getNodeAttachedNotification().registerForThis<Watch, &Watch::added>(&w);
        for(long i = 2; i <= n; ++i) {
            const long nm = p[3 * i - 5], g = p[3 * i - 4], x = p[3 * i - 3];
            own.push_back(new Node(text(nm), text(g), g ? (TreeNode::group_idx_type)x : TreeNode::GROUP_IDX_NONE, i));
            own.back()->bound = &bound;
            nd.push_back(own.back()); ids[own.back()] = i;
        }
        auto id = [&](const TreeNode * t) -> long { if(!t) return 0; auto i = ids.find(t); return i == ids.end() ? -5 : i->second; };
        auto sorted = [&](const std::vector<TreeNode *> & v) { Ints r; for(auto t : v) if(id(t) > 0) r.push_back(id(t)); std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r; };
        for(auto & op : c.ops) {
            w.seen.clear(); bound.clear();
            auto r = guarded([&]() -> Ints {
                const auto & o = op.o;
                if(o == "conf") { root->enterConfiguring(); return {}; }
                if(o == "fin") { root->enterFinalized(); return {}; }
                if(o == "bind") { root->bindTreeEarly(); root->bindTreeLate(); return bound; }
                if(o == "down") { root->enterTeardown(); return {}; }
                TreeNode * t = nd.at(op.at(0)); const TreeNode * ct = t;
                if(o == "add") { TreeNode * k = nd.at(op.at(1)); if(op.at(0) % 2) t->addChild(k); else t->addChild(*k); return w.seen; }
                if(o == "late") { Node * k = own.at(op.at(1)); if(op.at(0) == 1) root->late = k; else own.at(op.at(0))->late = k; return {}; }
                if(o == "alias") { if(op.at(1) % 2) t->addAlias(text(op.at(1))); else t->addAliases({text(op.at(1))}); return {}; }
                if(o == "tag") { if(op.at(1) % 2) t->addTag("t" + std::to_string(op.at(1))); else t->addTags({"t" + std::to_string(op.at(1))}); return {}; }
                if(o == "priv") { t->makeSubtreePrivate(); return {}; }
                if(o == "clock") { t->setClock(clks[op.at(1)]); return {}; }
                if(o == "get") {
                    const std::string s = path(op, 1);
                    TreeNode * x = t->getChild(s, false); TreeNode * all = PA::getChild(t, s);
                    TreeNode * y = nullptr; const TreeNode * z = nullptr;
                    try { y = t->getChild(s, true); } catch(const sparta::SpartaException &) {}
                    try { z = ct->getChild(s, true); } catch(const sparta::SpartaException &) {}
                    if(y != x || z != x || ct->getChild(s, false) != x || t->hasChild(s) != (x != nullptr) || PA::hasChild(t, s) != (all != nullptr)) return {-9};
                    return {id(x), id(all)};
                }
                if(o == "find") {
                    const std::string s = path(op, 1);
                    long wild = 0; for(char ch : s) if(std::strchr("*+?", ch)) ++wild;
                    std::vector<TreeNode *> v, u, all; std::vector<std::vector<std::string>> rep;
                    if(t->findChildren(s, v, rep) != v.size() || rep.size() != v.size()) return {-9};
                    if(t->findChildren(s, u) != u.size() || sorted(u) != sorted(v)) return {-9};
                    for(size_t i = 0; i < v.size(); ++i) {
                        // putting the replacements into the pattern names this very node
                        if((long)rep[i].size() != wild) return {-8, wild, (long)rep[i].size()};
                        std::string e; size_t k = 0;
                        for(char ch : s) { if(std::strchr("*+?", ch)) e += rep[i][k++]; else e += ch; }
                        std::vector<TreeNode *> f; t->findChildren(e, f);
                        if(std::find(f.begin(), f.end(), v[i]) == f.end()) return {-8, id(v[i])};
                    }
                    PA::findChildren(t, s, all);
                    Ints x = sorted(v), y = sorted(all); x.push_back(-1); x.insert(x.end(), y.begin(), y.end()); return x;
                }
                if(o == "match") return {t->locationMatchesPattern(path(op, 2), nd.at(op.at(1)))};
                if(o == "tagged") { std::vector<TreeNode *> v; if(t->findChildrenByTag("t" + std::to_string(op.at(1)), v, op.at(2)) != v.size()) return {-9}; Ints x = sorted(v); return x.size() == v.size() ? x : Ints{-9}; }
                if(o == "desc") return {ct->isDescendantOf(nd.at(op.at(1)), op.at(2))};
                if(o == "group") {
                    std::vector<TreeNode *> v; const std::string g = text(op.at(1));
                    if(t->getGroup(g, v) != v.size() || t->getGroupSize(g) != v.size()) return {-9};
                    const auto m = t->getGroupIndexMax(g);
                    Ints x{m == TreeNode::GROUP_IDX_NONE ? -1l : (long)m}; for(auto k : v) x.push_back(id(k)); return x;
                }
                bad_op(op);
            });
            Ints par, ph, att, lvl, clk; std::vector<Ints> kids, pub, loc;
            auto ours = [&](const TreeNode::ChildrenVector & v) { Ints x; for(auto k : v) if(id(k) > 0) x.push_back(id(k)); return x; };
            for(long i = 1; i <= n; ++i) {
                TreeNode * t = nd[i]; const TreeNode * ct = t;
                par.push_back(t->getParent() == ct->getParent() ? id(t->getParent()) : -9);
                ph.push_back((long)t->getPhase()); att.push_back(t->isAttached()); lvl.push_back(t->getLevel());
                long k = -1; for(long j = 0; j < 4; ++j) if(clks[j] == t->getClock() && clks[j] == ct->getClock()) k = j;
                clk.push_back(k);
                kids.push_back(ours(PA::getAllChildren(t))); pub.push_back(ours(t->getChildren()));
                std::string l = t->getLocation(); Ints x;
                const bool loose = !l.empty() && l[0] == '~';
                if(loose) l = l.substr(1);
                for(size_t q = 0;;) { size_t d = l.find('.', q); x.push_back(code(l.substr(q, d == std::string::npos ? d : d - q))); if(d == std::string::npos) break; q = d + 1; }
                if(loose == t->isAttached()) x.push_back(-9);
                if(t->getRoot() != (t->getParent() ? t->getParent()->getRoot() : t)) x.push_back(-8);
                loc.push_back(x);
            }
            emit(op, r.first.c_str(), r.second, St().add("par", par).add("ph", ph).add("kids", kids).add("pub", pub).add("att", att).add("loc", loc).add("lvl", lvl).add("clk", clk));
        }
        root->getNodeAttachedNotification().deregisterForThis<Watch, &Watch::added>(&w);
        root->enterTeardown();
        // parents before their children
        std::vector<TreeNode *> order;
        for(long i = 1; i <= n; ++i) if(!nd[i]->getParent()) order.push_back(nd[i]);
        for(size_t i = 0; i < order.size(); ++i) for(auto k : PA::getAllChildren(order[i])) if(id(k) > 0) order.push_back(k);
        std::vector<TreeNode *> rest(order);
        for(auto t : rest) delete t;
        }
    }
}
