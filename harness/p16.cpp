// P16: the position histories of registers, over every sequence of operations, against registers that
// keep their histories as lists of shared cells.
#include <deque>
#include <memory>
#include <stdexcept>
#include <vector>
#include <log_surgeon/finite_automata/PrefixTree.hpp>
#include <log_surgeon/finite_automata/RegisterHandler.hpp>
#include "common.hpp"
using namespace vf;
using log_surgeon::finite_automata::PrefixTree;
using log_surgeon::finite_automata::RegisterHandler;
using Pos = PrefixTree::position_t;
using Path = std::vector<std::shared_ptr<Pos>>;  // oldest first

// a(dd register: parent node, position), s(et: register, position), c(opy: destination, source), p (append: register, position)
struct Op { char kind; size_t a, b; Pos pos; };
static std::string text(std::vector<Op> const& ops) {
    std::string s;
    for (auto const& o : ops) s += (s.empty() ? "" : " ") + std::string(1, o.kind) + std::to_string(o.a) + "," + std::to_string(o.b) + "," + std::to_string(o.pos);
    return s;
}
static std::vector<Op> ops_of(std::string const& s) {
    std::vector<Op> r;
    for (size_t i = 0; i < s.size();) {
        Op o{};
        int n = 0;
        sscanf(s.c_str() + i, "%c%zu,%zu,%d%n", &o.kind, &o.a, &o.b, &o.pos, &n);
        r.push_back(o);
        i += (size_t)n + 1;
    }
    return r;
}
static std::string list(std::vector<Pos> const& v) {
    std::string s = "(";
    for (auto p : v) s += " " + std::to_string(p);
    return s + " )";
}
struct Model {
    std::vector<Path> nodes{Path{}};
    std::vector<size_t> regs;
    static std::vector<Pos> reversed(Path const& p) {
        std::vector<Pos> r;
        for (size_t i = p.size(); i-- > 0;) r.push_back(*p[i]);
        return r;
    }
    size_t insert(size_t parent, Pos p) {
        Path n = nodes[parent];
        n.push_back(std::make_shared<Pos>(p));
        nodes.push_back(n);
        return nodes.size() - 1;
    }
    Model clone() const {
        Model m;
        m.regs = regs;
        std::map<Pos*, std::shared_ptr<Pos>> c;
        m.nodes.clear();
        for (auto const& n : nodes) {
            Path p;
            for (auto const& x : n) { auto& y = c[x.get()]; if (!y) y = std::make_shared<Pos>(*x); p.push_back(y); }
            m.nodes.push_back(p);
        }
        return m;
    }
    // Returns whether the operation is accepted.
    bool apply(Op const& o) {
        size_t n = regs.size();
        switch (o.kind) {
            case 'a': if (o.a >= nodes.size()) return false; regs.push_back(insert(o.a, o.pos)); return true;
            case 's': if (o.a >= n) return false; *nodes[regs[o.a]].back() = o.pos; return true;
            case 'c': if (o.a >= n || o.b >= n) return false; regs[o.a] = regs[o.b]; return true;
            default: if (o.a >= n) return false; regs[o.a] = insert(regs[o.a], o.pos); return true;
        }
    }
};
static bool apply(RegisterHandler& h, Op const& o) {
    try {
        switch (o.kind) {
            case 'a': h.add_register((PrefixTree::id_t)o.a, o.pos); break;
            case 's': h.set_register(o.a, o.pos); break;
            case 'c': h.copy_register(o.a, o.b); break;
            default: h.append_position(o.a, o.pos);
        }
    } catch (std::out_of_range const&) { return false; }
    return true;
}
static std::string check(RegisterHandler const& h, Model const& m) {
    for (size_t i = 0; i < m.regs.size(); i++) {
        auto got = h.get_reversed_positions(i), want = Model::reversed(m.nodes[m.regs[i]]);
        if (got != want) return "register " + std::to_string(i) + " is " + list(got) + " instead of " + list(want);
    }
    bool thrown = false;
    try { (void)h.get_reversed_positions(m.regs.size()); } catch (std::out_of_range const&) { thrown = true; }
    if (!thrown) return "there is a register too many";
    return "";
}
static std::string step(RegisterHandler& h, Model& m, Op const& o) {
    bool want = m.apply(o), got = apply(h, o);
    if (want != got) return std::string(got ? "accepted" : "rejected") + ": " + text({o});
    return check(h, m);
}
// The same for the tree alone: a (insert), s (set of a node).
static std::string step_tree(PrefixTree& t, Model& m, Op const& o) {
    bool ok = true, want = o.a < m.nodes.size();
    try {
        if (o.kind == 'a') {
            size_t id = t.insert((PrefixTree::id_t)o.a, o.pos);
            if (want && id != m.insert(o.a, o.pos)) return "the new node is " + std::to_string(id);
        } else {
            t.set((PrefixTree::id_t)o.a, o.pos);
            if (want && o.a) *m.nodes[o.a].back() = o.pos;
        }
    } catch (std::out_of_range const&) { ok = false; }
    if (ok != want) return std::string(ok ? "accepted" : "rejected") + ": " + text({o});
    if (t.size() != m.nodes.size()) return "the tree has " + std::to_string(t.size()) + " nodes instead of " + std::to_string(m.nodes.size());
    for (size_t i = 0; i < m.nodes.size(); i++) {
        auto got = t.get_reversed_positions((PrefixTree::id_t)i), w = Model::reversed(m.nodes[i]);
        if (got != w) return "node " + std::to_string(i) + " is " + list(got) + " instead of " + list(w);
    }
    bool thrown = false;
    try { (void)t.get_reversed_positions((PrefixTree::id_t)m.nodes.size()); } catch (std::out_of_range const&) { thrown = true; }
    return thrown ? "" : "there is a node too many";
}
// Very long histories: a cycle of operations on three registers and on the newest one (N: a new register,
// P: a position appended to it), against lists of cells.
static std::string very_long(std::vector<Op> const& cycle, size_t n, uint64_t& done) {
    struct Cell { Cell* before; Pos pos; };
    std::deque<Cell> cells;
    std::vector<Cell*> regs;
    RegisterHandler h;
    auto push = [&](Cell* before, Pos p) { cells.push_back({before, p}); return &cells.back(); };
    auto look = [&](size_t reg) -> std::string {
        auto got = h.get_reversed_positions(reg);
        size_t i = 0;
        for (Cell* c = regs[reg]; c; c = c->before, i++) {
            if (i >= got.size()) return "register " + std::to_string(reg) + " has only " + std::to_string(i) + " positions";
            if (got[i] != c->pos) return "position " + std::to_string(i) + " from the end of register " + std::to_string(reg) + " is " + std::to_string(got[i]) + " instead of " + std::to_string(c->pos);
        }
        return i == got.size() ? "" : "register " + std::to_string(reg) + " has too many positions";
    };
    try {
        for (size_t i = 0; i < 3; i++) { h.add_register(PrefixTree::cRootId, (Pos)i); regs.push_back(push(nullptr, (Pos)i)); }
        for (size_t i = 0; i < n; i++, done++) {
            Op o = cycle[i % cycle.size()];
            Pos p = (Pos)i + 10;
            switch (o.kind) {
                case 'N': h.add_register(PrefixTree::cRootId, p); regs.push_back(push(nullptr, p)); break;
                case 'P': h.append_position(regs.size() - 1, p); regs.back() = push(regs.back(), p); break;
                case 's': h.set_register(o.a, p); regs[o.a]->pos = p; break;
                case 'c': h.copy_register(o.a, o.b); regs[o.a] = regs[o.b]; break;
                default: h.append_position(o.a, p); regs[o.a] = push(regs[o.a], p);
            }
        }
        for (size_t i = 0; i < 3; i++) if (auto m = look(i); !m.empty()) return m;
        for (size_t i = 3; i < regs.size(); i += 1 + regs.size() / 97) if (auto m = look(i); !m.empty()) return m;
        return look(regs.size() - 1);
    } catch (std::out_of_range const& e) { return std::string("rejected: ") + e.what(); }
}
static std::string run_case(Case const& c) {
    if (c.count("n")) { uint64_t d = 0; return very_long(ops_of(c.at("ops")), (size_t)atoi(c.at("n").c_str()), d); }
    RegisterHandler h;
    PrefixTree t;
    Model m;
    std::string r;
    auto ops = ops_of(c.at("ops"));
    for (size_t i = 0; i < ops.size() && r.empty(); i++) r = c.at("on") == "tree" ? step_tree(t, m, ops[i]) : step(h, m, ops[i]);
    return r;
}
static std::vector<Op> menu(Model const& m, bool tree, Pos p) {
    std::vector<Op> r;
    size_t n = m.regs.size(), k = m.nodes.size();
    size_t const far = 1u << 20;
    for (size_t a = 0; a <= k; a++) r.push_back({'a', a, 0, p});
    if (tree) {
        for (size_t a = 0; a <= k; a++) r.push_back({'s', a, 0, p});
        r.push_back({'a', far, 0, p});
        return r;
    }
    for (size_t a = 0; a <= n; a++) { r.push_back({'s', a, 0, p}); r.push_back({'p', a, 0, p}); }
    for (size_t a = 0; a <= n; a++) for (size_t b = 0; b <= n; b++) r.push_back({'c', a, b, 0});
    r.push_back({'s', far, 0, p});
    return r;
}
static void explore(Ctx& x) {
    bool small = x.opt == "small";
    std::vector<Op> ops;
    bool tree = false;
    x.describe = [&] { return Case{{"ops", text(ops)}, {"on", tree ? "tree" : "registers"}}; };
    static Pos const cPositions[] = {7, -3, 0, 2147483647, -2147483647 - 1, 5, 5, -1, 12, 13};
    // depth first: each operation on a copy of the state, which must leave the original alone
    std::function<void(RegisterHandler const&, PrefixTree const&, Model const&, size_t)> walk = [&](auto const& h, auto const& t, auto const& m, size_t depth) {
        for (auto const& o : menu(m, tree, cPositions[ops.size() % 10])) {
            if (x.stop()) return;
            ops.push_back(o);
            bool leaf_of_split = ops.size() == 3;
            if (!leaf_of_split || x.mine()) {
                Model m2 = m.clone();
                std::string r;
                RegisterHandler h2;
                PrefixTree t2;
                if (tree) { t2 = t; r = step_tree(t2, m2, o); }
                else { h2 = h; r = step(h2, m2, o); }
                if (ops.size() >= 3 || x.shard == 0) { x.states++; x.evaluations++; x.traces++; x.transitions++; if (m2.nodes.size() > 3) x.nontrivial++; }
                if (!r.empty()) x.fail(x.describe(), r);
                else if (ops.size() < depth) walk(h2, t2, m2, depth);
                if (x.states % 199999 == 7) x.sample(text(ops));
                if (ops.size() < depth && r.empty()) {
                    r = tree ? "" : check(h, m);
                    if (!r.empty()) x.fail(x.describe(), "operations on a copy changed the original: " + r);
                }
            }
            ops.pop_back();
        }
    };
    size_t d = small ? 4 : x.thorough ? 7 : 6;
    x.bounds.push_back("every sequence of up to " + std::to_string(d) + " operations on registers, with every identifier up to the first invalid one, all registers read after each; as many on the tree alone");
    for (tree = false;; tree = true) {
        walk({}, {}, {}, tree ? d + 1 : d);
        if (tree) break;
    }
    // long histories
    tree = false;
    size_t N = small ? 300 : x.thorough ? 3000 : 2000;
    x.bounds.push_back("every cycle of up to 3 operations on 3 registers, repeated to " + std::to_string(N) + " operations");
    std::vector<Op> kinds;
    for (size_t a = 0; a < 3; a++) {
        kinds.push_back({'s', a, 0, 0});
        kinds.push_back({'p', a, 0, 0});
        for (size_t b = 0; b < 3; b++) if (a != b) kinds.push_back({'c', a, b, 0});
    }
    for (size_t len = 1; len <= 3; len++) {
        std::vector<size_t> pick(len, 0);
        while (!x.stop()) {
            if (x.mine()) {
                RegisterHandler h;
                Model m;
                ops.clear();
                std::string r;
                for (size_t i = 0; i < 3; i++) { ops.push_back({'a', 0, 0, (Pos)i}); r = step(h, m, ops.back()); }
                for (size_t i = 0; i < N && r.empty(); i++) {
                    Op o = kinds[pick[i % len]];
                    o.pos = (Pos)i + 10;
                    ops.push_back(o);
                    if (m.apply(o) != apply(h, o)) r = "rejected: " + text({o});
                    // the histories have as many positions as there were appends: they are read seldom
                    if (r.empty() && (i < 40 || (i & (i + 1)) == 0 || i + 1 == N)) r = check(h, m);
                    x.transitions++;
                }
                x.states++; x.evaluations++; x.traces++; x.nontrivial++;
                if (!r.empty()) x.fail(x.describe(), r);
            }
            size_t k = len;
            while (k > 0 && ++pick[k - 1] == kinds.size()) pick[--k] = 0;
            if (!k) break;
        }
    }
    if (small) return;
    N = x.thorough ? 300000 : 70000;
    kinds.push_back({'N', 0, 0, 0});
    kinds.push_back({'P', 0, 0, 0});
    for (size_t a = 0; a < kinds.size(); a++) for (size_t b = 0; b <= kinds.size(); b++) {
        if (x.stop()) return;
        if (!x.mine()) continue;
        x.tick();
        ops = {kinds[a]};
        if (b < kinds.size()) ops.push_back(kinds[b]);
        std::string r = very_long(ops, N, x.transitions);
        x.states++; x.evaluations++; x.traces++; x.nontrivial++;
        if (!r.empty()) x.fail({{"on", "registers"}, {"ops", text(ops)}, {"n", std::to_string(N)}}, r);
    }
    x.bounds.push_back("every cycle of up to 2 operations on 3 registers and the newest one, repeated to " + std::to_string(N) + " operations");
}
VF_MAIN((vf::Check{"P16", explore, run_case}))
