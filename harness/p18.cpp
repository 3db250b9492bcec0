// P18: the interval tree against an ordered map, over every sequence of operations.
#include <algorithm>
#include <map>
#include <numeric>
#include <log_surgeon/finite_automata/UnicodeIntervalTree.hpp>
#include "common.hpp"
using namespace vf;
using log_surgeon::finite_automata::Interval;
using Tree = log_surgeon::finite_automata::UnicodeIntervalTree<int>;
using Model = std::map<Interval, int>;

struct Op {
    char kind;  // i(nsert), p(op), r(eset)
    Interval iv;
    int value;
};
static std::string show(Op const& o) {
    return std::string(1, o.kind) + std::to_string(o.iv.first) + "," + std::to_string(o.iv.second) + "," + std::to_string(o.value);
}
static std::string text(std::vector<Op> const& ops) {
    std::string s;
    for (auto const& o : ops) s += (s.empty() ? "" : " ") + show(o);
    return s;
}
static std::vector<Op> ops_of(std::string const& s) {
    std::vector<Op> r;
    for (size_t i = 0; i < s.size();) {
        Op o{};
        unsigned a = 0, b = 0;
        int v = 0, n = 0;
        sscanf(s.c_str() + i, "%c%u,%u,%d%n", &o.kind, &a, &b, &v, &n);
        o.iv = {a, b};
        o.value = v;
        r.push_back(o);
        i += (size_t)n + 1;
    }
    return r;
}
static bool overlap(Interval a, Interval b) { return a.first <= b.second && b.first <= a.second; }
template <class V>
static std::string list(V const& v) {
    std::string s = "{";
    for (auto const& [i, x] : v) s += " [" + std::to_string(i.first) + "," + std::to_string(i.second) + "]=" + std::to_string(x);
    return s + " }";
}
using Entries = std::vector<std::pair<Interval, int>>;
static Entries entries(std::vector<Tree::Data> const& v) {
    Entries r;
    for (auto const& d : v) r.push_back({d.m_interval, d.m_value});
    return r;
}
struct World {
    Tree t;
    Model m;
    // Applies an operation to the tree and the model; "" if they agree about its result.
    std::string apply(Op const& o) {
        if (o.kind == 'i') {
            t.insert(o.iv, o.value);
            m[o.iv] = o.value;
        } else if (o.kind == 'r') {
            t.reset();
            m.clear();
        } else {
            auto got = entries(*t.pop(o.iv));
            Entries want;
            for (auto it = m.begin(); it != m.end();)
                if (overlap(it->first, o.iv)) { want.push_back(*it); it = m.erase(it); } else ++it;
            if (got != want) return show(o) + " took out " + list(got) + " instead of " + list(want);
        }
        return "";
    }
    std::string check(std::vector<Interval> const& queries) {
        auto a = entries(t.all());
        if (a != Entries(m.begin(), m.end())) return "the entries are " + list(a) + " instead of " + list(m);
        for (auto q : queries) {
            auto got = entries(*t.find(q));
            Entries want;
            for (auto const& e : m) if (overlap(e.first, q)) want.push_back(e);
            if (got != want) return "looking for [" + std::to_string(q.first) + "," + std::to_string(q.second) + "] gives " + list(got) + " instead of " + list(want);
        }
        return "";
    }
};
static std::vector<Interval> intervals(uint32_t points, uint32_t scale = 1) {
    std::vector<Interval> r;
    for (uint32_t a = 0; a < points; a++) for (uint32_t b = a; b < points; b++) r.push_back({a * scale, b * scale});
    return r;
}
static std::string run(std::vector<Op> const& ops, std::vector<Interval> const& queries, size_t check_from, Ctx* x) {
    World w;
    for (size_t i = 0; i < ops.size(); i++) {
        std::string m = w.apply(ops[i]);
        if (x) x->transitions++;
        if (m.empty() && i + 1 >= check_from) m = w.check(queries);
        if (!m.empty()) return "operation " + std::to_string(i + 1) + ": " + m;
    }
    if (ops.empty()) return w.check(queries);
    if (x && w.m.size() > 2) x->nontrivial++;
    return "";
}
static std::vector<Interval> all_queries(std::vector<Op> const& ops) {
    std::set<uint32_t> ends{0, 0x10ffff};
    for (auto const& o : ops) { ends.insert(o.iv.first); ends.insert(o.iv.second); if (o.iv.first) ends.insert(o.iv.first - 1); ends.insert(o.iv.second + 1); }
    std::vector<Interval> q;
    if (ends.size() > 40) { for (auto a : ends) q.push_back({a, a}); return q; }
    for (auto a : ends) for (auto b : ends) if (a <= b) q.push_back({a, b});
    return q;
}
static std::string run_case(Case const& c) {
    auto ops = ops_of(c.at("ops"));
    return run(ops, all_queries(ops), 0, nullptr);
}
static void explore(Ctx& x) {
    bool small = x.opt == "small";
    std::vector<Op> ops;
    x.describe = [&] { return Case{{"ops", text(ops)}}; };
    auto one = [&](std::vector<Interval> const& queries, size_t check_from) {
        std::string m = run(ops, queries, check_from, &x);
        x.evaluations++;
        x.traces++;
        if (!m.empty()) x.fail(x.describe(), m);
        if (x.evaluations % 99991 == 1 && ops.size() > 3) x.sample(text(ops));
    };
    if (x.mine()) one(intervals(3), 0);
    // every sequence of operations over a few points
    struct Cfg { uint32_t points; size_t depth; };
    std::vector<Cfg> cfgs = small ? std::vector<Cfg>{{2, 4}, {3, 3}} : x.thorough ? std::vector<Cfg>{{2, 8}, {3, 6}, {4, 5}, {5, 4}} : std::vector<Cfg>{{2, 7}, {3, 5}, {4, 4}, {5, 4}};
    for (auto cfg : cfgs) {
        auto iv = intervals(cfg.points);
        std::vector<Op> menu;
        for (auto i : iv) menu.push_back({'i', i, 0});
        for (auto i : iv) menu.push_back({'p', i, 0});
        menu.push_back({'r', {0, 0}, 0});
        x.bounds.push_back("every sequence of up to " + std::to_string(cfg.depth) + " insertions and removals of the " + std::to_string(iv.size()) + " ranges over "
                           + std::to_string(cfg.points) + " points, and resets; all queries after each");
        std::vector<size_t> pick;
        for (size_t len = 1; len <= cfg.depth; len++) {
            pick.assign(len, 0);
            while (!x.stop()) {
                if (x.mine()) {
                    ops.clear();
                    for (size_t k = 0; k < len; k++) { ops.push_back(menu[pick[k]]); ops.back().value = (int)k + 1; }
                    x.states++;
                    one(iv, len);
                }
                size_t k = len;
                while (k > 0 && ++pick[k - 1] == menu.size()) pick[--k] = 0;
                if (!k) break;
            }
        }
    }
    // every order of inserting ranges, then every removal: single points, disjoint and nested ranges
    size_t n = small ? 5 : x.thorough ? 9 : 8;
    x.bounds.push_back("every order of inserting " + std::to_string(n) + " disjoint, or nested, ranges, or single points (and every fewer), then each two removals");
    for (int shape = 0; shape < 3; shape++) for (size_t k = 2; k <= n; k++) {
        std::vector<Interval> iv;
        for (uint32_t i = 0; i < k; i++)
            iv.push_back(shape == 0 ? Interval{i * 4, i * 4 + 2} : shape == 1 ? Interval{i, (uint32_t)(2 * k - i)} : Interval{i + 128, i + 128});
        std::vector<Interval> cuts;
        for (auto i : iv) cuts.push_back({i.first, i.first});
        for (uint32_t i = 0; i + 1 < k; i++) cuts.push_back(std::minmax(iv[i].second, iv[i + 1].second));
        std::vector<size_t> perm(k);
        std::iota(perm.begin(), perm.end(), 0);
        do {
            if (x.stop()) return;
            if (!x.mine()) continue;
            x.states++;
            std::vector<Op> ins;
            for (size_t p : perm) ins.push_back({'i', iv[p], (int)p});
            ops = ins;
            one(iv, 1);
            for (auto a : cuts) {
                ops = ins;
                ops.push_back({'p', a, 0});
                if (k < 7) for (auto b : cuts) {
                    ops.resize(k + 1);
                    ops.push_back({'p', b, 0});
                    one(iv, k + 1);
                } else one(iv, k + 1);
                if (x.stop()) return;
            }
        } while (std::next_permutation(perm.begin(), perm.end()));
    }
    // many entries, in regular orders
    size_t big = small ? 60 : x.thorough ? 1200 : 400;
    x.bounds.push_back("insertion of up to " + std::to_string(big) + " points in the order of every multiplier (i * m mod p), then removal in every such order");
    for (size_t p : {7u, 13u, 31u, 61u, 127u, 251u, 397u, 997u}) {
        if (p > big) break;
        for (size_t m1 = 1; m1 < p; m1 += p > 61 ? p / 13 : 1) for (size_t m2 = 1; m2 < p; m2 += p > 31 ? p / 5 : 3) {
            if (x.stop()) return;
            if (!x.mine()) continue;
            x.states++;
            ops.clear();
            for (size_t i = 0; i < p; i++) { uint32_t v = (uint32_t)(i * m1 % p) * 3; ops.push_back({'i', {v, v + 1}, (int)i}); }
            for (size_t i = 0; i < p; i++) { uint32_t v = (uint32_t)(i * m2 % p) * 3; ops.push_back({'p', {v, v}, 0}); }
            std::vector<Interval> q{{0, 1}, {2, 2}, {(uint32_t)p, (uint32_t)p * 2}, {0, (uint32_t)p * 3}};
            one(q, p > 61 ? 2 * p - 3 : 1);
        }
    }
}
VF_MAIN((vf::Check{"P18", explore, run_case}))
