// The tagged automaton of patterns with captures: the implementation's, read through its accessors, the
// reference's, and the comparison of their languages.
#pragma once
#include <algorithm>
#include <log_surgeon/LexicalRule.hpp>
#include <log_surgeon/finite_automata/RegexNFA.hpp>
#include "common.hpp"
#include "dfa_eq.hpp"
#include "patterns.hpp"
using namespace vf;
using ls_nfa_state = log_surgeon::finite_automata::RegexNFAByteState;
using ls_nfa = log_surgeon::finite_automata::RegexNFA<ls_nfa_state>;
using ls_rule = log_surgeon::LexicalRule<ls_nfa_state>;

// Labels: a byte; kEps; or 256 + 3 * capture + {0: start, 1: end, 2: not matched}.
static constexpr int kEps = -1;
struct Graph {
    struct Edge { int label, to; };
    std::vector<std::vector<Edge>> out;
    std::vector<int> accept;  // id or -1
    int root{0};
    int node() { out.emplace_back(); accept.push_back(-1); return (int)out.size() - 1; }
    void edge(int f, int l, int t) { out[(size_t)f].push_back({l, t}); }
};
struct Names {
    std::map<std::string, int> ids;
    int id(std::string const& n) { return ids.emplace(n, (int)ids.size()).first->second; }
};

// ---- the implementation's automaton, read through its public accessors
struct BadTag { std::string what; };
template <typename T>
static std::vector<std::string> tag_names(T const& t) {
    std::unordered_map<ls_nfa_state const*, uint32_t> m{{t.get_dest_state(), 0}};
    auto s = t.serialize(m);
    if (!s) throw BadTag{"a tagged transition without a destination"};
    size_t a = s->find('['), b = s->rfind(']');
    std::vector<std::string> v;
    std::string cur;
    for (size_t i = a + 1; i <= b; i++) {
        if ((*s)[i] == ',' || i == b) { v.push_back(cur); cur.clear(); }
        else cur += (*s)[i];
    }
    return v;
}
static Graph read(ls_nfa& nfa, Names& names) {
    Graph g;
    std::map<ls_nfa_state const*, int> ids;
    std::vector<ls_nfa_state const*> todo;
    auto get = [&](ls_nfa_state const* s) {
        if (!s) throw BadTag{"a transition to nowhere"};
        auto [it, fresh] = ids.emplace(s, 0);
        if (fresh) { it->second = g.node(); todo.push_back(s); }
        return it->second;
    };
    auto tag = [&](std::string const& n) {
        auto it = names.ids.find(n);
        if (it == names.ids.end()) throw BadTag{"a tag named '" + n + "', which no capture has"};
        return it->second;
    };
    g.root = get(nfa.get_root());
    while (!todo.empty()) {
        auto const* s = todo.back();
        todo.pop_back();
        int f = ids[s];
        if (s->is_accepting()) g.accept[(size_t)f] = (int)s->get_matching_variable_id();
        for (int c = 0; c < 256; c++) for (auto const* d : s->get_byte_transitions((uint8_t)c)) { int t = get(d); g.edge(f, c, t); }
        for (auto const* d : s->get_epsilon_transitions()) { int t = get(d); g.edge(f, kEps, t); }
        for (auto const& p : s->get_positive_tagged_start_transitions()) {
            int t = get(p.get_dest_state());
            g.edge(f, 256 + 3 * tag(tag_names(p).at(0)), t);
        }
        if (auto const& p = s->get_positive_tagged_end_transition()) {
            int t = get(p->get_dest_state());
            g.edge(f, 256 + 3 * tag(tag_names(*p).at(0)) + 1, t);
        }
        if (auto const& p = s->get_negative_tagged_transition()) {
            int t = get(p->get_dest_state()), from = f;
            auto v = tag_names(*p);
            for (size_t i = 0; i < v.size(); i++) {
                int to = i + 1 == v.size() ? t : g.node();
                g.edge(from, 256 + 3 * tag(v[i]) + 2, to);
                from = to;
            }
        }
    }
    return g;
}
// ---- the reference: the meaning of a pattern, as an automaton over bytes and marks
static void caps(rs::P const& n, std::vector<std::string>& v) {
    if (!n) return;
    if (n->k == rs::Node::Rep && n->max == 0) return;  // repeated zero times: not a part of the pattern
    if (n->k == rs::Node::Cap) v.push_back(n->name);
    caps(n->a, v);
    caps(n->b, v);
}
static void build(Graph& g, Names& names, rs::P const& n, int s, int t) {
    auto unmatched = [&](rs::P const& x, int from, int to) {
        std::vector<std::string> v;
        caps(x, v);
        for (auto const& c : v) { int m = g.node(); g.edge(from, 256 + 3 * names.id(c) + 2, m); from = m; }
        g.edge(from, kEps, to);
    };
    switch (n->k) {
        case rs::Node::Chars: for (int c = 0; c < 256; c++) if (n->set.test((size_t)c)) g.edge(s, c, t); return;
        case rs::Node::Cat: { int m = g.node(); build(g, names, n->a, s, m); build(g, names, n->b, m, t); return; }
        case rs::Node::Or: {
            int l = g.node(), r = g.node();
            build(g, names, n->a, s, l);
            unmatched(n->b, l, t);
            build(g, names, n->b, s, r);
            unmatched(n->a, r, t);
            return;
        }
        case rs::Node::Cap: {
            int i = names.id(n->name), a = g.node(), b = g.node();
            g.edge(s, 256 + 3 * i, a);
            build(g, names, n->a, a, b);
            g.edge(b, 256 + 3 * i + 1, t);
            return;
        }
        case rs::Node::Rep: {
            if (n->max == 0) { g.edge(s, kEps, t); return; }
            if (n->min == 0) unmatched(n->a, s, t);
            int cur = g.node();
            g.edge(s, kEps, cur);
            int k = std::max(n->min, 1), last = n->max < 0 ? k : n->max;
            for (int i = 1; i <= last; i++) {
                int nx = g.node(), en = g.node();
                g.edge(cur, kEps, en);  // a fresh entry, so that loops inside do not lead back out
                build(g, names, n->a, en, nx);
                if (i >= k) g.edge(nx, kEps, t);
                cur = nx;
            }
            if (n->max < 0) {
                int en = g.node(), nx = g.node();
                g.edge(cur, kEps, en);
                build(g, names, n->a, en, nx);
                g.edge(nx, kEps, en);
                g.edge(nx, kEps, t);
            }
            return;
        }
    }
}
static bool nullable(rs::P const& n) {
    switch (n->k) {
        case rs::Node::Chars: return false;
        case rs::Node::Cat: return nullable(n->a) && nullable(n->b);
        case rs::Node::Or: return nullable(n->a) || nullable(n->b);
        case rs::Node::Cap: return nullable(n->a);
        case rs::Node::Rep: return n->min == 0 || nullable(n->a);
    }
    return false;
}
static bool finite_paths(rs::P const& n) {
    if (!n) return true;
    if (n->k == rs::Node::Rep && n->max < 0 && nullable(n->a)) return false;
    return finite_paths(n->a) && finite_paths(n->b);
}
static std::string show(std::vector<int> const& w, Names const& names) {
    std::string o;
    for (int l : w) {
        if (l < 256) { o += esc(std::string(1, (char)l)); continue; }
        std::string n;
        for (auto const& [k, v] : names.ids) if (v == (l - 256) / 3) n = k;
        o += "<" + std::string((l - 256) % 3 == 0 ? "start " : (l - 256) % 3 == 1 ? "end " : "no ") + n + ">";
    }
    return o;
}
// ---- equality of the languages of two graphs after `keep` (other labels become empty)
struct Cmp {
    uint64_t states{0}, transitions{0}, skipped{0};
    template <typename F>
    std::string equal(Graph const& a, Graph const& b, Names const& names, F keep) {
        using S = std::vector<int>;
        auto closure = [&](Graph const& g, S v) {
            std::vector<char> in(g.out.size(), 0);
            S st = v, r;
            for (int x : v) in[(size_t)x] = 1;
            while (!st.empty()) {
                int x = st.back();
                st.pop_back();
                r.push_back(x);
                for (auto const& e : g.out[(size_t)x]) if ((e.label == kEps || !keep(e.label)) && !in[(size_t)e.to]) { in[(size_t)e.to] = 1; st.push_back(e.to); }
            }
            std::sort(r.begin(), r.end());
            return r;
        };
        auto acc = [](Graph const& g, S const& v) { std::set<int> r; for (int x : v) if (g.accept[(size_t)x] >= 0) r.insert(g.accept[(size_t)x]); return r; };
        auto moves = [&](Graph const& g, S const& v) {
            std::map<int, std::set<int>> m;
            for (int x : v) for (auto const& e : g.out[(size_t)x]) if (e.label != kEps && keep(e.label)) m[e.label].insert(e.to);
            return m;
        };
        struct Item { S a, b; int parent, label; };
        std::vector<Item> q;
        std::set<std::pair<S, S>> seen;
        auto push = [&](S x, S y, int p, int l) { if (seen.insert({x, y}).second) q.push_back({std::move(x), std::move(y), p, l}); };
        push(closure(a, {a.root}), closure(b, {b.root}), -1, 0);
        for (size_t i = 0; i < q.size(); i++) {
            states++;
            auto const A = q[i].a, B = q[i].b;
            if (acc(a, A) != acc(b, B)) {
                std::vector<int> w;
                for (int j = (int)i; q[(size_t)j].parent >= 0; j = q[(size_t)j].parent) w.insert(w.begin(), q[(size_t)j].label);
                return std::string(acc(a, A).size() > acc(b, B).size() ? "accepts" : "does not accept") + " '" + show(w, names) + "'";
            }
            auto ma = moves(a, A), mb = moves(b, B);
            std::set<int> labels;
            for (auto const& m : ma) labels.insert(m.first);
            for (auto const& m : mb) labels.insert(m.first);
            for (int l : labels) {
                transitions++;
                S x(ma[l].begin(), ma[l].end()), y(mb[l].begin(), mb[l].end());
                push(closure(a, x), closure(b, y), (int)i, l);
            }
        }
        return "";
    }
};
