// P27: the parser generated for a grammar accepts exactly its sentences, with their derivations.
#include <bitset>
#include "common.hpp"
#include "impl.hpp"
#include <log_surgeon/LALR1Parser.hpp>
#include <log_surgeon/LALR1Parser.tpp>
#include <log_surgeon/Lexer.tpp>
using namespace vf;
using namespace impl;

// Symbols: capital letters are nonterminals, small ones terminals.  A production is its head and its body;
// the first one's head is the start.
struct Prod { char head; std::string body; bool operator==(Prod const&) const = default; };
using Grammar = std::vector<Prod>;
static std::string show(Grammar const& g) {
    std::string o;
    for (auto const& p : g) o += (o.empty() ? "" : ";") + std::string(1, p.head) + ":" + p.body;
    return o;
}
static Grammar parse_grammar(std::string const& s) {
    Grammar g;
    for (size_t i = 0; i <= s.size();) {
        size_t e = std::min(s.find(';', i), s.size());
        g.push_back({s[i], s.substr(i + 2, e - i - 2)});
        i = e + 1;
    }
    return g;
}
static bool is_nt(char c) { return c >= 'A' && c <= 'Z'; }

// ---- the reference -----------------------------------------------------------------------------------
// All words up to a length over the terminals, and for each nonterminal how many derivation trees each has
// (0, 1, or 2 for more).
struct Words {
    std::string terms;
    size_t L;
    std::vector<std::string> all;
    std::map<std::string, size_t> at;
    std::vector<std::vector<std::pair<size_t, size_t>>> splits;
    Words(std::string t, size_t l) : terms(t), L(l) {
        all.push_back("");
        for (size_t i = 0; i < all.size(); i++) if (all[i].size() < L) for (char c : terms) all.push_back(all[i] + c);
        for (size_t i = 0; i < all.size(); i++) at[all[i]] = i;
        splits.resize(all.size());
        for (size_t i = 0; i < all.size(); i++) for (size_t k = 0; k <= all[i].size(); k++) splits[i].push_back({at[all[i].substr(0, k)], at[all[i].substr(k)]});
    }
};
using Counts = std::vector<unsigned char>;
static std::map<char, Counts> derivations(Words const& w, Grammar const& g) {
    std::map<char, Counts> n;
    for (auto const& p : g) n[p.head].assign(w.all.size(), 0);
    auto cat = [&](Counts const& a, Counts const& b) {
        Counts r(w.all.size(), 0);
        for (size_t i = 0; i < r.size(); i++) for (auto [x, y] : w.splits[i]) {
            if (a[x] && b[y]) r[i] = (unsigned char)std::min(2, r[i] + a[x] * b[y]);
        }
        return r;
    };
    Counts eps(w.all.size(), 0);
    eps[0] = 1;
    while (true) {
        std::map<char, Counts> next;
        for (auto const& [h, c] : n) next[h].assign(w.all.size(), 0);
        for (auto const& p : g) {
            Counts c = eps;
            for (char s : p.body) {
                Counts t(w.all.size(), 0);
                if (is_nt(s)) t = n[s]; else t[w.at.at(std::string(1, s))] = 1;
                c = cat(c, t);
            }
            auto& h = next[p.head];
            for (size_t i = 0; i < c.size(); i++) h[i] = (unsigned char)std::min(2, h[i] + c[i]);
        }
        if (next == n) return n;
        n = next;
    }
}
// Whether the grammar is SLR(1): then its table has no conflicts, in every method with lookaheads.
static bool slr(Grammar const& g0, char end = '$') {
    Grammar g = g0;
    g.push_back({'\'', std::string(1, g0[0].head)});
    auto nt = [](char c) { return is_nt(c) || c == '\''; };
    std::set<char> nullable;
    std::map<char, std::set<char>> first, follow;
    for (bool ch = true; ch;) {
        ch = false;
        for (auto const& p : g) {
            bool all = true;
            for (char s : p.body) {
                size_t b = first[p.head].size();
                if (nt(s)) { auto f = first[s]; first[p.head].insert(f.begin(), f.end()); } else first[p.head].insert(s);
                ch = ch || first[p.head].size() != b;
                if (!nt(s) || !nullable.count(s)) { all = false; break; }
            }
            if (all) ch = nullable.insert(p.head).second || ch;
        }
    }
    follow['\''].insert(end);
    for (bool ch = true; ch;) {
        ch = false;
        for (auto const& p : g) for (size_t i = 0; i < p.body.size(); i++) if (nt(p.body[i])) {
            auto& f = follow[p.body[i]];
            size_t b = f.size();
            bool all = true;
            for (size_t j = i + 1; j < p.body.size() && all; j++) {
                char s = p.body[j];
                if (nt(s)) { auto x = first[s]; f.insert(x.begin(), x.end()); all = nullable.count(s); } else { f.insert(s); all = false; }
            }
            if (all) { auto x = follow[p.head]; f.insert(x.begin(), x.end()); }
            ch = ch || f.size() != b;
        }
    }
    using It = std::pair<size_t, size_t>;
    std::set<std::set<It>> seen;
    std::vector<std::set<It>> todo;
    auto close = [&](std::set<It> s) {
        std::vector<It> q(s.begin(), s.end());
        while (!q.empty()) {
            auto [p, d] = q.back();
            q.pop_back();
            if (d < g[p].body.size() && nt(g[p].body[d])) for (size_t k = 0; k < g.size(); k++) if (g[k].head == g[p].body[d] && s.insert({k, 0}).second) q.push_back({k, 0});
        }
        return s;
    };
    todo.push_back(close({{g.size() - 1, 0}}));
    seen.insert(todo[0]);
    while (!todo.empty()) {
        auto s = todo.back();
        todo.pop_back();
        std::map<char, std::set<It>> next;
        std::map<char, int> acts;
        std::set<char> shifts;
        for (auto [p, d] : s) {
            if (d < g[p].body.size()) { next[g[p].body[d]].insert({p, d + 1}); if (!nt(g[p].body[d])) shifts.insert(g[p].body[d]); }
            else for (char c : follow[g[p].head]) acts[c]++;
        }
        for (char c : shifts) acts[c]++;
        for (auto const& [c, n] : acts) if (n > 1) return false;
        for (auto const& [c, k] : next) { auto t = close(k); if (seen.insert(t).second) todo.push_back(t); }
    }
    return true;
}
// ---- the implementation ------------------------------------------------------------------------------
using P = LALR1Parser<finite_automata::RegexNFAByteState, finite_automata::RegexDFAByteState>;
struct Tree { int prod; std::string text; bool ok; };
struct Gen {
    std::unique_ptr<P> p;
    std::string refused;
};
static Gen generate(Grammar const& g, std::string const& terms) {
    Gen r;
    r.p = std::make_unique<P>();
    for (char c : terms) r.p->add_rule(std::string(1, c), std::make_unique<finite_automata::RegexASTLiteral<finite_automata::RegexNFAByteState>>((uint32_t)c));
    for (size_t k = 0; k < g.size(); k++) {
        std::vector<std::string> body;
        for (char c : g[k].body) body.push_back(std::string(1, c));
        std::string b = g[k].body;
        // the action looks at the children: the tokens, and the trees of the nonterminals
        r.p->add_production(std::string(1, g[k].head), body, [k, b, g](NonTerminal* m) -> std::unique_ptr<ParserAST> {
            Tree t{(int)k, "", true};
            for (uint32_t i = 0; i < b.size(); i++) {
                if (!is_nt(b[i])) {
                    std::string s = m->token_cast(i)->to_string();
                    t.ok = t.ok && s == std::string(1, b[i]);
                    t.text += s;
                } else {
                    auto& ast = m->non_terminal_cast(i)->get_parser_ast();
                    if (!ast) { t.ok = false; continue; }
                    Tree& c = ast->get<Tree>();
                    t.ok = t.ok && c.ok && g[(size_t)c.prod].head == b[i];
                    t.text += c.text;
                }
            }
            return std::make_unique<ParserValue<Tree>>(t);
        });
    }
    try { r.p->generate(); } catch (std::runtime_error const& e) { r.refused = e.what(); if (r.refused.empty()) r.refused = "?"; }
    return r;
}
static std::string check(Grammar const& g, Words const& w, uint32_t size, Ctx* x) {
    auto n = derivations(w, g);
    auto const& start = n[g[0].head];
    bool const ambiguous = std::count(start.begin(), start.end(), 2) > 0, must = slr(g);
    cStaticByteBuffSize = cStaticByteBuffCapacity;
    Gen r = generate(g, w.terms);
    if (x) { x->states++; x->extra[must ? "slr" : ambiguous ? "ambiguous" : "other"]++; if (r.refused.empty()) x->extra["generated"]++; }
    if (!r.refused.empty()) return must ? "the grammar is refused: " + r.refused : "";
    if (ambiguous) return "an ambiguous grammar is not refused";
    std::string m;
    for (size_t i = 0; i < w.all.size() && m.empty(); i++) {
        Source s;
        s.data = w.all[i];
        Reader rd = s.reader();
        if (x) { x->transitions++; x->traces++; }
        cStaticByteBuffSize = size;
        try {
            NonTerminal t = r.p->parse(rd);
            if (!start[i]) m = "'" + w.all[i] + "' is accepted";
            else if (!t.get_parser_ast()) m = "'" + w.all[i] + "' has no tree";
            else {
                Tree& tr = t.get_parser_ast()->get<Tree>();
                if (!tr.ok || tr.text != w.all[i] || g[(size_t)tr.prod].head != g[0].head) m = "the tree of '" + w.all[i] + "' is wrong: that of '" + tr.text + "'";
            }
        } catch (std::runtime_error const& e) {
            if (start[i]) m = "'" + w.all[i] + "' is rejected: " + e.what();
        }
        cStaticByteBuffSize = cStaticByteBuffCapacity;
    }
    return m;
}
static std::string run_case(Case const& c) {
    Words w(c.at("terminals"), (size_t)atoi(c.at("length").c_str()));
    return check(parse_grammar(c.at("grammar")), w, (uint32_t)atoi(c.at("bufsize").c_str()), nullptr);
}
// All bodies over `syms` up to a length.
static std::vector<std::string> bodies(std::string const& syms, size_t len) {
    std::vector<std::string> r{""};
    for (size_t i = 0; i < r.size(); i++) if (r[i].size() < len) for (char c : syms) r.push_back(r[i] + c);
    return r;
}
static void sets(std::vector<std::string> const& b, char head, size_t most, std::vector<Grammar>& out) {
    std::vector<size_t> pick;
    auto rec = [&](auto&& self, size_t from) -> void {
        if (!pick.empty()) { Grammar g; for (size_t i : pick) g.push_back({head, b[i]}); out.push_back(g); }
        if (pick.size() == most) return;
        for (size_t i = from; i < b.size(); i++) { pick.push_back(i); self(self, i + 1); pick.pop_back(); }
    };
    rec(rec, 0);
}
static void one(Ctx& x, Grammar const& g, Words const& w, uint32_t size) {
    auto mk = [&] { return Case{{"grammar", show(g)}, {"terminals", w.terms}, {"length", std::to_string(w.L)}, {"bufsize", std::to_string(size)}}; };
    x.describe = mk;
    std::string m = check(g, w, size, &x);
    x.evaluations++;
    if (g.size() > 2) x.nontrivial++;
    if (!m.empty()) x.fail(mk(), show(g) + ": " + m);
    if (x.index % 9973 == 0) x.sample(show(g));
}
static void explore(Ctx& x) {
    bool small = x.opt == "small";
    auto run = [&](std::string const& name, std::vector<Grammar> const& a, std::vector<Grammar> const& b, Words const& w, bool orders) {
        uint64_t n = 0;
        for (auto const& s : a) for (auto const& t : b) {
            if (x.stop()) return;
            Grammar g = s;
            g.insert(g.end(), t.begin(), t.end());
            // every nonterminal used has productions
            bool bad = false;
            for (auto const& p : g) for (char c : p.body) if (is_nt(c) && std::none_of(g.begin(), g.end(), [&](Prod const& q) { return q.head == c; })) bad = true;
            // and derives some word
            std::set<char> productive;
            for (bool ch = true; ch && !bad;) {
                ch = false;
                for (auto const& p : g) if (std::all_of(p.body.begin(), p.body.end(), [&](char c) { return !is_nt(c) || productive.count(c); })) ch = productive.insert(p.head).second || ch;
            }
            for (auto const& p : g) bad = bad || !productive.count(p.head);
            // and can be reached
            std::set<char> reached{g[0].head};
            for (bool ch = true; ch && !bad;) {
                ch = false;
                for (auto const& p : g) if (reached.count(p.head)) for (char c : p.body) if (is_nt(c)) ch = reached.insert(c).second || ch;
            }
            if (name[0] == 't' && name[1] == 'h') for (auto const& p : g) bad = bad || !reached.count(p.head);
            if (bad) continue;
            n++;
            if (!x.mine()) continue;
            one(x, g, w, n % 2 ? 4 : cStaticByteBuffCapacity);
            if (orders && s.size() > 1) {
                // the start's other production first, and the others in front of the rest
                Grammar h{s.back()};
                h.insert(h.end(), t.rbegin(), t.rend());
                for (size_t i = 0; i + 1 < s.size(); i++) h.push_back(s[i]);
                one(x, h, w, 6);
            }
        }
        x.bounds.push_back(name + ": " + std::to_string(n) + " grammars x all words up to length " + std::to_string(w.L));
    };
    std::vector<Grammar> none{{}};
    {
        std::vector<Grammar> s;
        sets(bodies("Sab", small ? 2 : 3), 'S', x.thorough ? 3 : 2, s);
        run("one nonterminal", s, none, Words("ab", 6), true);
    }
    {
        std::vector<Grammar> s, a;
        sets(bodies("SAab", 2), 'S', small ? 1 : 2, s);
        sets(bodies("SAab", small ? 1 : 2), 'A', 2, a);
        run("two nonterminals", s, a, Words("ab", 5), !small);
    }
    if (!small) {
        // symbols that are empty after each other and through one another
        std::vector<Grammar> s, m[3], abc;
        sets(bodies("ABCab", 4), 'S', 1, s);
        char const* menu[3] = {"BCab", "CAab", "ABab"};
        for (int k = 0; k < 3; k++) sets(bodies(menu[k], 1), (char)('A' + k), x.thorough ? 3 : 2, m[k]);
        if (!x.thorough) for (auto& v : m) std::erase_if(v, [](Grammar const& g) { return g.size() > 1 && !g[0].body.empty(); });
        for (auto const& p : m[0]) for (auto const& q : m[1]) for (auto const& r : m[2]) {
            Grammar g = p;
            g.insert(g.end(), q.begin(), q.end());
            g.insert(g.end(), r.begin(), r.end());
            abc.push_back(g);
        }
        run("three nonterminals", s, abc, Words("ab", 5), false);
    }
    if (x.thorough) {
        std::vector<Grammar> s, a;
        sets(bodies("SAab", 3), 'S', 2, s);
        sets(bodies("SAa", 2), 'A', 2, a);
        run("two nonterminals, longer", s, a, Words("ab", 5), false);
    }
}
VF_MAIN((vf::Check{"P27", explore, run_case}))
