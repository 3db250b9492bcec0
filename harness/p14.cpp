// P14: the types reported for the intersection of two automata, for every pair of rule sets, against the
// emptiness of the products of the derivative automata.
#include "common.hpp"
#include "dfa_eq.hpp"
#include "patterns.hpp"
using namespace vf;
using namespace log_surgeon;
using Dfa = finite_automata::RegexDFA<finite_automata::RegexDFAByteState>;
static std::unique_ptr<Dfa> dfa_of(std::vector<de::Ast const*> const& asts, std::vector<uint32_t> const& ids) {
    std::vector<LexicalRule<finite_automata::RegexNFAByteState>> rules;
    for (size_t i = 0; i < asts.size(); i++) rules.emplace_back(ids[i], de::clone(asts[i]));
    finite_automata::RegexNFA<finite_automata::RegexNFAByteState> nfa(std::move(rules));
    return de::Lex::nfa_to_dfa(nfa);
}
// Whether a string is in both languages.
static bool common(ref::Pool& pool, ref::Re a, ref::Re b, uint64_t& states) {
    std::set<std::pair<int, int>> seen;
    std::vector<std::pair<ref::Re, ref::Re>> todo{{a, b}};
    seen.insert({a->id, b->id});
    while (!todo.empty()) {
        auto [x, y] = todo.back();
        todo.pop_back();
        states++;
        if (x->nullable && y->nullable) return true;
        for (int c = 0; c < 256; c++) {
            auto p = pool.deriv(x, (unsigned char)c), q = pool.deriv(y, (unsigned char)c);
            if (p->k != ref::Node::None && q->k != ref::Node::None && seen.insert({p->id, q->id}).second) todo.push_back({p, q});
        }
    }
    return false;
}
struct Pat {
    std::string text;
    de::Read read;
    ref::Re re{nullptr};
    std::unique_ptr<de::Ast> built;  // instead of read from a text
    de::Ast const* ast() const { return built ? built.get() : read.vars[0].re; }
};
// Patterns no schema text has: of particular bytes above 127, and of the smallest and largest byte.
static std::vector<std::string> const cBuilt{"<200>", "<128>", "<255>", "<0>", "a<200>", "<128>*a", "[128-255]", "[201-255]+", "[^128-255]", "<200>|b"};
static bool build(Pat& p, ref::Pool& pool) {
    using S = finite_automata::RegexNFAByteState;
    using namespace finite_automata;
    auto lit = [](uint32_t c) { return std::make_unique<RegexASTLiteral<S>>(c); };
    auto group = [](uint32_t lo, uint32_t hi) { return std::make_unique<RegexASTGroup<S>>(lo, hi); };
    auto set = [&](int lo, int hi) { ref::Set s; for (int c = lo; c <= hi; c++) s.set((size_t)c); return s; };
    auto one = [&](int c) { return pool.chars(set(c, c)); };
    switch (std::find(cBuilt.begin(), cBuilt.end(), p.text) - cBuilt.begin()) {
        case 0: p.built = lit(200); p.re = one(200); break;
        case 1: p.built = lit(128); p.re = one(128); break;
        case 2: p.built = lit(255); p.re = one(255); break;
        case 3: p.built = lit(0); p.re = one(0); break;
        case 4: p.built = std::make_unique<RegexASTCat<S>>(lit('a'), lit(200)); p.re = pool.cat(one('a'), one(200)); break;
        case 5:
            p.built = std::make_unique<RegexASTCat<S>>(std::make_unique<RegexASTMultiplication<S>>(lit(128), 0, 0), lit('a'));
            p.re = pool.cat(pool.rep(one(128), 0, -1), one('a'));
            break;
        case 6: p.built = group(128, 255); p.re = pool.chars(set(128, 255)); break;
        case 7: p.built = std::make_unique<RegexASTMultiplication<S>>(group(201, 255), 1, 0); p.re = pool.rep(pool.chars(set(201, 255)), 1, -1); break;
        case 8: p.built = group(0, 127); p.re = pool.chars(set(0, 127)); break;
        case 9: p.built = std::make_unique<RegexASTOr<S>>(lit(200), lit('b')); p.re = pool.alt(one(200), one('b')); break;
        default: return false;
    }
    return true;
}
static std::string load(Pat& p, de::Reused<>* reader, ref::Pool& pool) {
    if (build(p, pool)) return "";
    p.read = reader ? reader->read("v:" + p.text) : de::read_fresh("v:" + p.text);
    if (!p.read.ok) return "'" + p.text + "' is rejected: " + p.read.error;
    auto r = rs::parse("v:" + p.text);
    if (!r.ok) return "the reference rejects '" + p.text + "'";
    p.re = rs::to_re(pool, r.vars[0].re);
    return "";
}
// The types of the rules of a schema, also when several rules have the same type.
static std::vector<std::vector<uint32_t>> const cIds{{100}, {7, 31}, {5, 5}, {9, 2, 9}};
static std::vector<uint32_t> const& ids_of(size_t n, bool same) { return n == 2 && same ? cIds[2] : cIds[n == 3 ? 3 : n - 1]; }
static std::string show(std::set<uint32_t> const& s) {
    std::string o = "{";
    for (auto i : s) o += " " + std::to_string(i);
    return o + " }";
}
static std::string compare(std::unique_ptr<Dfa> const& schema, std::unique_ptr<Dfa> const& query, std::set<uint32_t> const& want) {
    std::set<uint32_t> got;
    for (int i = 0; i < 2; i++) {
        got = schema->get_intersect(query);
        if (got != want) return std::string(i ? "the second time, " : "") + "the types are " + show(got) + " instead of " + show(want);
    }
    return "";
}
static std::vector<std::string> split(std::string const& t) {
    std::vector<std::string> r{""};
    for (char c : t) if (c == '\n') r.push_back(""); else r.back() += c;
    return r;
}
static std::string run_case(Case const& c) {
    ref::Pool pool;
    std::vector<Pat> s, q;
    for (auto const& t : split(c.at("schema"))) { s.push_back({t}); std::string m = load(s.back(), nullptr, pool); if (!m.empty()) return m; }
    for (auto const& t : split(c.at("query"))) { q.push_back({t}); std::string m = load(q.back(), nullptr, pool); if (!m.empty()) return m; }
    auto const& ids = ids_of(s.size(), c.at("same") == "1");
    std::set<uint32_t> want;
    uint64_t n = 0;
    for (size_t i = 0; i < s.size(); i++) for (auto& p : q) if (common(pool, s[i].re, p.re, n)) want.insert(ids[i]);
    std::vector<de::Ast const*> a, b;
    for (auto& p : s) a.push_back(p.ast());
    for (auto& p : q) b.push_back(p.ast());
    return compare(dfa_of(a, ids), dfa_of(b, std::vector<uint32_t>(b.size(), 0)), want);
}
static void explore(Ctx& x) {
    ref::Pool pool;
    de::Reused<> reader;
    bool small = x.opt == "small", t = x.thorough;
    // the patterns, without those whose automaton cannot be reached for other reasons
    std::vector<Pat> pats;
    auto more = [&](pg::Gen g, size_t n, char const* what) {
        auto v = g.up_to(n);
        for (auto const& p : v) pats.push_back({p});
        x.bounds.push_back(std::string(what) + ": " + std::to_string(v.size()) + " patterns up to size " + std::to_string(n));
    };
    pg::Gen g;
    g.chars = {"a", "b"};
    g.postfixes = {"*", "+", "{0,2}"};
    more(g, small ? 2 : t ? 4 : 3, "two letters");
    g.chars = {"a", "\\n"};
    g.classes = {"[^a]", ".", "\\d", "[a-c]"};
    g.postfixes = {"*"};
    more(g, small ? 1 : t ? 3 : 2, "classes");
    for (auto s : {"a{3}", "(aa){2}", "a{2,4}b", ".*a.*", "(ab)+", "a.b", "(a|b)*abb", "(?<x>a|b)c", "[^\\n]*1", "(aaa)*", "(aa)*", "a(aa)*"}) pats.push_back({s});
    for (auto const& s : cBuilt) pats.push_back({s});
    for (auto& p : pats) { std::string m = load(p, &reader, pool); if (!m.empty()) { if (x.shard == 0) x.fail({{"schema", p.text}, {"query", p.text}, {"same", "0"}}, m); return; } }
    size_t N = pats.size();
    std::vector<std::unique_ptr<Dfa>> queries;
    for (auto& p : pats) queries.push_back(dfa_of({p.ast()}, {0}));
    std::vector<std::vector<char>> meet(N, std::vector<char>(N));
    std::vector<std::vector<uint32_t>> cost(N, std::vector<uint32_t>(N));
    for (size_t i = 0; i < N; i++) for (size_t j = i; j < N; j++) {
        uint64_t n = 0;
        meet[i][j] = meet[j][i] = common(pool, pats[i].re, pats[j].re, n);
        cost[i][j] = cost[j][i] = (uint32_t)n;
    }
    std::vector<size_t> s, q;
    bool same = false;
    x.describe = [&] {
        std::string a, b;
        for (size_t i : s) a += (a.empty() ? "" : "\n") + pats[i].text;
        for (size_t i : q) b += (b.empty() ? "" : "\n") + pats[i].text;
        return Case{{"schema", a}, {"query", b}, {"same", same ? "1" : "0"}};
    };
    auto one = [&](std::unique_ptr<Dfa> const& d, std::unique_ptr<Dfa> const& query, std::vector<uint32_t> const& ids) {
        std::set<uint32_t> want;
        for (size_t i = 0; i < s.size(); i++) for (size_t j : q) { if (meet[s[i]][j]) want.insert(ids[i]); x.transitions += cost[s[i]][j]; }
        x.states++; x.evaluations++; x.traces++;
        if (!want.empty() && want.size() < std::set<uint32_t>(ids.begin(), ids.end()).size()) x.nontrivial++;
        if (want.empty()) x.extra["empty"]++;
        std::string m = compare(d, query, want);
        if (!m.empty()) x.fail(x.describe(), m);
        else if (x.evaluations % 9973 == 5) x.sample("'" + x.describe()["schema"] + "' with '" + pats[q[0]].text + "': " + show(want));
    };
    auto make = [&](std::vector<size_t> const& which, std::vector<uint32_t> const& ids) {
        std::vector<de::Ast const*> a;
        for (size_t i : which) a.push_back(pats[i].ast());
        return dfa_of(a, ids);
    };
    // one and two rules with every query
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j <= N; j++) for (int sm = 0; sm < (j < N && j == i + 1 ? 2 : 1); sm++) {
        if (x.stop()) return;
        if (!x.mine()) continue;
        s = {i};
        if (j < N) s.push_back(j);
        same = sm;
        auto const& ids = ids_of(s.size(), same);
        auto d = make(s, ids);
        for (size_t k = 0; k < N; k++) {
            if (j < N && k % (small ? 5 : t ? 4 : 3) != (i + j) % (small ? 5 : t ? 4 : 3)) continue;
            q = {k};
            one(d, queries[k], ids);
            if (x.stop()) return;
        }
    }
    x.bounds.push_back("every pattern with every pattern as query; every ordered pair of the " + std::to_string(N) + " patterns as a schema with every " + (t ? "fourth " : "third ") + "pattern as query");
    // three rules, queries of two rules, from a smaller set
    same = false;
    std::vector<size_t> few;
    for (size_t i = 0; i < N; i += std::max<size_t>(1, N / (small ? 5 : t ? 20 : 12))) few.push_back(i);
    std::vector<std::unique_ptr<Dfa>> q2;
    for (size_t a : few) for (size_t b : few) q2.push_back(make({a, b}, {0, 0}));
    for (size_t a : few) for (size_t b : few) for (size_t c : few) {
        if (x.stop()) return;
        if (!x.mine()) continue;
        s = {a, b, c};
        auto const& ids = ids_of(3, false);
        auto d = make(s, ids);
        for (size_t k = 0; k < q2.size(); k++) { q = {few[k / few.size()], few[k % few.size()]}; one(d, q2[k], ids); }
    }
    x.bounds.push_back("every ordered triple of " + std::to_string(few.size()) + " patterns as a schema (the first and the third rule of the same type), with every pair as query");
}
VF_MAIN((vf::Check{"P14", explore, run_case}))
