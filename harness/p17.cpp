// P17: the tagged automaton of a pattern settles every capture on every accepting path, and the possible spans of the
// captures are those of the regular expression.
#include "tagged.hpp"

// ---- every path over words up to a length: the word and the marks of each capture, in order (positions of
// starts and ends; "not matched" has none)
struct Paths {
    Graph const& g;
    size_t len, ncap;
    std::set<std::string> out;
    std::string word;
    std::vector<std::string> ev;
    uint64_t steps{0}, limit;
    bool exploded{false};
    void go(int s, size_t eps) {
        if (++steps > limit || eps > 5000) { exploded = true; return; }
        if (g.accept[(size_t)s] >= 0) {
            std::string k = word + "|" + std::to_string(g.accept[(size_t)s]);
            for (auto const& e : ev) k += "|" + e;
            out.insert(k);
        }
        for (auto const& e : g.out[(size_t)s]) {
            if (e.label == kEps) go(e.to, eps + 1);
            else if (e.label < 256) {
                if (word.size() >= len) continue;
                word += (char)e.label;
                go(e.to, 0);
                word.pop_back();
            } else {
                auto& v = ev[(size_t)(e.label - 256) / 3];
                size_t n = v.size();
                int k = (e.label - 256) % 3;
                v += k == 2 ? "-" : std::string(k ? ")" : "(") + std::to_string(word.size());
                go(e.to, eps + 1);
                v.resize(n);
            }
        }
    }
    Paths(Graph const& gg, size_t l, size_t n, uint64_t lim) : g(gg), len(l), ncap(n), ev(n), limit(lim) { go(g.root, 0); }
};
static std::string check(std::vector<std::string> const& pats, std::vector<de::Ast const*> const& asts, size_t len, bool clones, Cmp& cmp, uint64_t& paths) {
    Names names;
    Graph want;
    want.root = want.node();
    bool fin = true;
    for (size_t i = 0; i < pats.size(); i++) {
        auto r = rs::parse("v:" + pats[i]);
        if (!r.ok) return "the reference rejects '" + pats[i] + "'";
        int s = want.node(), e = want.node();
        want.edge(want.root, kEps, s);
        want.accept[(size_t)e] = (int)i + 5;
        build(want, names, r.vars[0].re, s, e);
        fin = fin && finite_paths(r.vars[0].re);
    }
    try {
        std::vector<ls_rule> rules;
        {
            std::vector<std::unique_ptr<std::remove_const_t<de::Ast>>> first;
            for (size_t i = 0; i < pats.size(); i++) {
                first.emplace_back(asts[i]->clone());
                if (clones) { std::unique_ptr<std::remove_const_t<de::Ast>> c(first.back()->clone()); first.back() = std::move(c); }
                rules.emplace_back((uint32_t)i + 5, std::move(first.back()));
            }
        }
        ls_nfa nfa{std::move(rules)};
        Graph got = read(nfa, names);
        std::string m = cmp.equal(got, want, names, [](int l) { return l < 256 || (l - 256) % 3 != 2; });
        if (!m.empty()) return "the automaton, looking at text and spans, " + m;
        for (size_t c = 0; c < names.ids.size(); c++) {
            m = cmp.equal(got, want, names, [&](int l) { return l >= 256 && (size_t)(l - 256) / 3 == c; });
            if (!m.empty()) return "the automaton, looking at the marks of one capture, " + m;
        }
        if (!fin) return "";
        Paths b(want, len, names.ids.size(), 300000);
        if (b.exploded) { cmp.skipped++; return ""; }
        Paths a(got, len, names.ids.size(), 3000000 + 50 * b.steps);
        if (a.exploded) return "the automaton has an endless path that reads nothing, or an excessive number of paths";
        paths += a.out.size();
        for (auto const& x : a.out) if (!b.out.count(x)) return "the automaton has a path that the pattern has not (text|type|marks of each capture): " + x;
        for (auto const& x : b.out) if (!a.out.count(x)) return "the automaton lacks a path that the pattern has (text|type|marks of each capture): " + x;
    } catch (BadTag const& b) { return "the automaton has " + b.what; }
    return "";
}
static std::string run_case(Case const& c) {
    std::vector<std::string> pats;
    std::vector<de::Read> reads;
    std::vector<de::Ast const*> asts;
    for (auto k : {"p0", "p1", "p2"}) {
        if (!c.count(k)) continue;
        pats.push_back(c.at(k));
        reads.push_back(de::read_fresh("v:" + c.at(k)));
        if (!reads.back().ok) return "'" + c.at(k) + "' is rejected: " + reads.back().error;
    }
    for (auto& r : reads) asts.push_back(r.vars[0].re);
    Cmp cmp;
    uint64_t p = 0;
    for (int cl = 0; cl < 2; cl++) {
        auto m = check(pats, asts, 4, cl, cmp, p);
        if (!m.empty()) return m;
    }
    return "";
}
// Gives the captures of a pattern different names.
static std::string rename(std::string const& p, char prefix) {
    std::string o;
    int n = 0;
    for (size_t i = 0; i < p.size(); i++) {
        if (p.compare(i, 3, "(?<") == 0) {
            o += "(?<" + std::string(1, prefix) + std::to_string(n++) + ">";
            i = p.find('>', i);
        } else o += p[i];
    }
    return o;
}
static void explore(Ctx& x) {
    de::Reused<> reader;
    bool small = x.opt == "small", t = x.thorough;
    auto run = [&](std::vector<std::string> const& pats) {
        auto mk = [&] {
            Case c;
            for (size_t i = 0; i < pats.size(); i++) c["p" + std::to_string(i)] = pats[i];
            return c;
        };
        x.describe = mk;
        std::vector<de::Read> reads;
        std::vector<de::Ast const*> asts;
        std::string m;
        for (auto const& p : pats) {
            reads.push_back(reader.read("v:" + p));
            if (!reads.back().ok) { m = "'" + p + "' is rejected: " + reads.back().error; break; }
            asts.push_back(reads.back().vars[0].re);
        }
        Cmp cmp;
        uint64_t paths = 0;
        for (int cl = 0; cl < 2 && m.empty(); cl++) m = check(pats, asts, small ? 2 : 3, cl, cmp, paths);
        x.evaluations++;
        x.traces += paths;
        x.states += cmp.states;
        x.transitions += cmp.transitions;
        x.extra["cases whose paths were too many to list (products only)"] += cmp.skipped;
        if (paths > 2) x.nontrivial++;
        if (!m.empty()) x.fail(mk(), m);
        else if (x.index % 9973 == 0) x.sample("'" + pats[0] + "': " + std::to_string(paths) + " paths with their marks, " + std::to_string(cmp.states) + " product states, equal");
    };
    auto pats = [&](pg::Gen& g, size_t n, char prefix) {
        std::set<std::string> s;
        std::vector<std::string> v;
        for (auto const& p : g.up_to(n)) {
            if (p.find("(?<") == std::string::npos) continue;
            auto r = rename(p, prefix);
            if (s.insert(r).second) v.push_back(r);
        }
        return v;
    };
    auto all = [&](pg::Gen g, size_t n, char const* what) {
        auto v = pats(g, n, 'n');
        for (auto const& p : v) { if (x.stop()) return; if (x.mine()) run({p}); }
        x.bounds.push_back(std::string(what) + ": all " + std::to_string(v.size()) + " patterns with captures up to size " + std::to_string(n));
    };
    pg::Gen g;
    g.captures = true;
    g.chars = {"a", "b"};
    g.postfixes = {"*", "+"};
    all(g, small ? 4 : t ? 8 : 7, "two letters");
    g.chars = {"a"};
    g.postfixes = {"*", "{0,1}", "{0,2}", "{2}", "{1,3}"};
    all(g, small ? 4 : t ? 8 : 7, "one letter, counts");
    g.postfixes = {"*"};
    all(g, small ? 5 : t ? 10 : 9, "one letter");
    g.postfixes = {"{0}", "{0,1}", "+"};
    all(g, small ? 4 : t ? 7 : 6, "zero repetitions");
    g = {};
    g.captures = true;
    g.chars = {"a", "b"};
    g.postfixes = {"*"};
    auto v = pats(g, t ? 5 : 4, 'n'), w = pats(g, t ? 5 : 4, 'm');
    for (auto const& p : v) for (auto const& q : w) { if (x.stop()) return; if (x.mine() && !(small && (x.index / 8) % 16)) run({p, q}); }
    x.bounds.push_back("all ordered pairs of " + std::to_string(v.size()) + " patterns with captures in one automaton");
    x.bounds.push_back("texts and spans: all strings (product of the tagged automata); marks that a capture did not match: all sequences per capture, and all paths over strings up to 3");
}
VF_MAIN((vf::Check{"P17", explore, run_case}))
