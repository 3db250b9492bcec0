// P05: the automaton of a pattern accepts exactly the language of its regular expression.
#include "common.hpp"
#include "dfa_eq.hpp"
#include "patterns.hpp"
using namespace vf;

static std::vector<uint32_t> const cIds{100, 7, 31};
// Several rules in one automaton: each type belongs to exactly the strings of its pattern.
static std::string check(ref::Pool& pool, std::vector<std::string> const& pats, std::vector<de::Ast const*> const& asts, de::Stats& st) {
    de::Lex lx;
    std::vector<de::Want> want;
    for (size_t i = 0; i < pats.size(); i++) {
        auto r = rs::parse("v:" + pats[i]);
        if (!r.ok) return "the reference rejects '" + pats[i] + "'";
        want.push_back({cIds[i], rs::to_re(pool, r.vars[0].re)});
        lx.add_rule(cIds[i], de::clone(asts[i]));
    }
    lx.generate();
    return de::compare(pool, lx.get_dfa()->get_root(), want, st);
}
static std::string run_case(Case const& c) {
    ref::Pool pool;
    de::Stats st;
    std::vector<std::string> pats;
    std::vector<de::Ast const*> asts;
    std::vector<de::Read> reads;
    for (auto k : {"p0", "p1", "p2"}) {
        if (!c.count(k)) continue;
        pats.push_back(c.at(k));
        reads.push_back(de::read_fresh("v:" + c.at(k)));
        if (!reads.back().ok) return "'" + c.at(k) + "' is rejected: " + reads.back().error;
    }
    for (auto& r : reads) asts.push_back(r.vars[0].re);
    return check(pool, pats, asts, st);
}
static void explore(Ctx& x) {
    std::unique_ptr<ref::Pool> pool = std::make_unique<ref::Pool>();
    de::Reused<> reader;
    auto run = [&](std::vector<std::string> const& pats) {
        if (pool->size() > 200000) pool = std::make_unique<ref::Pool>();
        auto mk = [&] {
            Case c;
            for (size_t i = 0; i < pats.size(); i++) c["p" + std::to_string(i)] = pats[i];
            return c;
        };
        x.describe = mk;
        std::vector<de::Read> reads;
        std::vector<de::Ast const*> asts;
        std::string m;
        for (auto const& p : pats) {
            reads.push_back(reader.read("v:" + p));
            if (!reads.back().ok) { m = "'" + p + "' is rejected: " + reads.back().error; break; }
            asts.push_back(reads.back().vars[0].re);
        }
        de::Stats st;
        if (m.empty()) m = check(*pool, pats, asts, st);
        x.evaluations++;
        x.traces++;
        x.states += st.states;
        x.transitions += st.transitions;
        if (st.states > 3) x.nontrivial++;
        if (!m.empty()) x.fail(mk(), m);
        else if (x.index % 4999 == 0) x.sample("'" + pats[0] + "'" + (pats.size() > 1 ? " with '" + pats[1] + "'" : "") + ": " + std::to_string(st.states) + " product states, equal");
    };
    auto all = [&](pg::Gen g, size_t n, char const* what) {
        auto v = g.up_to(n);
        for (auto const& p : v) { if (x.stop()) return; if (x.mine()) run({p}); }
        x.bounds.push_back(std::string(what) + ": all " + std::to_string(v.size()) + " patterns up to size " + std::to_string(n));
    };
    bool small = x.opt == "small";
    // every bracket expression of up to 3 items
    {
        std::vector<std::string> items{"a", "c", "b-d", "\\d", "\\s", "\\]", "\\^-_", "\\-", " ", "0-9", "!-~", "\\t-\\r"};
        uint64_t n = 0;
        for (std::string neg : {"", "^"}) {
            std::vector<std::string> level{""};
            for (int k = 0; k < (small ? 2 : 3); k++) {
                std::vector<std::string> next;
                for (auto const& a : level) for (auto const& b : items) next.push_back(a + b);
                for (auto const& s : next) { n++; if (x.stop()) return; if (x.mine()) run({"[" + neg + s + "]"}); }
                level = next;
            }
        }
        x.bounds.push_back("all " + std::to_string(n) + " bracket expressions of up to 3 of 12 items, negated or not");
    }
    // every repetition count
    {
        int M = small ? 3 : 6;
        for (std::string a : {"a", "(ab)", "[ab]", "(a*)", "(a|b)", "(ab{0,1})", "(a{0,2})"}) for (int i = 0; i <= M; i++) {
            if (x.stop()) return;
            for (std::string tail : {"", "a", "b*"}) {
                if (x.mine()) run({a + "{" + std::to_string(i) + "}" + tail});
                for (int j = i; j <= M + 6; j++) if (x.mine()) run({a + "{" + std::to_string(i) + "," + std::to_string(j) + "}" + tail});
            }
        }
        x.bounds.push_back("all repetition counts {i} and {i,j} with i<=6, j<=12 on 7 operands in 3 contexts");
    }
    bool t = x.thorough;
    pg::Gen g;
    // rich atoms
    g.chars = {"a", "b", "\\.", "\\n"};
    g.classes = {"[ab]", "[^a]", ".", "\\d", "\\s"};
    g.postfixes = {"*", "+", "{0,1}", "{2}"};
    all(g, small ? 2 : t ? 5 : 4, "rich atoms");
    g.chars = {"a", "\\n"};
    g.classes = {"[^a]", ".", "\\s"};
    g.postfixes = {"*", "{0,1}", "{2}"};
    all(g, small ? 2 : t ? 5 : 4, "classes");
    // the structure over two letters
    g = {};
    g.chars = {"a", "b"};
    g.postfixes = {"*", "+", "{0,2}", "{2,3}"};
    all(g, small ? 3 : t ? 8 : 7, "two letters");
    // captures
    g.captures = true;
    g.postfixes = {"*", "{2}"};
    all(g, small ? 3 : t ? 7 : 6, "captures");
    // one letter, nested repetitions
    g = {};
    g.chars = {"a"};
    g.postfixes = {"*", "+", "{0,1}", "{0}", "{2}", "{1,2}"};
    all(g, small ? 4 : t ? 9 : 8, "one letter");
    // several rules in one automaton
    g = {};
    g.chars = {"a", "b"};
    g.postfixes = {"*", "+", "{0,2}"};
    auto v = g.up_to(3);
    for (auto const& p : v) for (auto const& q : v) { if (x.stop()) return; if (x.mine() && !(small && (x.index / 8) % 16)) run({p, q}); }
    x.bounds.push_back("all ordered pairs of " + std::to_string(v.size()) + " patterns in one automaton");
    g.postfixes = {"*"};
    v = g.up_to(t ? 3 : 2);
    for (auto const& p : v) for (auto const& q : v) for (auto const& r : v) { if (x.stop()) return; if (x.mine()) run({p, q, r}); }
    x.bounds.push_back("all ordered triples of " + std::to_string(v.size()) + " patterns in one automaton");
}
VF_MAIN((vf::Check{"P05", explore, run_case}))
