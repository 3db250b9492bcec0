// P06: which texts are schemas, and what they mean.
#include <unordered_set>
#include "schema_texts.hpp"
using namespace vf;

static std::string diff(ref::Pool& pool, rs::Result const& want, de::Read const& got,
                        std::unordered_set<std::string>* memo, de::Stats& st) {
    if (want.unspecified) return "";
    if (want.ok != got.ok) return want.ok ? "rejected: " + got.error : "accepted";
    if (!want.ok) return "";
    if (want.vars.size() != got.vars.size()) return std::to_string(got.vars.size()) + " variables instead of " + std::to_string(want.vars.size());
    for (size_t i = 0; i < want.vars.size(); i++) {
        auto const &w = want.vars[i];
        auto const &g = got.vars[i];
        if (w.name != g.name) return "variable " + std::to_string(i) + " is named '" + g.name + "' instead of '" + w.name + "'";
        if (w.line != g.line) return "variable '" + w.name + "' is on line " + std::to_string(g.line) + " instead of " + std::to_string(w.line);
        std::string key;
        if (memo) {
            key = w.text + '\0' + de::u8(g.re->serialize());
            if (memo->count(key)) continue;
        }
        std::string m = de::pattern_eq(pool, g.re, rs::to_re(pool, w.re), st);
        if (!m.empty()) return "pattern of '" + w.name + "': " + m;
        if (memo) memo->insert(key);
    }
    if (want.delims.size() != got.delims.size()) return std::to_string(got.delims.size()) + " delimiter rules";
    for (size_t i = 0; i < want.delims.size(); i++) {
        std::multiset<char> a(want.delims[i].begin(), want.delims[i].end()), b(got.delims[i].begin(), got.delims[i].end());
        if (a != b) return "delimiters '" + got.delims[i] + "' instead of '" + want.delims[i] + "'";
    }
    return "";
}
static std::string run_case(Case const& c) {
    ref::Pool pool;
    de::Stats st;
    auto want = rs::parse(c.at("text"));
    if (c.count("must")) want.unspecified = false;
    auto got = de::read_fresh(c.at("text"));
    if (c.count("must")) return got.ok ? "" : "rejected: " + got.error;
    return diff(pool, want, got, nullptr, st);
}
static void explore(Ctx& x) {
    auto pool = std::make_unique<ref::Pool>();
    de::Reused<> reader;
    std::unordered_set<std::string> memo;
    // names and patterns that contain the reserved word without being it
    for (std::string s : {"mydelimiters:a\n", "delimitersx:a\n", "a:delimiters\n"}) {
        if (!x.mine()) continue;
        Case c{{"text", s}, {"must", "accept"}};
        x.describe = [&] { return c; };
        std::string m = run_case(c);
        if (!m.empty()) x.fail(c, m, s.substr(0, s.size() - 1));
    }
    st::all(x, [&](std::string const& text) {
        x.describe = [&] { return Case{{"text", text}}; };
        if (pool->size() > 200000) pool = std::make_unique<ref::Pool>();
        if (memo.size() > 400000) memo.clear();
        auto want = rs::parse(text);
        x.states++;
        if (want.unspecified) { x.extra["texts_without_claim"]++; return; }
        auto got = reader.read(text);
        x.evaluations++;
        x.traces++;
        x.transitions += text.size();
        de::Stats st;
        std::string m = diff(*pool, want, got, &memo, st);
        x.extra["automaton_product_states"] += st.states;
        if (want.ok) { x.nontrivial++; x.extra["accepted"]++; }
        if (!m.empty()) {
            m = run_case({{"text", text}});  // with a parser of its own
            if (!m.empty()) x.fail({{"text", text}}, m);
        } else if (want.ok && want.vars.size() > 1 && x.index % 997 == 0)
            x.sample("'" + text + "': accepted, " + std::to_string(got.vars.size()) + " variables as written");
    });
}
VF_MAIN((vf::Check{"P06", explore, run_case}))
