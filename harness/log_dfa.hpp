// The automaton a log parser builds from a schema, against the reference: which schemas are accepted,
// and for every string the types it has, in order.
#pragma once
#include "dfa_eq.hpp"
#include "log_explore.hpp"

namespace ld {
using namespace impl;
struct Expect {
    bool must_reject{false}, must_accept{false};
    std::set<unsigned> lines;  // of the patterns that can match a delimiter, from 0
    std::map<unsigned, std::pair<std::string, ref::Set>> bad;  // their variables, and the delimiters
    ref::Set delims;
    std::vector<ref::Rule> rules;  // as the reference tokenizer takes them
};
inline void re_chars(ref::Re r, std::set<ref::Re>& seen, ref::Set& s) {
    if (!r || !seen.insert(r).second) return;
    if (r->k == ref::Node::Chars) s |= r->set;
    re_chars(r->a, seen, s);
    re_chars(r->b, seen, s);
}
inline void node_chars(rs::P const& n, ref::Set const& delims, ref::Set& s) {
    if (!n) return;
    if (n->k == rs::Node::Chars) s |= n->any ? n->set & ~delims : n->set;
    node_chars(n->a, delims, s);
    node_chars(n->b, delims, s);
}
inline Expect expect(ref::Pool& pool, rs::Result const& r) {
    Expect e;
    if (r.delims.empty()) { e.must_reject = true; return e; }
    for (unsigned char c : r.delims.back()) e.delims.set(c);
    ref::Set all = e.delims;
    all.set(0xfd);  // marks the start of the input inside the automaton
    e.must_accept = true;
    for (auto const& v : r.vars) {
        if (v.name == "timestamp") { e.rules.push_back({v.name, rs::to_re(pool, v.re)}); continue; }
        ref::Re re = rs::to_re(pool, v.re, &all);
        e.rules.push_back({v.name, re});
        std::set<ref::Re> seen;
        ref::Set sem, syn;
        re_chars(re, seen, sem);
        node_chars(v.re, all, syn);
        if ((sem & e.delims).any()) { e.must_reject = true; e.lines.insert(v.line); }
        if ((syn & e.delims).any()) { e.must_accept = false; e.bad[v.line] = {v.name, syn & e.delims}; }
    }
    return e;
}
inline std::string check_built(ref::Pool& pool, Expect const& e, LogParser const& lp, de::Stats& st) {
    for (int c = 0; c < 256; c++)
        if (c != 0xfd && lp.m_lexer.is_delimiter((uint8_t)c) != e.delims.test((size_t)c))
            return "character " + std::to_string(c) + (e.delims.test((size_t)c) ? " is not a delimiter" : " is a delimiter");
    std::vector<de::Want> want;
    ref::Set all = e.delims;
    all.set(0xfd);
    auto id = [&](std::string const& n) { auto i = lp.get_symbol_id(n); return i ? *i : 0xffffffffu; };
    want.push_back({id("newLine"), pool.lit('\n')});
    for (auto const& r : e.rules) {
        if (r.name == "timestamp") {
            want.push_back({id("firstTimestamp"), pool.cat(pool.lit(0xfd), r.re)});
            want.push_back({id("newLineTimestamp"), pool.cat(pool.lit('\n'), r.re)});
        } else want.push_back({id(r.name), pool.cat(pool.chars(all), r.re)});
        if (want.back().id == 0xffffffffu) return "the type '" + r.name + "' has no identifier";
    }
    return de::compare(pool, lp.m_lexer.get_dfa()->get_root(), want, st, true);
}
inline int line_of(std::string const& msg) {
    for (size_t i = 0; i + 1 < msg.size(); i++)
        if (msg[i] == ':' && isdigit((unsigned char)msg[i + 1])) return atoi(msg.c_str() + i + 1);
    return -1;
}
}  // namespace ld
