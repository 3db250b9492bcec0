// Exhaustive product exploration of an automaton of the implementation and the derivative automaton of
// the reference: equality of the languages over all strings.
#pragma once
#include <deque>
#include <map>
#include <set>

#include "impl.hpp"
#include "refschema.hpp"

namespace de {
using namespace log_surgeon;
using Ast = finite_automata::RegexAST<finite_automata::RegexNFAByteState>;
using State = finite_automata::RegexDFAByteState;
using Lex = lexers::ByteLexer;

struct Stats { uint64_t states{0}, transitions{0}; };
struct Want { uint32_t id; ref::Re re; };

// Compares the language of each id.  `order`: the ids of a state must be in the order of `want`.
// `skip`: bytes that are not compared.
inline std::string compare(ref::Pool& pool, State const* root, std::vector<Want> const& want, Stats& st,
                           bool order = false, ref::Set const& skip = {}) {
    using Pair = std::pair<State const*, std::vector<ref::Re>>;
    std::map<Pair, std::pair<Pair const*, int>> seen;
    std::deque<Pair const*> q;
    std::vector<ref::Re> r0;
    for (auto const& w : want) r0.push_back(w.re);
    auto visit = [&](Pair const& p, Pair const* from, int c) {
        auto [it, fresh] = seen.emplace(p, std::make_pair(from, c));
        if (fresh) { q.push_back(&it->first); st.states++; }
    };
    auto witness = [&](Pair const* p) {
        std::string s;
        for (auto it = seen.find(*p); it->second.first; it = seen.find(*it->second.first)) s.insert(s.begin(), (char)it->second.second);
        return s;
    };
    visit({root, r0}, nullptr, 0);
    while (!q.empty()) {
        Pair const* p = q.front();
        q.pop_front();
        std::vector<uint32_t> exp, got;
        for (size_t i = 0; i < want.size(); i++)
            if (p->second[i]->nullable && std::find(exp.begin(), exp.end(), want[i].id) == exp.end()) exp.push_back(want[i].id);
        if (p->first) {
            got = p->first->get_matching_variable_ids();
            if (p->first->is_accepting() != !got.empty()) return "is_accepting disagrees with the types at '" + witness(p) + "'";
        }
        if (!order) {
            std::sort(exp.begin(), exp.end());
            std::sort(got.begin(), got.end());
            got.erase(std::unique(got.begin(), got.end()), got.end());
        }
        if (exp != got) {
            std::string o = "after '" + witness(p) + "': types";
            for (auto x : got) o += " " + std::to_string(x);
            o += ", expected";
            for (auto x : exp) o += " " + std::to_string(x);
            return o;
        }
        for (int c = 0; c < 256; c++) {
            if (skip.test((size_t)c)) continue;
            Pair n;
            n.first = p->first ? p->first->next((uint32_t)c) : nullptr;
            bool alive = n.first != nullptr;
            for (auto r : p->second) { n.second.push_back(pool.deriv(r, (unsigned char)c)); alive |= n.second.back()->k != ref::Node::None; }
            st.transitions++;
            if (alive) visit(n, p, c);
        }
    }
    return "";
}
inline std::unique_ptr<Ast> clone(Ast const* a) { return std::unique_ptr<Ast>(a->clone()); }

// A schema text as the implementation reads it.
struct Read {
    bool ok{false};
    std::string error;
    std::unique_ptr<SchemaAST> ast;
    struct Var { std::string name; unsigned line; Ast* re; };
    std::vector<Var> vars;
    std::vector<std::string> delims;
};
inline void fill(Read& r) {
    r.ok = true;
    for (auto const& v : r.ast->m_schema_vars) {
        auto* x = dynamic_cast<SchemaVarAST*>(v.get());
        r.vars.push_back({x->m_name, x->m_line_num, x->m_regex_ptr.get()});
    }
    for (auto const& v : r.ast->m_delimiters) {
        auto* x = dynamic_cast<DelimiterStringAST*>(v.get());
        std::string d;
        for (auto c : x->m_delimiters) d += (char)c;
        r.delims.push_back(d);
    }
}
inline Read read_fresh(std::string const& text) {
    Read r;
    try {
        r.ast = impl::parse_schema(text);
        if (!r.ast) { r.error = "(no schema)"; return r; }
        fill(r);
    } catch (std::exception const& e) { r.error = e.what(); }
    return r;
}
// Reuses one schema parser object (constructing one takes milliseconds) if the library's private
// interface is still what it was (the explorers are compiled without access control); the parser
// resets itself before each parse.  Callers confirm failures with read_fresh.
template <class SP = SchemaParser>
struct Reused {
    static constexpr bool possible = requires(SP& sp, Reader& rd) { SP{}; sp.generate_schema_ast(rd); };
    std::unique_ptr<SP> sp;
    Read read(std::string const& text) {
        if constexpr (possible) {
            if (!sp) sp = std::unique_ptr<SP>(new SP{});
            Read r;
            impl::Source src{text, {}};
            Reader rd = src.reader();
            try {
                r.ast = sp->generate_schema_ast(rd);
                if (!r.ast) { r.error = "(no schema)"; return r; }
                fill(r);
            } catch (std::exception const& e) { r.error = e.what(); }
            return r;
        } else return read_fresh(text);
    }
};
inline std::string u8(std::u32string const& s) { std::string o; for (char32_t c : s) { if (c < 256) o += (char)c; else o += "<" + std::to_string((uint32_t)c) + ">"; } return o; }
// Checks a pattern as read by the implementation against the reference.
inline std::string pattern_eq(ref::Pool& pool, Ast const* a, ref::Re re, Stats& st) {
    Lex lx;
    lx.add_rule(100, clone(a));
    lx.generate();
    return compare(pool, lx.get_dfa()->get_root(), {{100, re}}, st);
}
}  // namespace de
