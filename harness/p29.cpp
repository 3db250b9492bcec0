// P29: a lexer of its own, without delimiters, splits a text into longest matches with all their types.
#include "log_explore.hpp"
#include "dfa_eq.hpp"
#include <log_surgeon/Lexer.tpp>
#include <log_surgeon/ParserInputBuffer.hpp>
using namespace lx;

struct Tok {
    std::string text;
    std::vector<uint32_t> types;
    bool operator==(Tok const&) const = default;
};
static std::string show(std::vector<Tok> const& v) {
    std::string s;
    for (auto const& t : v) { s += "<" + t.text; for (auto i : t.types) s += ":" + std::to_string(i); s += ">"; }
    return s;
}
static uint32_t const cEnd = (uint32_t)SymbolId::TokenEnd, cText = (uint32_t)SymbolId::TokenUncaughtString;

// What the lexer should make of a text.
struct Model {
    ref::Pool& pool;
    std::vector<std::pair<uint32_t, ref::Re>> rules;
    bool newline_first{false};
    std::vector<Tok> tokens(std::string const& in) const {
        std::vector<Tok> out;
        size_t last = 0, s = 0;
        while (true) {
            std::vector<ref::Re> r;
            for (auto const& [id, re] : rules) r.push_back(re);
            size_t best = 0, p = s;
            std::vector<uint32_t> types;
            while (p < in.size()) {
                bool alive = false;
                std::vector<uint32_t> now;
                for (size_t k = 0; k < r.size(); k++) {
                    r[k] = pool.deriv(r[k], (unsigned char)in[p]);
                    alive = alive || r[k]->k != ref::Node::None;
                    if (r[k]->nullable && std::find(now.begin(), now.end(), rules[k].first) == now.end()) now.push_back(rules[k].first);
                }
                if (!alive) break;
                p++;
                if (!now.empty()) { best = p; types = now; }
            }
            if (best) {
                if (last < s) out.push_back({in.substr(last, s - last), {cText}});
                out.push_back({in.substr(s, best - s), types});
                last = s = best;
                continue;
            }
            // nothing matches here: what was looked at is text, and all up to a newline that may start a match
            while (p < in.size() && !(in[p] == '\n' && newline_first)) p++;
            if (p == in.size()) {
                if (last < p) out.push_back({in.substr(last), {cText}});
                out.push_back({"", {cEnd}});
                return out;
            }
            s = p;
        }
    }
};
struct Set {
    std::vector<std::string> patterns;
    std::vector<uint32_t> ids;
};
struct Made {
    de::Lex lexer;
    std::vector<std::unique_ptr<SchemaAST>> keep;
};
static std::unique_ptr<Made> make(Set const& s, de::Reused<>* reader) {
    auto m = std::make_unique<Made>();
    for (size_t i = 0; i < s.patterns.size(); i++) {
        std::string text = "v:" + s.patterns[i] + "\n";
        auto r = reader ? reader->read(text) : de::read_fresh(text);
        if (!r.ok) r = de::read_fresh(text);
        m->lexer.add_rule(s.ids[i], de::clone(r.vars.at(0).re));
    }
    m->lexer.generate();
    return m;
}
static Model model(ref::Pool& pool, Set const& s) {
    Model m{pool, {}, false};
    for (size_t i = 0; i < s.patterns.size(); i++) {
        auto x = rs::parse("v:" + s.patterns[i] + "\n");
        m.rules.emplace_back(s.ids[i], rs::to_re(pool, x.vars.at(0).re));
        m.newline_first = m.newline_first || pool.deriv(m.rules.back().second, '\n')->k != ref::Node::None;
    }
    return m;
}
// most: size of the reads (0: any), SIZE_MAX: all in the caller's memory; consume: tokens are given back when read
static std::string check(de::Lex& lexer, std::vector<Tok> const& want, std::string const& in, uint32_t size, size_t most, bool consume, int cut) {
    cStaticByteBuffSize = size;
    std::vector<Tok> got;
    std::string bad;
    auto lex = [&](std::string const& text, size_t limit) {
        got.clear();
        ParserInputBuffer ib;
        Source src;
        src.data = text;
        src.chunks.assign(most && most != SIZE_MAX ? text.size() + 2 : 0, most);
        Reader rd = src.reader();
        std::string mem = text;
        lexer.reset();
        if (most == SIZE_MAX) ib.set_storage(mem.data(), (uint32_t)mem.size(), 0, true);
        else ib.reset();
        while (got.size() < limit && bad.empty()) {
            if (most != SIZE_MAX) ib.read_if_safe(rd);
            Token t;
            ErrorCode e;
            size_t rounds = 0;
            while ((e = lexer.scan(ib, t)) == ErrorCode::BufferOutOfBounds && most != SIZE_MAX && rounds++ < text.size() + 3) {
                lexer.increase_buffer_capacity(ib);
                ib.read_if_safe(rd);
            }
            if (e != ErrorCode::Success) { bad = "scanning ends with code " + std::to_string((int)e); break; }
            got.push_back({t.to_string(), *t.m_type_ids_ptr});
            if (t.m_type_ids_ptr->at(0) == cEnd) break;
            if (consume) ib.set_consumed_pos((t.m_end_pos == 0 ? ib.storage().size() : t.m_end_pos) - 1);
        }
    };
    if (cut >= 0) lex("ab\nba" + in, (size_t)cut);  // another text before, not to its end
    if (bad.empty()) lex(in, 2 * in.size() + 4);
    cStaticByteBuffSize = cStaticByteBuffCapacity;
    if (!bad.empty()) return bad;
    return got == want ? "" : "tokens " + show(got) + ", expected " + show(want);
}
static std::string check_tables(Made& m, ref::Pool& pool, Set const& s, Model const& mod) {
    auto& l = m.lexer;
    if (l.get_has_delimiters()) return "there are delimiters";
    for (int c = 0; c < 256; c++) {
        bool first = false;
        for (auto const& [id, re] : mod.rules) first = first || pool.deriv(re, (unsigned char)c)->k != ref::Node::None;
        if (l.is_first_char((uint8_t)c) != first) return "is_first_char of byte " + std::to_string(c) + " is wrong";
        if (l.is_delimiter((uint8_t)c)) return "byte " + std::to_string(c) + " is a delimiter";
    }
    for (size_t i = 0; i < s.ids.size(); i++) {
        auto* re = l.get_rule(s.ids[i]);
        size_t first = (size_t)(std::find(s.ids.begin(), s.ids.end(), s.ids[i]) - s.ids.begin());
        if (!re) return "get_rule finds nothing for type " + std::to_string(s.ids[i]);
        // its language is that of the first rule of the type
        std::vector<LexicalRule<finite_automata::RegexNFAByteState>> rules;
        rules.emplace_back(9, de::clone(re));
        finite_automata::RegexNFA<finite_automata::RegexNFAByteState> nfa(std::move(rules));
        auto dfa = de::Lex::nfa_to_dfa(nfa);
        de::Stats st;
        std::string e = de::compare(pool, dfa->get_root(), {{9, mod.rules[first].second}}, st);
        if (!e.empty()) return "get_rule: " + e;
    }
    if (l.get_rule(77)) return "get_rule finds a rule for an unknown type";
    return "";
}
static Set set_of(std::string const& s) {
    Set r;
    size_t i = 0;
    while (i < s.size()) {
        size_t c = s.find(' ', i), e = s.find(';', c);
        r.ids.push_back((uint32_t)atoi(s.c_str() + i));
        r.patterns.push_back(s.substr(c + 1, e - c - 1));
        i = e + 1;
    }
    return r;
}
static std::string text_of(Set const& s) {
    std::string r;
    for (size_t i = 0; i < s.ids.size(); i++) r += std::to_string(s.ids[i]) + " " + s.patterns[i] + ";";
    return r;
}
static std::string run_case(Case const& c) {
    ref::Pool pool;
    Set s = set_of(c.at("rules"));
    auto m = make(s, nullptr);
    Model mod = model(pool, s);
    if (!c.count("input")) return check_tables(*m, pool, s, mod);
    return check(m->lexer, mod.tokens(c.at("input")), c.at("input"), (uint32_t)atoi(c.at("bufsize").c_str()), (size_t)strtoull(c.at("most").c_str(), nullptr, 10), c.at("consume") == "1", atoi(c.at("cut").c_str()));
}
static void explore(Ctx& x) {
    std::vector<std::string> const pats{"a", "ab", "a+", "[ab]", "(ab)+", "b", "\\n", "\\na*", "ab*a", "[^a]", "aab", "b{2,3}", "(a|b)\\n", "."};
    size_t const L = x.opt == "small" ? 3 : x.thorough ? 7 : 6;
    std::string const alphabet = "ab\nc";
    std::vector<Set> sets;
    size_t const n = pats.size();
    for (size_t i = 0; i < n; i++) {
        sets.push_back({{pats[i]}, {20}});
        for (size_t j = 0; j < n; j++) {
            sets.push_back({{pats[i], pats[j]}, {20, 21}});
            sets.push_back({{pats[i], pats[j]}, {21, 20}});
            if (i < 3) sets.push_back({{pats[i], pats[j]}, {20, 20}});
            if (x.opt != "small") for (size_t k = 0; k < n; k++) if (x.thorough || (i + j + k) % 4 == 0) sets.push_back({{pats[i], pats[j], pats[k]}, {30, 20, 25}});
        }
    }
    de::Reused<> reader;
    for (auto const& s : sets) {
        if (x.stop()) return;
        if (!x.mine()) continue;
        Case c{{"rules", text_of(s)}};
        x.describe = [&] { return c; };
        ref::Pool pool;
        auto m = make(s, &reader);
        Model mod = model(pool, s);
        x.states++;
        auto count = [&](std::string const& e, bool nt) {
            x.evaluations++; x.traces++;
            if (nt) x.nontrivial++;
            if (!e.empty()) x.fail(c, e);
        };
        count(check_tables(*m, pool, s, mod), false);
        size_t len = s.ids.size() > 2 ? L - 1 : L;
        for (size_t l = 0; l <= len; l++) {
            std::string in(l, alphabet[0]);
            std::vector<size_t> d(l, 0);
            while (!x.stop()) {
                auto want = mod.tokens(in);
                x.transitions += want.size();
                c["input"] = in;
                for (uint32_t size : {4u, 6u, cStaticByteBuffCapacity}) for (size_t most : {(size_t)0, (size_t)1, (size_t)3, SIZE_MAX}) for (bool consume : {false, true}) {
                    if (size != 4 && most == SIZE_MAX) continue;
                    int cut = (int)((l + size + most + consume) % 5) - 1;
                    c["bufsize"] = std::to_string(size); c["most"] = std::to_string(most); c["consume"] = consume ? "1" : "0"; c["cut"] = std::to_string(cut);
                    count(check(m->lexer, want, in, size, most, consume, cut), want.size() > 2);
                }
                size_t i = l;
                bool carry = true;
                while (carry && i-- > 0) {
                    if (++d[i] == alphabet.size()) d[i] = 0; else carry = false;
                    in[i] = alphabet[d[i]];
                }
                if (carry) break;
            }
        }
        if (x.states % 41 == 1) x.sample(text_of(s) + " on '" + "aabb\nab" + "': " + show(mod.tokens("aabb\nab")));
        c.erase("input");
    }
    x.bounds.push_back(std::to_string(sets.size()) + " lists of 1 to 3 rules of " + std::to_string(n) + " patterns (types ascending, descending, equal) x all texts over 4 characters up to length " + std::to_string(L) + " (one less with 3 rules) x 3 sizes of the buffer x 4 ways of delivery x consumed or not x after 0 to 3 tokens of another text");
}
VF_MAIN((vf::Check{"P29", explore, run_case}))
