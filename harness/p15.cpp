// P15: a text that ends with a wildcard is a variable exactly if it stays one whatever the wildcard stands for.
#include "log_explore.hpp"
#include "dfa_eq.hpp"
#include <log_surgeon/Lexer.tpp>
#include <log_surgeon/ParserInputBuffer.hpp>
#include <log_surgeon/LogParser.hpp>
#include <log_surgeon/SchemaParser.hpp>
using namespace lx;

static uint32_t const cText = (uint32_t)SymbolId::TokenUncaughtString;
struct Rules {
    bool log{false};  // made by a log parser: rules start with a delimiter
    std::string delims;  // own lexers: none if empty
    std::vector<std::string> patterns;
};
static std::string text_of(Rules const& r) {
    std::string s = std::string(r.log ? "L" : "O") + r.delims + ";";
    for (auto const& p : r.patterns) s += p + ";";
    return s;
}
static Rules rules_of(std::string const& s) {
    Rules r;
    r.log = s[0] == 'L';
    size_t e = s.find(';');
    r.delims = s.substr(1, e - 1);
    for (size_t i = e + 1; i < s.size(); i = e + 1) { e = s.find(';', i); r.patterns.push_back(s.substr(i, e - i)); }
    return r;
}
struct Made {
    de::Lex own;
    std::unique_ptr<LogParser> parser;
    de::Lex* lexer{nullptr};
    std::vector<uint32_t> ids;
};
static std::string escaped(std::string const& d) {
    std::string s;
    for (char c : d) s += c == '\n' ? "\\n" : std::string(1, c);
    return s;
}
static std::unique_ptr<Made> make(Rules const& r) {
    auto m = std::make_unique<Made>();
    if (r.log) {
        std::string t = "delimiters:" + escaped(r.delims) + "\n";
        for (size_t i = 0; i < r.patterns.size(); i++) t += "v" + std::string(1, (char)('a' + i)) + ":" + r.patterns[i] + "\n";
        m->parser = std::make_unique<LogParser>(SchemaParser::try_schema_string(t));
        m->lexer = &m->parser->m_lexer;
        for (size_t i = 0; i < r.patterns.size(); i++) m->ids.push_back(m->lexer->m_symbol_id.at("v" + std::string(1, (char)('a' + i))));
        return m;
    }
    m->lexer = &m->own;
    if (!r.delims.empty()) {
        std::vector<uint32_t> d;
        for (char c : r.delims) d.push_back((unsigned char)c);
        m->own.add_delimiters(d);
    }
    for (size_t i = 0; i < r.patterns.size(); i++) {
        auto x = de::read_fresh("v:" + r.patterns[i] + "\n");
        m->own.add_rule(20 + (uint32_t)i, de::clone(x.vars.at(0).re));
        m->ids.push_back(20 + (uint32_t)i);
    }
    m->own.generate();
    return m;
}
struct Model {
    ref::Pool pool;
    std::vector<ref::Re> rules;
    std::vector<uint32_t> ids;
    ref::Set delims;
    bool any_delims{false};
    std::map<std::vector<ref::Re>, bool> m_closed;
    using State = std::vector<ref::Re>;
    State next(State s, unsigned char c) {
        for (auto& r : s) r = pool.deriv(r, c);
        return s;
    }
    static bool alive(State const& s) { for (auto r : s) if (r->k != ref::Node::None) return true; return false; }
    static bool accepts(State const& s) { for (auto r : s) if (r->nullable) return true; return false; }
    // every continuation without delimiters is accepted
    bool closed(State const& s0) {
        auto it = m_closed.find(s0);
        if (it != m_closed.end()) return it->second;
        std::set<State> seen{s0};
        std::deque<State> q{s0};
        bool r = true;
        while (r && !q.empty()) {
            State s = q.front();
            q.pop_front();
            if (!accepts(s)) { r = false; break; }
            for (int c = 0; c < 256; c++) {
                if (delims.test((size_t)c)) continue;
                State n = next(s, (unsigned char)c);
                if (seen.insert(n).second) q.push_back(n);
            }
        }
        return m_closed[s0] = r;
    }
    std::map<State, std::pair<bool, bool>> m_any;
    bool any_one(State const& s, bool with_delims) {
        auto [it, fresh] = m_any.emplace(s, std::make_pair(false, false));
        if (fresh) it->second = {work_any(s, false), work_any(s, true)};
        return with_delims ? it->second.second : it->second.first;
    }
    bool work_any(State const& s, bool with_delims) {
        for (int c = 0; c < 256; c++) if ((with_delims || !delims.test((size_t)c)) && !accepts(next(s, (unsigned char)c))) return false;
        return true;
    }
    // what is expected: 0 text, 1 variable, 2 either; nothing if the text is not the start of a match
    using Answer = std::optional<std::pair<int, std::vector<uint32_t>>>;
    std::pair<std::string, char> m_last;
    Answer m_answer;
    Answer const& answer(std::string const& in, char wildcard) {
        if (m_last.second != wildcard || m_last.first != in) { m_answer = work_out(in, wildcard); m_last = {in, wildcard}; }
        return m_answer;
    }
    Answer work_out(std::string const& in, char wildcard) {
        State s = rules;
        for (char c : in) {
            if (any_delims && c == '\n') return std::nullopt;
            s = next(s, (unsigned char)c);
            if (!alive(s)) return std::nullopt;
        }
        std::vector<uint32_t> types;
        for (size_t i = 0; i < s.size(); i++) if (s[i]->nullable) types.push_back(ids[i]);
        if (types.empty()) return std::make_pair(0, types);
        int r;
        if (wildcard == '*') r = closed(s);
        else if (!any_one(s, false)) r = 0;
        else r = any_one(s, true) ? 1 : 2;
        return std::make_pair(r, types);
    }
};
static std::unique_ptr<Model> model(Rules const& r, std::vector<uint32_t> const& ids) {
    auto m = std::make_unique<Model>();
    m->ids = ids;
    m->any_delims = !r.delims.empty();
    for (char c : r.delims) m->delims.set((unsigned char)c);
    if (m->any_delims) m->delims.set(0xFD);
    for (auto const& p : r.patterns) {
        std::string q = p;
        // in the rules of a log parser, the wildcard matches no delimiter
        for (size_t i; r.log && (i = q.find('.')) != std::string::npos;) q.replace(i, 1, "[^" + escaped(r.delims) + "]");
        auto x = rs::parse("v:" + q + "\n");
        m->rules.push_back(rs::to_re(m->pool, x.vars.at(0).re));
    }
    return m;
}
// most: size of the reads (0: any), SIZE_MAX: all in the caller's memory; cut: tokens scanned before, of another text
static std::string check(Made& m, Rules const& r, Model& mod, std::string const& in, char wildcard, uint32_t size, size_t most, int cut) {
    auto const& want = mod.answer(in, wildcard);
    if (!want) return "";
    auto& lexer = *m.lexer;
    cStaticByteBuffSize = size;
    std::string bad;
    auto query = [&](std::string const& text, char w, bool judge) {
        ParserInputBuffer ib;
        Source src;
        src.data = text;
        src.chunks.assign(most && most != SIZE_MAX ? text.size() + 2 : 0, most);
        Reader rd = src.reader();
        std::string mem = text;
        lexer.reset();
        if (most == SIZE_MAX) ib.set_storage(mem.data(), (uint32_t)mem.size(), 0, true);
        else { ib.reset(); ib.read_if_safe(rd); }
        if (r.log) lexer.prepend_start_of_file_char(ib);
        Token t;
        ErrorCode e;
        size_t rounds = 0;
        auto scan = [&] { return w ? lexer.scan_with_wildcard(ib, w, t) : lexer.scan(ib, t); };
        while ((e = scan()) == ErrorCode::BufferOutOfBounds && most != SIZE_MAX && rounds++ < text.size() + 3) {
            lexer.increase_buffer_capacity(ib);
            ib.read_if_safe(rd);
        }
        if (!judge) return;
        if (e != ErrorCode::Success) { bad = "scanning ends with code " + std::to_string((int)e); return; }
        auto const& types = *t.m_type_ids_ptr;
        std::string got = "'" + t.to_string() + "'";
        for (auto i : types) got += " " + std::to_string(i);
        bool text_token = types.size() == 1 && types[0] == cText;
        if (t.to_string() != in) bad = "the token is " + got;
        else if (want->first == 0 && !text_token) bad = "the token is " + got + ", but the wildcard can make it something else";
        else if (want->first == 1 && types != want->second) bad = "the token is " + got + ", but whatever the wildcard stands for it is a variable";
        else if (want->first == 2 && !text_token && types != want->second) bad = "the types of the token are wrong: " + got;
    };
    // another query or scan before, in the same lexer
    if (cut == 1) query(in, wildcard == '*' ? '?' : '*', false);
    if (cut == 2) query("ab" , 0, false);
    if (cut == 3) query("b a", 0, false);
    query(in, wildcard, true);
    cStaticByteBuffSize = cStaticByteBuffCapacity;
    return bad;
}
static std::string run_case(Case const& c) {
    Rules r = rules_of(c.at("rules"));
    auto m = make(r);
    auto mod = model(r, m->ids);
    return check(*m, r, *mod, c.at("input"), c.at("wildcard")[0], (uint32_t)atoi(c.at("bufsize").c_str()), (size_t)strtoull(c.at("most").c_str(), nullptr, 10), atoi(c.at("cut").c_str()));
}
static void explore(Ctx& x) {
    std::vector<std::string> const pats{"a", "a+", "a.*", ".+", "a.", "[^ ]+", "a[^ ]*", "[^ab]+", "ab[^b]*", "(a|b)+", "a[^ a][^ ]*", "a([^ ][^ ])*", "b[^ ]{0,2}", "[ab][^ ]", "a[^ \\n]+", "([^a ])+"};
    std::vector<std::string> const log_pats{"a", "a+", "a[^ \\n]*", "[^ \\n]+", "a[^ \\n]", "[^ab \\n]+", "ab[^b \\n]*", "(a|b)+", "a[^ a\\n][^ \\n]*", "a([^ \\n][^ \\n])*", "b.*", "b.", "(a.)+", "a.{0,2}", "a(.*)"};
    size_t const L = x.opt == "small" ? 3 : x.thorough ? 6 : 5;
    std::string const alphabet = "ab c";
    std::vector<Rules> sets;
    auto add = [&](bool log, std::string const& d, std::vector<std::string> const& p) {
        for (size_t i = 0; i < p.size(); i++) {
            sets.push_back({log, d, {p[i]}});
            for (size_t j = 0; j < p.size(); j++) {
                if (x.opt == "small" && (i + 2 * j) % 4 != 0) continue;
                sets.push_back({log, d, {p[i], p[j]}});
                if (x.opt != "small") for (size_t k = 0; k < p.size(); k++) if ((i + 2 * j + 3 * k) % (x.thorough ? 3 : 16) == 0) sets.push_back({log, d, {p[i], p[j], p[k]}});
            }
        }
    };
    add(false, "", pats);
    add(false, " ", pats);
    add(false, "ab ", pats);
    add(true, " \n", log_pats);
    for (auto const& s : sets) {
        if (x.stop()) return;
        if (!x.mine()) continue;
        Case c{{"rules", text_of(s)}};
        x.describe = [&] { return c; };
        auto m = make(s);
        auto mod = model(s, m->ids);
        x.states++;
        auto one = [&](std::string const& in, char w, uint32_t size, size_t most, int cut) {
            auto const& a = mod->answer(in, w);
            if (!a) return;
            c["input"] = in; c["wildcard"] = std::string(1, w); c["bufsize"] = std::to_string(size); c["most"] = std::to_string(most); c["cut"] = std::to_string(cut);
            std::string e = check(*m, s, *mod, in, w, size, most, cut);
            x.evaluations++; x.traces++;
            if (!a->second.empty()) x.nontrivial++;
            if (a->first == 1) x.extra["stays_a_variable"]++;
            if (!e.empty()) x.fail(c, e);
        };
        // all starts of matches, as a tree
        std::vector<std::string> level{""};
        for (size_t l = 0; l <= L && !x.stop(); l++) {
            std::vector<std::string> more;
            for (auto const& in : level) {
                for (char w : {'?', '*'}) for (uint32_t size : {4u, 6u, cStaticByteBuffCapacity}) for (size_t most : {(size_t)0, (size_t)1, SIZE_MAX}) {
                    if (size != 4 && most != (size == 6 ? 1 : 0)) continue;
                    one(in, w, size, most, (int)((l + size + most + (w == '*')) % 4));
                }
                if (l < L) for (char ch : alphabet) if (mod->answer(in + ch, '*')) more.push_back(in + ch);
                x.transitions += alphabet.size();
            }
            level = more;
        }
        // one byte of each value at the end
        if (s.patterns.size() < 3) for (std::string in : {"a", "ab"}) for (int b = 0; b < 256; b++) for (char w : {'?', '*'}) if (b != 0xFD) one(in + (char)b, w, 4, b % 2 ? SIZE_MAX : 1, b % 4);
        if (x.states % 97 == 1) x.sample(text_of(s));
        c = Case{{"rules", text_of(s)}};
    }
    x.bounds.push_back(std::to_string(sets.size()) + " lists of 1 to 3 rules (on their own without and with delimiters, and made by a log parser) x all texts over 4 characters up to length " + std::to_string(L) + " that are the start of a match x both wildcards x 5 combinations of buffer size and delivery x after nothing, another query or another scan; texts ending with each byte");
}
VF_MAIN((vf::Check{"P15", explore, run_case}))
