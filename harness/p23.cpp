// P23: the written form of a pattern, and of an automaton, describes that pattern and that automaton.
#include "tagged.hpp"

// ---- reading the written form of a pattern
struct BadText { std::string what; };
struct PatternReader {
    std::u32string const& t;
    Graph& g;
    Names const& names;
    size_t i{0};
    [[noreturn]] void bad(std::string const& w) const { throw BadText{w + " at character " + std::to_string(i)}; }
    bool at(char32_t c) const { return i < t.size() && t[i] == c; }
    void take(char32_t c) { if (!at(c)) bad(std::string("'") + (char)c + "' is missing"); i++; }
    std::string name() {
        std::string n;
        while (i < t.size() && t[i] != '>') n += (char)t[i++];
        take('>');
        return n;
    }
    int id(std::string const& n) const { auto it = names.ids.find(n); if (it == names.ids.end()) bad("there is a capture '" + n + "', which the pattern has not"); return it->second; }
    unsigned number() {
        if (i >= t.size() || t[i] < '0' || t[i] > '9') bad("a number is missing");
        unsigned v = 0;
        while (i < t.size() && t[i] >= '0' && t[i] <= '9') v = v * 10 + (t[i++] - '0');
        return v;
    }
    char32_t any() { if (i >= t.size()) bad("it ends early"); return t[i++]; }
    // Adds everything up to the end of the text or a ')' between the given nodes.
    void expr(int s, int e) {
        while (i < t.size() && !at(')')) { int m = g.node(); item(s, m); s = m; }
        g.edge(s, kEps, e);
    }
    void item(int s, int e) {
        if (at('<')) {
            i++;
            take('~');
            g.edge(s, 256 + 3 * id(name()) + 2, e);
        } else if (at('[')) {
            i++;
            std::bitset<256> set;
            auto add = [&](char32_t a, char32_t b) { for (char32_t c = a; c <= b && c < 256; c++) set.set(c); };
            bool neg = at('^');
            if (neg) i++;
            if (at('*')) { i++; set.set(); }
            else {
                while (true) {
                    char32_t a = any();
                    take('-');
                    add(a, any());
                    if (!at(',')) break;
                    i++;
                    take(' ');
                }
            }
            take(']');
            for (int c = 0; c < 256; c++) if (set.test((size_t)c) != neg) g.edge(s, c, e);
        } else if (at('(')) {
            i++;
            size_t from = i;
            int a = g.node(), b = g.node();
            expr(a, b);
            take(')');
            if (at('|')) {
                g.edge(s, kEps, a);
                g.edge(b, kEps, e);
                i++;
                take('(');
                int c = g.node(), d = g.node();
                expr(c, d);
                take(')');
                g.edge(s, kEps, c);
                g.edge(d, kEps, e);
            } else if (at('{')) {
                i++;
                unsigned lo = number(), hi = 0;
                take(',');
                bool inf = at('i');
                if (inf) { for (char32_t c : U"inf") if (c) take(c); } else hi = number();
                take('}');
                size_t end = i;
                auto copy = [&](int x, int y) { int en = g.node(); g.edge(x, kEps, en); i = from; expr(en, y); };
                int cur = g.node();
                g.edge(s, kEps, cur);
                for (unsigned k = 0; k < lo; k++) { int n = g.node(); copy(cur, n); cur = n; }
                if (inf) {
                    int n = g.node(), l = g.node();
                    g.edge(cur, kEps, l);
                    copy(l, n);
                    g.edge(n, kEps, l);
                    g.edge(l, kEps, e);
                } else {
                    for (unsigned k = lo; k < hi; k++) { int n = g.node(); g.edge(cur, kEps, e); copy(cur, n); cur = n; }
                    g.edge(cur, kEps, e);
                }
                i = end;
            } else if (at('<') && i + 1 < t.size() && t[i + 1] != '~') {
                i++;
                int k = id(name());
                g.edge(s, 256 + 3 * k, a);
                g.edge(b, 256 + 3 * k + 1, e);
            } else bad("a part in parentheses is not followed by what it is");
        } else g.edge(s, (int)any(), e);
    }
};
// ---- reading the written form of an automaton
struct NfaReader {
    std::string const& t;
    size_t i{0};
    struct Tagged { size_t to; std::vector<std::string> tags; };
    struct State {
        long accept{-1};
        std::vector<std::pair<int, size_t>> bytes;
        std::vector<size_t> eps;
        std::vector<Tagged> starts, ends, negs;
    };
    std::vector<State> states;
    [[noreturn]] void bad(std::string const& w) const { throw BadText{w + " at character " + std::to_string(i) + " of the automaton"}; }
    void take(std::string const& s) { if (t.compare(i, s.size(), s) != 0) bad("'" + s + "' is missing"); i += s.size(); }
    bool at(std::string const& s) const { return t.compare(i, s.size(), s) == 0; }
    size_t number() {
        if (i >= t.size() || !isdigit((unsigned char)t[i])) bad("a number is missing");
        size_t v = 0;
        while (i < t.size() && isdigit((unsigned char)t[i])) v = v * 10 + (size_t)(t[i++] - '0');
        return v;
    }
    template <typename F>
    void list(std::string const& name, F one) {
        take(name + "={");
        // a byte transition may be on '}' itself
        while (!at("}") || at("}-->")) { one(); if (!at(",") || (at("}") && !at("}-->"))) break; i++; }
        take("}");
    }
    Tagged tagged() {
        Tagged r{number(), {}};
        take("[");
        std::string cur;
        for (;; i++) {
            if (i >= t.size()) bad("it ends early");
            if (t[i] == ',' || t[i] == ']') { r.tags.push_back(cur); cur.clear(); if (t[i] == ']') break; }
            else cur += t[i];
        }
        i++;
        return r;
    }
    void read() {
        while (i < t.size()) {
            State s;
            if (number() != states.size()) bad("a state has the wrong number");
            take(":");
            if (at("accepting_tag=")) { take("accepting_tag="); s.accept = (long)number(); take(","); }
            list("byte_transitions", [&] { int c = (unsigned char)t[i++]; take("-->"); s.bytes.push_back({c, number()}); });
            take(",");
            list("epsilon_transitions", [&] { s.eps.push_back(number()); });
            take(",");
            list("positive_tagged_start_transitions", [&] { s.starts.push_back(tagged()); });
            take(",");
            list("positive_tagged_end_transitions", [&] { s.ends.push_back(tagged()); });
            take(",");
            list("negative_tagged_transition", [&] { s.negs.push_back(tagged()); });
            take("\n");
            states.push_back(s);
        }
    }
};
// The states of the text are those of the automaton, with the same transitions.
static std::string same(NfaReader const& r, ls_nfa& nfa) {
    using St = ls_nfa_state;
    std::map<St const*, size_t> num;
    std::vector<St const*> of(r.states.size(), nullptr);
    std::string err;
    auto link = [&](St const* s, size_t n) {
        if (n >= of.size()) { err = "a transition leads to state " + std::to_string(n) + ", which is not listed"; return; }
        if (!of[n]) {
            of[n] = s;
            if (!num.emplace(s, n).second) err = "a state has two numbers";
        } else if (of[n] != s) err = "a transition leads to state " + std::to_string(n) + " instead of another one";
    };
    if (r.states.empty()) return "no states";
    link(nfa.get_root(), 0);
    std::vector<size_t> dist(r.states.size(), SIZE_MAX);
    dist[0] = 0;
    std::vector<size_t> todo{0};
    for (size_t q = 0; q < todo.size() && err.empty(); q++) {
        size_t n = todo[q];
        auto const& w = r.states[n];
        auto const* s = of[n];
        auto at = [&](char const* what) { return std::string(what) + " of state " + std::to_string(n) + " differ"; };
        auto next = [&](St const* d, size_t m) {
            link(d, m);
            if (!err.empty()) return;
            if (dist[m] == SIZE_MAX) { dist[m] = dist[n] + 1; todo.push_back(m); }
        };
        if (w.accept != (s->is_accepting() ? (long)s->get_matching_variable_id() : -1)) return at("the types");
        size_t k = 0;
        for (int c = 0; c < 256; c++) for (auto const* d : s->get_byte_transitions((uint8_t)c)) {
            if (k >= w.bytes.size() || w.bytes[k].first != c) return at("the transitions on characters");
            next(d, w.bytes[k++].second);
        }
        if (k != w.bytes.size()) return at("the transitions on characters");
        k = 0;
        for (auto const* d : s->get_epsilon_transitions()) {
            if (k >= w.eps.size()) return at("the transitions on nothing");
            next(d, w.eps[k++]);
        }
        if (k != w.eps.size()) return at("the transitions on nothing");
        auto tags = [&](auto const& x, NfaReader::Tagged const& y) {
            if (tag_names(x) != y.tags) return false;
            next(x.get_dest_state(), y.to);
            return true;
        };
        k = 0;
        for (auto const& x : s->get_positive_tagged_start_transitions()) if (k >= w.starts.size() || !tags(x, w.starts[k++])) return at("the starts of captures");
        if (k != w.starts.size()) return at("the starts of captures");
        auto const& e = s->get_positive_tagged_end_transition();
        if (e.has_value() != (w.ends.size() == 1) || w.ends.size() > 1 || (e && !tags(*e, w.ends[0]))) return at("the ends of captures");
        auto const& m = s->get_negative_tagged_transition();
        if (m.has_value() != (w.negs.size() == 1) || w.negs.size() > 1 || (m && !tags(*m, w.negs[0]))) return at("the captures that did not match");
    }
    if (!err.empty()) return err;
    for (size_t n = 0; n < of.size(); n++) {
        if (!of[n]) return "state " + std::to_string(n) + " is not reached from state 0";
        if (n && dist[n] < dist[n - 1]) return "states " + std::to_string(n - 1) + " and " + std::to_string(n) + " are not in breadth-first order";
    }
    return "";
}
static std::string cmp_text(std::u32string const& text, std::string const& pat, Cmp& cmp) {
    auto r = rs::parse("v:" + pat);
    if (!r.ok) return "the reference rejects '" + pat + "'";
    Names names;
    Graph want, got;
    want.root = want.node();
    int e = want.node();
    want.accept[(size_t)e] = 1;
    build(want, names, r.vars[0].re, want.root, e);
    got.root = got.node();
    e = got.node();
    got.accept[(size_t)e] = 1;
    PatternReader pr{text, got, names};
    pr.expr(got.root, e);
    if (pr.i != text.size()) pr.bad("there is a ')' too many");
    std::string m = cmp.equal(got, want, names, [](int l) { return l < 256 || (l - 256) % 3 != 2; });
    if (!m.empty()) return "looking at text and spans, it " + m;
    for (size_t c = 0; c < names.ids.size(); c++) {
        m = cmp.equal(got, want, names, [&](int l) { return l >= 256 && (size_t)(l - 256) / 3 == c; });
        if (!m.empty()) return "looking at the marks of one capture, it " + m;
    }
    return "";
}
static std::string check(std::vector<std::string> const& pats, std::vector<de::Ast const*> const& asts, Cmp& cmp, bool names_ok) {
    std::string where;
    try {
        std::vector<ls_rule> rules;
        de::Lex lx;
        for (size_t i = 0; i < pats.size(); i++) {
            std::unique_ptr<std::remove_const_t<de::Ast>> c(asts[i]->clone());
            if (names_ok) {
                auto text = asts[i]->serialize();
                where = "the text '" + de::u8(text) + "' of '" + pats[i] + "': ";
                auto m = cmp_text(text, pats[i], cmp);
                if (!m.empty()) return where + m;
                if (c->serialize() != text) return where + "that of a copy is '" + de::u8(c->serialize()) + "'";
            }
            lx.add_rule((uint32_t)i * 7 + 3, de::clone(asts[i]));
            rules.emplace_back((uint32_t)i * 7 + 3, std::move(c));
        }
        for (uint32_t id = 0; id < 40; id++) {
            if (id == 20) lx.generate();
            uint32_t const type = id % 20;
            bool is = type % 7 == 3 && type / 7 < pats.size();
            auto const* got = lx.get_rule(type);
            where = "the pattern that the lexer gives" + std::string(id < 20 ? "" : ", after generating its automaton,") + " for type " + std::to_string(type) + " ";
            if (!is != !got) return where + (got ? "exists" : "does not exist");
            if (is && got->serialize() != asts[type / 7]->serialize()) return where + "is '" + de::u8(got->serialize()) + "'";
        }
        where = "the text of the automaton of '" + pats[0] + "': ";
        ls_nfa nfa{std::move(rules)};
        auto text = nfa.serialize();
        NfaReader r{text};
        r.read();
        cmp.states += r.states.size();
        auto m = same(r, nfa);
        if (!m.empty()) return where + m;
        if (nfa.serialize() != text) return where + "a second one differs";
    } catch (BadText const& b) { return where + b.what;
    } catch (BadTag const& b) { return where + b.what;
    } catch (std::exception const& e) { return where + e.what(); }
    return "";
}
// A pattern made of nodes, on the bytes from `a` to `b`.
static std::unique_ptr<std::remove_const_t<de::Ast>> nodes(uint32_t a, uint32_t b, int shape) {
    using namespace log_surgeon::finite_automata;
    using N = ls_nfa_state;
    using A = std::unique_ptr<std::remove_const_t<de::Ast>>;
    auto in = [&]() -> A { if (a == b) return std::make_unique<RegexASTLiteral<N>>(a); return std::make_unique<RegexASTGroup<N>>(a, b); };
    auto lit = [](char c) -> A { return std::make_unique<RegexASTLiteral<N>>((uint32_t)c); };
    auto cat = [](A l, A r) -> A { return std::make_unique<RegexASTCat<N>>(std::move(l), std::move(r)); };
    switch (shape) {
        case 0: return in();
        case 1: return cat(in(), lit('a'));
        case 2: return cat(lit('a'), in());
        case 3: return std::make_unique<RegexASTOr<N>>(cat(in(), lit('a')), lit('b'));
        case 4: return std::make_unique<RegexASTMultiplication<N>>(cat(in(), in()), 1, 0);
        default: return std::make_unique<RegexASTCapture<N>>(in(), std::make_unique<Tag>("c"));
    }
}
static std::string check_nodes(uint32_t a, uint32_t b, int shape, Cmp& cmp) {
    auto n = nodes(a, b, shape);
    std::vector<de::Ast const*> asts{n.get()};
    return check({"bytes " + std::to_string(a) + " to " + std::to_string(b) + ", shape " + std::to_string(shape)}, asts, cmp, false);
}
static std::string run_case(Case const& c) {
    if (c.count("shape")) {
        Cmp cmp;
        return check_nodes((uint32_t)atoi(c.at("from").c_str()), (uint32_t)atoi(c.at("to").c_str()), atoi(c.at("shape").c_str()), cmp);
    }
    std::vector<std::string> pats;
    std::vector<de::Read> reads;
    std::vector<de::Ast const*> asts;
    for (auto k : {"p0", "p1", "p2"}) {
        if (!c.count(k)) continue;
        pats.push_back(c.at(k));
        reads.push_back(de::read_fresh("v:" + c.at(k)));
        if (!reads.back().ok) return "'" + c.at(k) + "' is rejected: " + reads.back().error;
    }
    for (auto& r : reads) asts.push_back(r.vars[0].re);
    Cmp cmp;
    return check(pats, asts, cmp, c.at("readable") == "1");
}
// Gives the captures of a pattern different names.
static std::string rename(std::string const& p, char prefix) {
    std::string o;
    int n = 0;
    for (size_t i = 0; i < p.size(); i++) {
        if (p.compare(i, 3, "(?<") == 0) {
            o += "(?<" + std::string(1, prefix) + std::to_string(n++) + ">";
            i = p.find('>', i);
        } else o += p[i];
    }
    return o;
}
static void explore(Ctx& x) {
    de::Reused<> reader;
    bool small = x.opt == "small", t = x.thorough;
    auto run = [&](std::vector<std::string> const& pats, bool readable) {
        auto mk = [&] {
            Case c;
            for (size_t i = 0; i < pats.size(); i++) c["p" + std::to_string(i)] = pats[i];
            c["readable"] = readable ? "1" : "0";
            return c;
        };
        x.describe = mk;
        std::vector<de::Read> reads;
        std::vector<de::Ast const*> asts;
        std::string m;
        for (auto const& p : pats) {
            reads.push_back(reader.read("v:" + p));
            if (!reads.back().ok) { m = "'" + p + "' is rejected: " + reads.back().error; break; }
            asts.push_back(reads.back().vars[0].re);
        }
        Cmp cmp;
        if (m.empty()) m = check(pats, asts, cmp, readable);
        x.evaluations++;
        x.traces++;
        x.states += cmp.states;
        x.transitions += cmp.transitions;
        if (cmp.states > 8) x.nontrivial++;
        if (!m.empty()) x.fail(mk(), m);
        else if (x.index % 9973 == 0 && readable) x.sample("'" + pats[0] + "' is written '" + de::u8(asts[0]->serialize()) + "'");
    };
    auto pats = [&](pg::Gen& g, size_t n, char prefix) {
        std::set<std::string> s;
        std::vector<std::string> v;
        for (auto const& p : g.up_to(n)) {
            auto r = rename(p, prefix);
            if (s.insert(r).second) v.push_back(r);
        }
        return v;
    };
    auto all = [&](pg::Gen g, size_t n, char const* what) {
        auto v = pats(g, n, 'n');
        for (auto const& p : v) { if (x.stop()) return; if (x.mine()) run({p}, true); }
        x.bounds.push_back(std::string(what) + ": all " + std::to_string(v.size()) + " patterns up to size " + std::to_string(n));
    };
    pg::Gen g;
    g.captures = true;
    g.chars = {"a", "b"};
    g.postfixes = {"*", "+"};
    all(g, small ? 4 : t ? 7 : 6, "two letters, captures");
    g.chars = {"a"};
    g.classes = {"[b-d]", "[^a]", ".", "[ax-z]", "\\d", "\\s"};
    g.postfixes = t ? std::vector<std::string>{"*", "{0,1}", "{2}", "{0,3}"} : std::vector<std::string>{"*", "{0,3}"};
    all(g, small ? 3 : t ? 6 : 5, "classes, counts, captures");
    g.classes = {};
    g.postfixes = {"*", "{0}", "{0,2}", "{3,4}"};
    all(g, small ? 4 : t ? 8 : 7, "one letter, counts, captures");
    g.postfixes = {"{1,12}", "{10}", "{0,11}"};
    all(g, 3, "counts of two digits");
    g = {};
    g.captures = true;
    g.chars = {"a", "b"};
    g.postfixes = {"*"};
    auto v = pats(g, t ? 5 : 4, 'n'), w = pats(g, t ? 5 : 4, 'm');
    for (auto const& p : v) for (auto const& q : w) { if (x.stop()) return; if (x.mine() && !(small && (x.index / 8) % 16)) run({p, q}, true); }
    x.bounds.push_back("all ordered pairs of " + std::to_string(v.size()) + " patterns in one automaton");
    // every byte as a literal (the text of such a pattern is not always readable, that of its automaton is)
    for (int a = 1; a < 256; a++) for (char const* f : {"@", "a@", "(?<n0>@)", "@|b", "[a-c]@*"}) {
        if (x.stop()) return;
        if (!x.mine()) continue;
        std::string p;
        for (char const* c = f; *c; c++)
            if (*c != '@') p += *c;
            else { if (!isalnum(a) && a < 128 && a > 31) p += '\\'; p += (char)a; }
        if (!rs::parse("v:" + p).ok || !reader.read("v:" + p).ok) continue;  // P06's business
        run({p}, isalnum(a));
    }
    x.bounds.push_back("every byte as a literal in 5 patterns");
    std::vector<uint32_t> ends{0, 1, 31, 32, 65, 96, 97, 98, 126, 127, 128, 129, 159, 192, 200, 254, 255};
    for (uint32_t a = 0; a < 256; a++) for (uint32_t b = a; b < 256; b++) {
        auto is = [&](uint32_t c) { return std::count(ends.begin(), ends.end(), c) > 0; };
        if (a != b && !(is(a) && is(b))) continue;
        for (int shape = 0; shape < 6; shape++) {
            if (x.stop()) return;
            if (!x.mine() || (small && a != b)) continue;
            auto mk = [&] { return Case{{"from", std::to_string(a)}, {"to", std::to_string(b)}, {"shape", std::to_string(shape)}}; };
            x.describe = mk;
            Cmp cmp;
            std::string m = check_nodes(a, b, shape, cmp);
            x.evaluations++;
            x.traces++;
            x.states += cmp.states;
            if (a > 127) x.nontrivial++;
            if (!m.empty()) x.fail(mk(), m);
        }
    }
    x.bounds.push_back("every byte, and ranges of bytes between 17 borders, in 6 patterns made of nodes");
}
VF_MAIN((vf::Check{"P23", explore, run_case}))
