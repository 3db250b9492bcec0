// Reference model of the schema language: a predictive parser written from the grammar, which gives the
// variables, patterns, delimiters and lines of a text, or the line of the first mistake.
#pragma once
#include <memory>
#include <string>
#include <vector>

#include "ref.hpp"

namespace rs {
struct Node;
using P = std::shared_ptr<Node>;
struct Node {
    enum K { Chars, Cat, Or, Rep, Cap } k;
    ref::Set set;
    P a, b;
    int min{0}, max{0};  // Rep; max < 0: unbounded
    std::string name;    // Cap
    bool any{false};     // Chars: it is '.'
};
struct Var {
    std::string name;
    P re;
    unsigned line;  // from 0
    std::string text;  // of the pattern
};
struct Result {
    bool ok{false};
    bool semantic{false};     // !ok: follows the grammar, but means nothing (rejected without a line)
    bool unspecified{false};  // neither acceptance nor rejection is claimed
    unsigned line{0};         // !ok: the line of the first mistake, from 0
    size_t pos{0};            // !ok: where in the text
    std::vector<Var> vars;
    std::vector<std::string> delims;  // every delimiters rule
};
inline bool alnum(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool plain_literal(int c) {
    static std::string const o = " !\"#$%&',/:;=@_`~";
    return alnum(c) || (c > 0 && o.find((char)c) != std::string::npos);
}
inline bool special(int c) {
    static std::string const o = "()*+-.[]\\^{}|<>?";
    return c > 0 && o.find((char)c) != std::string::npos;
}
class Parser {
    static constexpr int cEnd = -1, cWord = 256;  // cWord: the word "delimiters"
    struct Err {};
    struct Tok { int c; unsigned line; size_t pos; };
    std::vector<Tok> m_t;
    size_t m_i{0};
    std::string m_in;
    Result m_r;

    int cur() const { return m_t[m_i].c; }
    [[noreturn]] void err() { throw Err{}; }
    void expect(int c) { if (cur() != c) err(); m_i++; }
    bool at_eol() const { return cur() == '\n' || cur() == '\r' || cur() == cEnd; }
    static P chars(ref::Set const& s) { auto n = std::make_shared<Node>(); n->k = Node::Chars; n->set = s; return n; }
    static P one(int c) { ref::Set s; s.set((size_t)c); return chars(s); }
    static P digit() { ref::Set s; for (int c = '0'; c <= '9'; c++) s.set((size_t)c); return chars(s); }
    static P white() { ref::Set s; for (char c : std::string(" \t\r\n\v\f")) s.set((unsigned char)c); return chars(s); }
    // After a backslash: a class (if allowed) or an escaped character.
    P escaped(bool classes, bool& is_class) {
        int c = cur();
        is_class = false;
        P r;
        if (classes && c == 'd') { r = digit(); is_class = true; }
        else if (classes && c == 's') { r = white(); is_class = true; }
        else if (c == 't') r = one('\t');
        else if (c == 'n') r = one('\n');
        else if (c == 'v') r = one('\v');
        else if (c == 'f') r = one('\f');
        else if (c == 'r') r = one('\r');
        else if (special(c)) r = one(c);
        else err();
        m_i++;
        return r;
    }
    P paren() {  // after '('
        P r;
        if (cur() == '?') {
            m_i++;
            expect('<');
            auto n = std::make_shared<Node>();
            n->k = Node::Cap;
            if (!alnum(cur())) err();
            while (alnum(cur())) { n->name += (char)cur(); m_i++; }
            if (cur() == cWord) m_r.unspecified = true;
            expect('>');
            n->a = regex();
            r = n;
        } else r = regex();
        expect(')');
        return r;
    }
    P literal(bool classes, bool& is_class, bool in_set = false) {
        is_class = false;
        int c = cur();
        if (c == '\\') { m_i++; return escaped(classes, is_class); }
        if (c == '(') { if (in_set) m_r.unspecified = true; m_i++; return paren(); }
        if (c == cWord) m_r.unspecified = true;
        if (!plain_literal(c)) err();
        m_i++;
        return one(c);
    }
    static int the_char(P const& p) {
        if (p->k != Node::Chars || p->set.count() != 1) return -1;
        for (int i = 0; i < 256; i++) if (p->set.test((size_t)i)) return i;
        return -1;
    }
    P group() {  // after '['
        bool neg = false, cls;
        ref::Set s;
        if (cur() == '^') {
            neg = true;
            m_i++;
            if (cur() == ']') m_r.unspecified = true;  // [^]
        } else if (cur() == ']') err();
        while (cur() != ']') {
            P a = literal(true, cls, true);
            if (cls) { s |= a->set; continue; }
            int lo = the_char(a);
            if (cur() == '-') {
                m_i++;
                P b = literal(false, cls, true);
                int hi = the_char(b);
                if (lo >= 0 && hi >= 0 && hi < lo) m_r.semantic = true;
                for (int c = lo; c <= hi; c++) if (c >= 0) s.set((size_t)c);
            } else if (lo >= 0) s.set((size_t)lo);
        }
        m_i++;
        return chars(neg ? ~s : s);
    }
    int integer() {
        if (!(cur() >= '0' && cur() <= '9')) err();
        int n = 0;
        while (cur() >= '0' && cur() <= '9') { n = std::min(n * 10 + (cur() - '0'), 100000); m_i++; }
        return n;
    }
    static P rep(P a, int min, int max) {
        auto n = std::make_shared<Node>();
        n->k = Node::Rep; n->a = a; n->min = min; n->max = max;
        return n;
    }
    P element() {
        P r;
        bool cls;
        if (cur() == '[') { m_i++; r = group(); }
        else if (cur() == '.') { m_i++; r = chars(~ref::Set{}); r->any = true; }
        else r = literal(true, cls);
        if (cur() == '*') { m_i++; return rep(r, 0, -1); }
        if (cur() == '+') { m_i++; return rep(r, 1, -1); }
        if (cur() == '{') {
            m_i++;
            int lo = integer(), hi = lo;
            if (cur() == ',') { m_i++; hi = integer(); }
            expect('}');
            if (hi < lo) m_r.unspecified = true;
            if (hi > 40) m_r.unspecified = true;
            return rep(r, lo, hi);
        }
        return r;
    }
    P alternatives() {
        P r = element();
        while (cur() == '|') {
            m_i++;
            bool cls;
            auto n = std::make_shared<Node>();
            n->k = Node::Or; n->a = r; n->b = literal(false, cls);
            r = n;
        }
        return r;
    }
    P regex() {
        P r = alternatives();
        while (!at_eol() && cur() != ')') {
            auto n = std::make_shared<Node>();
            n->k = Node::Cat; n->a = r; n->b = alternatives();
            r = n;
        }
        return r;
    }
    void item() {
        if (cur() == '/') {
            m_i++;
            expect('/');
            if (at_eol()) err();
            while (!at_eol()) m_i++;
        } else if (cur() == cWord) {
            m_i++;
            if (alnum(cur()) || cur() == cWord) m_r.unspecified = true;
            expect(':');
            std::string d;
            do {
                bool cls;
                if (cur() == '(') m_r.unspecified = true;
                P p = literal(false, cls, true);
                d += (char)the_char(p);
            } while (!at_eol());
            m_r.delims.push_back(d);
        } else {
            while (cur() == ' ') m_i++;
            if (cur() == cWord) m_r.unspecified = true;
            if (!alnum(cur())) err();
            Var v;
            while (alnum(cur())) { v.name += (char)cur(); m_i++; }
            if (cur() == cWord) m_r.unspecified = true;
            v.line = m_t[m_i].line;
            expect(':');
            size_t from = m_t[m_i].pos;
            v.re = regex();
            if (cur() == ')') err();
            v.text = m_in.substr(from, m_t[m_i].pos - from);
            m_r.vars.push_back(v);
        }
    }

public:
    Result parse(std::string const& in) {
        m_in = in;
        unsigned line = 0;
        for (size_t i = 0; i < in.size();) {
            if (in.compare(i, 10, "delimiters") == 0) { m_t.push_back({cWord, line, i}); i += 10; continue; }
            m_t.push_back({(unsigned char)in[i], line, i});
            if (in[i] == '\n') line++;
            i++;
        }
        m_t.push_back({cEnd, line, in.size()});
        try {
            item();
            while (cur() != cEnd) {
                if (cur() == '\r') m_i++;
                expect('\n');
                if (!at_eol()) item();
            }
            m_r.ok = true;
        } catch (Err const&) {
            m_r.line = m_t[m_i].line;
            m_r.pos = m_t[m_i].pos;
        }
        // whether the word occurs inside a name or pattern does not matter where the text is wrong before it
        if (m_r.ok && m_r.semantic) m_r.ok = false;
        else if (!m_r.ok && m_r.semantic) m_r.unspecified = true;  // which of the two is reported is not claimed
        return m_r;
    }
};
inline Result parse(std::string const& in) { return Parser{}.parse(in); }

// The regular expression of a pattern.  If `delims` is given, '.' does not match those.
inline ref::Re to_re(ref::Pool& p, P const& n, ref::Set const* delims = nullptr) {
    switch (n->k) {
        case Node::Chars: return p.chars(n->any && delims ? n->set & ~*delims : n->set);
        case Node::Cat: return p.cat(to_re(p, n->a, delims), to_re(p, n->b, delims));
        case Node::Or: return p.alt(to_re(p, n->a, delims), to_re(p, n->b, delims));
        case Node::Rep: return p.rep(to_re(p, n->a, delims), n->min, n->max);
        case Node::Cap: return to_re(p, n->a, delims);
    }
    return nullptr;
}
inline size_t captures(P const& n) {
    if (!n) return 0;
    return (n->k == Node::Cap ? 1 : 0) + captures(n->a) + captures(n->b);
}
}  // namespace rs
