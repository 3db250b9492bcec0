// Reference model: regular expressions (by derivatives), tokenisation and event segmentation, written
// from docs/schema.md and the API comments, independently of the implementation's automata.
#pragma once
#include <bitset>
#include <cstdint>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>

namespace ref {
using Set = std::bitset<256>;
struct Node;
using Re = Node const*;
// Hash-consed regular expressions.
struct Node {
    enum K { None, Eps, Chars, Cat, Or, Rep } k;
    Set set;
    Re a{nullptr}, b{nullptr};
    int min{0}, max{0};  // Rep; max < 0: unbounded
    bool nullable{false};
    int id{0};
};
class Pool {
    std::map<std::tuple<int, std::string, int, int, int, int>, std::unique_ptr<Node>> m_nodes;
    Re intern(Node n) {
        std::string s = n.k == Node::Chars ? n.set.to_string() : "";
        auto key = std::make_tuple((int)n.k, s, n.a ? n.a->id : -1, n.b ? n.b->id : -1, n.min, n.max);
        auto it = m_nodes.find(key);
        if (it != m_nodes.end()) return it->second.get();
        n.id = (int)m_nodes.size();
        auto p = std::make_unique<Node>(n);
        Re r = p.get();
        m_nodes.emplace(key, std::move(p));
        return r;
    }

public:
    Re none() { Node n{}; n.k = Node::None; return intern(n); }
    Re eps() { Node n{}; n.k = Node::Eps; n.nullable = true; return intern(n); }
    Re chars(Set const& s) {
        if (s.none()) return none();
        Node n{}; n.k = Node::Chars; n.set = s; return intern(n);
    }
    Re lit(unsigned char c) { Set s; s.set(c); return chars(s); }
    Re cat(Re a, Re b) {
        if (a->k == Node::None || b->k == Node::None) return none();
        if (a->k == Node::Eps) return b;
        if (b->k == Node::Eps) return a;
        if (a->k == Node::Cat) return cat(a->a, cat(a->b, b));
        Node n{}; n.k = Node::Cat; n.a = a; n.b = b; n.nullable = a->nullable && b->nullable;
        return intern(n);
    }
    // Or is kept as a right-leaning, sorted, duplicate-free list (so derivatives are finitely many).
    void flatten(Re r, std::map<int, Re>& out) {
        if (r->k == Node::None) return;
        if (r->k == Node::Or) { flatten(r->a, out); flatten(r->b, out); }
        else out[r->id] = r;
    }
    Re alt(Re a, Re b) {
        std::map<int, Re> m;
        flatten(a, m); flatten(b, m);
        if (m.empty()) return none();
        Re r = nullptr;
        for (auto it = m.rbegin(); it != m.rend(); ++it) {
            if (!r) { r = it->second; continue; }
            Node n{}; n.k = Node::Or; n.a = it->second; n.b = r; n.nullable = n.a->nullable || r->nullable;
            r = intern(n);
        }
        return r;
    }
    Re rep(Re a, int min, int max) {
        if (max == 0) return eps();
        if (a->k == Node::None) return min == 0 ? eps() : none();
        if (a->k == Node::Eps) return eps();
        if (min == 1 && max == 1) return a;
        Node n{}; n.k = Node::Rep; n.a = a; n.min = min; n.max = max; n.nullable = min == 0 || a->nullable;
        return intern(n);
    }
    std::map<std::pair<int, int>, Re> m_deriv;
    Re deriv(Re r, unsigned char c) {
        auto key = std::make_pair(r->id, (int)c);
        auto it = m_deriv.find(key);
        if (it != m_deriv.end()) return it->second;
        Re d = nullptr;
        switch (r->k) {
            case Node::None: case Node::Eps: d = none(); break;
            case Node::Chars: d = r->set.test(c) ? eps() : none(); break;
            case Node::Cat:
                d = cat(deriv(r->a, c), r->b);
                if (r->a->nullable) d = alt(d, deriv(r->b, c));
                break;
            case Node::Or: d = alt(deriv(r->a, c), deriv(r->b, c)); break;
            case Node::Rep:
                d = cat(deriv(r->a, c), rep(r->a, r->min > 0 ? r->min - 1 : 0, r->max < 0 ? -1 : r->max - 1));
                break;
        }
        m_deriv[key] = d;
        return d;
    }
    bool match(Re r, std::string const& s) {
        for (unsigned char c : s) { r = deriv(r, c); if (r->k == Node::None) return false; }
        return r->nullable;
    }
    size_t size() const { return m_nodes.size(); }
};

// ---- log model --------------------------------------------------------------------------------
struct Rule {
    std::string name;
    Re re;
};
struct Schema {
    Set delims;
    std::vector<Rule> rules;  // in schema order; name "timestamp" marks a timestamp rule
};
struct Tok {
    std::string text;
    std::vector<std::string> types;  // {"$UncaughtString"} for static text
    bool operator==(Tok const& o) const { return text == o.text && types == o.types; }
    bool operator<(Tok const& o) const { return std::tie(text, types) < std::tie(o.text, o.types); }
};
struct Event {
    bool has_ts{false};
    std::vector<Tok> toks;
    std::string text() const { std::string s; for (auto const& t : toks) s += t.text; return s; }
    bool operator==(Event const& o) const { return has_ts == o.has_ts && toks == o.toks; }
};
inline std::vector<std::string> const cStatic{"$UncaughtString"};

// Tokens of the whole input: every maximal run of non-delimiters together with the delimiter in front
// of it is a variable if some rules match the run; a timestamp may be matched at the start of the
// input and after a newline and may span delimiters; every newline is a token of its own unless it is
// the delimiter in front of a variable/timestamp; all the rest is static text.  A newline that is not a
// delimiter is a token of its own too, or the one in front of a timestamp (variables that contain one
// are not specified).
inline std::vector<Tok> tokenize(Pool& p, Schema const& s, std::string const& in) {
    std::vector<Tok> out;
    size_t n = in.size(), pos = 0;
    size_t text_from = 0;
    auto is_d = [&](size_t i) { return s.delims.test((unsigned char)in[i]); };
    auto end_ok = [&](size_t m) { return m == n || is_d(m); };
    auto add_types = [](std::vector<std::string>& v, std::string const& t) {
        for (auto const& x : v) if (x == t) return;
        v.push_back(t);
    };
    bool at_start = true;  // the (virtual) delimiter in front of the input
    while (at_start || pos < n) {
        size_t body;  // first character after the delimiter
        if (at_start) body = 0;
        else {
            if (!is_d(pos) && in[pos] != '\n') { pos++; continue; }
            body = pos + 1;
        }
        bool after_nl = !at_start && in[pos] == '\n';
        bool vars = at_start || is_d(pos);  // a variable follows a delimiter
        // the longest match
        size_t best = 0;
        bool found = false;
        std::vector<std::string> types;
        auto consider = [&](size_t m, std::string const& t) {
            if (!found || m > best) { best = m; types.clear(); found = true; }
            if (m == best) add_types(types, t);
        };
        if (after_nl) consider(body, "newLine");
        // per length, types in schema order: so iterate over lengths first
        std::vector<Re> cur;
        for (auto const& r : s.rules) cur.push_back(r.re);
        for (size_t m = body; m <= n; m++) {
            if (m > body) {
                bool alive = false;
                for (auto& c : cur) { c = p.deriv(c, (unsigned char)in[m - 1]); alive |= c->k != Node::None; }
                if (!alive) break;
            }
            if (!end_ok(m)) continue;
            bool in_run = true;
            for (size_t i = body; i < m; i++) if (is_d(i)) in_run = false;
            for (size_t r = 0; r < s.rules.size(); r++) {
                if (!cur[r]->nullable) continue;
                bool ts = s.rules[r].name == "timestamp";
                if (ts && !(at_start || after_nl)) continue;
                if (!ts && !(in_run && vars)) continue;
                consider(m, ts ? (at_start ? "firstTimestamp" : "newLineTimestamp") : s.rules[r].name);
            }
        }
        if (found && !(at_start && best == 0)) {
            if (pos > text_from) out.push_back({in.substr(text_from, pos - text_from), cStatic});
            out.push_back({in.substr(pos, best - pos), types});
            pos = best;
            text_from = best;
            at_start = false;
            continue;
        }
        if (at_start) at_start = false;  // try the character at 0 as an ordinary position
        else pos++;
    }
    if (n > text_from) out.push_back({in.substr(text_from), cStatic});
    return out;
}

// Splits the tokens into events.
inline std::vector<Event> segment(std::vector<Tok> const& toks) {
    std::vector<Event> out;
    Event cur;
    bool begun = false;
    auto flush = [&] { out.push_back(cur); cur = Event{}; begun = false; };
    for (auto const& t : toks) {
        std::string const& ty = t.types[0];
        if (begun && cur.has_ts) {
            if (ty == "newLineTimestamp") {
                cur.toks.push_back({"\n", cStatic});
                flush();
                cur.has_ts = true;
                cur.toks.push_back({t.text.substr(1), t.types});
                begun = true;
            } else cur.toks.push_back(t);
            continue;
        }
        // no timestamp so far
        if (!begun && ty == "firstTimestamp") {
            cur.has_ts = true;
            cur.toks.push_back(t);
            begun = true;
        } else if (ty == "newLine") {
            cur.toks.push_back(t);
            flush();
        } else if (t.text[0] == '\n') {  // a variable or timestamp right after a newline
            cur.toks.push_back({"\n", cStatic});
            flush();
            cur.has_ts = ty == "newLineTimestamp";
            cur.toks.push_back({t.text.substr(1), t.types});
            begun = true;
        } else {
            cur.toks.push_back(t);
            begun = true;
        }
    }
    flush();  // the last event ends with the input (and may be empty)
    return out;
}
}  // namespace ref
