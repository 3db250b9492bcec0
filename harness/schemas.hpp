// The schemas used by the log-parsing explorers: each as schema text plus its reference meaning.
#pragma once
#include <string>
#include <vector>

#include "ref.hpp"
namespace schemas {
struct S {
    std::string id, text;
    ref::Schema ref;
    std::string alphabet;  // input alphabet that exercises it
};
inline ref::Set set(std::string const& s) { ref::Set r; for (unsigned char c : s) r.set(c); return r; }
inline std::vector<S> make(ref::Pool& p) {
    auto ch = [&](std::string const& s) { return p.chars(set(s)); };
    auto str = [&](std::string const& s) {
        ref::Re r = p.eps();
        for (size_t i = s.size(); i-- > 0;) r = p.cat(p.lit((unsigned char)s[i]), r);
        return r;
    };
    auto cat = [&](std::vector<ref::Re> v) {
        ref::Re r = p.eps();
        for (size_t i = v.size(); i-- > 0;) r = p.cat(v[i], r);
        return r;
    };
    auto star = [&](ref::Re r) { return p.rep(r, 0, -1); };
    auto plus = [&](ref::Re r) { return p.rep(r, 1, -1); };
    auto digits = [&] { return ch("0123456789"); };
    auto any_but = [&](std::string const& s) { return p.chars(~set(s)); };
    std::vector<S> v;
    auto add = [&](std::string id, std::string text, std::string delims, std::vector<ref::Rule> rules,
                   std::string alphabet) {
        S s;
        s.id = id; s.text = text; s.ref.delims = set(delims); s.ref.rules = rules; s.alphabet = alphabet;
        v.push_back(s);
    };
    // no timestamp: newline-delimited; int beats the general rule in order
    auto nd = any_but(" \n,\xfd");
    add("plain", "delimiters: \\n,\nint:[0-9]+\nw:a[ab]*b\nhasNumber:.*\\d.*\n", " \n,",
        {{"int", plus(digits())},
         {"w", cat({p.lit('a'), star(ch("ab")), p.lit('b')})},
         {"hasNumber", cat({star(nd), digits(), star(nd)})}},
        "ab1 \n");
    // timestamps that span a delimiter; multi-line events
    add("ts", "delimiters: \\n\ntimestamp:\\d:\\d \\d\nint:[0-9]+\nw:ab\n", " \n",
        {{"timestamp", cat({digits(), p.lit(':'), digits(), p.lit(' '), digits()})},
         {"int", plus(digits())},
         {"w", str("ab")}},
        "1:a \n");
    // a one-character timestamp: boundaries are dense in small inputs
    add("ts1", "delimiters: \\n\ntimestamp:T\nw:ab{0,1}\n", " \n",
        {{"timestamp", p.lit('T')}, {"w", cat({p.lit('a'), p.rep(p.lit('b'), 0, 1)})}},
        "Tab \n");
    // several timestamp rules, one a prefix of the other and one starting with a delimiter; a
    // variable rule that overlaps with them
    add("ts2", "timestamp:T U\ntimestamp:T\ntimestamp: U\ndelimiters: \\n;\nv:[TU]+\nu:U\n", " \n;",
        {{"timestamp", str("T U")}, {"timestamp", p.lit('T')}, {"timestamp", str(" U")},
         {"v", plus(ch("TU"))}, {"u", p.lit('U')}},
        "TUx \n");
    // a token with many types; a name used by several rules
    add("multi", "a:x+\nb:[xy]+\na:z\nc:.*y\ndelimiters:;\\n\nd:(x|z)|y\n", ";\n",
        {{"a", plus(p.lit('x'))}, {"b", plus(ch("xy"))}, {"a", p.lit('z')},
         {"c", cat({star(any_but(";\n\xfd")), p.lit('y')})}, {"d", ch("xyz")}},
        "xyz;\n");
    // bytes above 127 and a carriage return; repetition counts
    add("bytes", "delimiters:\\r\\n \ne:\\-{0,1}[0-9]{2,3}\nn:[^a\\r\\n ]+\nr:(ab){2}\n", "\r\n ",
        {{"e", cat({p.rep(p.lit('-'), 0, 1), p.rep(digits(), 2, 3)})},
         {"n", plus(any_but("a\r\n \xfd"))},
         {"r", p.rep(str("ab"), 2, 2)}},
        std::string("-2ab\xe9\r\n"));
    // no variable rules at all
    add("none", "delimiters: \\t\\n\ntimestamp:T\n", " \t\n", {{"timestamp", p.lit('T')}}, "Ta\t \n");
    add("bare", "delimiters: \\n\n", " \n", {}, "a \n");
    return v;
}
}  // namespace schemas
