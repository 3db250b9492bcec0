// P13: the views of an event agree with each other and with the reference.
#include "schema_menu.hpp"
#include "snap.hpp"
using namespace sn;

// The views derived from the tokens of the event itself.
static std::string check(LogEventView const& v, Env const& e) {
    auto const& ob = v.get_log_output_buffer();
    auto const& lp = v.get_log_parser();
    Snap s = snap(v);
    std::string text, logtype;
    std::vector<std::vector<Token*>> lists(lp.m_lexer.m_id_symbol.size());
    bool first = true, starts_ts = false, nl = false, after_nl = false;
    std::string ts;
    for (uint32_t i = first_token(v); i < ob->pos(); i++) {
        Token& t = ob->get_mutable_token(i);
        uint32_t id = t.m_type_ids_ptr->at(0);
        std::string name = lp.get_id_symbol(id), tt = t.to_string();
        bool is_ts = name == "firstTimestamp" || name == "newLineTimestamp";
        lists.at(id).push_back(&t);
        if (std::string(t.to_string_view()) != tt) return "to_string_view of a token differs from its text '" + tt + "'";
        if (t.get_length() != tt.size()) return "length of the token '" + tt + "' is " + std::to_string(t.get_length());
        for (size_t k = 0; k < tt.size() && k < 255; k++) if (t.get_char((uint8_t)k) != tt[k]) return "get_char(" + std::to_string(k) + ") of the token '" + tt + "' is wrong";
        if (!tt.empty() && t.get_delimiter() != tt.substr(0, 1)) return "get_delimiter of the token '" + tt + "' is '" + t.get_delimiter() + "'";
        if (first && is_ts) { starts_ts = true; ts = tt; }
        else if (name == "$UncaughtString") logtype += tt;
        else {
            if (name != "newLine" && !tt.empty() && e.s.ref.delims.test((unsigned char)tt[0])) logtype += tt[0];
            logtype += "<" + name + ">";
        }
        for (char c : tt) { if (nl) after_nl = true; if (c == '\n') nl = true; }
        text += tt;
        first = false;
    }
    if (text != s.str) return "the text is '" + s.str + "', that of the tokens is '" + text + "'";
    if (logtype != s.logtype) return "the logtype is '" + s.logtype + "', from the tokens it is '" + logtype + "'";
    if (after_nl != s.multiline) return std::string("the multi-line flag is ") + (s.multiline ? "set" : "not set") + " for '" + text + "'";
    Token* t = v.get_timestamp();
    if ((t != nullptr) != starts_ts) return std::string(t ? "a" : "no") + " timestamp is reported for '" + text + "'";
    if (t && t->to_string() != ts) return "the timestamp reported is '" + t->to_string() + "' instead of '" + ts + "'";
    for (size_t i = 0; i < lists.size(); i++) {
        if ((uint32_t)i == (uint32_t)SymbolId::TokenEnd) continue;
        if (v.get_variables(i) != lists[i]) {
            std::string o = "variables of type " + lp.get_id_symbol((uint32_t)i) + " in '" + text + "':";
            for (auto x : v.get_variables(i)) o += " '" + x->to_string() + "'";
            o += " instead of";
            for (auto x : lists[i]) o += " '" + x->to_string() + "'";
            return o;
        }
    }
    return "";
}
// The same views computed from the reference tokens, for the whole parse.
static std::string check_ref(ref::Pool& p, Env const& e, std::string const& in, std::vector<Snap> const& got) {
    auto want = ref::segment(ref::tokenize(p, e.s.ref, in));
    while (!want.empty() && want.back().toks.empty()) want.pop_back();
    size_t n = got.size();
    while (n && got[n - 1].toks.empty()) n--;
    if (n != want.size()) return "";  // another property
    for (size_t i = 0; i < n; i++) {
        auto const& w = want[i];
        auto const& g = got[i];
        std::string text = w.text(), lt;
        if (text != g.str) return "";
        bool same = true;
        // cutting of static text is not compared
        auto a = canon(w);
        ref::Event ge;
        ge.toks = g.toks;
        auto b = canon(ge);
        same = a.toks == b.toks;
        if (!same) return "";
        for (size_t k = w.has_ts ? 1 : 0; k < w.toks.size(); k++) {
            auto const& t = w.toks[k];
            if (t.types[0] == "$UncaughtString") lt += t.text;
            else {
                if (t.types[0] != "newLine" && e.s.ref.delims.test((unsigned char)t.text[0])) lt += t.text[0];
                lt += "<" + t.types[0] + ">";
            }
        }
        if (lt != g.logtype) return "the logtype of '" + text + "' is '" + g.logtype + "', expected '" + lt + "'";
        size_t q = text.find('\n');
        bool ml = q != std::string::npos && q + 1 < text.size();
        if (ml != g.multiline) return std::string("the multi-line flag is ") + (g.multiline ? "set" : "not set") + " for '" + text + "'";
        if (w.has_ts ? g.ts != w.toks[0].text : !g.ts.empty()) return "the timestamp reported for '" + text + "' is '" + g.ts + "'";
    }
    return "";
}
template <class P>
static std::string check_names(P& p, Env const& e) {
    auto const& lp = p.get_log_parser();
    size_t n = lp.m_lexer.m_id_symbol.size();
    std::set<std::string> names;
    for (uint32_t i = 0; i < n; i++) {
        std::string s = lp.get_id_symbol(i);
        if (!names.insert(s).second) return "two identifiers have the name '" + s + "'";
        auto id = lp.get_symbol_id(s);
        if (!id || *id != i) return "the identifier of the name of " + std::to_string(i) + " ('" + s + "') is " + (id ? std::to_string(*id) : "missing");
        auto id2 = p.get_variable_id(s);
        if (id2 != id) return "get_variable_id of '" + s + "' differs from get_symbol_id";
    }
    std::vector<std::string> must{"newLine"};
    for (auto const& r : e.s.ref.rules) {
        if (r.name == "timestamp") { must.push_back("firstTimestamp"); must.push_back("newLineTimestamp"); }
        else must.push_back(r.name);
    }
    for (auto const& s : must) if (!names.count(s)) return "the type '" + s + "' has no identifier";
    for (std::string s : {"", "nosuchtype", "timestamP", "newline", "$", "in", "intt"})
        if (!names.count(s) && (lp.get_symbol_id(s) || p.get_variable_id(s))) return "the unknown name '" + s + "' has an identifier";
    return "";
}
static std::string one(ref::Pool& pool, Env& e, std::string const& in, int api, std::vector<size_t> const& chunks, Ctx* x) {
    std::vector<Snap> got;
    std::string m;
    auto visit = [&](LogEventView const& v) {
        if (m.empty()) m = check(v, e);
        got.push_back(snap(v));
        if (x) { x->transitions++; if (got.back().multiline || got.back().toks.size() > 2) x->nontrivial++; }
        return m.empty() && got.size() < in.size() + 3;
    };
    if (api) {
        std::string data = in;
        size_t off = 0;
        e.bp->reset();
        while (!e.bp->done()) {
            if (e.bp->parse_next_event(data.data(), data.size(), off, true) != ErrorCode::Success) return "";
            if (!visit(e.bp->get_log_parser().get_log_event_view())) break;
        }
    } else {
        Source src{in, chunks};
        Reader rd = src.reader();
        e.rp->reset_and_set_reader(rd);
        while (!e.rp->done()) {
            if (e.rp->parse_next_event() != ErrorCode::Success) return "";
            if (!visit(e.rp->get_log_parser().get_log_event_view())) break;
        }
    }
    if (m.empty()) m = check_ref(pool, e, in, got);
    return m;
}
static std::string run_case(Case const& c) {
    ref::Pool pool;
    cStaticByteBuffSize = (uint32_t)atoi(c.at("bufsize").c_str());
    Env e = sm::env_of(pool, c.at("schema"), true, true);
    std::string m = check_names(*e.rp, e);
    if (m.empty()) m = check_names(*e.bp, e);
    return m.empty() ? one(pool, e, c.at("input"), c.at("api") == "buffer", {}, nullptr) : m;
}
static void explore(Ctx& x) {
    ref::Pool pool;
    bool small = x.opt == "small";
    if (x.opt == "schemas") {
        size_t L = x.thorough ? 6 : 4;
        std::string text, in;
        int api = 0;
        auto mk = [&] { return Case{{"schema", text}, {"input", in}, {"api", api ? "buffer" : "reader"}, {"bufsize", std::to_string(cStaticByteBuffSize)}}; };
        x.describe = mk;
        de::Reused<> schema_reader;
    sm::menu(x, 2, [&](std::string const& t, std::string const& alphabet) {
            text = t;
            ref::Pool pool;
            cStaticByteBuffSize = cStaticByteBuffCapacity;
            Env e = sm::env_of_text(pool, text, &schema_reader);
            x.states++;
            std::string m = check_names(*e.rp, e);
            if (m.empty()) m = check_names(*e.bp, e);
            if (!m.empty()) { x.fail(mk(), m); return; }
            sm::inputs(alphabet, L, [&](std::string const& w) {
                in = w;
                for (uint32_t b : {4u, cStaticByteBuffCapacity}) for (api = 0; api < 2; api++) {
                    cStaticByteBuffSize = b;
                    std::string m = one(pool, e, in, api, {}, &x);
                    x.evaluations++;
                    x.traces++;
                    if (!m.empty()) { x.fail(mk(), m); return false; }
                }
                return true;
            });
            cStaticByteBuffSize = cStaticByteBuffCapacity;
        });
        x.bounds.push_back("each with all inputs over 4 characters up to length " + std::to_string(L) + ", both interfaces, input buffers of 4 and 1024 bytes");
        return;
    }
    for (auto& e : make_envs(pool, true, true)) {
        std::string in;
        uint32_t sz = cStaticByteBuffCapacity;
        int api = 0;
        auto mk = [&] { return Case{{"schema", e.s.id}, {"input", in}, {"api", api ? "buffer" : "reader"}, {"bufsize", std::to_string(sz)}}; };
        x.describe = mk;
        if (x.mine()) {
            std::string m = check_names(*e.rp, e);
            if (m.empty()) m = check_names(*e.bp, e);
            if (!m.empty()) x.fail(mk(), m);
        }
        size_t K = e.s.alphabet.size(), L = max_len(K, small ? 60000 : x.thorough ? 12000000 : 1200000);
        x.bounds.push_back(e.s.id + ": all inputs over " + std::to_string(K) + " characters up to length " + std::to_string(L) + ", both interfaces, input buffers of 4, 8 and 1024 bytes");
        auto each = [&](std::string const& w) {
            in = w;
            x.states++;
            for (uint32_t b : {4u, 8u, cStaticByteBuffCapacity}) for (api = 0; api < 2; api++) {
                if (api && b == 8) continue;
                sz = b;
                cStaticByteBuffSize = b;
                std::string m = one(pool, e, in, api, {}, &x);
                x.evaluations++;
                x.traces++;
                if (!m.empty()) x.fail(mk(), m);
            }
            if (x.index % 997 == 0) x.sample(e.s.id + ": '" + in + "'");
        };
        words(x, e.s.alphabet, 0, L, each);
        if (small) continue;
        x.bounds.push_back(e.s.id + ": every byte value with two delimiters and a character of the alphabet, in every order, short");
        std::string ctx = e.s.alphabet.substr(0, 1) + " \n";
        for (int c = 0; c < 256 && !x.stop(); c++) if (c != 0xFD) words(x, ctx + (char)c, 1, x.thorough ? 5 : 4, each);
    }
}
VF_MAIN((vf::Check{"P13", explore, run_case}))
