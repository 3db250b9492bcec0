// P01 (losslessness), P03 (event boundaries), P04 (token typing): every input up to a length, against
// the reference tokenizer, through both parsing interfaces.
#pragma once
#include "schema_menu.hpp"
namespace lp {
using namespace lx;
struct P01 {
    static std::string check(ref::Pool&, Env const&, std::string const& in, Run const& r) {
        std::string all, toks;
        for (auto const& e : r.events) {
            all += e.str;
            std::string t = e.text();
            if (t != e.str) return "to_string of an event is '" + e.str + "', its tokens are '" + t + "'";
            toks += t;
        }
        if (all != in) return "the events add up to '" + all + "'";
        return "";
    }
    static constexpr bool any_bytes = true;
};
struct P03 {
    static std::string check(ref::Pool& p, Env const& e, std::string const& in, Run const& r) {
        auto want = ref::segment(ref::tokenize(p, e.s.ref, in));
        // an empty last event is not observable as an event
        std::vector<std::string> a, b;
        for (auto const& x : r.events) a.push_back((x.has_ts ? "T" : "-") + x.str);
        for (auto const& x : want) b.push_back((x.has_ts ? "T" : "-") + x.text());
        while (!a.empty() && a.back() == "-") a.pop_back();
        while (!b.empty() && b.back() == "-") b.pop_back();
        if (a == b) return "";
        std::string o = "events:";
        for (auto const& x : a) o += " [" + x + "]";
        o += " expected:";
        for (auto const& x : b) o += " [" + x + "]";
        return o;
    }
    static constexpr bool any_bytes = false;
};
struct P04 {
    static std::string check(ref::Pool& p, Env const& e, std::string const& in, Run const& r) {
        auto want = ref::segment(ref::tokenize(p, e.s.ref, in));
        // only the tokens: where events end is another property
        auto flat = [](auto const& evs) {
            ref::Event o;
            for (auto const& x : evs) for (auto const& t : x.toks) o.toks.push_back(t);
            return canon(o);
        };
        auto a = flat(r.events), b = flat(want);
        if (a.toks == b.toks) return "";
        return "tokens: " + show(a) + " expected: " + show(b);
    }
    static constexpr bool any_bytes = false;
};
template <class P>
std::string run_case(Case const& c) {
    ref::Pool pool;
    cStaticByteBuffSize = c.count("bufsize") ? (uint32_t)atoi(c.at("bufsize").c_str()) : cStaticByteBuffCapacity;
    Env e = sm::env_of(pool, c.at("schema"), true, true);
    std::string in = c.at("input");
    if (c.count("repeat")) {
        size_t n = (size_t)atoi(c.at("repeat").c_str());
        std::string w = in;
        in.clear();
        while (in.size() < n) in += w;
        in.resize(n);
        in += c.at("end");
    }
    if (c.count("before")) {
        if (c.at("api") == "reader") { Source s{c.at("before"), {}}; run_reader(*e.rp, s); }
        else run_buffer(*e.bp, c.at("before"));
    }
    Run r;
    if (c.at("api") == "reader") { Source s{in, {}}; r = run_reader(*e.rp, s); }
    else r = run_buffer(*e.bp, in);
    std::string m = run_status(r);
    return m.empty() ? P::check(pool, e, in, r) : m;
}
// Many schemas, each with all short inputs.
template <class P>
void explore_schemas(Ctx& x) {
    cStaticByteBuffSize = cStaticByteBuffCapacity;
    size_t L = x.thorough ? 7 : x.property == "P04" ? 5 : 4;
    std::string text, input;
    int api = 0;
    x.describe = [&] { return Case{{"schema", text}, {"input", input}, {"api", api == 1 ? "buffer" : "reader"}, {"bufsize", std::to_string(cStaticByteBuffSize)}}; };
    de::Reused<> schema_reader;
    sm::menu(x, 2, [&](std::string const& t, std::string const& alphabet) {
        text = t;
        input.clear();
        ref::Pool pool;
        Env e = sm::env_of_text(pool, text, &schema_reader);
        x.states++;
        sm::inputs(alphabet, L, [&](std::string const& in) {
            input = in;
            for (api = 0; api < 3; api++) {
                Run r;
                cStaticByteBuffSize = api == 2 ? 4 : cStaticByteBuffCapacity;
                if (api == 1) r = run_buffer(*e.bp, in);
                else { Source s{in, {}}; r = run_reader(*e.rp, s); }
                std::string m = run_status(r);
                if (m.empty()) m = P::check(pool, e, in, r);
                x.evaluations++;
                x.traces++;
                x.transitions += r.events.size();
                if (r.events.size() > 1) x.nontrivial++;
                if (!m.empty()) { x.fail(x.describe(), m); return false; }
                if (r.events.size() > 2 && x.traces % 49999 == 7) x.sample("'" + text + "' with '" + in + "' -> " + show_all(r.events));
            }
            return true;
        });
        cStaticByteBuffSize = cStaticByteBuffCapacity;
    });
    x.bounds.push_back("each with all inputs over 4 characters up to length " + std::to_string(L) + ", through streams (two buffer sizes) and buffers");
}
template <class P>
void explore(Ctx& x) {
    if (x.opt == "schemas") return explore_schemas<P>(x);
    ref::Pool pool;
    cStaticByteBuffSize = cStaticByteBuffCapacity;
    auto envs = make_envs(pool, true, true);
    std::set<std::string> outcomes;
    for (auto& e : envs) {
        size_t K = e.s.alphabet.size();
        // lengths so that every schema gets about the same number of inputs
        uint64_t target = x.opt == "small" ? (x.thorough ? 1500000 : 150000) : (x.thorough ? 60000000 : 5000000);
        size_t maxlen = 0;
        for (uint64_t t = 1; t * K <= target; t *= K) maxlen++;
        x.bounds.push_back(e.s.id + ": all inputs over " + std::to_string(K) + " characters up to length " + std::to_string(maxlen));
        auto run = [&](std::string const& in, std::string const* word, std::string const* rep, char const* end) {
            for (int api = 0; api < 2; api++) {
                auto mk = [&] {
                    Case c{{"schema", e.s.id}, {"input", word ? *word : in}, {"api", api ? "buffer" : "reader"}, {"bufsize", std::to_string(cStaticByteBuffSize)}};
                    if (word) { c["repeat"] = *rep; c["end"] = end; }
                    return c;
                };
                x.describe = mk;
                Run r;
                if (api) r = run_buffer(*e.bp, in);
                else { Source s{in, {}}; r = run_reader(*e.rp, s); }
                std::string m = run_status(r);
                if (m.empty()) m = P::check(pool, e, in, r);
                x.evaluations++;
                x.traces++;
                x.transitions += r.events.size();
                if (r.events.size() > 1) x.nontrivial++;
                if (!m.empty()) x.fail(mk(), m);
                if (x.samples.size() < 6 && in.size() > 4 && r.events.size() > 2 && x.index % 977 == 0)
                    x.sample(e.s.id + ": '" + in + "' -> " + show_all(r.events));
            }
            x.states++;
        };
        auto one = [&](std::string const& in) { run(in, nullptr, nullptr, ""); };
        words(x, e.s.alphabet, 0, maxlen, one);
        // input and token buffers that wrap and grow
        size_t short_len = maxlen > 2 ? maxlen - 2 : maxlen;
        x.bounds.push_back(e.s.id + ": the same up to length " + std::to_string(short_len) + " with input and token buffers of 4 and 6 entries");
        for (uint32_t sz : {4u, 6u}) {
            cStaticByteBuffSize = sz;
            words(x, e.s.alphabet, 1, short_len, one);
        }
        cStaticByteBuffSize = cStaticByteBuffCapacity;
        // inputs larger than the buffers: every word, repeated
        size_t wl = K * K * K <= (x.thorough ? 2000u : 700u) ? 3 : 2;
        if (x.opt == "small") wl = x.thorough ? 2 : 1;
        x.bounds.push_back(e.s.id + ": every word of up to " + std::to_string(wl) + " characters repeated to lengths around the capacity of the buffers, its double, and their halves");
        size_t C = cStaticByteBuffCapacity;
        if (P::any_bytes) words(x, e.s.alphabet, 1, wl, [&](std::string const& w) {
            for (size_t n : {C / 2 - 1, C - 1, C, C + 1, 2 * C + 1, 2 * C + C / 2}) for (char const* end : {"", "\n", " \n a"}) {
                std::string in;
                while (in.size() < n) in += w;
                in.resize(n);
                std::string rep = std::to_string(n);
                run(in + end, &w, &rep, end);
            }
        });
        {
            // every byte value, in every position among all short contexts
            x.bounds.push_back(e.s.id + ": every byte value with two delimiters and a character of the alphabet, in every order, short");
            std::string ctx = e.s.alphabet.substr(0, 1) + " \n";
            for (int c = 0; c < 256 && !x.stop(); c++) {
                if (!P::any_bytes && c == 0xFD) continue;  // not a possible character of a log
                std::string a = ctx + (char)c;
                words(x, a, 1, x.thorough ? 5 : 3, one);
            }
        }
    }
}
}  // namespace lp
