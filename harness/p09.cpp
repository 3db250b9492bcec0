// P09: a deep copy of an event equals it, and keeps doing so whatever happens to the parser.
#include "snap.hpp"
using namespace sn;

struct Copies {
    std::vector<LogEvent> held;   // moved around as it grows
    std::vector<Snap> at;         // what was copied
    std::string m;
    void take(LogEventView const& v) {
        Snap before = snap(v);
        if (before.str.empty() || held.size() > 12) return;
        held.push_back(v.deep_copy());
        at.push_back(before);
        Snap after = snap(v);
        if (!(after == before)) m = "copying changed the event from " + before.show() + " to " + after.show();
        verify("right after copying");
    }
    void verify(char const* when, size_t from = 0) {
        for (size_t i = from; i < held.size() && m.empty(); i++) {
            Snap s = snap(held[i]);
            if (!(s == at[i])) m = std::string(when) + ", the copy of event " + std::to_string(i) + " is " + s.show() + " instead of " + at[i].show();
        }
    }
    void copy_copies() {
        size_t n = held.size();
        for (size_t i = 0; i < n && m.empty(); i++) {
            LogEvent c = held[i].deep_copy();
            Snap s = snap(c);
            if (!(s == at[i])) m = "a copy of the copy of event " + std::to_string(i) + " is " + s.show() + " instead of " + at[i].show();
            LogEvent moved{std::move(c)};
            s = snap(moved);
            if (m.empty() && !(s == at[i])) m = "after moving it, a copy of event " + std::to_string(i) + " is " + s.show() + " instead of " + at[i].show();
        }
    }
};
static std::string one(Env& e, std::string const& in, std::string const& other, int api, Ctx* x) {
    Copies c;
    size_t guard = 0;
    if (api) {
        std::string data = in;
        size_t off = 0;
        e.bp->reset();
        while (!e.bp->done() && c.m.empty()) {
            if (e.bp->parse_next_event(data.data(), data.size(), off, true) != ErrorCode::Success) break;
            c.take(e.bp->get_log_parser().get_log_event_view());
            if (guard++ > in.size() + 3) break;
        }
        for (auto& ch : data) ch = '#';
        c.verify("after the buffer was overwritten");
        e.bp->reset();
        c.verify("after a reset");
        std::string d2 = other;
        off = 0;
        while (!e.bp->done() && c.m.empty()) {
            if (e.bp->parse_next_event(d2.data(), d2.size(), off, true) != ErrorCode::Success) break;
        }
    } else {
        Source src{in, {}};
        Reader rd = src.reader();
        e.rp->reset_and_set_reader(rd);
        while (!e.rp->done() && c.m.empty()) {
            if (e.rp->parse_next_event() != ErrorCode::Success) break;
            c.take(e.rp->get_log_parser().get_log_event_view());
            if (guard++ > in.size() + 3) break;
        }
        Source s2{other, {}};
        Reader r2 = s2.reader();
        e.rp->reset_and_set_reader(r2);
        c.verify("after a reset");
        while (!e.rp->done() && c.m.empty()) if (e.rp->parse_next_event() != ErrorCode::Success) break;
    }
    c.verify("after other input was parsed");
    c.copy_copies();
    if (x) { x->transitions += c.held.size(); if (c.held.size() > 1) x->nontrivial++; x->extra["copies"] += c.held.size(); }
    return c.m;
}
static std::string run_case(Case const& c) {
    ref::Pool pool;
    cStaticByteBuffSize = (uint32_t)atoi(c.at("bufsize").c_str());
    Env e = make_env(pool, c.at("schema"), true, true);
    return one(e, c.at("input"), c.at("other"), c.at("api") == "buffer", nullptr);
}
static void explore(Ctx& x) {
    ref::Pool pool;
    bool small = x.opt == "small";
    for (auto& e : make_envs(pool, true, true)) {
        std::string in, other;
        uint32_t sz = 4;
        int api = 0;
        x.describe = [&] { return Case{{"schema", e.s.id}, {"input", in}, {"other", other}, {"api", api ? "buffer" : "reader"}, {"bufsize", std::to_string(sz)}}; };
        // later input: every character of the alphabet, in both directions
        for (int r = 0; r < 3; r++) for (size_t i = 0; i < e.s.alphabet.size(); i++) other += r == 1 ? e.s.alphabet[e.s.alphabet.size() - 1 - i] : e.s.alphabet[i];
        size_t K = e.s.alphabet.size(), L = max_len(K, small ? 6000 : x.thorough ? 2000000 : 150000);
        x.bounds.push_back(e.s.id + ": every event of all inputs over " + std::to_string(K) + " characters up to length " + std::to_string(L) + ", both interfaces, input and token buffers of 4, 6 and 1024 entries");
        words(x, e.s.alphabet, 1, L, [&](std::string const& w) {
            in = w;
            x.states++;
            for (uint32_t b : {4u, 6u, cStaticByteBuffCapacity}) for (api = 0; api < 2; api++) {
                if (api && b == 6) continue;
                sz = b;
                cStaticByteBuffSize = b;
                std::string m = one(e, in, other, api, &x);
                x.evaluations++;
                x.traces++;
                if (!m.empty()) x.fail(x.describe(), m);
            }
            if (x.index % 997 == 0) x.sample(e.s.id + ": '" + in + "', all events copied");
        });
        // long tokens and events of many tokens
        std::vector<std::string> tails{"", "\n", " \n "};
        size_t longest = small ? 300 : x.thorough ? 2600 : 1100;
        x.bounds.push_back(e.s.id + ": every character, and every two characters, repeated to every length up to " + std::to_string(longest) + " (two: steps of 37)");
        words(x, e.s.alphabet, 1, small ? 1 : 2, [&](std::string const& w) {
            sz = cStaticByteBuffCapacity;
            cStaticByteBuffSize = sz;
            for (size_t n = 3; n <= longest; n += w.size() == 1 ? small ? 71 : 1 : 37) {
                auto const& t = tails[n % tails.size()];
                if (x.stop()) return;
                alarm(120);
                std::string rep;
                while (rep.size() < n) rep += w;
                rep.resize(n);
                in = "\n" + rep + t + rep;
                x.states++;
                for (api = 0; api < 2; api++) {
                    std::string m = one(e, in, other, api, &x);
                    x.evaluations++;
                    x.traces++;
                    if (!m.empty()) x.fail(x.describe(), m);
                }
            }
        });
    }
}
VF_MAIN((vf::Check{"P09", explore, run_case}))
