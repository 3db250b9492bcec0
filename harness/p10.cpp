// P10: after a reset at any point of any parse, a parser behaves like a new one.
#include "dfa_eq.hpp"
#include "snap.hpp"
using namespace sn;

// How the parse before the reset is run.
struct Before {
    std::string in;
    size_t events{0};           // it is stopped after this many events
    std::vector<size_t> chunks; // stream: read sizes
    int err_at{-1};             // stream: this read fails
    size_t given{0};            // buffer: only this much of the input is given ...
    bool finished{false};       // ... and it is said to be everything
    size_t offset{0};
};
// Returns whether there are more events than b.events.
static bool run_before(Env& e, int api, Before const& b) {
    if (api) {
        std::string data = b.in.substr(0, b.given);
        size_t off = b.offset;
        e.bp->reset();
        for (size_t i = 0; i < b.events; i++) {
            if (e.bp->done()) return false;
            if (e.bp->parse_next_event(data.data(), data.size(), off, b.finished) != ErrorCode::Success) return false;
        }
        return !e.bp->done();
    }
    Source src{b.in, b.chunks};
    src.err_at_call = b.err_at;
    Reader rd = src.reader();
    e.rp->reset_and_set_reader(rd);
    for (size_t i = 0; i < b.events; i++) {
        if (e.rp->done()) return false;
        if (e.rp->parse_next_event() != ErrorCode::Success) return false;
    }
    return !e.rp->done();
}
static Full run_after(Env& e, int api, std::string const& in, std::vector<size_t> const& chunks, bool unused = false) {
    if (api) return full_buffer(*e.bp, in, 0, (size_t)-1, unused);
    Source src{in, chunks};
    return full_reader(*e.rp, src);
}
static std::string compare(Full const& got, Full const& want) {
    if (got == want) return "";
    return "after a reset: " + got.show() + " / new parser: " + want.show();
}
static std::string run_case(Case const& c) {
    ref::Pool pool;
    cStaticByteBuffSize = (uint32_t)atoi(c.at("bufsize").c_str());
    int api = c.at("api") == "buffer";
    Env fresh = make_env(pool, c.at("schema"), !api, api), e = make_env(pool, c.at("schema"), !api, api);
    Before b{c.at("before"), (size_t)atoi(c.at("events").c_str()), unlist(c.at("chunks")), atoi(c.at("err").c_str()),
             (size_t)atoi(c.at("given").c_str()), c.at("finished") == "1", (size_t)atoi(c.at("offset").c_str())};
    run_before(e, api, b);
    auto ch = unlist(c.at("after_chunks"));
    return compare(run_after(e, api, c.at("after"), ch), run_after(fresh, api, c.at("after"), ch, true));
}
static void explore(Ctx& x) {
    ref::Pool pool;
    bool small = x.opt == "small";
    de::Reused<> texts;
    for (auto const& s : schemas::make(pool)) {
        Env e = make_env(pool, s.id, true, true);
        size_t K = s.alphabet.size();
        // inputs after the reset: all of up to 2 characters, and some longer ones
        std::vector<std::string> after{""};
        for (size_t i = 0; i < K; i++) after.push_back(s.alphabet.substr(i, 1));
        if (!small) for (size_t i = 0; i < K; i++) for (size_t j = 0; j < K; j++) after.push_back({s.alphabet[i], s.alphabet[j]});
        std::string all = s.alphabet + "\n" + std::string(s.alphabet.rbegin(), s.alphabet.rend()) + "\n" + s.alphabet;
        after.push_back(all);
        after.push_back("\n" + all);
        after.push_back(all.substr(K / 2));
        std::vector<std::vector<size_t>> after_chunks(after.size());
        for (size_t i = 0; i < after.size(); i++) if (i % 2) after_chunks[i] = std::vector<size_t>(after[i].size(), 1);
        size_t L = max_len(K, small ? 300 : x.thorough ? 100000 : 8000);
        x.bounds.push_back(s.id + ": earlier inputs over " + std::to_string(K) + " characters up to length " + std::to_string(L)
                           + ", stopped after every number of events, with every failing read (stream) or every amount given (buffer), then each of "
                           + std::to_string(after.size()) + " inputs; buffers of 4, 6 and 1024 bytes");
        for (uint32_t sz : {4u, 6u, cStaticByteBuffCapacity}) {
            cStaticByteBuffSize = sz;
            // what new parsers give
            std::vector<Full> want[2];
            for (int api = 0; api < 2; api++) for (size_t i = 0; i < after.size(); i++) {
                Env f;
                if (api) f.bp = std::make_unique<BufferParser>(texts.read(s.text).ast);
                else f.rp = std::make_unique<ReaderParser>(texts.read(s.text).ast);
                want[api].push_back(run_after(f, api, after[i], after_chunks[i], true));
            }
            words(x, s.alphabet, 0, L, [&](std::string const& w) {
                x.states++;
                auto go = [&](int api, Before const& b, bool few) {
                    bool more = false;
                    for (size_t k = 0; k < after.size(); k += 1) {
                        if (few && k + 3 < after.size() && k % 3) continue;
                        auto mk = [&] {
                            return Case{{"schema", s.id}, {"bufsize", std::to_string(sz)}, {"api", api ? "buffer" : "reader"},
                                        {"before", b.in}, {"events", std::to_string(b.events)}, {"chunks", list(b.chunks)},
                                        {"err", std::to_string(b.err_at)}, {"given", std::to_string(b.given)},
                                        {"finished", b.finished ? "1" : "0"}, {"offset", std::to_string(b.offset)},
                                        {"after", after[k]}, {"after_chunks", list(after_chunks[k])}};
                        };
                        x.describe = mk;
                        more = run_before(e, api, b);
                        Full r = run_after(e, api, after[k], after_chunks[k]);
                        x.evaluations++;
                        x.traces++;
                        x.transitions += b.events + r.events.size();
                        if (more) x.nontrivial++;
                        std::string m = compare(r, want[api][k]);
                        if (!m.empty()) x.fail(mk(), m);
                        if (x.stop()) return false;
                    }
                    return more;
                };
                size_t n = w.size();
                for (size_t ev = 0; ev <= n + 1; ev++) if (!go(0, {w, ev, {}}, false)) break;
                // single bytes, with each read failing
                std::vector<size_t> ones(n, 1);
                for (int err = 0; err <= (int)n; err++) go(0, {w, n + 1, ones, err}, true);
                for (size_t given = 0; given <= n; given++) for (bool fin : {false, true}) {
                    if (fin && given < n) continue;
                    for (size_t ev = 0; ev <= given + 1; ev++) {
                        Before b{w, ev};
                        b.given = given;
                        b.finished = fin;
                        if (!go(1, b, given < n)) break;
                    }
                }
                if (x.index % 97 == 0) x.sample(s.id + ": '" + w + "', stopped everywhere, then reset");
            });
        }
        // at full size: buffers that grew before the reset, or must grow after it
        cStaticByteBuffSize = cStaticByteBuffCapacity;
        size_t C = cStaticByteBuffCapacity;
        auto repeat = [](std::string const& w, size_t n) {
            std::string r;
            while (r.size() < n) r += w;
            r.resize(n);
            return r;
        };
        std::vector<size_t> const lengths = small ? std::vector<size_t>{C + 1, 2 * C + 1} : std::vector<size_t>{C / 2 + 1, C - 1, C, C + 1, 2 * C + 1, 4 * C + 1};
        std::vector<std::string> units;
        for (size_t i = 0; i < K; i++) units.push_back(s.alphabet.substr(i, 1));
        if (!small) for (size_t i = 0; i < K; i++) units.push_back(s.alphabet.substr(i, 1) + (x.thorough ? s.alphabet : s.alphabet.substr((i + K / 2) % K, 1)));
        x.bounds.push_back(s.id + ": earlier and later inputs of each of " + std::to_string(units.size()) + " units repeated to " + std::to_string(lengths.size())
                           + " lengths of up to " + std::to_string(lengths.back()) + ", with buffers of 1024 entries");
        std::vector<std::string> later;
        std::vector<std::vector<size_t>> later_chunks;
        for (size_t i = 0; i < (small ? 2 : 4); i++) for (size_t n : lengths) {
            later.push_back(repeat(i < 2 ? units[(i * 3) % units.size()] : i == 2 ? s.alphabet : "\n" + all, n));
            later_chunks.push_back(i % 2 ? std::vector<size_t>(n / 7, 7) : std::vector<size_t>{});
        }
        std::vector<Full> want[2];
        for (int api = 0; api < 2; api++) for (size_t i = 0; i < later.size(); i++) {
            Env f;
            if (api) f.bp = std::make_unique<BufferParser>(texts.read(s.text).ast);
            else f.rp = std::make_unique<ReaderParser>(texts.read(s.text).ast);
            want[api].push_back(run_after(f, api, later[i], later_chunks[i]));
        }
        for (auto const& u : units) for (size_t n : lengths) {
            if (x.stop()) return;
            if (!x.mine()) continue;
            Before b{repeat(u, n)};
            b.given = n;
            x.states++;
            for (int api = 0; api < 2; api++) for (int fin = 0; fin <= api; fin++) for (size_t ev : {(size_t)1, n + 1}) for (size_t k = 0; k < later.size(); k++) {
                b.events = ev;
                b.finished = fin;
                auto mk = [&] {
                    return Case{{"schema", s.id}, {"bufsize", std::to_string(C)}, {"api", api ? "buffer" : "reader"},
                                {"before", b.in}, {"events", std::to_string(b.events)}, {"chunks", ""}, {"err", "-1"},
                                {"given", std::to_string(b.given)}, {"finished", b.finished ? "1" : "0"}, {"offset", "0"},
                                {"after", later[k]}, {"after_chunks", list(later_chunks[k])}};
                };
                x.describe = mk;
                if (run_before(e, api, b)) x.nontrivial++;
                Full r = run_after(e, api, later[k], later_chunks[k]);
                x.evaluations++;
                x.traces++;
                x.transitions += r.events.size();
                std::string m = compare(r, want[api][k]);
                if (!m.empty()) x.fail(mk(), m);
                if (x.stop()) return;
            }
        }
    }
}
VF_MAIN((vf::Check{"P10", explore, run_case}))
