// P02: the parse of a byte stream does not depend on how the stream is delivered or buffered.
#include "schema_menu.hpp"
using namespace lx;

static std::vector<Ev> baseline(ReaderParser& p, std::string const& in) {
    cStaticByteBuffSize = cStaticByteBuffCapacity;
    Source s{in, {}};
    return run_reader(p, s).events;
}
static std::string compare(Run const& r, std::vector<Ev> const& base) {
    if (r.err != ErrorCode::Success) return "error code " + std::to_string((int)r.err) + " without an I/O error";
    if (r.overrun) return "the parser keeps producing events";
    if (!(r.events.size() == base.size() && std::equal(base.begin(), base.end(), r.events.begin())))
        return "delivered differently: " + show_all(r.events) + " / whole: " + show_all(base);
    for (size_t i = 0; i < base.size(); i++) {
        Ev const &a = r.events[i], &b = base[i];
        if (a.str != b.str || a.logtype != b.logtype || a.multiline != b.multiline || a.ts != b.ts)
            return "event " + std::to_string(i) + " delivered differently: text '" + a.str + "' logtype '" + a.logtype
                   + "' timestamp '" + a.ts + "' / whole: '" + b.str + "' '" + b.logtype + "' '" + b.ts + "'";
    }
    return "";
}
static std::string run_case(Case const& c) {
    ref::Pool pool;
    std::vector<schemas::S> all = schemas::make(pool);
    if (c.at("schema").find(':') != std::string::npos) { all.resize(1); all[0].id = all[0].text = c.at("schema"); }
    for (auto const& s : all) {
        if (s.id != c.at("schema")) continue;
        cStaticByteBuffSize = cStaticByteBuffCapacity;
        ReaderParser a{parse_schema(s.text)}, b{parse_schema(s.text)};
        auto base = baseline(a, c.at("input"));
        cStaticByteBuffSize = (uint32_t)atoi(c.at("bufsize").c_str());
        Source src{c.at("input"), {}};
        std::string t = c.at("chunks");
        for (size_t i = 0; i < t.size();) { src.chunks.push_back((size_t)atoi(t.c_str() + i)); i = t.find(',', i); if (i == std::string::npos) break; i++; }
        Run r = run_reader(b, src);
        return compare(r, base);
    }
    return "unknown schema";
}
// One input, in every division, at the given capacities.
static void one_input(Ctx& x, std::string const& id, ReaderParser& base_p, ReaderParser& p, std::string const& in, std::vector<uint32_t> const& sizes) {
    size_t n = in.size();
    auto base = baseline(base_p, in);
    if (n > 5 && base.size() > 2 && x.index % 977 == 0) x.sample(id + ": '" + in + "', all compositions -> " + show_all(base));
    for (uint32_t sz : sizes) {
        cStaticByteBuffSize = sz;
        // every composition of n into read sizes
        uint32_t comps = n == 0 ? 1 : 1u << (n - 1);
        for (uint32_t m = 0; m < comps; m++) {
            Source src{in, {}};
            size_t c = 1;
            for (size_t i = 1; i < n; i++) {
                if (m >> (i - 1) & 1) { src.chunks.push_back(c); c = 1; } else c++;
            }
            src.chunks.push_back(c);
            auto mk = [&]() {
                std::string ch;
                for (auto q : src.chunks) ch += std::to_string(q) + ",";
                return Case{{"schema", id}, {"input", in}, {"bufsize", std::to_string(sz)}, {"chunks", ch}};
            };
            x.describe = mk;
            Run r = run_reader(p, src);
            x.evaluations++;
            x.traces++;
            x.extra["reader_calls"] += src.calls;
            if (n > sz / 2 && src.chunks.size() > 1) x.nontrivial++;
            x.transitions += r.events.size();
            std::string e = compare(r, base);
            if (!e.empty()) x.fail(mk(), e);
            if (x.stop()) break;
        }
    }
    cStaticByteBuffSize = cStaticByteBuffCapacity;
}
static void explore(Ctx& x) {
    ref::Pool pool;
    if (x.opt == "schemas") {
        size_t L = x.thorough ? 6 : 5;
        de::Reused<> reader;
        sm::menu(x, x.thorough ? 2 : 1, [&](std::string const& text, std::string const& alphabet) {
            Env e = sm::env_of_text(pool, text, &reader), base = sm::env_of_text(pool, text, &reader);
            x.states++;
            sm::inputs(alphabet, L, [&](std::string const& in) { one_input(x, text, *base.rp, *e.rp, in, {4, 6}); return !x.stop(); });
        });
        x.bounds.push_back("each with all inputs over 4 characters up to length " + std::to_string(L) + " x all read-size compositions x buffers of 4 and 6 bytes");
        return;
    }
    for (auto const& s : schemas::make(pool)) {
        ReaderParser base_p{parse_schema(s.text)}, p{parse_schema(s.text)};
        size_t K = s.alphabet.size();
        size_t maxlen = x.thorough ? 8 : 7;
        // smaller exploration for the instrumented build
        if (x.opt == "small") maxlen -= 2;
        // large alphabets: one character less
        if (K > 6) maxlen--;
        x.bounds.push_back(s.id + ": inputs up to length " + std::to_string(maxlen) + " over " + std::to_string(K)
                           + " characters x all read-size compositions x buffers of 4, 6, 8, 10 bytes");
        words(x, s.alphabet, 0, maxlen, [&](std::string const& in) {
            x.states++;
            one_input(x, s.id, base_p, p, in, {4, 6, 8, 10});
        });
    }
}
VF_MAIN((vf::Check{"P02", explore, run_case}))
