// P11: parsing from a buffer that the caller refills gives the events of one buffer with everything,
// and the reported offset is where the next event starts.
#include "schema_menu.hpp"
#include "snap.hpp"
using namespace sn;

enum Mode { Move, Keep, Junk, MoveReset, cModes };  // what the caller does with the bytes before the offset
static char const* const cNames[]{"move", "keep", "junk", "movereset"};
static void norm(Snap& s) {
    auto fix = [](std::string& y) { if (y == "firstTimestamp" || y == "newLineTimestamp") y = "timestamp"; };
    for (auto& t : s.toks) for (auto& y : t.types) fix(y);
    s.vars.clear();
}
static std::vector<Snap> whole(BufferParser& p, std::string const& in) {
    Full f = full_buffer(p, in);
    for (auto& e : f.events) norm(e);
    return f.events;
}
// Refills with the next piece whenever the parser asks for more.  `last`: the end of the input is only
// announced by an extra call.
static std::string drive(BufferParser& p, std::string const& in, std::vector<size_t> const& pieces, int mode, bool last,
                         std::vector<Snap> const& want, Ctx* x) {
    std::string buf;
    size_t off = 0, given = 0, next = 0, base = 0;  // base: position in the input of buf[0]
    size_t ev = 0, ev_start = 0;
    p.reset();
    bool fin = false;
    size_t calls = 0;
    auto at = [&](std::string const& m) { return "event " + std::to_string(ev) + ": " + m; };
    auto refill = [&] {
        if (mode == Move || mode == MoveReset) { buf.erase(0, off); base += off; off = 0; }
        else if (mode == Junk) for (size_t i = 0; i < off; i++) buf[i] = '\n';
        // a new allocation, so that anything kept of the old one is seen
        std::string b2 = buf;
        b2.reserve(b2.size() + 64);
        if (next < pieces.size()) { b2 += in.substr(given, pieces[next]); given += pieces[next]; next++; }
        buf.swap(b2);
        for (auto& c : b2) c = '#';
        if (given == in.size() && (!last || fin || next >= pieces.size() + 1)) fin = true;
        if (next >= pieces.size()) next++;
    };
    refill();
    while (!p.done()) {
        if (calls++ > 4 * in.size() + 8) return at("the parser does not come to an end");
        size_t before = off;
        ErrorCode err = p.parse_next_event(buf.data(), buf.size(), off, fin);
        if (x) x->transitions++;
        if (err == ErrorCode::BufferOutOfBounds) {
            if (off != before) return at("the offset changed although more input was asked for");
            if (p.done()) return at("the parser is done although it asked for more input");
            if (fin) return at("more input is asked for after the end");
            // the events of one buffer: this one and the next are in the buffer
            size_t e1 = ev_start;
            if (ev + 2 < want.size()) {
                e1 += want[ev].str.size() + want[ev + 1].str.size();
                if (given >= e1) return at("more input is asked for, but the event and the one after it are in the buffer");
            }
            refill();
            continue;
        }
        if (err != ErrorCode::Success) return at("error " + std::to_string((int)err));
        Snap s = snap(p.get_log_parser().get_log_event_view());
        norm(s);
        if (ev >= want.size()) {
            if (s.str.empty()) { ev++; continue; }
            return at("one event too many: " + s.show());
        }
        // where the end of the input coincides with that of an event, an empty event may follow or not
        if (!(s == want[ev])) return at(s.show() + " instead of " + want[ev].show());
        ev_start += s.str.size();
        if (base + off != ev_start) return at("the offset reported is " + std::to_string(base + off) + " instead of " + std::to_string(ev_start));
        ev++;
        if (mode == MoveReset && !p.done()) {
            buf.erase(0, off);
            base += off;
            off = 0;
            p.reset();
        }
    }
    if (!fin) return "the parser is done before the end of the input";
    if (ev < want.size()) {
        if (ev + 1 == want.size() && want.back().str.empty()) return "";
        return "only " + std::to_string(ev) + " of " + std::to_string(want.size()) + " events";
    }
    return "";
}
static std::string run_case(Case const& c) {
    ref::Pool pool;
    cStaticByteBuffSize = (uint32_t)atoi(c.at("bufsize").c_str());
    Env a = sm::env_of(pool, c.at("schema"), false, true), b = sm::env_of(pool, c.at("schema"), false, true);
    int mode = 0;
    while (cNames[mode] != c.at("mode")) mode++;
    return drive(*b.bp, c.at("input"), unlist(c.at("pieces")), mode, c.at("last") == "1", whole(*a.bp, c.at("input")), nullptr);
}
static void one_input(Ctx& x, std::string const& id, Env& a, Env& e, std::string const& in, std::vector<uint32_t> const& sizes) {
    cStaticByteBuffSize = cStaticByteBuffCapacity;
    auto want = whole(*a.bp, in);
    for (uint32_t sz : sizes) {
        cStaticByteBuffSize = sz;
        compositions(in.size(), [&](std::vector<size_t> const& pieces) {
            for (int mode = 0; mode < cModes; mode++) for (int last = 0; last < 2; last++) {
                if (x.stop()) return;
                if (sz == 4 && (mode == Keep || mode == MoveReset)) continue;
                auto mk = [&] { return Case{{"schema", id}, {"input", in}, {"pieces", list(pieces)}, {"mode", cNames[mode]},
                                            {"last", last ? "1" : "0"}, {"bufsize", std::to_string(sz)}}; };
                x.describe = mk;
                std::string m = drive(*e.bp, in, pieces, mode, last, want, &x);
                x.evaluations++;
                x.traces++;
                if (pieces.size() > 1 && want.size() > 1) x.nontrivial++;
                if (!m.empty()) x.fail(mk(), m);
            }
        });
    }
    cStaticByteBuffSize = cStaticByteBuffCapacity;
    if (x.index % 997 == 0 && in.size() > 3) x.sample(id + ": '" + in + "', all divisions");
}
static void explore(Ctx& x) {
    ref::Pool pool;
    bool small = x.opt == "small";
    if (x.opt == "schemas") {
        size_t L = x.thorough ? 6 : 4;
        de::Reused<> reader;
        sm::menu(x, x.thorough ? 2 : 1, [&](std::string const& text, std::string const& alphabet) {
            Env a = sm::env_of_text(pool, text, &reader), e = sm::env_of_text(pool, text, &reader);
            // a refilled buffer starts like an input, as if after a delimiter
            if (!e.s.ref.delims.test('\n')) { x.extra["schemas"]--; x.extra["schemas_left_out"]++; return; }
            x.states++;
            sm::inputs(alphabet, L, [&](std::string const& in) { one_input(x, text, a, e, in, {cStaticByteBuffCapacity}); return !x.stop(); });
        });
        x.bounds.push_back("each with all inputs over 4 characters up to length " + std::to_string(L) + " x all divisions into pieces x 4 ways of refilling x the end announced with the last piece or later");
        return;
    }
    for (auto const& s : schemas::make(pool)) {
        Env a = make_env(pool, s.id, false, true), e = make_env(pool, s.id, false, true);
        size_t K = s.alphabet.size(), L = max_len(K, small ? 1000 : x.thorough ? 60000 : 20000);
        x.bounds.push_back(s.id + ": inputs over " + std::to_string(K) + " characters up to length " + std::to_string(L)
                           + " x all divisions into pieces x 4 ways of refilling x the end announced with the last piece or later");
        words(x, s.alphabet, 0, L, [&](std::string const& in) {
            x.states++;
            one_input(x, s.id, a, e, in, {4u, cStaticByteBuffCapacity});
        });
    }
}
VF_MAIN((vf::Check{"P11", explore, run_case}))
