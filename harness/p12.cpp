// P12: errors of a reader are passed on at once, and corrupt nothing.
#include "snap.hpp"
using namespace sn;

static ErrorCode const cCodes[]{ErrorCode::Errno, ErrorCode::BadParam, ErrorCode::FileNotFound, ErrorCode::NotInit,
                                ErrorCode::Truncated, ErrorCode::LogFullyConsumed, ErrorCode::BufferOutOfBounds};
struct Fault {
    size_t call{0};
    ErrorCode code{ErrorCode::Errno};
    int how{0};  // 0: nothing delivered, 1: the destination is overwritten, 2: and the length is set
    bool sticky{true};
};
struct Faulty {
    std::string data;
    std::vector<size_t> chunks;
    Fault f;
    size_t pos{0}, calls{0}, failed{0};
    Reader reader() {
        return Reader{[this](char* dst, size_t count, size_t& n) -> ErrorCode {
            size_t i = calls++;
            if (i == f.call || (f.sticky && i > f.call)) {
                failed++;
                n = 0;
                if (f.how >= 1) for (size_t k = 0; k < count; k++) dst[k] = "\n1T"[k % 3];
                if (f.how == 2) n = count;
                return f.code;
            }
            size_t lim = i < chunks.size() ? chunks[i] : count;
            n = std::min({lim, count, data.size() - pos});
            if (n == 0) return ErrorCode::EndOfFile;
            std::copy(data.begin() + (long)pos, data.begin() + (long)(pos + n), dst);
            pos += n;
            return ErrorCode::Success;
        }};
    }
};
// Returns the failure text; `reached` tells whether the read took place.
static std::string one(ReaderParser& p, std::string const& in, std::vector<size_t> const& chunks, Fault const& f,
                       std::vector<Snap> const& want, std::string const& after, Full const& want_after, bool& reached, Ctx* x) {
    Faulty src{in, chunks, f};
    Reader rd = src.reader();
    p.reset_and_set_reader(rd);
    size_t ev = 0;
    std::string m;
    while (!p.done()) {
        size_t failed_before = src.failed;
        ErrorCode err = p.parse_next_event();
        if (x) x->transitions++;
        if (src.failed > failed_before) {
            if (err == ErrorCode::Success) m = "a read failed during this call, but it reports success";
            else if (err != f.code) m = "a read failed with code " + std::to_string((int)f.code) + ", the call returned " + std::to_string((int)err);
            else if (src.failed > failed_before + 1) m = "the reader was called again after it had failed";
            break;
        }
        if (err != ErrorCode::Success) { m = "error " + std::to_string((int)err) + " without a failing read"; break; }
        Snap s = snap(p.get_log_parser().get_log_event_view());
        if (ev >= want.size()) { m = "one event too many: " + s.show(); break; }
        if (!(s == want[ev])) { m = "event " + std::to_string(ev) + " is " + s.show() + " instead of " + want[ev].show(); break; }
        ev++;
    }
    reached = src.failed > 0;
    if (m.empty() && reached && p.done()) m = "the parser is done although a read failed";
    if (!m.empty()) return m;
    if (!reached && ev != want.size()) return "only " + std::to_string(ev) + " events";
    // with a working reader
    Source s2{after, {}};
    Full r = full_reader(p, s2);
    if (!(r == want_after)) return "after the error and a reset: " + r.show() + " instead of " + want_after.show();
    return "";
}
static std::string run_case(Case const& c) {
    ref::Pool pool;
    cStaticByteBuffSize = cStaticByteBuffCapacity;
    Env a = make_env(pool, c.at("schema"), true, false), a2 = make_env(pool, c.at("schema"), true, false), b = make_env(pool, c.at("schema"), true, false);
    Source s1{c.at("input"), {}}, s2{c.at("after"), {}};
    auto want = full_reader(*a.rp, s1);
    cStaticByteBuffSize = (uint32_t)atoi(c.at("bufsize").c_str());
    auto want_after = full_reader(*a2.rp, s2);
    Fault f{(size_t)atoi(c.at("call").c_str()), (ErrorCode)atoi(c.at("code").c_str()), atoi(c.at("how").c_str()), c.at("sticky") == "1"};
    bool reached;
    return one(*b.rp, c.at("input"), unlist(c.at("chunks")), f, want.events, c.at("after"), want_after, reached, nullptr);
}
static void explore(Ctx& x) {
    ref::Pool pool;
    bool small = x.opt == "small";
    for (auto const& s : schemas::make(pool)) {
        Env a = make_env(pool, s.id, true, false), e = make_env(pool, s.id, true, false);
        size_t K = s.alphabet.size(), L = max_len(K, small ? 1000 : x.thorough ? 60000 : 12000);
        x.bounds.push_back(s.id + ": inputs over " + std::to_string(K) + " characters up to length " + std::to_string(L)
                           + " x all read-size compositions x every read failing (7 codes, 3 ways, once or for good) x buffers of 4, 6, 1024 bytes; then a parse with a working reader");
        std::string after = s.alphabet + "\n" + std::string(s.alphabet.rbegin(), s.alphabet.rend()) + "\n" + s.alphabet;
        std::map<uint32_t, Full> want_after;
        for (uint32_t sz : {4u, 6u, cStaticByteBuffCapacity}) {
            cStaticByteBuffSize = sz;
            Source s2{after, {}};
            want_after[sz] = full_reader(*a.rp, s2);
        }
        words(x, s.alphabet, 0, L, [&](std::string const& in) {
            cStaticByteBuffSize = cStaticByteBuffCapacity;
            Source s1{in, {}};
            auto want = full_reader(*a.rp, s1);
            x.states++;
            for (uint32_t sz : {4u, 6u, cStaticByteBuffCapacity}) {
                cStaticByteBuffSize = sz;
                compositions(in.size(), [&](std::vector<size_t> const& chunks) {
                    if (sz == cStaticByteBuffCapacity && chunks.size() > 2) return;
                    for (size_t call = 0;; call++) {
                        bool reached = false;
                        for (int v = 0; v < 7; v++) {
                            // codes, ways of failing and persistence are varied one at a time
                            if (v >= 3 && in.size() > 3) break;
                            Fault f{call, cCodes[(in.size() <= 3 ? v : v * 3)], v % 3, (v & 1) == 0};
                            auto mk = [&] { return Case{{"schema", s.id}, {"input", in}, {"chunks", list(chunks)}, {"bufsize", std::to_string(sz)},
                                                        {"call", std::to_string(call)}, {"code", std::to_string((int)f.code)}, {"how", std::to_string(f.how)},
                                                        {"sticky", f.sticky ? "1" : "0"}, {"after", after}}; };
                            x.describe = mk;
                            std::string m = one(*e.rp, in, chunks, f, want.events, after, want_after[sz], reached, &x);
                            x.evaluations++;
                            x.traces++;
                            if (reached && call > 0) x.nontrivial++;
                            if (!m.empty()) x.fail(mk(), m);
                            if (x.stop()) return;
                            if (!reached) break;
                        }
                        if (!reached) break;
                    }
                });
            }
            if (x.index % 997 == 0) x.sample(s.id + ": '" + in + "', every read failing");
        });
    }
}
VF_MAIN((vf::Check{"P12", explore, run_case}))
