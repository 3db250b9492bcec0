// P19: the file reader, over every sequence of operations on scratch files, and over every way the
// operating system can deliver a file (streams whose reads are divided, or fail, in every way).
#include <cerrno>
#include <cstdio>
#include <filesystem>
#include <dlfcn.h>
#include <unistd.h>
#include <log_surgeon/FileReader.hpp>
#include "common.hpp"
#include "dfa_eq.hpp"
#include "snap.hpp"
using namespace vf;
using log_surgeon::ErrorCode;
using log_surgeon::FileReader;
using sn::list;
using sn::unlist;

// ---- the operating system's part -----------------------------------------------------------------
// A path "fault:..." opens a stream that delivers g_sys.data as told.
struct Sys {
    std::string data;
    std::vector<size_t> chunks;  // at most this many bytes per read; then no limit
    int err_at{-1};              // this read fails ...
    bool sticky{true};           // ... and so do all after it
    size_t pos{0}, reads{0};
    int open{0}, opened{0};
    bool hooked{false};
};
static Sys g_sys;
static ssize_t sys_read(void*, char* buf, size_t n) {
    size_t i = g_sys.reads++;
    if (g_sys.err_at >= 0 && ((int)i == g_sys.err_at || ((int)i > g_sys.err_at && g_sys.sticky))) { errno = EIO; return -1; }
    n = std::min(n, g_sys.data.size() - g_sys.pos);
    if (i < g_sys.chunks.size()) n = std::min(n, g_sys.chunks[i]);
    memcpy(buf, g_sys.data.data() + g_sys.pos, n);
    g_sys.pos += n;
    return (ssize_t)n;
}
static int sys_close(void*) { g_sys.open--; return 0; }
extern "C" FILE* fopen(char const* path, char const* mode) {
    static auto* real = (FILE * (*)(char const*, char const*)) dlsym(RTLD_NEXT, "fopen");
    if (strncmp(path, "fault:", 6) != 0) return real(path, mode);
    g_sys.hooked = true;
    g_sys.pos = g_sys.reads = 0;
    g_sys.open++;
    g_sys.opened++;
    return fopencookie(nullptr, "r", {sys_read, nullptr, nullptr, sys_close});
}
extern "C" FILE* fopen64(char const* path, char const* mode) { return fopen(path, mode); }

// ---- operations ----------------------------------------------------------------------------------
// o<file> open, c close, r<n> read n bytes, b read into a null buffer,
// l<delimiter code>,<keep>,<append> read to a delimiter
struct Op { char kind; int a{0}, b{0}, c{0}; };
static std::string text(std::vector<Op> const& ops) {
    std::string s;
    for (auto const& o : ops) s += (s.empty() ? "" : " ") + std::string(1, o.kind) + std::to_string(o.a) + "," + std::to_string(o.b) + "," + std::to_string(o.c);
    return s;
}
static std::vector<Op> ops_of(std::string const& s) {
    std::vector<Op> r;
    for (size_t i = 0; i < s.size();) {
        Op o{};
        int n = 0;
        sscanf(s.c_str() + i, "%c%d,%d,%d%n", &o.kind, &o.a, &o.b, &o.c, &n);
        r.push_back(o);
        i += (size_t)n + 1;
    }
    return r;
}
struct Files {
    std::vector<std::string> paths, contents;
    std::string dir;
};
static std::string code(ErrorCode e) { return std::to_string((int)e); }
struct Model {
    Files const& f;
    int file{-1};
    size_t pos{0};
    std::string str{"*"};
};
enum { cMissing = -1, cDir = -2, cUnder = -3 };
// Applies an operation to both.
static std::string step(FileReader& r, Model& m, std::string& str, Op const& o, bool* failed = nullptr) {
    std::string const* data = m.file >= 0 ? &m.f.contents[(size_t)m.file] : nullptr;
    auto fail = [&](std::string const& w) { return text({o}) + ": " + w; };
    switch (o.kind) {
        case 'o': {
            std::string path = o.a >= 0 ? m.f.paths[(size_t)o.a] : o.a == cMissing ? m.f.dir + "/none" : o.a == cDir ? m.f.dir : m.f.paths[0] + "/x";
            ErrorCode got = r.try_open(path);
            ErrorCode want = o.a >= 0 || o.a == cDir ? ErrorCode::Success : o.a == cMissing ? ErrorCode::FileNotFound : ErrorCode::Errno;
            if (got != want) return fail("code " + code(got) + " instead of " + code(want));
            m.file = o.a == cDir ? cDir : o.a >= 0 ? o.a : -1;
            m.pos = 0;
            return "";
        }
        case 'c': r.close(); m.file = -1; return "";
        case 'b': {
            size_t n = 77;
            ErrorCode got = r.read(nullptr, (size_t)o.a, n), want = m.file == -1 ? ErrorCode::NotInit : ErrorCode::BadParam;
            return got == want ? "" : fail("code " + code(got) + " instead of " + code(want));
        }
        case 'r': {
            std::vector<char> buf((size_t)o.a + 8, '#');
            size_t n = 0;
            ErrorCode got = r.read(buf.data(), (size_t)o.a, n);
            if (m.file == -1) return got == ErrorCode::NotInit ? "" : fail("not open, but code " + code(got));
            if (m.file == cDir) {
                if (o.a == 0) return got == ErrorCode::Success && n == 0 ? "" : fail("code " + code(got));
                return got == ErrorCode::Errno ? "" : fail("reading a directory gives code " + code(got));
            }
            size_t want_n = std::min((size_t)o.a, data->size() - m.pos);
            ErrorCode want = want_n == 0 && o.a > 0 ? ErrorCode::EndOfFile : ErrorCode::Success;
            if (failed && got == ErrorCode::Errno) { *failed = true; return ""; }
            if (got != want) return fail("code " + code(got) + " instead of " + code(want));
            if (n != want_n) return fail(std::to_string(n) + " bytes instead of " + std::to_string(want_n));
            if (memcmp(buf.data(), data->data() + m.pos, n) != 0) return fail("'" + std::string(buf.data(), n) + "' instead of '" + data->substr(m.pos, n) + "'");
            for (size_t i = n; i < buf.size(); i++) if (buf[i] != '#') return fail("wrote behind the bytes read");
            m.pos += n;
            return "";
        }
        default: {
            if (m.file == -1) return "";  // (an open file is required)
            ErrorCode got = r.try_read_to_delimiter((char)o.a, o.b, o.c, str);
            if (m.file == cDir) {
                m.str = str;
                return got == ErrorCode::Errno ? "" : fail("reading a directory gives code " + code(got));
            }
            if (failed && got == ErrorCode::Errno) { *failed = true; return ""; }
            bool end = m.pos == data->size();
            ErrorCode want = end ? ErrorCode::EndOfFile : ErrorCode::Success;
            if (got != want) return fail("code " + code(got) + " instead of " + code(want));
            if (!o.c) m.str.clear();
            size_t d = data->find((char)o.a, m.pos);
            size_t to = d == std::string::npos ? data->size() : d + 1;
            m.str += data->substr(m.pos, to - m.pos);
            if (!o.b && d != std::string::npos) m.str.pop_back();
            m.pos = to;
            if (str != m.str) return fail("the string is '" + str + "' instead of '" + m.str + "'");
            return "";
        }
    }
}
static void put(std::string const& path, std::string const& data) {
    FILE* f = fopen(path.c_str(), "wb");
    if (f) { fwrite(data.data(), 1, data.size(), f); fclose(f); }
}
static std::string scratch() {
    static std::string d;
    if (d.empty()) {
        char const* tmp = getenv("TMPDIR");
        std::string t = std::string(tmp ? tmp : "/tmp") + "/p19-XXXXXX";
        if (!mkdtemp(t.data())) abort();
        d = t;
    }
    return d;
}
static Files files(std::vector<std::string> const& contents) {
    Files f;
    f.dir = scratch();
    f.contents = contents;
    for (size_t i = 0; i < contents.size(); i++) { f.paths.push_back(f.dir + "/f" + std::to_string(i)); put(f.paths.back(), contents[i]); }
    return f;
}
static std::string run(Files const& f, std::vector<Op> const& ops) {
    FileReader r;
    Model m{f};
    std::string str = "*";
    for (size_t i = 0; i < ops.size(); i++) {
        std::string e = step(r, m, str, ops[i]);
        if (!e.empty()) return "operation " + std::to_string(i + 1) + ", " + e;
    }
    return "";
}
// The same on a stream that is delivered in pieces, or fails.  Until the first failed operation all
// answers must be as without failures; an operation may only fail if a read did; afterwards the reader
// can be opened again.
static std::string run_fault(std::string const& data, std::vector<size_t> const& chunks, int err_at, bool sticky, std::vector<Op> const& ops, bool* hooked, bool* hit) {
    g_sys = Sys{data, chunks, err_at, sticky};
    Files f{{"fault:a"}, {data}, "/nonexistent"};
    {
        FileReader r;
        Model m{f};
        std::string str = "*";
        std::string e = r.try_open("fault:a") == ErrorCode::Success ? "" : "cannot be opened";
        *hooked = g_sys.hooked;
        if (!g_sys.hooked) return "";
        if (!e.empty()) return e;
        m.file = 0;
        bool failed = false;
        auto read_failed = [&] { return err_at >= 0 && g_sys.reads > (size_t)err_at; };
        for (size_t i = 0; i < ops.size() && !failed; i++) {
            e = step(r, m, str, ops[i], &failed);
            if (!e.empty()) return "operation " + std::to_string(i + 1) + ", " + e + (read_failed() ? " (a read failed)" : "");
            if (failed && !read_failed()) return "operation " + std::to_string(i + 1) + " reports an error though no read failed";
        }
        if (hit) *hit = failed;
        // opened again, the reader starts afresh
        g_sys.err_at = -1;
        m.str = str;
        if (r.try_open("fault:a") != ErrorCode::Success) return "cannot be opened again";
        m.pos = 0;
        for (auto const& o : {Op{'r', (int)data.size() + 1}, Op{'r', 1}}) {
            e = step(r, m, str, o);
            if (!e.empty()) return "opened again, " + e;
        }
        if (g_sys.open != 1) return "opened again, but " + std::to_string(g_sys.open) + " files are open";
        r.close();
        if (g_sys.open != 0) return "closed, but " + std::to_string(g_sys.open) + " files are open";
        r.close();
        (void)r.try_open("fault:a");
    }
    if (g_sys.open != 0) return "destroyed, but " + std::to_string(g_sys.open) + " files are open";
    return "";
}
// A schema file delivered in pieces gives the same schema as its text; if a read fails, there is none.
static std::string run_schema(std::string const& data, std::vector<size_t> const& chunks, int err_at, bool sticky, bool* hooked, bool* hit) {
    auto want = de::read_fresh(data);
    g_sys = Sys{data, chunks, err_at, sticky};
    de::Read got;
    try {
        got.ast = log_surgeon::SchemaParser::try_schema_file("fault:s");
        if (got.ast) de::fill(got);
    } catch (std::exception const& e) { got.error = e.what(); }
    *hooked = g_sys.hooked;
    if (!g_sys.hooked) return "";
    bool failed = err_at >= 0 && g_sys.reads > (size_t)err_at;
    if (hit) *hit = failed;
    if (g_sys.open != 0) return "the schema file is still open";
    if (failed) return got.ok ? "a read failed, but there is a schema (with " + std::to_string(got.vars.size()) + " rules)" : got.error.empty() ? "no explanation" : "";
    if (got.ok != want.ok) return got.ok ? "accepted" : "rejected: " + got.error;
    if (!got.ok) return "";
    if (got.delims != want.delims || got.vars.size() != want.vars.size()) return "a different schema";
    for (size_t i = 0; i < got.vars.size(); i++) if (got.vars[i].name != want.vars[i].name || got.vars[i].line != want.vars[i].line) return "a different rule " + got.vars[i].name;
    return "";
}
static std::string run_case(Case const& c) {
    bool hooked = false;
    if (c.at("on") == "files") {
        std::vector<std::string> contents;
        for (int i = 0; c.count("f" + std::to_string(i)); i++) contents.push_back(c.at("f" + std::to_string(i)));
        return run(files(contents), ops_of(c.at("ops")));
    }
    if (c.at("on") == "schema") return run_schema(c.at("data"), unlist(c.at("chunks")), atoi(c.at("err").c_str()), c.at("sticky") == "1", &hooked, nullptr);
    return run_fault(c.at("data"), unlist(c.at("chunks")), atoi(c.at("err").c_str()), c.at("sticky") == "1", ops_of(c.at("ops")), &hooked, nullptr);
}
static void explore(Ctx& x) {
    bool small = x.opt == "small", t = x.thorough;
    std::vector<Op> ops;
    Files f;
    x.describe = [&] {
        Case c{{"on", "files"}, {"ops", text(ops)}};
        for (size_t i = 0; i < f.contents.size(); i++) c["f" + std::to_string(i)] = f.contents[i];
        return c;
    };
    auto sequences = [&](std::vector<Op> const& first, std::vector<Op> const& menu, size_t depth, auto go) {
        for (size_t len = 1; len <= depth; len++) {
            std::vector<size_t> pick(len, 0);
            while (!x.stop()) {
                ops = first;
                for (size_t p : pick) ops.push_back(menu[p]);
                go();
                size_t k = len;
                while (k > 0 && ++pick[k - 1] == menu.size()) pick[--k] = 0;
                if (!k) break;
            }
        }
    };
    std::vector<Op> reads{{'r', 0}, {'r', 1}, {'r', 2}, {'r', 5}, {'l', '\n', 0, 0}, {'l', '\n', 1, 1}, {'l', 'a', 1, 0}, {'l', 'a', 0, 1}};
    std::vector<Op> menu = reads;
    for (Op o : {Op{'b', 3}, Op{'c'}, Op{'o', 0}, Op{'o', 1}, Op{'o', cMissing}, Op{'o', cDir}, Op{'o', cUnder}}) menu.push_back(o);
    // every content of up to 3 or 4 characters, with a second file
    std::string const alpha("a\nb\0", 4);
    size_t L = small ? 2 : t ? 4 : 3, D = small ? 2 : t ? 4 : 3;
    x.bounds.push_back("files: all contents over 4 characters up to length " + std::to_string(L) + ", every sequence of up to " + std::to_string(D) + " of " + std::to_string(menu.size()) + " operations after opening, and of as many on a reader that was not opened");
    std::vector<std::string> contents{""};
    for (size_t from = 0, l = 0; l < L; l++) { size_t to = contents.size(); for (size_t i = from; i < to; i++) for (char c : alpha) contents.push_back(contents[i] + c); from = to; }
    for (auto const& c : contents) {
        if (x.stop()) return;
        if (!x.mine()) continue;
        f = files({c, "bab\na"});
        size_t cases = 0;
        auto go = [&] {
            if ((++cases & 4095) == 0) x.tick();
            std::string m = run(f, ops);
            x.states++; x.evaluations++; x.traces++;
            x.transitions += ops.size();
            if (ops.size() > 2) x.nontrivial++;
            if (!m.empty()) x.fail(x.describe(), m);
            if (x.states % 40009 == 77) x.sample("'" + c + "': " + text(ops));
        };
        sequences({{'o', 0}}, menu, D, go);
        if (c.size() <= 1) sequences({}, menu, D, go);
    }
    // every byte as content and delimiter; sizes around those of buffers
    x.bounds.push_back("files: every byte as the delimiter; lines and reads of every length around 120, 240, 4096 and 8192");
    for (int b = 0; b < 256; b++) {
        if (x.stop()) return;
        if (!x.mine()) continue;
        std::string d(1, (char)b);
        for (auto const& c : std::vector<std::string>{d, "x" + d, d + d + "y", "xy"}) for (int keep = 0; keep < 2; keep++) for (int app = 0; app < 2; app++) {
            f = files({c});
            ops = {{'o', 0}, {'l', (signed char)b, keep, app}, {'l', (signed char)b, keep, app}, {'l', (signed char)b, keep, app}, {'r', 1}};
            x.states++; x.evaluations++; x.traces++; x.transitions += 5;
            std::string m = run(f, ops);
            if (!m.empty()) x.fail(x.describe(), m);
        }
    }
    for (int base : {120, 240, 4096, 8192}) for (int n = base - 3; n <= base + 3; n++) {
        if (x.stop()) return;
        if (!x.mine()) continue;
        std::string line((size_t)n, 'x');
        for (size_t i = 0; i < line.size(); i += 7) line[i] = (char)('A' + i % 26);
        for (auto const& c : {line, line + "\n", line + "\n" + line + "\n\n" + line}) for (int keep = 0; keep < 2; keep++) for (int app = 0; app < 2; app++) for (int k : {1, n - 1, n, n + 1, 3 * n}) {
            f = files({c});
            ops = {{'o', 0}, {'l', '\n', keep, app}, {'r', k}, {'l', '\n', keep, app}, {'l', '\n', keep, app}, {'r', k}, {'o', 0}, {'r', k}, {'l', 'Q', keep, app}, {'r', k}, {'r', 9}};
            x.states++; x.evaluations++; x.traces++; x.nontrivial++; x.transitions += ops.size();
            std::string m = run(f, ops);
            if (!m.empty()) x.fail(x.describe(), m);
        }
    }
    // deliveries and failures
    std::string data;
    std::vector<size_t> chunks;
    int err = -1;
    bool sticky = true;
    char const* on = "fault";
    x.describe = [&] { return Case{{"on", on}, {"data", data}, {"chunks", list(chunks)}, {"err", std::to_string(err)}, {"sticky", sticky ? "1" : "0"}, {"ops", text(ops)}}; };
    bool hooked = true;
    size_t DL = small ? 3 : t ? 6 : 5, DD = small ? 2 : t ? 4 : 3;
    x.bounds.push_back("deliveries: contents of length " + std::to_string(DL) + ", every division into reads, every read failing once or from then on, every sequence of up to " + std::to_string(DD) + " reading operations");
    for (auto const& c : {std::string("ab\nabab"), std::string("\n\naba\n"), std::string("bbbbbbb"), std::string("a\nb\n\na")}) {
        data = c.substr(0, DL);
        sn::compositions(data.size(), [&](std::vector<size_t> const& v) {
            chunks = v;
            for (err = -1; err <= (int)v.size() + 1; err++) for (int st = 0; st < (err < 0 ? 1 : 2); st++) {
                if (x.stop() || !hooked) return;
                if (!x.mine()) continue;
                sticky = st;
                sequences({}, reads, DD, [&] {
                    bool hit = false;
                    std::string m = run_fault(data, chunks, err, sticky, ops, &hooked, &hit);
                    x.states++; x.evaluations++; x.traces++;
                    x.transitions += ops.size() + 2;
                    if (hit) { x.nontrivial++; x.extra["failed_operations"]++; }
                    if (!m.empty()) x.fail(x.describe(), m);
                });
            }
        });
    }
    // schema files
    on = "schema";
    ops.clear();
    std::vector<std::string> schemas{"delimiters:,\na:b\nc:d\n", "a:b\n", "a:(\n", "x:y\nz:[0-9]+\n\n"};
    x.bounds.push_back("schema files: " + std::to_string(schemas.size()) + " texts divided at every one and two places, every read failing once or from then on");
    for (auto const& s : schemas) {
        data = s;
        for (size_t i = 0; i < s.size(); i++) for (size_t j = i; j < s.size(); j += small || !t ? 4 : 1) for (err = -1; err < 5; err++) for (int st = 0; st < (err < 0 ? 1 : 2); st++) {
            if (x.stop() || !hooked) return;
            if (small && (i % 4 || st == 0)) continue;
            if (!x.mine()) continue;
            sticky = st;
            chunks.clear();
            if (i) chunks.push_back(i);
            if (j > i) chunks.push_back(j - i);
            bool hit = false;
            std::string m = run_schema(data, chunks, err, sticky, &hooked, &hit);
            x.states++; x.evaluations++; x.traces++; x.transitions += chunks.size() + 1;
            if (hit) { x.nontrivial++; x.extra["failed_schema_reads"]++; }
            if (!m.empty()) x.fail(x.describe(), m);
        }
    }
    // a directory is not a schema
    if (x.mine()) {
        bool thrown = false;
        try { (void)log_surgeon::SchemaParser::try_schema_file(scratch()); } catch (std::exception const&) { thrown = true; }
        data = "(directory)";
        if (!thrown) x.fail(x.describe(), "a directory is read as a schema");
    }
    std::filesystem::remove_all(scratch());
    x.extra["stream_hook_in_use"] = hooked ? 1 : 0;
}
VF_MAIN((vf::Check{"P19", explore, run_case}))
