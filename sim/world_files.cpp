// Worlds around files:
//   props  marks saved as text or as a binary header and loaded again
//   cache  the on-disk cache of powers of a root of unity
#include "gf_prime.h"
#include "util.h"
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

namespace sim {
namespace {

// ================================================================ props
// Formatting that the writer's stream carries: none | hex | oct | base | sign |
// locale (digits in groups, as in many countries).
struct Groups : std::numpunct<char> {
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
};
void dress(std::ios& st, const std::string& f)
{
    if (f == "hex")
        st.setf(std::ios::hex, std::ios::basefield);
    else if (f == "oct")
        st.setf(std::ios::oct, std::ios::basefield);
    else if (f == "base") {
        st.setf(std::ios::hex, std::ios::basefield);
        st.setf(std::ios::showbase);
    } else if (f == "sign")
        st.setf(std::ios::showpos);
    else if (f == "locale")
        st.imbue(std::locale(std::locale::classic(), new Groups));
}
Bytes save_text(const quadiron::Properties& p, const StreamPlan& plan, bool& good,
                const std::string& dressed = "")
{
    SimOut so(plan, 1);
    std::ostream os(&so);
    dress(os, dressed);
    LibScope ls;
    os << p;
    good = (bool)os;
    SeamScope ss;
    return so.data;
}
quadiron::Properties load_text(const Bytes& b, const StreamPlan& plan, Outcome& o, bool except)
{
    quadiron::Properties q;
    SimIn si(b, plan, 2);
    std::istream is(&si);
    if (except)
        is.exceptions(std::ios::badbit);
    o = call([&] {
        LibScope ls;
        is >> q;
        return true;
    });
    return q;
}
void exec_props(const Scenario& sc)
{
    Marks saved;
    int no = 0;
    for (auto& l : sc.lines) {
        ++no;
        auto bad = [&](const std::string& m) {
            g_run->violate("props", fmt("line %d (%s): ", no, l.text().c_str()) + m);
        };
        StreamPlan plan = StreamPlan::from(l, "");
        plan.fail_at = -1;
        plan.fail_kind = 0;
        quadiron::Properties p;
        for (auto& x : saved)
            p.add(x.first, x.second);
        if (l.verb == "mark")
            saved.push_back(Mark((size_t)strtoull(l.str("at", "0").c_str(), 0, 10),
                                 (uint32_t)l.num("m", 1)));
        else if (l.verb == "clear")
            saved.clear();
        else if (l.verb == "text") {
            bool good;
            Bytes t = save_text(p, plan, good, l.str("fmt"));
            if (l.has("fmt"))
                g_run->fault("stream_formatting");
            g_run->ev("saved", hash_bytes(t), t.size());
            Outcome o;
            Marks got = from_props(load_text(t, plan, o, false));
            g_run->probe("text_round_trip");
            if (!o.returned)
                bad("loading threw " + o.what);
            else if (got != saved)
                bad("loaded marks " + marks_text(got) + ", saved " + marks_text(saved));
        } else if (l.verb == "torn" || l.verb == "broken" || l.verb == "full") {
            // only the first bytes are on the disk / readable
            bool good;
            StreamPlan sp = plan;
            if (l.verb == "full") {
                sp.fail_at = l.num("at");
                sp.fail_kind = 1;
            }
            Bytes t = save_text(p, sp, good);
            size_t at = (size_t)l.num("at");
            if (l.verb == "full" && t.size() < at && good != (t.size() < at))
                bad("no space left and the stream reports success");
            Bytes head(t.begin(), t.begin() + std::min(at, t.size()));
            StreamPlan lp = plan;
            if (l.verb == "broken") {
                lp.fail_at = (int64_t)at;
                lp.fail_kind = 2;
                head = t;
            } else
                g_run->fault(l.verb == "torn" ? "file_torn" : "disk_full");
            Outcome o;
            Marks got = from_props(load_text(head, lp, o, l.num("strict") != 0));
            g_run->ev("loaded", got.size(), o.returned);
            size_t cut = l.verb == "broken" ? std::min(at, t.size()) : head.size();
            // complete lines must be there; of a cut line nothing but a
            // shortened value may be believed
            std::string txt(t.begin(), t.begin() + cut);
            size_t whole = std::count(txt.begin(), txt.end(), '\n');
            size_t ls = txt.rfind('\n') == std::string::npos ? 0 : txt.rfind('\n') + 1;
            std::string last = txt.substr(ls);
            bool failing = l.verb == "broken" && o.returned == false;
            (void)failing;
            if (got.size() < whole && l.verb != "broken")
                bad(fmt("%zu marks loaded, %zu complete lines", got.size(), whole));
            if (got.size() > saved.size()) {
                bad(fmt("%zu marks loaded, %zu saved", got.size(), saved.size()));
                continue;
            }
            for (size_t i = 0; i < got.size() && i < whole; ++i)
                if (got[i] != saved[i])
                    bad(fmt("mark %zu ", i) + marks_text(Marks(1, got[i])) + ", saved "
                        + marks_text(Marks(1, saved[i])));
            if (got.size() > whole) {
                size_t eq = last.find('=');
                if (got.size() > whole + 1)
                    bad(fmt("%zu marks loaded, %zu lines", got.size(), whole));
                else if (eq == std::string::npos)
                    bad("a line cut before its separator became the mark "
                        + marks_text(Marks(1, got[whole])));
                else if (got[whole].first != saved[whole].first
                         || fmt("%u", saved[whole].second).compare(
                                0, fmt("%u", got[whole].second).size(),
                                fmt("%u", got[whole].second)) != 0)
                    bad("a cut line became the mark " + marks_text(Marks(1, got[whole]))
                        + ", saved " + marks_text(Marks(1, saved[whole])));
            }
            if (!o.returned && l.verb != "broken" && last.find('=') == std::string::npos)
                bad("loading threw " + o.what + " although every line is whole");
        } else if (l.verb == "edited") {
            // saved text with blank lines, comments and separator-less lines
            // added, other spacing, other line ends
            Rng r((uint64_t)l.num("seed"));
            std::string t;
            for (size_t i = 0; i <= saved.size(); ++i) {
                int extra = (int)r.below(3);
                for (int q = 0; q < extra; ++q) {
                    static const char* junk[] = {"", "   ", "\t", "# 12 = 1", ";5=6", "  #7=1",
                                                 " = 3", "=", "19", "  77  ", "12 65536"};
                    t += junk[r.below(11)];
                    t += "\n";
                }
                if (i == saved.size())
                    break;
                static const char* sp[] = {"", " ", "\t", "  "};
                t += sp[r.below(4)];
                t += fmt("%zu", saved[i].first);
                t += sp[r.below(4)];
                t += "=";
                t += sp[r.below(4)];
                t += fmt("%u", saved[i].second);
                t += sp[r.below(4)];
                if (r.chance(0.2))
                    t += "\r";
                if (i + 1 < saved.size() || r.chance(0.7))
                    t += "\n";
                else
                    break; // last line without a line end
            }
            Outcome o;
            Marks got = from_props(load_text(Bytes(t.begin(), t.end()), plan, o, false));
            g_run->probe("edited_file_loaded");
            g_run->ev("edited", got.size(), o.returned);
            if (!o.returned)
                bad("loading threw " + o.what);
            else if (got != saved)
                bad("loaded marks " + marks_text(got) + ", the file holds " + marks_text(saved)
                    + " and lines that are no marks");
        } else if (l.verb == "binary") {
            size_t nd = (size_t)l.num("dwords", 16);
            if (nd < 1 || nd > 100000)
                continue;
            Guarded g(nd * 4, (uint64_t)l.num("fill", 1), l.num("atend", 1) != 0, 4);
            Bytes before(g.p(), g.p() + nd * 4);
            int ret = 0;
            Outcome o = call([&] {
                LibScope ls;
                ret = p.fnt_serialize((uint32_t*)g.p(), (unsigned)nd);
                return true;
            });
            if (!g.slack_ok())
                bad("wrote outside the header");
            // a location takes 32 bits of the header
            bool fits = saved.size() + 2 <= nd;
            for (auto& x : saved)
                if (x.first > 0xffffffffull)
                    fits = false;
            if (!o.returned || ret != (fits ? 0 : -1)) {
                bad(fmt("serializing %zu marks into %zu dwords returned %d", saved.size(), nd, ret));
                continue;
            }
            if (!fits) {
                g_run->probe("header_too_small");
                if (Bytes(g.p(), g.p() + nd * 4) != before)
                    bad("a refused serialization wrote into the header");
                continue;
            }
            g_run->ev("header", hash_bytes(Bytes(g.p(), g.p() + nd * 4)));
            g.freeze(true);
            quadiron::Properties q;
            o = call([&] {
                LibScope ls;
                ret = q.fnt_deserialize((const uint32_t*)g.p(), (unsigned)nd);
                return true;
            });
            Marks want = saved, got = from_props(q);
            for (auto& x : want)
                x.second = (uint32_t)quadiron::OOR_MARK;
            if (!o.returned || ret != 0)
                bad(fmt("deserialize returned %d", ret));
            else if (got != want)
                bad("marks from the header " + marks_text(got) + ", expected " + marks_text(want));
        } else if (l.verb == "rawheader") {
            // arbitrary header contents: accepted exactly when well-formed
            size_t nd = (size_t)l.num("dwords", 4);
            if (nd > 4096)
                continue;
            Guarded g(nd * 4, 1, true, 4);
            Rng r((uint64_t)l.num("seed"));
            auto put = [&](size_t i, uint32_t v) {
                if (i < nd) {
                    g.p()[4 * i] = v >> 24;
                    g.p()[4 * i + 1] = v >> 16;
                    g.p()[4 * i + 2] = v >> 8;
                    g.p()[4 * i + 3] = v;
                }
            };
            uint32_t magic = l.num("badmagic") ? (uint32_t)r.next() | 1 : 0x464E5431;
            if (l.num("badmagic") && magic == 0x464E5431)
                continue;
            uint32_t count = (uint32_t)strtoull(l.str("count", "0").c_str(), 0, 10);
            put(0, magic);
            put(1, count);
            std::vector<uint32_t> off;
            for (size_t i = 2; i < nd; ++i) {
                off.push_back((uint32_t)r.next());
                put(i, off.back());
            }
            g.freeze(true);
            quadiron::Properties q;
            int ret = 0;
            Outcome o = call([&] {
                LibScope ls;
                ret = q.fnt_deserialize((const uint32_t*)g.p(), (unsigned)nd);
                return true;
            });
            bool well = nd >= 2 && !l.num("badmagic") && (uint64_t)count + 2 <= nd;
            g_run->fault(well ? "arbitrary_header" : "malformed_header");
            g_run->ev("raw", ret, well);
            Marks got = from_props(q);
            if (!o.returned)
                bad("deserialize threw " + o.what);
            else if (ret != (well ? 0 : -1))
                bad(fmt("deserialize of a %s header returned %d", well ? "well-formed" : "malformed",
                        ret));
            else if (!well && !got.empty())
                bad("a malformed header yields marks " + marks_text(got));
            else if (well) {
                Marks want;
                for (uint32_t i = 0; i < count; ++i)
                    want.push_back(Mark(off[i], (uint32_t)quadiron::OOR_MARK));
                if (got != want)
                    bad("marks from the header " + marks_text(got) + ", expected "
                        + marks_text(want));
            }
        }
    }
}
Scenario gen_props(uint64_t seed, const std::string&)
{
    Rng r(seed);
    Scenario s;
    int n = (int)r.below(r.chance(0.2) ? 60 : 9);
    size_t text = 0;
    uint64_t at = 0;
    bool wide = r.chance(0.3); // offsets of very large objects
    for (int i = 0; i < n; ++i) {
        static const uint64_t edge[] = {0, 1, 9, 10, 255, 65535, 65536, 4294967294ull, 4294967295ull,
                                        4294967296ull, 1099511627777ull, 9223372036854775807ull,
                                        18446744073709551615ull};
        switch (r.below(4)) {
        case 0:
            at += r.below(20);
            break;
        case 1:
            at = edge[r.below(wide ? 13 : 9)];
            break;
        case 2:
            at = wide ? r.next() >> r.below(64) : r.next() & 0xffffffff;
            break;
        default:
            at = r.below(100000);
        }
        if (!wide)
            at &= 0xffffffff;
        static const int64_t mk[] = {1, 1, 1, 2, 3, 8, 65536, 4294967295ll};
        int64_t m = mk[r.below(8)];
        s.add("mark").set("at", fmt("%llu", (unsigned long long)at)).set("m", m);
        text += fmt("%llu = %lld\n", (unsigned long long)at, (long long)m).size();
    }
    int ops = 4 + (int)r.below(14);
    for (int i = 0; i < ops; ++i) {
        static const char* v[] = {"text", "torn", "torn", "broken", "full", "edited", "binary",
                                  "rawheader", "rawheader"};
        Line& l = s.add(v[r.below(9)]);
        if (r.chance(0.6) && l.verb != "binary" && l.verb != "rawheader") {
            l.set("chunk", (int64_t)(1 + r.below(8)));
            if (r.chance(0.5))
                l.set("jit", (int64_t)(1 + r.below(1000)));
        }
        if (l.verb == "text" && r.chance(0.4)) {
            static const char* f[] = {"hex", "oct", "base", "sign", "locale", "locale"};
            l.set("fmt", f[r.below(6)]);
        }
        if (l.verb == "torn" || l.verb == "broken" || l.verb == "full") {
            l.set("at", (int64_t)r.below(text + 3));
            if (r.chance(0.3))
                l.set("strict", 1);
        } else if (l.verb == "edited")
            l.set("seed", (int64_t)r.below(100000));
        else if (l.verb == "binary") {
            l.set("dwords", (int64_t)std::max<int64_t>(1, r.chance(0.6) ? n + 2 + r.range(-2, 2)
                                                                        : (int64_t)r.below(80)));
            l.set("fill", (int64_t)r.below(50));
            if (r.chance(0.3))
                l.set("atend", 0);
        } else if (l.verb == "rawheader") {
            uint64_t nd = r.below(20);
            l.set("dwords", (int64_t)nd).set("seed", (int64_t)r.below(100000));
            if (r.chance(0.2))
                l.set("badmagic", 1);
            static const uint64_t c[] = {0xffffffff, 0xfffffffe, 0xfffffffd, 0x80000000,
                                         0x7fffffff, 0x40000000, 0x3fffffff, 0x3ffffffe};
            uint64_t cnt = r.chance(0.5) ? (uint64_t)std::max<int64_t>(0, (int64_t)nd - 2 + r.range(-2, 2))
                                         : r.chance(0.5) ? c[r.below(8)] : r.below(30);
            l.set("count", fmt("%llu", (unsigned long long)cnt));
        }
    }
    return s;
}

// ================================================================ cache
const uint64_t PRIMES[] = {5, 17, 97, 257, 12289, 40961, 65537};
const uint64_t PRIMES64[] = {5, 17, 257, 65537, 4294967291ull, 4295688193ull};

struct Dir {
    std::string path;
    int back;
    Dir()
    {
        path = fmt("simcache.%d", (int)getpid());
        back = ::open(".", O_RDONLY | O_DIRECTORY);
        if (mkdir(path.c_str(), 0755) != 0 || chdir(path.c_str()) != 0) {
            fprintf(stderr, "no scratch directory\n");
            _exit(2);
        }
    }
    static std::vector<std::string> files()
    {
        std::vector<std::string> r;
        DIR* d = opendir(".");
        while (dirent* e = readdir(d))
            if (std::string(e->d_name) != "." && std::string(e->d_name) != "..")
                r.push_back(e->d_name);
        closedir(d);
        std::sort(r.begin(), r.end());
        return r;
    }
    ~Dir()
    {
        for (auto& f : files())
            if (unlink(f.c_str()) != 0)
                rmdir(f.c_str());
        if (fchdir(back) != 0)
            _exit(2);
        ::close(back);
        rmdir(path.c_str());
    }
};
Bytes slurp(const std::string& f)
{
    Bytes b;
    int fd = ::open(f.c_str(), O_RDONLY);
    if (fd < 0)
        return b;
    uint8_t buf[4096];
    ssize_t n;
    while ((n = ::read(fd, buf, sizeof buf)) > 0)
        b.insert(b.end(), buf, buf + n);
    ::close(fd);
    return b;
}
void spew(const std::string& f, const Bytes& b)
{
    int fd = ::open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0)
        return;
    if (::write(fd, b.data(), b.size()) < 0) {
    }
    ::close(fd);
}
u128 powmod(u128 a, uint64_t e, u128 p)
{
    u128 r = 1 % p;
    a %= p;
    for (; e; e >>= 1, a = a * a % p)
        if (e & 1)
            r = r * a % p;
    return r;
}
// an element of order n modulo the prime p (n divides p-1)
uint64_t root_of(uint64_t p, uint64_t n)
{
    for (uint64_t g = 2; g < p; ++g) {
        uint64_t w = (uint64_t)powmod(g, (p - 1) / n, p);
        bool ok = true;
        for (uint64_t d = 1; d < n && ok; ++d)
            if (n % d == 0)
                ok = powmod(w, d, p) != 1;
        if (ok)
            return w;
    }
    return 1;
}
template <typename T>
std::string table(uint64_t p, int n, uint64_t w, bool cached)
{
    std::vector<uint64_t> got;
    Outcome o = call([&] {
        LibScope ls;
        auto gf = quadiron::gf::create<quadiron::gf::Prime<T>>((T)p);
        quadiron::vec::Vector<T> W(gf, n);
        if (cached)
            gf.compute_omegas_cached(W, n, (T)w);
        else
            gf.compute_omegas(W, n, (T)w);
        SeamScope ss;
        for (int i = 0; i < n; ++i)
            got.push_back(W.get(i));
        return true;
    });
    if (!o.returned)
        return "threw " + o.what;
    for (int i = 0; i < n; ++i)
        if (got[i] != (uint64_t)powmod(w, i, p))
            return fmt("entry %d of %d is %llu, expected %llu^%d mod %llu = %llu", i, n,
                       (unsigned long long)got[i], (unsigned long long)w, i, (unsigned long long)p,
                       (unsigned long long)powmod(w, i, p));
    return "";
}
void exec_cache(const Scenario& sc)
{
    Dir dir;
    int no = 0;
    if (const Line* h = sc.first("heap")) {
        g_alloc.fill = (uint8_t)h->num("fill", 0xA5);
        g_alloc.fill_random = h->num("random") != 0;
    }
    for (auto& l : sc.lines) {
        ++no;
        std::vector<std::string> fs = Dir::files();
        std::string f = fs.empty() ? "" : fs[(size_t)l.num("file") % fs.size()];
        if (l.verb == "table") {
            uint64_t p = (uint64_t)l.num("p", 257), n = (uint64_t)l.num("n", 4);
            int bits = (int)l.num("T", 32);
            if (p < 3 || n < 1 || (p - 1) % n != 0 || n > 5000 || (bits == 32 && p > 4294967295ull))
                continue;
            uint64_t w = root_of(p, n);
            if (l.has("len")) // only the first powers
                n = std::max<uint64_t>(1, std::min<uint64_t>(n, (uint64_t)l.num("len")));
            bool limited = l.has("space");
            struct rlimit old;
            if (limited) { // the disk is full after that many bytes
                getrlimit(RLIMIT_FSIZE, &old);
                signal(SIGXFSZ, SIG_IGN);
                struct rlimit lim = old;
                lim.rlim_cur = (rlim_t)l.num("space");
                setrlimit(RLIMIT_FSIZE, &lim);
                g_run->fault("disk_full");
            }
            bool cached = l.num("plain") == 0;
            std::string e = bits == 64 ? table<uint64_t>(p, (int)n, w, cached)
                                       : table<uint32_t>(p, (int)n, w, cached);
            if (limited)
                setrlimit(RLIMIT_FSIZE, &old);
            g_run->ev("table", p, n, Dir::files().size());
            for (auto& x : Dir::files())
                g_run->ev("file", hash_bytes(slurp(x)));
            if (!e.empty())
                g_run->violate("cache", fmt("line %d: table of powers of %llu modulo %llu: ", no,
                                            (unsigned long long)w, (unsigned long long)p)
                                            + e);
        } else if (f.empty())
            continue;
        else if (l.verb == "crash") { // while the file was being written
            Bytes b = slurp(f);
            size_t at = (size_t)l.num("at");
            if (at < b.size()) {
                b.resize(at);
                spew(f, b);
                g_run->fault("crash_during_write");
            }
        } else if (l.verb == "damage") {
            Bytes b = slurp(f);
            if (!b.empty()) {
                b[(size_t)l.num("at") % b.size()] ^= (uint8_t)std::max<int64_t>(1, l.num("x", 1));
                spew(f, b);
                g_run->fault("file_bit_damage");
            }
        } else if (l.verb == "extend") {
            Bytes b = slurp(f);
            std::string t;
            Rng r((uint64_t)l.num("seed"));
            int cnt = (int)l.num("count", 1);
            for (int i = 0; i < cnt && i < 5000; ++i)
                t += fmt("%llu\n", (unsigned long long)r.below(65537));
            b.insert(b.end(), t.begin(), t.end());
            spew(f, b);
            g_run->fault("file_of_other_length");
        } else if (l.verb == "replace") { // another program's file
            Rng r((uint64_t)l.num("seed"));
            std::string t;
            int cnt = (int)l.num("count", 4);
            for (int i = 0; i < cnt && i < 5000; ++i)
                t += fmt("%llu\n", (unsigned long long)r.below(257));
            spew(f, Bytes(t.begin(), t.end()));
            g_run->fault("foreign_file");
        } else if (l.verb == "swap" && fs.size() > 1) {
            std::string f2 = fs[(size_t)l.num("with") % fs.size()];
            Bytes a = slurp(f), b = slurp(f2);
            if (a != b) {
                spew(f, b);
                spew(f2, a);
                g_run->fault("files_exchanged");
            }
        } else if (l.verb == "remove") {
            if (unlink(f.c_str()) != 0)
                rmdir(f.c_str());
            g_run->fault("file_removed");
        } else if (l.verb == "directory") { // neither readable nor writable
            if (unlink(f.c_str()) == 0) {
                mkdir(f.c_str(), 0755);
                g_run->fault("file_unreadable");
            }
        } else if (l.verb == "dangling") {
            if (unlink(f.c_str()) == 0) {
                if (symlink("missing/dir/target", f.c_str()) != 0) {
                }
                g_run->fault("file_unwritable");
            }
        }
    }
}
Scenario gen_cache(uint64_t seed, const std::string&)
{
    Rng r(seed);
    Scenario s;
    static const int f[] = {0, 0xff, 0x01, 0x80, 0xa5};
    s.add("heap").set("fill", f[r.below(5)]).set("random", r.chance(0.3));
    int np = 1 + (int)r.below(3);
    std::vector<Line> tabs;
    for (int i = 0; i < np; ++i) {
        Line l("table");
        bool wide = r.chance(0.3);
        uint64_t p = wide ? PRIMES64[r.below(6)] : PRIMES[r.below(7)];
        std::vector<uint64_t> div;
        for (uint64_t d = 1; d <= 512; ++d)
            if ((p - 1) % d == 0)
                div.push_back(d);
        l.set("p", (int64_t)p).set("n", (int64_t)div[r.below(div.size())]).set("T", wide ? 64 : 32);
        tabs.push_back(l);
    }
    int n = 4 + (int)r.below(14);
    for (int i = 0; i < n; ++i) {
        double z = (r.next() >> 11) * (1.0 / 9007199254740992.0);
        if (i == 0 || z < 0.5) {
            Line l = tabs[r.below(np)];
            if (r.chance(0.15))
                l.set("len", (int64_t)(1 + r.below(64)));
            if (r.chance(0.1))
                l.set("space", (int64_t)r.below(60));
            if (r.chance(0.03))
                l.set("plain", 1);
            s.lines.push_back(l);
            continue;
        }
        static const char* v[] = {"crash", "crash", "crash", "damage", "extend", "replace", "swap",
                                  "remove", "directory", "dangling"};
        Line& l = s.add(v[r.below(10)]);
        l.set("file", (int64_t)r.below(4));
        if (l.verb == "crash")
            l.set("at", (int64_t)r.below(r.chance(0.5) ? 10 : 200));
        else if (l.verb == "damage")
            l.set("at", (int64_t)r.below(300)).set("x", (int64_t)1 << r.below(8));
        else if (l.verb == "extend" || l.verb == "replace")
            l.set("count", (int64_t)(1 + r.below(r.chance(0.8) ? 8 : 600))).set(
                "seed", (int64_t)r.below(1000));
        else if (l.verb == "swap")
            l.set("with", (int64_t)r.below(4));
    }
    return s;
}

} // namespace
World world_props()
{
    return World{"props", gen_props, exec_props};
}
World world_cache()
{
    return World{"cache", gen_cache, exec_cache};
}
} // namespace sim
