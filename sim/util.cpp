#include "util.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <new>

namespace sim {

static const int PKTS[] = {1, 2, 3, 4, 5, 7, 8, 8, 9, 12, 15, 16, 17, 20, 24,
                           31, 32, 33, 40, 48, 64, 65, 100};

static int pick_pkt(Rng& r, bool small)
{
    if (!small && r.chance(0.02))
        return r.chance(0.8) ? 1024 : 1000 + (int)r.below(4000);
    return PKTS[r.below(small ? 14 : sizeof PKTS / sizeof *PKTS)];
}
static int pick_tb(Rng& r, const std::string& kind, int w)
{
    if (kind == "fnt") {
        if (w == 1) {
            static const int t[] = {16, 16, 32, 64};
            return t[r.below(4)];
        }
        return r.chance(0.75) ? 32 : 64;
    }
    if (kind == "nf4") {
        if (w == 2) {
            static const int t[] = {32, 32, 64, 128};
            return t[r.below(4)];
        }
        if (w == 4)
            return r.chance(0.7) ? 64 : 128;
        return 128;
    }
    if (kind == "gfp")
        return w <= 2 && r.chance(0.4) ? 32 : 64;
    if (w <= 4)
        return r.chance(0.6) ? 32 : (r.chance(0.6) ? 64 : 128);
    if (w <= 8)
        return r.chance(0.7) ? 64 : 128;
    return 128;
}

bool g_deep = false;
CodeCfg gen_code(Rng& r, const GenOpt& o)
{
    while (true) {
        CodeCfg c;
        if (!o.kinds.empty())
            c.kind = o.kinds;
        else {
            static const char* ks[] = {"fnt", "fnt", "fnt", "fnt", "fnt", "fnt",
                                       "fnt", "fnt", "nf4", "nf4", "nf4", "nf4",
                                       "gfp", "gfp", "gf2nv", "gf2nc", "gf2nc",
                                       "gf2nfft", "gf2nadd", "gf2nadd"};
            c.kind = ks[r.below(20)];
        }
        if (o.vertical_only && c.kind != "fnt" && c.kind != "nf4")
            continue;
        if (c.kind == "fnt")
            c.w = r.chance(0.5) ? 1 : 2;
        else if (c.kind == "nf4")
            // construction of the wide fields is expensive: keep them rare
            c.w = r.chance(0.82) ? 2 : (r.chance(o.small ? 1.0 : 0.95) ? 4 : 8);
        else if (c.kind == "gfp")
            c.w = r.chance(0.5) ? 1 : (r.chance(0.6) ? 2 : 4);
        else {
            c.w = 1;
            if (!o.small && r.chance(0.10))
                c.w = r.chance(0.05) ? 16 : 1 << r.below(4);
        }
        c.tb = pick_tb(r, c.kind, c.w);
        c.sys = c.kind == "gf2nv" || c.kind == "gf2nc"
                    ? true
                    : (c.kind == "fnt" ? r.chance(0.5) : false);
        double z = (r.next() >> 11) * (1.0 / 9007199254740992.0);
        if (g_deep && !o.small)
            z = 0.6 + 0.4 * z;
        if (o.small || z < 0.70) {
            c.k = 1 + (int)r.below(o.small ? 5 : 9);
            c.m = 1 + (int)r.below(o.small ? 4 : 7);
        } else if (z < 0.86) { // exact powers of two and their neighbours
            int n = 1 << r.range(2, 6);
            int tot = n + (int)r.range(-1, 1);
            c.k = 1 + (int)r.below(tot - 1);
            c.m = tot - c.k;
        } else if (z < 0.985 || !o.allow_big) {
            c.k = 1 + (int)r.below(40);
            c.m = 1 + (int)r.below(40);
        } else if (c.w == 2 && (c.kind == "fnt" || c.kind == "nf4") && r.chance(0.7)) {
            // transforms longer than any one-byte field has
            int tot = 257 + (int)r.below(r.chance(0.2) ? (g_deep ? 9000 : 4000) : 900);
            c.k = 1 + (int)r.below(tot - 1);
            c.m = tot - c.k;
        } else { // the edge of the one-byte fields
            c.k = 1 + (int)r.below(128);
            c.m = (int)(r.chance(0.5) ? 256 - c.k - r.below(3) : 1 + r.below(100));
        }
        if (r.chance(0.05))
            c.k = 1;
        if (r.chance(0.05))
            c.m = 1;
        c.pkt = pick_pkt(r, o.small);
        if (c.kind[0] == 'g')
            c.pkt = 8; // these codes take no packet size
        if (o.capi && c.kind == "fnt" && r.chance(0.12)) {
            c.capi = true;
            c.tb = 32;
            c.pkt = 1024;
        }
        if (in_domain(c))
            return c;
    }
}
CodeCfg gen_sibling(Rng& r, const CodeCfg& c)
{
    for (int i = 0; i < 20; ++i) {
        CodeCfg d = c;
        if (c.capi && r.chance(0.6))
            return d;
        d.capi = false;
        d.tb = pick_tb(r, c.kind, c.w);
        if (c.kind[0] != 'g')
            d.pkt = pick_pkt(r, false);
        if (in_domain(d))
            return d;
    }
    return c;
}
CodeCfg gen_neighbour(Rng& r, const CodeCfg& c)
{
    for (int i = 0; i < 50; ++i) {
        CodeCfg d = c;
        switch (r.below(7)) {
        case 0: // same data, more or fewer parities
            d.m = std::max(1, c.m + (int)r.range(-2, 3));
            break;
        case 1: // same length
            d.k = 1 + (int)r.below(c.k + c.m - 1);
            d.m = c.k + c.m - d.k;
            break;
        case 2:
            std::swap(d.k, d.m);
            break;
        case 3: // another length
            d.k = 1 + (int)r.below(2 * c.k);
            d.m = 1 + (int)r.below(2 * c.m);
            break;
        case 4: // another word size
            d.w = 1 << r.below(c.kind == "nf4" ? 4 : 3);
            d.tb = d.capi ? 32 : pick_tb(r, d.kind, d.w);
            break;
        case 5:
            d.sys = !c.sys;
            break;
        default: {
            GenOpt o;
            o.small = true;
            o.capi = true;
            CodeCfg e = gen_code(r, o);
            e.k = c.k;
            e.m = c.m;
            d = e;
        }
        }
        d = gen_sibling(r, d);
        if (d.kind == "gf2nv" || d.kind == "gf2nc")
            d.sys = true;
        else if (d.kind != "fnt")
            d.sys = false;
        if ((d.k != c.k || d.m != c.m || d.w != c.w || d.sys != c.sys || d.kind != c.kind)
            && !(d.kind == "nf4" && d.w > 4) && in_domain(d))
            return d;
    }
    return gen_sibling(r, c);
}
size_t gen_words(Rng& r, const CodeCfg& c, size_t cap)
{
    size_t p = c.pkt;
    size_t w;
    int most = g_deep ? 40 : 4;
    bool lengthy = false; // rarely beyond 16 bits of words or bytes
    if (g_deep)
        cap *= 20;
    else if (r.chance(0.003) && c.k + c.m < 6 && c.kind != "nf4") {
        cap *= 200;
        lengthy = true;
    }
    switch (r.below(8)) {
    case 0:
        w = 1;
        break;
    case 1:
        w = p;
        break;
    case 2:
        w = p * r.range(1, most);
        break;
    case 3:
        w = p * r.range(1, most) + 1;
        break;
    case 4:
        w = p * r.range(1, most) - 1;
        break;
    case 5:
        w = 1 + r.below(p);
        break;
    default:
        w = 1 + r.below(p * (most + 1) + 20);
    }
    if (w < 1)
        w = 1;
    double cost = (double)(c.k + c.m) * c.k * (c.kind[0] == 'g' && c.kind[1] == 'f'
                                                   && c.kind[2] == '2'
                                                   ? c.w * 8
                                                   : (c.kind == "nf4" ? c.w / 2 : 1));
    if (lengthy)
        w = 1 + r.below(cap);
    size_t lim = (size_t)((g_deep ? 20 : 1) * 600000 / cost) + 1;
    if (lim < cap)
        cap = lim;
    return w > cap ? 1 + r.below(cap) : w;
}
std::string gen_pat(Rng& r)
{
    static const char* p[] = {"rand", "rand", "rand", "rand", "rand", "sparse",
                              "edge", "ff", "zero", "same", "one"};
    return p[r.below(11)];
}
std::string gen_list(Rng& r, int n, int count)
{
    std::vector<int> v(n);
    for (int i = 0; i < n; ++i)
        v[i] = i;
    for (int i = 0; i < n; ++i)
        std::swap(v[i], v[i + r.below(n - i)]);
    v.resize(std::min(n, std::max(0, count)));
    std::sort(v.begin(), v.end());
    return list_text(v);
}
void gen_crafts(Rng& r, Scenario& s, const CodeCfg& c, int obj, size_t words, int n)
{
    if (c.kind[0] == 'g' && c.kind != "gfp")
        return;
    unsigned n_out = c.sys ? c.m : c.k + c.m;
    size_t p = c.pkt;
    for (int i = 0; i < n; ++i) {
        size_t wd;
        switch (r.below(6)) {
        case 0:
            wd = 0;
            break;
        case 1:
            wd = words - 1;
            break;
        case 2: // first of a packet
            wd = p * r.below(words / p + 1);
            break;
        case 3: // last of a packet
            wd = p * (1 + r.below(words / p + 1)) - 1;
            break;
        default:
            wd = r.below(words);
        }
        if (wd >= words)
            wd = words - 1;
        int cnt = 1 + (int)r.below(std::min<unsigned>(n_out, r.chance(0.3) ? c.k : 2));
        if (cnt > c.k)
            cnt = c.k;
        if (cnt > 6)
            cnt = 6;
        Line& l = s.add("craft");
        l.set("obj", obj).set("word", (int64_t)wd);
        if (c.kind == "nf4")
            l.set("lane", (int64_t)r.below(c.w / 2));
        l.set("frags", gen_list(r, n_out, cnt)).set("seed", (int64_t)r.below(1000));
        if (r.chance(0.02)) { // many marks in the same fragments
            l.set("run", (int64_t)(2 + r.below(r.chance(0.5) ? 20 : 300)));
            l.set("step", (int64_t)(1 + r.below(r.chance(0.6) ? 1 : p + 2)));
        }
    }
}
void gen_delivery(Rng& r, Line& l)
{
    if (r.chance(0.5)) {
        static const int ch[] = {1, 2, 3, 7, 16, 33, 100};
        l.set("chunk", ch[r.below(7)]);
        if (r.chance(0.5))
            l.set("jit", (int64_t)r.below(100));
    }
    if (r.chance(0.3))
        l.set("delay", (int64_t)r.below(5000));
    if (r.chance(0.15))
        l.set("stall", (int64_t)(1 + r.below(5)));
}
std::vector<int> parse_list(const std::string& s)
{
    std::vector<int> v;
    size_t i = 0;
    while (i < s.size()) {
        size_t e = s.find(',', i);
        if (e == std::string::npos)
            e = s.size();
        if (e > i)
            v.push_back(atoi(s.substr(i, e - i).c_str()));
        i = e + 1;
    }
    return v;
}
std::string list_text(const std::vector<int>& v)
{
    std::string s;
    for (int x : v)
        s += (s.empty() ? "" : ",") + std::to_string(x);
    return s;
}

Object build_object(const Scenario& s, const Model& md, const Line& l)
{
    Object o;
    o.id = (int)l.num("id");
    int64_t w = l.num("words", 1);
    o.words = w < 0 ? 0 : (size_t)w;
    o.data = gen_data(md, o.words, l.num("seed"), l.str("pat", "rand"));
    for (auto& c : s.lines)
        if (c.verb == "craft" && c.num("obj") == o.id) {
            // one word, or `run` words `step` apart
            size_t wd = (size_t)c.num("word"), n = (size_t)c.num("run", 1);
            for (size_t i = 0; i < n && wd < o.words; ++i, wd += (size_t)c.num("step", 1))
                if (md.craft(
                        o.data,
                        wd,
                        (unsigned)c.num("lane"),
                        parse_list(c.str("frags")),
                        c.num("seed") + (int64_t)i))
                    g_run->probe("crafted_unrepresentable_symbol");
        }
    o.truth = md.encode(o.data);
    return o;
}

PropsVec to_props(const std::vector<Marks>& m)
{
    PropsVec p(m.size());
    for (size_t i = 0; i < m.size(); ++i)
        for (auto& x : m[i])
            p[i].add(x.first, x.second);
    return p;
}
Marks from_props(const quadiron::Properties& p)
{
    Marks m;
    for (auto& x : p.get_map())
        m.emplace_back(x.first, x.second);
    return m;
}
std::string marks_text(const Marks& m, size_t max)
{
    std::string s = "[";
    for (size_t i = 0; i < m.size() && i < max; ++i)
        s += fmt("%s%zu:%u", i ? " " : "", m[i].first, m[i].second);
    if (m.size() > max)
        s += fmt(" ..%zu", m.size());
    return s + "]";
}
Marks marks_below(const Marks& m, size_t limit)
{
    Marks r;
    for (auto& x : m)
        if (x.first < limit)
            r.push_back(x);
    return r;
}
uint64_t hash_bytes(const Bytes& b)
{
    uint64_t h = 0xcbf29ce484222325ull ^ b.size();
    for (uint8_t c : b)
        h = (h ^ c) * 0x100000001b3ull;
    return h;
}

void InSet::add(const Bytes* src, const StreamPlan& p, int id)
{
    if (!src) {
        ptr.push_back(nullptr);
        return;
    }
    buf.emplace_back(new SimIn(*src, p, id));
    st.emplace_back(new std::istream(buf.back().get()));
    if (p.fail_kind == 3)
        st.back()->exceptions(std::ios::badbit);
    ptr.push_back(st.back().get());
}
void OutSet::add(bool wanted, const StreamPlan& p, int id)
{
    buf.emplace_back(new SimOut(p, id));
    st.emplace_back(new std::ostream(buf.back().get()));
    if (p.fail_kind == 3)
        st.back()->exceptions(std::ios::badbit);
    ptr.push_back(wanted ? st.back().get() : nullptr);
}

Outcome call(const std::function<bool()>& f)
{
    Outcome o;
    int depth = lib_depth;
    try {
        o.ok = f();
        o.returned = true;
    } catch (StreamFault& e) {
        o.stream_fault = true;
        o.what = e.what();
    } catch (std::bad_alloc& e) {
        o.bad_alloc = true;
        o.what = "bad_alloc";
    } catch (std::exception& e) {
        o.what = e.what();
        if (o.what.empty())
            o.what = "std::exception";
    } catch (...) {
        o.what = "unknown exception";
    }
    lib_depth = depth;
    return o;
}

// ---------------------------------------------- headers of the C interface
static const uint32_t MAGIC = 0x464E5431;

uint32_t c_be(const uint8_t* p)
{
    return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3];
}
void c_put_be(uint8_t* p, uint32_t v)
{
    p[0] = v >> 24;
    p[1] = v >> 16;
    p[2] = v >> 8;
    p[3] = v;
}
size_t meta_size(size_t block)
{
    return (block / 65536 + 16) * 4;
}
// header for these marks; empty when they do not fit
Bytes header(const Marks& m, size_t meta)
{
    Bytes h(meta, 0);
    if (8 + 4 * m.size() > meta)
        return Bytes();
    c_put_be(&h[0], MAGIC);
    c_put_be(&h[4], (uint32_t)m.size());
    for (size_t i = 0; i < m.size(); ++i)
        c_put_be(&h[8 + 4 * i], (uint32_t)m[i].first);
    return h;
}
bool parse_header(const Bytes& frag, size_t meta, std::set<size_t>& locs)
{
    if (c_be(&frag[0]) != MAGIC)
        return false;
    uint64_t n = c_be(&frag[4]);
    if ((n + 2) * 4 > meta)
        return false;
    for (uint64_t i = 0; i < n; ++i)
        locs.insert(c_be(&frag[8 + 4 * i]));
    return true;
}

bool storable(const CodeCfg& c, const Object& o)
{
    if (!c.capi)
        return true;
    for (auto& m : o.truth.marks)
        if (header(m, meta_size(o.words * c.w)).empty())
            return false;
    return true;
}

} // namespace sim
