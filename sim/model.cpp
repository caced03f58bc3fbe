#include "model.h"
#include <map>

namespace sim {

static u128 mulmod(u128 a, u128 b, u128 p)
{
    return a * b % p; // p < 2^33
}
u128 FieldM::mul(u128 a, u128 b) const
{
    if (!binary)
        return mulmod(a, b, p);
    u128 r = 0;
    u128 top = (u128)1 << (bits - 1);
    u128 mask = bits == 128 ? ~(u128)0 : (((u128)1 << bits) - 1);
    while (b) {
        if (b & 1)
            r ^= a;
        b >>= 1;
        bool c = (a & top) != 0;
        a = (a << 1) & mask;
        if (c)
            a ^= poly;
    }
    return r;
}
u128 FieldM::pow(u128 a, u128 e) const
{
    u128 r = 1;
    while (e) {
        if (e & 1)
            r = mul(r, a);
        a = mul(a, a);
        e >>= 1;
    }
    return r;
}
u128 FieldM::order() const
{
    if (!binary)
        return p - 1;
    return bits == 128 ? ~(u128)0 : (((u128)1 << bits) - 1);
}
u128 FieldM::inv(u128 a) const
{
    return pow(a, order() - 1);
}
const FieldM& FieldM::get(bool binary, int bits, u128 p)
{
    static std::map<std::pair<int, uint64_t>, FieldM> cache;
    auto key = std::make_pair(binary ? bits : 0, (uint64_t)p);
    auto it = cache.find(key);
    if (it != cache.end())
        return it->second;
    FieldM f;
    f.binary = binary;
    f.bits = bits;
    f.p = p;
    if (binary) {
        switch (bits) {
        case 8:
            f.poly = 0x1d;
            f.factors = {3, 5, 17};
            break;
        case 16:
            f.poly = 0x100b;
            f.factors = {3, 5, 17, 257};
            break;
        case 32:
            f.poly = 0x8d;
            f.factors = {3, 5, 17, 257, 65537};
            break;
        case 64:
            f.poly = 0x1b;
            f.factors = {3, 5, 17, 257, 641, 65537, 6700417};
            break;
        default:
            f.poly = 0x87;
            f.factors = {
                3, 5, 17, 257, 641, 65537, 274177, 6700417, 67280421310721ull};
        }
    } else {
        u128 o = p - 1;
        for (u128 d = 2; d * d <= o; ++d)
            while (o % d == 0) {
                f.factors.push_back(d);
                o /= d;
            }
        if (o > 1)
            f.factors.push_back(o);
    }
    for (u128 c = 2;; ++c) {
        bool ok = true;
        for (auto q : f.factors)
            if (f.pow(c, f.order() / q) == 1) {
                ok = false;
                break;
            }
        if (ok) {
            f.root = c;
            break;
        }
    }
    return cache[key] = f;
}

static u128 code_len(const std::vector<u128>& fac, u128 n)
{
    u128 x = 1;
    for (size_t i = 0; i < fac.size(); ++i) {
        x *= fac[i];
        if (x >= n)
            for (size_t j = 0; j <= i; ++j) {
                x /= fac[j];
                if (x < n)
                    return x * fac[j];
            }
    }
    return 0;
}

static const FieldM& field_of(const CodeCfg& c)
{
    if (c.kind == "fnt")
        return FieldM::get(false, 0, ((u128)1 << (8 * c.w)) + 1);
    if (c.kind == "nf4")
        return FieldM::get(false, 0, 65537);
    if (c.kind == "gfp")
        return FieldM::get(
            false, 0, c.w < 4 ? ((u128)1 << (8 * c.w)) + 1 : (u128)4294991873ull);
    return FieldM::get(true, 8 * c.w, 0);
}

bool in_domain(const CodeCfg& c)
{
    if (c.k < 1 || c.m < 1 || c.k + c.m < 2)
        return false;
    auto one = [&](std::initializer_list<int> l) {
        for (int x : l)
            if (x == c.w)
                return true;
        return false;
    };
    if (c.capi && !(c.kind == "fnt" && c.tb == 32 && c.pkt == 1024))
        return false;
    const FieldM& f = field_of(c);
    u128 ord = f.order();
    u128 len = c.k + c.m;
    if (c.kind == "fnt") {
        if (!one({1, 2}) || !(c.tb == 32 || c.tb == 64 || (c.tb == 16 && c.w == 1)))
            return false;
        return len <= ord && 2 * (u128)c.k <= ord;
    }
    if (c.kind == "nf4") {
        if (c.sys)
            return false;
        if (!((c.tb == 32 && c.w == 2) || (c.tb == 64 && one({2, 4}))
              || (c.tb == 128 && one({2, 4, 8}))))
            return false;
        return len <= ord && 2 * (u128)c.k <= ord;
    }
    if (c.kind == "gfp") {
        if (c.sys)
            return false;
        if (!((c.tb == 32 && one({1, 2})) || (c.tb == 64 && one({1, 2, 4}))))
            return false;
        return len <= ord && 2 * (u128)c.k <= ord;
    }
    bool tw = (c.tb == 32 && one({1, 2, 4})) || (c.tb == 64 && one({1, 2, 4, 8}))
              || (c.tb == 128 && one({1, 2, 4, 8, 16}));
    if (!tw)
        return false;
    if (c.kind == "gf2nv" || c.kind == "gf2nc")
        return c.sys && len <= ord + (ord == ~(u128)0 ? 0 : 1);
    if (c.sys)
        return false;
    if (c.kind == "gf2nfft")
        return len <= ord && 2 * (u128)c.k <= ord;
    if (c.kind == "gf2nadd") {
        u128 n = 1;
        while (n < len)
            n *= 2;
        return n <= ord;
    }
    return false;
}

Model::Model(const CodeCfg& c) : cfg(c), k(c.k), m(c.m)
{
    f = &field_of(c);
    const FieldM& F = *f;
    n_out = c.sys ? m : k + m;
    lanes = c.kind == "nf4" ? c.w / 2 : 1;
    lane_bytes = c.w / lanes;
    G.assign((size_t)n_out * k, 0);
    auto lagrange = [&](const std::vector<u128>& xs, unsigned first) {
        // outputs interpolate the data at xs[0..k-1], evaluated at the rest
        std::vector<u128> den(k);
        for (unsigned j = 0; j < k; ++j) {
            u128 d = 1;
            for (unsigned l = 0; l < k; ++l)
                if (l != j)
                    d = F.mul(d, F.sub(xs[j], xs[l]));
            den[j] = F.inv(d);
        }
        for (unsigned i = 0; i < n_out; ++i) {
            u128 x = xs[first + i];
            // prefix/suffix products avoid divisions
            std::vector<u128> suf(k + 1, 1);
            for (unsigned l = k; l-- > 0;)
                suf[l] = F.mul(suf[l + 1], F.sub(x, xs[l]));
            u128 pre = 1;
            for (unsigned j = 0; j < k; ++j) {
                G[(size_t)i * k + j] = F.mul(F.mul(pre, suf[j + 1]), den[j]);
                pre = F.mul(pre, F.sub(x, xs[j]));
            }
        }
    };
    if (c.kind == "gf2nc") {
        for (unsigned i = 0; i < m; ++i)
            for (unsigned j = 0; j < k; ++j)
                G[(size_t)i * k + j] = F.inv((u128)i ^ (u128)(j + m));
        for (unsigned j = 0; j < k; ++j) {
            u128 d = F.inv(G[j]);
            for (unsigned i = 0; i < m; ++i)
                G[(size_t)i * k + j] = F.mul(G[(size_t)i * k + j], d);
        }
        for (unsigned i = 1; i < m; ++i) {
            u128 d = F.inv(G[(size_t)i * k]);
            for (unsigned j = 0; j < k; ++j)
                G[(size_t)i * k + j] = F.mul(G[(size_t)i * k + j], d);
        }
        return;
    }
    std::vector<u128> xs(k + m);
    if (c.kind == "gf2nv") {
        for (unsigned i = 0; i < k + m; ++i)
            xs[i] = i;
        lagrange(xs, k);
        return;
    }
    if (c.kind == "gf2nadd") {
        unsigned mm = 0;
        while (((u128)1 << mm) < k + m)
            ++mm;
        std::vector<u128> b(mm);
        for (unsigned i = 0; i + 1 < mm; ++i)
            b[i] = F.pow(F.root, i + 1);
        if (mm)
            b[mm - 1] = 1;
        for (unsigned i = 0; i < k + m; ++i) {
            u128 x = 0;
            for (unsigned j = 0; j < mm; ++j)
                if (i >> j & 1)
                    x ^= b[j];
            xs[i] = x;
        }
        n = (uint64_t)1 << mm;
    } else {
        n = (uint64_t)code_len(F.factors, k + m);
        u128 r = F.pow(F.root, F.order() / n);
        xs[0] = 1;
        for (unsigned i = 1; i < k + m; ++i)
            xs[i] = F.mul(xs[i - 1], r);
        if (c.sys) {
            lagrange(xs, k);
            return;
        }
    }
    for (unsigned i = 0; i < n_out; ++i) {
        u128 v = 1;
        for (unsigned j = 0; j < k; ++j) {
            G[(size_t)i * k + j] = v;
            v = F.mul(v, xs[i]);
        }
    }
}

u128 Model::lane_get(const Bytes& b, size_t word, unsigned lane) const
{
    u128 v = 0;
    size_t o = word * cfg.w + lane * lane_bytes;
    for (unsigned i = lane_bytes; i-- > 0;)
        v = v << 8 | b[o + i];
    return v;
}
void Model::lane_set(Bytes& b, size_t word, unsigned lane, u128 v) const
{
    size_t o = word * cfg.w + lane * lane_bytes;
    for (unsigned i = 0; i < lane_bytes; ++i) {
        b[o + i] = (uint8_t)v;
        v >>= 8;
    }
}

Encoded Model::encode(const std::vector<Bytes>& data) const
{
    Encoded e;
    size_t words = data[0].size() / cfg.w;
    e.frag.assign(n_out, Bytes(words * cfg.w, 0));
    e.marks.resize(n_out);
    u128 limit = lane_bytes == 16 ? 0 : (u128)1 << (8 * lane_bytes);
    std::vector<u128> d(k);
    std::vector<uint64_t> d64(k);
    bool small = !f->binary;
    for (size_t wd = 0; wd < words; ++wd) {
        std::vector<uint32_t> flag(n_out, 0);
        for (unsigned ln = 0; ln < lanes; ++ln) {
            bool zero = true;
            for (unsigned j = 0; j < k; ++j) {
                d[j] = lane_get(data[j], wd, ln);
                zero = zero && d[j] == 0;
                d64[j] = (uint64_t)d[j];
            }
            if (zero)
                continue;
            for (unsigned i = 0; i < n_out; ++i) {
                u128 s = 0;
                if (small) {
                    for (unsigned j = 0; j < k; ++j)
                        s += (u128)((uint64_t)g(i, j)) * d64[j]; // < 2^66 each
                    s %= f->p;
                } else {
                    for (unsigned j = 0; j < k; ++j)
                        s ^= f->mul(g(i, j), d[j]);
                }
                if (limit && s >= limit) {
                    flag[i] |= 1u << ln;
                    s -= limit;
                }
                lane_set(e.frag[i], wd, ln, s);
            }
        }
        for (unsigned i = 0; i < n_out; ++i)
            if (flag[i])
                e.marks[i].emplace_back(wd, flag[i]);
    }
    return e;
}

bool Model::craft(std::vector<Bytes>& data, size_t word, unsigned lane,
                  const std::vector<int>& frags_in, uint64_t seed) const
{
    if (!has_oor())
        return false;
    const FieldM& F = *f;
    u128 limit = (u128)1 << (8 * lane_bytes);
    if (word * cfg.w >= data[0].size() || lane >= lanes)
        return false;
    std::vector<int> frags;
    for (int x : frags_in) {
        bool dup = x < 0 || x >= (int)n_out;
        for (int y : frags)
            dup = dup || y == x;
        if (!dup && frags.size() < k)
            frags.push_back(x);
    }
    size_t s = frags.size();
    if (!s)
        return false;
    Rng rng(seed ^ 0xC0FFEE);
    for (int attempt = 0; attempt < 12; ++attempt) {
        std::vector<u128> d(k);
        for (unsigned j = 0; j < k; ++j)
            d[j] = rng.below((uint64_t)limit);
        // choose s pivot columns
        std::vector<unsigned> cols(k);
        for (unsigned j = 0; j < k; ++j)
            cols[j] = j;
        for (size_t j = 0; j < s; ++j)
            std::swap(cols[j], cols[j + rng.below(k - j)]);
        std::vector<std::vector<u128>> A(s, std::vector<u128>(s + 1));
        for (size_t i = 0; i < s; ++i) {
            u128 t = limit + rng.below((uint64_t)(F.p - limit));
            for (unsigned j = 0; j < k; ++j) {
                bool piv = false;
                for (size_t c = 0; c < s; ++c)
                    piv = piv || cols[c] == j;
                if (!piv)
                    t = F.sub(t, F.mul(g(frags[i], j), d[j]));
            }
            for (size_t c = 0; c < s; ++c)
                A[i][c] = g(frags[i], cols[c]);
            A[i][s] = t;
        }
        bool ok = true;
        for (size_t c = 0; c < s && ok; ++c) {
            size_t pv = c;
            while (pv < s && A[pv][c] == 0)
                ++pv;
            if (pv == s) {
                ok = false;
                break;
            }
            std::swap(A[pv], A[c]);
            u128 iv = F.inv(A[c][c]);
            for (size_t j = c; j <= s; ++j)
                A[c][j] = F.mul(A[c][j], iv);
            for (size_t i = 0; i < s; ++i)
                if (i != c && A[i][c] != 0) {
                    u128 q = A[i][c];
                    for (size_t j = c; j <= s; ++j)
                        A[i][j] = F.sub(A[i][j], F.mul(q, A[c][j]));
                }
        }
        if (!ok)
            continue;
        for (size_t c = 0; c < s; ++c) {
            d[cols[c]] = A[c][s];
            ok = ok && A[c][s] < limit;
        }
        if (!ok)
            continue;
        for (unsigned j = 0; j < k; ++j)
            lane_set(data[j], word, lane, d[j]);
        return true;
    }
    return false;
}

static std::map<std::string, std::unique_ptr<Model>> models;
const Model& model_for(const CodeCfg& c)
{
    CodeCfg key = c;
    key.pkt = 0;
    key.capi = false;
    key.tb = 0; // the code does not depend on the element type or packet size
    auto& p = models[key.text()];
    if (!p)
        p.reset(new Model(c));
    return *p;
}
void model_trim()
{
    if (models.size() > 400)
        models.clear();
}

std::vector<Bytes> gen_data(const Model& md, size_t words, uint64_t seed,
                            const std::string& pat)
{
    Rng rng(seed ^ 0xDA7A);
    std::vector<Bytes> d(md.k, Bytes(words * md.cfg.w));
    for (unsigned j = 0; j < md.k; ++j) {
        Rng r2(mix(seed, j));
        for (size_t i = 0; i < d[j].size(); ++i) {
            uint8_t v = 0;
            if (pat == "rand")
                v = (uint8_t)r2.next();
            else if (pat == "ff")
                v = 0xff;
            else if (pat == "zero")
                v = 0;
            else if (pat == "sparse")
                v = r2.chance(0.08) ? (uint8_t)r2.next() : 0;
            else if (pat == "edge") {
                static const uint8_t e[] = {0, 1, 0xff, 0xfe, 0x80, 0x7f};
                v = e[r2.below(6)];
            } else if (pat == "same")
                v = (uint8_t)mix(seed, i);
            else if (pat == "one") // a single non-zero chunk
                v = j == seed % md.k ? (uint8_t)r2.next() : 0;
            d[j][i] = v;
        }
    }
    return d;
}

} // namespace sim
