// The C interface behind the common one: fragments get their headers on the way
// in and lose them on the way out.
#include "util.h"
#include "quadiron_c.h"
#include <stdexcept>

namespace sim {
namespace {
class CApiCode : public ICode {
    QuadironFnt32* inst = nullptr;
    struct Frags { // header + payload of every node, as the caller owns them
        std::vector<Bytes> mem;
        std::vector<uint8_t*> d, p;
    };
    Frags frags(const std::vector<uint8_t*>& data, const std::vector<uint8_t*>& par,
                const PropsVec& props, const std::vector<int>& missing, size_t meta, size_t bytes)
    {
        Frags f;
        f.mem.resize(k + m);
        for (unsigned nd = 0; nd < k + m; ++nd) {
            Bytes h = header(Marks(), meta);
            const uint8_t* src = nullptr;
            if (sys && nd < k)
                src = data[nd];
            else {
                unsigned i = nd - (sys ? k : 0);
                src = par[i];
                if (!missing[nd])
                    h = header(from_props(props[i]), meta);
            }
            if (missing[nd])
                std::fill(h.begin(), h.end(), 0xc3);
            f.mem[nd] = h;
            f.mem[nd].resize(meta + bytes, 0x3c);
            if (!missing[nd])
                memcpy(f.mem[nd].data() + meta, src, bytes);
            (nd < k ? f.d : f.p).push_back(f.mem[nd].data());
        }
        return f;
    }
    void take(const uint8_t* frag, size_t meta, quadiron::Properties& pr)
    {
        std::set<size_t> locs;
        pr.clear();
        if (!parse_header(Bytes(frag, frag + meta), meta, locs))
            throw std::runtime_error("the C interface produced a malformed header");
        unsigned n = c_be(frag + 4);
        for (unsigned i = 0; i < n; ++i)
            pr.add(c_be(frag + 8 + 4 * i), quadiron::OOR_MARK);
    }

  public:
    explicit CApiCode(const CodeCfg& c)
    {
        cfg = c;
        k = c.k;
        m = c.m;
        sys = c.sys;
        w = c.w;
        n_out = sys ? m : k + m;
        {
            LibScope ls;
            inst = quadiron_fnt32_new(c.w, c.k, c.m, c.sys);
        }
        if (!inst)
            throw std::runtime_error("quadiron_fnt32_new failed");
    }
    ~CApiCode() override
    {
        LibScope ls;
        quadiron_fnt32_delete(inst);
    }
    void enc_streams(bool, const std::vector<std::istream*>&, std::vector<std::ostream*>&,
                     PropsVec&) override
    {
        throw std::runtime_error("no streams in the C interface");
    }
    bool dec_streams(bool, const std::vector<std::istream*>&, const std::vector<std::istream*>&,
                     PropsVec&, std::vector<std::ostream*>&) override
    {
        throw std::runtime_error("no streams in the C interface");
    }
    void enc_blocks(std::vector<uint8_t*>& data, std::vector<uint8_t*>& par, PropsVec& props,
                    std::vector<bool>& wanted, size_t bytes) override
    {
        size_t meta = meta_size(bytes);
        std::vector<Bytes> mem(k + m, Bytes(meta + bytes, 0x77));
        std::vector<uint8_t*> d, p;
        std::vector<int> want(n_out);
        for (unsigned i = 0; i < n_out; ++i)
            want[i] = wanted[i];
        for (unsigned nd = 0; nd < k + m; ++nd) {
            if (nd < k)
                memcpy(mem[nd].data() + meta, data[nd], bytes);
            bool skip = nd >= k && !want[nd - (sys ? k : 0)];
            (nd < k ? d : p).push_back(skip ? nullptr : mem[nd].data());
        }
        int ret;
        {
            LibScope ls;
            ret = quadiron_fnt32_encode(inst, d.data(), p.data(), want.data(), bytes);
        }
        if (ret != 0)
            throw std::runtime_error(fmt("quadiron_fnt32_encode returned %d", ret));
        for (unsigned i = 0; i < n_out; ++i) {
            props[i].clear();
            if (!want[i])
                continue;
            const Bytes& b = mem[i + (sys ? k : 0)];
            memcpy(par[i], b.data() + meta, bytes);
            take(b.data(), meta, props[i]);
        }
    }
    bool dec_blocks(std::vector<uint8_t*>& data, std::vector<uint8_t*>& par, PropsVec& props,
                    std::vector<int>& missing, std::vector<bool>& wanted, size_t bytes) override
    {
        size_t meta = meta_size(bytes);
        Frags f = frags(data, par, props, missing, meta, bytes);
        std::vector<Bytes> before(f.mem);
        int ret;
        {
            LibScope ls;
            ret = quadiron_fnt32_decode(inst, f.d.data(), f.p.data(), missing.data(), bytes);
        }
        for (unsigned i = 0; i < k; ++i) {
            bool have = sys && !missing[i];
            if (!data[i] || (!wanted[i] && !have))
                continue;
            if (ret != 0 && f.mem[i] == before[i])
                continue;
            if (!wanted[i] && !memcmp(data[i], f.mem[i].data() + meta, bytes))
                continue;
            memcpy(data[i], f.mem[i].data() + meta, bytes);
        }
        return ret == 0;
    }
    bool rebuild(std::vector<uint8_t*>& data, std::vector<uint8_t*>& par, PropsVec& props,
                 std::vector<int>& missing, unsigned dst, uint8_t* out, PropsVec& out_props,
                 size_t bytes) override
    {
        size_t meta = meta_size(bytes);
        Frags f = frags(data, par, props, missing, meta, bytes);
        Bytes before = f.mem[dst];
        int ret;
        {
            LibScope ls;
            ret = quadiron_fnt32_reconstruct(inst, f.d.data(), f.p.data(), missing.data(), dst,
                                             bytes);
        }
        if (ret == 0 || f.mem[dst] != before)
            memcpy(out, f.mem[dst].data() + meta, bytes);
        if (ret == 0)
            take(f.mem[dst].data(), meta, out_props[0]);
        return ret == 0;
    }
    Counters counters() const override
    {
        return Counters{0, 0, 0, 0};
    }
    void reset_counters() override {}
};
} // namespace
ICode* make_capi(const CodeCfg& c)
{
    return new CApiCode(c);
}
} // namespace sim
