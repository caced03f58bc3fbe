// Type-erased access to every erasure code of the library through its public
// C++ interface.
#ifndef SIM_CODES_H
#define SIM_CODES_H
#include "core.h"
#include "property.h"
#include "fec_base.h"
#include <memory>

namespace sim {

typedef std::vector<quadiron::Properties> PropsVec;

struct CodeCfg {
    std::string kind; // fnt nf4 gfp gf2nv gf2nc gf2nfft gf2nadd
    int tb = 32;      // bits of the element type
    int w = 1;        // word size (bytes)
    int k = 2, m = 2;
    bool sys = false;
    int pkt = 8;
    bool capi = false; // used through quadiron_c.h
    static CodeCfg from(const Line& l);
    void to(Line& l) const;
    std::string text() const;
    bool vertical_ok() const { return kind == "fnt" || kind == "nf4"; }
    bool horizontal_ok() const { return !(kind == "fnt" && sys) && !capi; }
    bool streams_ok() const { return !capi; }
};

struct Counters {
    uint64_t enc_ops, dec_ops, enc_usec, dec_usec;
};

class ICode {
  public:
    CodeCfg cfg;
    unsigned k = 0, m = 0, n_out = 0, w = 0;
    bool sys = false;
    virtual ~ICode() {}
    virtual void enc_streams(
        bool vertical,
        const std::vector<std::istream*>& in,
        std::vector<std::ostream*>& out,
        PropsVec& props) = 0;
    virtual bool dec_streams(
        bool vertical,
        const std::vector<std::istream*>& data,
        const std::vector<std::istream*>& par,
        PropsVec& props,
        std::vector<std::ostream*>& out) = 0;
    virtual void enc_blocks(
        std::vector<uint8_t*>& data,
        std::vector<uint8_t*>& par,
        PropsVec& props,
        std::vector<bool>& wanted,
        size_t bytes) = 0;
    virtual bool dec_blocks(
        std::vector<uint8_t*>& data,
        std::vector<uint8_t*>& par,
        PropsVec& props,
        std::vector<int>& missing,
        std::vector<bool>& wanted,
        size_t bytes) = 0;
    // Packet by packet through encode() and decode() themselves; the first word
    // lies at `base` of the stream.  Absent fragments are nullptr.
    virtual void enc_packets(
        uint64_t base,
        size_t words,
        const std::vector<const uint8_t*>& in,
        const std::vector<uint8_t*>& out,
        PropsVec& props)
    {
        (void)base, (void)words, (void)in, (void)out, (void)props;
    }
    virtual bool dec_packets(
        uint64_t base,
        size_t words,
        const std::vector<const uint8_t*>& data,
        const std::vector<const uint8_t*>& par,
        PropsVec& props,
        const std::vector<uint8_t*>& out)
    {
        (void)base, (void)words, (void)data, (void)par, (void)props, (void)out;
        return false;
    }
    // rebuilds node dst from the fragments that are not missing; only the C
    // interface offers it
    virtual bool rebuild(
        std::vector<uint8_t*>& data,
        std::vector<uint8_t*>& par,
        PropsVec& props,
        std::vector<int>& missing,
        unsigned dst,
        uint8_t* out,
        PropsVec& out_props,
        size_t bytes)
    {
        (void)data, (void)par, (void)props, (void)missing, (void)dst, (void)out, (void)out_props,
            (void)bytes;
        return false;
    }
    virtual Counters counters() const = 0;
    virtual void reset_counters() = 0;
};

// nullptr when the combination is unknown
std::unique_ptr<ICode> make_code(const CodeCfg& c);

// one factory per translation unit
ICode* make_fnt(const CodeCfg& c);
ICode* make_nf4(const CodeCfg& c);
ICode* make_gfp(const CodeCfg& c);
ICode* make_gf2n(const CodeCfg& c);
ICode* make_gf2nfft(const CodeCfg& c);
ICode* make_gf2nadd(const CodeCfg& c);
ICode* make_capi(const CodeCfg& c);

// rows of words through the packet interface, for codes over Buffers or Vectors
template <class T>
void enc_packets_of(
    quadiron::fec::FecCode<T>& c,
    bool vertical,
    uint64_t base,
    size_t words,
    const std::vector<const uint8_t*>& in,
    const std::vector<uint8_t*>& out,
    PropsVec& props)
{
    using namespace quadiron;
    const size_t w = c.word_size;
    if (!vertical) {
        vec::Vector<T> iv(c.get_gf(), c.n_data), ov(c.get_gf(), c.get_n_outputs());
        for (size_t i = 0; i < words; ++i) {
            iv.zero_fill();
            for (unsigned j = 0; j < c.n_data; ++j) {
                T v = 0;
                memcpy(&v, in[j] + i * w, w);
                iv.set(j, v);
            }
            c.encode(ov, props, (off_t)(base + i), iv);
            for (unsigned j = 0; j < c.n_outputs; ++j) {
                T v = ov.get(j);
                memcpy(out[j] + i * w, &v, w);
            }
        }
        return;
    }
    const size_t pkt = c.pkt_size;
    const int no = c.get_n_outputs();
    vec::Buffers<char> ic(c.n_data, c.buf_size), oc(no, c.buf_size);
    vec::Buffers<T> iw(c.n_data, pkt), ow(no, pkt);
    for (size_t i = 0; i < words; i += pkt) {
        const size_t n = std::min(pkt, words - i);
        for (unsigned j = 0; j < c.n_data; ++j) {
            memset(ic.get(j), 0, c.buf_size);
            memcpy(ic.get(j), in[j] + i * w, n * w);
        }
        vec::pack<char, T>(ic.get_mem(), iw.get_mem(), c.n_data, pkt, w);
        c.encode(ow, props, (off_t)(base + i), iw);
        vec::unpack<T, char>(ow.get_mem(), oc.get_mem(), no, pkt, w);
        for (unsigned j = 0; j < c.n_outputs; ++j)
            memcpy(out[j] + i * w, oc.get(j), n * w);
    }
}
template <class T>
bool dec_packets_of(
    quadiron::fec::FecCode<T>& c,
    bool vertical,
    uint64_t base,
    size_t words,
    const std::vector<const uint8_t*>& data,
    const std::vector<const uint8_t*>& par,
    PropsVec& props,
    const std::vector<uint8_t*>& out)
{
    using namespace quadiron;
    const size_t w = c.word_size;
    const bool sys = c.type == fec::FecType::SYSTEMATIC;
    std::vector<const uint8_t*> src;
    vec::Vector<T> ids(c.get_gf(), c.n_data);
    for (unsigned i = 0; i < c.n_data && sys; ++i)
        if (data[i]) {
            c.decode_add_data(src.size(), i);
            ids.set(src.size(), i);
            src.push_back(data[i]);
        }
    if (src.size() == c.n_data)
        return true;
    for (unsigned i = 0; i < c.n_outputs && src.size() < c.n_data; ++i)
        if (par[i]) {
            c.decode_add_parities(src.size(), i);
            ids.set(src.size(), sys ? c.n_data + i : i);
            src.push_back(par[i]);
        }
    if (src.size() < c.n_data)
        return false;
    c.decode_build();
    if (!vertical) {
        vec::Vector<T> iv(c.get_gf(), sys ? c.n_data : c.code_len), ov(c.get_gf(), c.n_data);
        auto ctx = c.init_context_dec(ids, props);
        for (size_t i = 0; i < words; ++i) {
            iv.zero_fill();
            for (unsigned j = 0; j < c.n_data; ++j) {
                T v = 0;
                memcpy(&v, src[j] + i * w, w);
                iv.set(j, v);
            }
            c.decode(*ctx, ov, props, (off_t)(base + i), iv);
            for (unsigned j = 0; j < c.n_data; ++j) {
                T v = ov.get(j);
                memcpy(out[j] + i * w, &v, w);
            }
        }
        return true;
    }
    const size_t pkt = c.pkt_size;
    vec::Buffers<char> ic(c.n_data, c.buf_size), oc(c.n_data, c.buf_size);
    vec::Buffers<T> iw(c.n_data, pkt), ow(c.n_data, pkt);
    auto ctx = c.init_context_dec(ids, props, pkt, &ow);
    for (size_t i = 0; i < words; i += pkt) {
        const size_t n = std::min(pkt, words - i);
        for (unsigned j = 0; j < c.n_data; ++j) {
            memset(ic.get(j), 0, c.buf_size);
            memcpy(ic.get(j), src[j] + i * w, n * w);
        }
        vec::pack<char, T>(ic.get_mem(), iw.get_mem(), c.n_data, pkt, w);
        c.decode(*ctx, ow, props, (off_t)(base + i), iw);
        vec::unpack<T, char>(ow.get_mem(), oc.get_mem(), c.n_data, pkt, w);
        for (unsigned j = 0; j < c.n_data; ++j)
            memcpy(out[j] + i * w, oc.get(j), n * w);
    }
    return true;
}

template <class Code>
class CodeImpl : public ICode {
  public:
    std::unique_ptr<Code> c;
    explicit CodeImpl(const CodeCfg& cf, Code* p) : c(p)
    {
        cfg = cf;
        k = c->n_data;
        m = c->n_parities;
        n_out = c->n_outputs;
        w = c->word_size;
        sys = c->type == quadiron::fec::FecType::SYSTEMATIC;
    }
    ~CodeImpl() override
    {
        LibScope ls;
        c.reset();
    }
    void enc_streams(
        bool vertical,
        const std::vector<std::istream*>& in,
        std::vector<std::ostream*>& out,
        PropsVec& props) override
    {
        LibScope ls;
        if (vertical)
            c->encode_streams_vertical(in, out, props);
        else
            c->encode_streams_horizontal(in, out, props);
    }
    bool dec_streams(
        bool vertical,
        const std::vector<std::istream*>& data,
        const std::vector<std::istream*>& par,
        PropsVec& props,
        std::vector<std::ostream*>& out) override
    {
        LibScope ls;
        if (vertical)
            return c->decode_streams_vertical(data, par, props, out);
        return c->decode_streams_horizontal(data, par, props, out);
    }
    void enc_blocks(
        std::vector<uint8_t*>& data,
        std::vector<uint8_t*>& par,
        PropsVec& props,
        std::vector<bool>& wanted,
        size_t bytes) override
    {
        LibScope ls;
        c->encode_blocks_vertical(data, par, props, wanted, bytes);
    }
    bool dec_blocks(
        std::vector<uint8_t*>& data,
        std::vector<uint8_t*>& par,
        PropsVec& props,
        std::vector<int>& missing,
        std::vector<bool>& wanted,
        size_t bytes) override
    {
        LibScope ls;
        return c->decode_blocks_vertical(
            data, par, props, missing, wanted, bytes);
    }
    void enc_packets(
        uint64_t base,
        size_t words,
        const std::vector<const uint8_t*>& in,
        const std::vector<uint8_t*>& out,
        PropsVec& props) override
    {
        LibScope ls;
        enc_packets_of(*c, cfg.vertical_ok(), base, words, in, out, props);
    }
    bool dec_packets(
        uint64_t base,
        size_t words,
        const std::vector<const uint8_t*>& data,
        const std::vector<const uint8_t*>& par,
        PropsVec& props,
        const std::vector<uint8_t*>& out) override
    {
        LibScope ls;
        return dec_packets_of(*c, cfg.vertical_ok(), base, words, data, par, props, out);
    }
    Counters counters() const override
    {
        return Counters{
            c->n_encode_ops, c->n_decode_ops, c->total_enc_usec, c->total_dec_usec};
    }
    void reset_counters() override
    {
        c->reset_stats_enc();
        c->reset_stats_dec();
    }
};
// Builds Code with LibScope accounting; the wrapper itself is not counted.
template <class Code, class... A>
ICode* wrap(const CodeCfg& cf, A... a)
{
    Code* p;
    {
        LibScope ls;
        p = new Code(a...);
    }
    return new CodeImpl<Code>(cf, p);
}

} // namespace sim
#endif
