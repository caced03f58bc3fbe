#include "fec_rs_gf2n_fft.h"
#include "codes.h"
namespace sim {
ICode* make_gf2nfft(const CodeCfg& c)
{
    using namespace quadiron::fec;
    if (c.tb == 32 && c.w <= 4)
        return wrap<RsGf2nFft<uint32_t>>(c, c.w, c.k, c.m);
    if (c.tb == 64 && c.w <= 8)
        return wrap<RsGf2nFft<uint64_t>>(c, c.w, c.k, c.m);
    if (c.tb == 128 && c.w <= 16)
        return wrap<RsGf2nFft<__uint128_t>>(c, c.w, c.k, c.m);
    return nullptr;
}
} // namespace sim
