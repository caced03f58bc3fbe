#include "fec_rs_gfp_fft.h"
#include "codes.h"
namespace sim {
ICode* make_gfp(const CodeCfg& c)
{
    using namespace quadiron::fec;
    if (c.tb == 32 && c.w <= 2)
        return wrap<RsGfpFft<uint32_t>>(c, c.w, c.k, c.m);
    if (c.tb == 64)
        return wrap<RsGfpFft<uint64_t>>(c, c.w, c.k, c.m);
    return nullptr;
}
} // namespace sim
