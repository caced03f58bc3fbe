#include "fec_rs_gf2n.h"
#include "codes.h"
namespace sim {
ICode* make_gf2n(const CodeCfg& c)
{
    using namespace quadiron::fec;
    if (c.tb == 32 && c.w <= 4)
        return wrap<RsGf2n<uint32_t>>(c, c.w, c.k, c.m, c.kind == "gf2nc" ? RsMatrixType::CAUCHY : RsMatrixType::VANDERMONDE);
    if (c.tb == 64 && c.w <= 8)
        return wrap<RsGf2n<uint64_t>>(c, c.w, c.k, c.m, c.kind == "gf2nc" ? RsMatrixType::CAUCHY : RsMatrixType::VANDERMONDE);
    if (c.tb == 128 && c.w <= 16)
        return wrap<RsGf2n<__uint128_t>>(c, c.w, c.k, c.m, c.kind == "gf2nc" ? RsMatrixType::CAUCHY : RsMatrixType::VANDERMONDE);
    return nullptr;
}
} // namespace sim
