// the hardware generators over the real instructions
#include <gmlib/rng/rng.h>
#include <memory>
#include <utility>
#include <vector>
#if defined(CPU_FLAG_RDRAND) && defined(CPU_FLAG_RDSEED)
// the other file compiles the same class templates against stand-ins; an extra
// retry count keeps the two sets of instantiations apart in one program
#include <gmlib/rng/hardware_rng/rdrand32_rng.h>
#include <gmlib/rng/hardware_rng/rdrand64_rng.h>
#include <gmlib/rng/hardware_rng/rdseed32_rng.h>
#include <gmlib/rng/hardware_rng/rdseed64_rng.h>
#endif
namespace real {
std::vector<std::pair<const char*, std::unique_ptr<rng::Rng>>> hardware()
{
    std::vector<std::pair<const char*, std::unique_ptr<rng::Rng>>> v;
#if defined(CPU_FLAG_RDRAND) && defined(CPU_FLAG_RDSEED)
    using namespace rng::hardware_rng;
    v.emplace_back("RdrandRng_32", std::make_unique<RdrandRng_32<1009>>());
    v.emplace_back("RdrandRng_64", std::make_unique<RdrandRng_64<1009>>());
    v.emplace_back("RdseedRng_32", std::make_unique<RdseedRng_32<1009>>());
    v.emplace_back("RdseedRng_64", std::make_unique<RdseedRng_64<1009>>());
#endif
    return v;
}
} // namespace real
