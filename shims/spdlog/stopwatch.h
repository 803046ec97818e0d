// Newer spdlog's stopwatch has elapsed_ms(); the installed 1.12 does not.
#ifndef VERIF_SHIM_SPDLOG_STOPWATCH
#define VERIF_SHIM_SPDLOG_STOPWATCH
#include <chrono>
#include <spdlog/fmt/fmt.h>
namespace spdlog
{
class stopwatch
{
    using clock = std::chrono::steady_clock;
    std::chrono::time_point<clock> start_tp_{ clock::now() };

public:
    std::chrono::duration<double> elapsed() const
    {
        return std::chrono::duration<double>(clock::now() - start_tp_);
    }
    std::chrono::milliseconds elapsed_ms() const
    {
        return std::chrono::duration_cast<std::chrono::milliseconds>(clock::now() - start_tp_);
    }
    void reset()
    {
        start_tp_ = clock::now();
    }
};
} // namespace spdlog
template<>
struct fmt::formatter<spdlog::stopwatch> : fmt::formatter<double>
{
    template<typename FormatContext>
    auto format(const spdlog::stopwatch& sw, FormatContext& ctx) const -> decltype(ctx.out())
    {
        return fmt::formatter<double>::format(sw.elapsed().count(), ctx);
    }
};
#endif
