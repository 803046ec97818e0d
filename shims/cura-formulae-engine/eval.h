// Stand-in for the (uninstallable) cura-formulae-engine: values, environments and results.
#ifndef VERIF_SHIM_CFE_EVAL
#define VERIF_SHIM_CFE_EVAL
#include <cstdint>
#include <fmt/format.h>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_map>
#include <variant>
#include <vector>

namespace zeus
{
template<typename T, typename E>
class expected
{
    std::variant<T, E> v_;

public:
    expected(T t)
        : v_(std::in_place_index<0>, std::move(t))
    {
    }
    struct err_tag
    {
    };
    expected(err_tag, E e)
        : v_(std::in_place_index<1>, std::move(e))
    {
    }
    bool has_value() const
    {
        return v_.index() == 0;
    }
    explicit operator bool() const
    {
        return has_value();
    }
    const T& value() const
    {
        return std::get<0>(v_);
    }
    T& value()
    {
        return std::get<0>(v_);
    }
    const T& operator*() const
    {
        return value();
    }
    const E& error() const
    {
        return std::get<1>(v_);
    }
};
} // namespace zeus

namespace CuraFormulaeEngine
{
namespace eval
{
struct Value
{
    using list = std::vector<Value>;
    std::variant<std::monostate, bool, std::int64_t, double, std::string, std::shared_ptr<list>> value;

    Value() = default;
    Value(bool b)
        : value(b)
    {
    }
    template<typename I, std::enable_if_t<std::is_integral_v<I> && ! std::is_same_v<I, bool>, int> = 0>
    Value(I i)
        : value(static_cast<std::int64_t>(i))
    {
    }
    template<typename D, std::enable_if_t<std::is_floating_point_v<D>, int> = 0>
    Value(D d)
        : value(static_cast<double>(d))
    {
    }
    Value(const std::string& s)
        : value(s)
    {
    }
    Value(const char* s)
        : value(std::string(s))
    {
    }
    Value(const list& l)
        : value(std::make_shared<list>(l))
    {
    }
    bool isNum() const
    {
        return value.index() >= 1 && value.index() <= 3;
    }
    double num() const
    {
        switch (value.index())
        {
        case 1:
            return std::get<bool>(value);
        case 2:
            return static_cast<double>(std::get<std::int64_t>(value));
        case 3:
            return std::get<double>(value);
        default:
            return 0;
        }
    }
    bool truthy() const
    {
        switch (value.index())
        {
        case 0:
            return false;
        case 4:
            return ! std::get<std::string>(value).empty();
        case 5:
            return ! std::get<std::shared_ptr<list>>(value)->empty();
        default:
            return num() != 0;
        }
    }
    std::string toString() const
    {
        switch (value.index())
        {
        case 0:
            return "None";
        case 1:
            return std::get<bool>(value) ? "True" : "False";
        case 2:
            return fmt::format("{}", std::get<std::int64_t>(value));
        case 3:
            return fmt::format("{}", std::get<double>(value));
        case 4:
            return std::get<std::string>(value);
        default:
        {
            std::string r = "[";
            for (const auto& v : *std::get<std::shared_ptr<list>>(value))
            {
                if (r.size() > 1)
                    r += ", ";
                r += v.toString();
            }
            return r + "]";
        }
        }
    }
};
struct Error
{
};
using Result = zeus::expected<Value, Error>;
inline Result fail()
{
    return Result(Result::err_tag{}, Error{});
}
} // namespace eval

namespace env
{
class Environment
{
public:
    virtual ~Environment() = default;
    virtual std::optional<eval::Value> get(const std::string& key) const = 0;
    virtual bool has(const std::string& key) const = 0;
    virtual std::unordered_map<std::string, eval::Value> getAll() const = 0;
};

class ChainableEnvironment : public Environment
{
    const Environment* shadow_;

public:
    explicit ChainableEnvironment(const Environment* shadow = nullptr)
        : shadow_(shadow)
    {
    }
    std::optional<eval::Value> get(const std::string& key) const override
    {
        if (auto v = getImpl(key))
            return v;
        return shadow_ ? shadow_->get(key) : std::nullopt;
    }
    bool has(const std::string& key) const override
    {
        return hasImpl(key) || (shadow_ && shadow_->has(key));
    }
    std::unordered_map<std::string, eval::Value> getAll() const override
    {
        auto r = getAllImpl();
        if (shadow_)
            r.merge(shadow_->getAll());
        return r;
    }

protected:
    virtual std::optional<eval::Value> getImpl(const std::string& key) const noexcept = 0;
    virtual bool hasImpl(const std::string& key) const noexcept = 0;
    virtual std::unordered_map<std::string, eval::Value> getAllImpl() const noexcept = 0;
};

class LocalEnvironment : public ChainableEnvironment
{
    std::unordered_map<std::string, eval::Value> m_;

public:
    explicit LocalEnvironment(const Environment* shadow = nullptr)
        : ChainableEnvironment(shadow)
    {
    }
    void add(const std::unordered_map<std::string, eval::Value>& o)
    {
        for (const auto& [k, v] : o)
            m_[k] = v;
    }
    void set(const std::string& k, const eval::Value& v)
    {
        m_[k] = v;
    }

protected:
    std::optional<eval::Value> getImpl(const std::string& key) const noexcept override
    {
        auto it = m_.find(key);
        return it == m_.end() ? std::nullopt : std::optional<eval::Value>(it->second);
    }
    bool hasImpl(const std::string& key) const noexcept override
    {
        return m_.count(key) > 0;
    }
    std::unordered_map<std::string, eval::Value> getAllImpl() const noexcept override
    {
        return m_;
    }
};
using EnvironmentMap = LocalEnvironment;
inline const LocalEnvironment std_env;
} // namespace env
} // namespace CuraFormulaeEngine
#endif
