// Stand-in for boost 1.84's concurrent_flat_set on top of boost 1.83's concurrent_flat_map.
#ifndef VERIF_SHIM_CONCURRENT_FLAT_SET
#define VERIF_SHIM_CONCURRENT_FLAT_SET
#include <boost/unordered/concurrent_flat_map.hpp>
#include <type_traits>
namespace boost
{
template<typename K>
class concurrent_flat_set
{
    boost::concurrent_flat_map<K, char> m_;

public:
    using value_type = K;
    concurrent_flat_set() = default;
    concurrent_flat_set(const concurrent_flat_set&) = default;
    concurrent_flat_set(concurrent_flat_set&&) = default;
    concurrent_flat_set& operator=(const concurrent_flat_set&) = default;
    concurrent_flat_set& operator=(concurrent_flat_set&&) = default;
    bool insert(const K& k)
    {
        return m_.emplace(k, char(1));
    }
    template<typename... A>
    bool emplace(A&&... a)
    {
        return m_.emplace(K(std::forward<A>(a)...), char(1));
    }
    bool contains(const K& k) const
    {
        return m_.contains(k);
    }
    std::size_t size() const
    {
        return m_.size();
    }
    bool empty() const
    {
        return m_.empty();
    }
    void clear()
    {
        m_.clear();
    }
    std::size_t erase(const K& k)
    {
        return m_.erase(k);
    }
    void reserve(std::size_t n)
    {
        m_.reserve(n);
    }
    template<typename F>
    std::size_t visit_all(F f) const
    {
        return m_.cvisit_all(
            [&](const auto& kv)
            {
                f(kv.first);
            });
    }
    template<typename P, typename F>
    void visit_all(P&& p, F f) const
    {
        m_.cvisit_all(
            std::forward<P>(p),
            [&](const auto& kv)
            {
                f(kv.first);
            });
    }
    template<typename F>
    std::size_t erase_if(F f)
    {
        return m_.erase_if(
            [&](const auto& kv)
            {
                return f(kv.first);
            });
    }
    template<typename P, typename F>
    void erase_if(P&& p, F f)
    {
        m_.erase_if(
            std::forward<P>(p),
            [&](const auto& kv)
            {
                return f(kv.first);
            });
    }
    template<typename S>
    std::size_t merge(S&& other)
    {
        std::size_t n = 0;
        other.visit_all(
            [&](const K& k)
            {
                n += insert(k);
            });
        return n;
    }
};
} // namespace boost
#endif
