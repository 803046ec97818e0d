// Stand-in for cura-formulae-engine's parser: the Python-expression subset that g-code templates use.
#ifndef VERIF_SHIM_CFE_PARSER
#define VERIF_SHIM_CFE_PARSER
#include "../eval.h"
#include <spdlog/spdlog.h>
#include <cctype>
#include <cmath>
#include <functional>
namespace CuraFormulaeEngine
{
namespace ast
{
struct ExprPtr
{
    std::function<eval::Result(const env::Environment*)> f;
    eval::Result evaluate(const env::Environment* e) const
    {
        return f(e);
    }
};
} // namespace ast
namespace parser
{
struct error_t
{
};
namespace detail
{
using F = std::function<eval::Result(const env::Environment*)>;
using eval::Result;
using eval::Value;
struct Bad
{
};
class P
{
    std::string s_;
    std::size_t i_ = 0;
    void ws()
    {
        while (i_ < s_.size() && std::isspace(static_cast<unsigned char>(s_[i_])))
            ++i_;
    }
    bool sym(const char* t)
    {
        ws();
        const std::string_view v(t);
        if (std::string_view(s_).substr(i_, v.size()) != v)
            return false;
        i_ += v.size();
        return true;
    }
    static bool idc(char c)
    {
        return std::isalnum(static_cast<unsigned char>(c)) || c == '_';
    }
    bool word(const char* t)
    {
        ws();
        const std::string_view v(t);
        if (std::string_view(s_).substr(i_, v.size()) != v)
            return false;
        if (i_ + v.size() < s_.size() && idc(s_[i_ + v.size()]))
            return false;
        i_ += v.size();
        return true;
    }
    static F num2(F a, F b, char op)
    {
        return [=](const env::Environment* e) -> Result
        {
            Result ra = a(e);
            if (! ra.has_value())
                return ra;
            Result rb = b(e);
            if (! rb.has_value())
                return rb;
            const Value &x = ra.value(), &y = rb.value();
            if (op == '+' && x.value.index() == 4 && y.value.index() == 4)
                return Value(std::get<std::string>(x.value) + std::get<std::string>(y.value));
            if (! x.isNum() || ! y.isNum())
                return eval::fail();
            const bool ints = x.value.index() != 3 && y.value.index() != 3;
            const auto wrap = [&](double d)
            {
                return ints ? Value(static_cast<std::int64_t>(d)) : Value(d);
            };
            switch (op)
            {
            case '+':
                return wrap(x.num() + y.num());
            case '-':
                return wrap(x.num() - y.num());
            case '*':
                return wrap(x.num() * y.num());
            case '/':
                if (y.num() == 0)
                    return eval::fail();
                return Value(x.num() / y.num());
            case 'f':
                if (y.num() == 0)
                    return eval::fail();
                return wrap(std::floor(x.num() / y.num()));
            case '%':
                if (y.num() == 0)
                    return eval::fail();
                return wrap(x.num() - y.num() * std::floor(x.num() / y.num()));
            case '^':
                return wrap(std::pow(x.num(), y.num()));
            }
            return eval::fail();
        };
    }
    F ternary()
    {
        F a = orE();
        if (word("if"))
        {
            F c = orE();
            if (! word("else"))
                throw Bad{};
            F b = ternary();
            return [=](const env::Environment* e) -> Result
            {
                Result rc = c(e);
                if (! rc.has_value())
                    return rc;
                return rc.value().truthy() ? a(e) : b(e);
            };
        }
        return a;
    }
    F orE()
    {
        F a = andE();
        while (word("or"))
        {
            F b = andE();
            a = [a, b](const env::Environment* e) -> Result
            {
                Result r = a(e);
                return ! r.has_value() || r.value().truthy() ? r : b(e);
            };
        }
        return a;
    }
    F andE()
    {
        F a = notE();
        while (word("and"))
        {
            F b = notE();
            a = [a, b](const env::Environment* e) -> Result
            {
                Result r = a(e);
                return ! r.has_value() || ! r.value().truthy() ? r : b(e);
            };
        }
        return a;
    }
    F notE()
    {
        if (word("not"))
        {
            F a = notE();
            return [a](const env::Environment* e) -> Result
            {
                Result r = a(e);
                if (! r.has_value())
                    return r;
                return Value(! r.value().truthy());
            };
        }
        return cmp();
    }
    static bool eq(const Value& x, const Value& y)
    {
        if (x.isNum() && y.isNum())
            return x.num() == y.num();
        if (x.value.index() == 4 && y.value.index() == 4)
            return std::get<std::string>(x.value) == std::get<std::string>(y.value);
        return false;
    }
    F cmp()
    {
        F a = sum();
        static const char* ops[] = { "==", "!=", "<=", ">=", "<", ">" };
        for (bool more = true; more;)
        {
            more = false;
            for (int o = 0; o < 6; ++o)
            {
                if (! sym(ops[o]))
                    continue;
                more = true;
                F b = sum();
                a = [a, b, o](const env::Environment* e) -> Result
                {
                    Result ra = a(e), rb = b(e);
                    if (! ra.has_value())
                        return ra;
                    if (! rb.has_value())
                        return rb;
                    const Value &x = ra.value(), &y = rb.value();
                    if (o == 0)
                        return Value(eq(x, y));
                    if (o == 1)
                        return Value(! eq(x, y));
                    if (! x.isNum() || ! y.isNum())
                        return eval::fail();
                    return Value(o == 2 ? x.num() <= y.num() : o == 3 ? x.num() >= y.num() : o == 4 ? x.num() < y.num() : x.num() > y.num());
                };
                break;
            }
        }
        return a;
    }
    F sum()
    {
        F a = prod();
        for (;;)
        {
            if (sym("+"))
                a = num2(a, prod(), '+');
            else if (sym("-"))
                a = num2(a, prod(), '-');
            else
                return a;
        }
    }
    F prod()
    {
        F a = unary();
        for (;;)
        {
            ws();
            if (std::string_view(s_).substr(i_, 2) == "**")
                return a;
            if (sym("//"))
                a = num2(a, unary(), 'f');
            else if (sym("*"))
                a = num2(a, unary(), '*');
            else if (sym("/"))
                a = num2(a, unary(), '/');
            else if (sym("%"))
                a = num2(a, unary(), '%');
            else
                return a;
        }
    }
    F unary()
    {
        if (sym("-"))
            return num2([](const env::Environment*) -> Result { return Value(std::int64_t(0)); }, unary(), '-');
        if (sym("+"))
            return unary();
        F a = postfix();
        if (sym("**"))
            return num2(a, unary(), '^');
        return a;
    }
    F postfix()
    {
        F a = primary();
        while (sym("["))
        {
            F b = ternary();
            if (! sym("]"))
                throw Bad{};
            a = [a, b](const env::Environment* e) -> Result
            {
                Result ra = a(e), rb = b(e);
                if (! ra.has_value())
                    return ra;
                if (! rb.has_value())
                    return rb;
                if (ra.value().value.index() != 5 || rb.value().value.index() != 2)
                    return eval::fail();
                const auto& l = *std::get<std::shared_ptr<Value::list>>(ra.value().value);
                const auto i = std::get<std::int64_t>(rb.value().value);
                if (i < 0 || i >= static_cast<std::int64_t>(l.size()))
                    return eval::fail();
                return l[static_cast<std::size_t>(i)];
            };
        }
        return a;
    }
    F primary()
    {
        ws();
        if (i_ >= s_.size())
            throw Bad{};
        const char c = s_[i_];
        if (c == '(')
        {
            ++i_;
            F a = ternary();
            if (! sym(")"))
                throw Bad{};
            return a;
        }
        if (c == '[')
        {
            ++i_;
            std::vector<F> items;
            while (! sym("]"))
            {
                items.push_back(ternary());
                if (! sym(","))
                {
                    if (! sym("]"))
                        throw Bad{};
                    break;
                }
            }
            return [items](const env::Environment* e) -> Result
            {
                Value::list l;
                for (const auto& f : items)
                {
                    Result r = f(e);
                    if (! r.has_value())
                        return r;
                    l.push_back(r.value());
                }
                return Value(l);
            };
        }
        if (c == '"' || c == '\'')
        {
            const auto end = s_.find(c, i_ + 1);
            if (end == std::string::npos)
                throw Bad{};
            const Value v(s_.substr(i_ + 1, end - i_ - 1));
            i_ = end + 1;
            return [v](const env::Environment*) -> Result { return v; };
        }
        if (std::isdigit(static_cast<unsigned char>(c)) || c == '.')
        {
            std::size_t j = i_;
            bool real = false;
            while (j < s_.size() && (std::isdigit(static_cast<unsigned char>(s_[j])) || s_[j] == '.'))
                real |= s_[j++] == '.';
            if (j < s_.size() && (s_[j] == 'e' || s_[j] == 'E'))
            {
                std::size_t k = j + 1;
                if (k < s_.size() && (s_[k] == '+' || s_[k] == '-'))
                    ++k;
                if (k < s_.size() && std::isdigit(static_cast<unsigned char>(s_[k])))
                {
                    real = true;
                    j = k;
                    while (j < s_.size() && std::isdigit(static_cast<unsigned char>(s_[j])))
                        ++j;
                }
            }
            if (j < s_.size() && idc(s_[j]))
                throw Bad{};
            const std::string t = s_.substr(i_, j - i_);
            if (t == "." || t.size() > 40)
                throw Bad{};
            i_ = j;
            const Value v = real || t.size() > 17 ? Value(std::stod(t)) : Value(static_cast<std::int64_t>(std::stoll(t)));
            return [v](const env::Environment*) -> Result { return v; };
        }
        if (! idc(c))
            throw Bad{};
        std::size_t j = i_;
        while (j < s_.size() && idc(s_[j]))
            ++j;
        const std::string id = s_.substr(i_, j - i_);
        for (const char* kw : { "if", "else", "and", "or", "not" })
            if (id == kw)
                throw Bad{};
        i_ = j;
        if (id == "True" || id == "true")
            return [](const env::Environment*) -> Result { return Value(true); };
        if (id == "False" || id == "false")
            return [](const env::Environment*) -> Result { return Value(false); };
        return [id](const env::Environment* e) -> Result
        {
            if (auto v = e->get(id))
                return *v;
            return eval::fail();
        };
    }

public:
    explicit P(std::string_view s)
        : s_(s)
    {
    }
    F all()
    {
        F f = ternary();
        ws();
        if (i_ != s_.size())
            throw Bad{};
        return f;
    }
};
} // namespace detail
inline zeus::expected<ast::ExprPtr, error_t> parse(std::string_view s)
{
    using R = zeus::expected<ast::ExprPtr, error_t>;
    try
    {
        return R(ast::ExprPtr{ detail::P(s).all() });
    }
    catch (const detail::Bad&)
    {
        return R(R::err_tag{}, error_t{});
    }
}
} // namespace parser
} // namespace CuraFormulaeEngine
#endif
