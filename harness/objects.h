// The generated test objects (std allocator) as trees: random values, dumps and fields.
#ifndef VERIF_OBJECTS_H
#define VERIF_OBJECTS_H
#include <functional>
#include <optional>
#include <tuple>

#include "trace.h"
#include "zserio/BitBuffer.h"
#include "zserio/Bytes.h"
#include "zserio/Enums.h"
#include "zserio/Optional.h"
#include "zserio/String.h"
#include "zserio/Types.h"
#include "zserio/Vector.h"
#include "test_object/std_allocator/CreatorNested.h"
#include "test_object/std_allocator/CreatorObject.h"
#include "test_object/std_allocator/CreatorUnsignedEnum.h"
#include "test_object/std_allocator/DebugStringObject.h"
#include "test_object/std_allocator/DebugStringParamObject.h"
#include "test_object/std_allocator/ReflectableBitmask.h"
#include "test_object/std_allocator/ReflectableChoice.h"
#include "test_object/std_allocator/ReflectableNested.h"
#include "test_object/std_allocator/ReflectableObject.h"
#include "test_object/std_allocator/ReflectableUnion.h"
#include "test_object/std_allocator/ReflectableUtilChoice.h"
#include "test_object/std_allocator/ReflectableUtilObject.h"
#include "test_object/std_allocator/ReflectableUtilUnion.h"
#include "test_object/std_allocator/WalkerBitmask.h"
#include "test_object/std_allocator/WalkerChoice.h"
#include "test_object/std_allocator/WalkerNested.h"
#include "test_object/std_allocator/WalkerObject.h"
#include "test_object/std_allocator/WalkerUnion.h"

namespace obj
{
using namespace test_object::std_allocator;
using vt::Ints;
using vt::Rng;

// ---------------------------------------------------------------- shapes
template <typename T>
struct Shape
{
    static constexpr int kind = 0; // 1 struct, 2 choice or union
};
#define VT_STRUCT(T, ...)                                                                                              \
    template <>                                                                                                        \
    struct Shape<T>                                                                                                    \
    {                                                                                                                  \
        static constexpr int kind = 1;                                                                                 \
        static constexpr const char* name = #T;                                                                        \
        template <typename X>                                                                                          \
        static auto tie(X& x)                                                                                          \
        {                                                                                                              \
            return std::tie(__VA_ARGS__);                                                                              \
        }                                                                                                              \
    };
#define VT_CHOICE(T, N)                                                                                                \
    template <>                                                                                                        \
    struct Shape<T>                                                                                                    \
    {                                                                                                                  \
        static constexpr int kind = 2;                                                                                 \
        static constexpr const char* name = #T;                                                                        \
        static constexpr size_t n = N;                                                                                 \
    };
VT_STRUCT(CreatorNested, x.value, x.text, x.externData, x.bytesData, x.creatorEnum, x.creatorBitmask)
VT_STRUCT(CreatorObject, x.value, x.nested, x.text, x.nestedArray, x.textArray, x.externArray, x.bytesArray, x.optionalBool, x.optionalNested)
VT_STRUCT(WalkerNested, x.text)
VT_STRUCT(WalkerObject, x.identifier, x.nested, x.text, x.unionArray, x.optionalUnionArray, x.choiceSelector, x.choiceField)
VT_STRUCT(ReflectableNested, x.value)
VT_STRUCT(ReflectableObject, x.stringField, x.reflectableNested, x.reflectableEnum, x.reflectableChoice, x.reflectableUnion)
VT_STRUCT(ReflectableUtilObject, x.choiceParam, x.reflectableUtilChoice)
VT_STRUCT(DebugStringObject, x.text)
VT_STRUCT(DebugStringParamObject, x.text)
VT_CHOICE(WalkerUnion, 3)
VT_CHOICE(WalkerChoice, 4)
VT_CHOICE(ReflectableChoice, 2)
VT_CHOICE(ReflectableUnion, 2)
VT_CHOICE(ReflectableUtilChoice, 1)
VT_CHOICE(ReflectableUtilUnion, 3)

// ---------------------------------------------------------------- parameters
template <typename T>
struct Par
{
    using type = std::tuple<>;
};
template <>
struct Par<CreatorNested>
{
    using type = std::tuple<zserio::UInt32>;
};
template <>
struct Par<DebugStringParamObject>
{
    using type = std::tuple<zserio::Int32>;
};
template <>
struct Par<WalkerChoice>
{
    using type = std::tuple<zserio::UInt8>;
};
template <>
struct Par<ReflectableUtilChoice>
{
    using type = std::tuple<zserio::UInt8>;
};
template <>
struct Par<ReflectableChoice>
{
    using type = std::tuple<ReflectableEnum>;
};
template <>
struct Par<ReflectableNested>
{
    using type = std::tuple<zserio::Int31, std::string>;
};

// ---------------------------------------------------------------- trees
template <typename T>
struct is_opt : std::false_type
{};
template <typename T, typename A>
struct is_opt<zserio::BasicOptional<A, T>> : std::true_type
{};
template <typename T>
struct is_vec : std::false_type
{};
template <typename T, typename A>
struct is_vec<std::vector<T, A>> : std::true_type
{};

inline std::string ints(const Ints& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i)
        s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}
template <typename V>
inline std::string scalar(V v)
{
    return "[\"i\"," + ints(vt::bits(static_cast<uint64_t>(static_cast<int64_t>(v)), sizeof(V) * 8)) + "]";
}
template <typename C>
inline Ints bufferBits(const C& b)
{
    Ints r;
    for (size_t i = 0; i < b.getBitSize(); ++i)
        r.push_back((b.getBuffer()[i / 8] >> (7 - i % 8)) & 1);
    return r;
}
template <size_t K, typename T>
constexpr auto tag()
{
    return static_cast<typename T::Tag>(K);
}
template <typename T, typename F, size_t K = 1>
void withBranch(T& x, size_t k, F&& f)
{
    if constexpr (K <= Shape<std::remove_const_t<T>>::n)
    {
        if (k == K)
            f(std::integral_constant<size_t, K>());
        else
            withBranch<T, F, K + 1>(x, k, std::forward<F>(f));
    }
}

template <typename T>
std::string node(const T& x)
{
    if constexpr (Shape<T>::kind == 1)
    {
        std::string s;
        std::apply([&](const auto&... f) { ((s += (s.empty() ? "" : ",") + node(f)), ...); }, Shape<T>::tie(x));
        return "[\"o\",[" + s + "]]";
    }
    else if constexpr (Shape<T>::kind == 2)
    {
        const size_t k = static_cast<size_t>(x.index());
        std::string s = "[\"c\"," + std::to_string(k) + ",[";
        withBranch(x, k, [&](auto K) { s += node(x.template get<tag<decltype(K)::value, T>()>()); });
        return s + "]]";
    }
    else if constexpr (is_opt<T>::value)
        return x.has_value() ? node(*x) : std::string("[\"n\"]");
    else if constexpr (std::is_same_v<T, zserio::String> || std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view>)
        return "[\"s\"," + ints(vt::chars(x)) + "]";
    else if constexpr (std::is_same_v<T, zserio::Bytes>)
        return "[\"y\"," + ints(vt::bytes(x)) + "]";
    else if constexpr (std::is_same_v<T, zserio::BitBuffer>)
        return "[\"x\"," + ints(bufferBits(x)) + "]";
    else if constexpr (is_vec<T>::value)
    {
        std::string s;
        for (const auto& e : x)
            s += (s.empty() ? "" : ",") + node(e);
        return "[\"a\",[" + s + "]]";
    }
    else if constexpr (std::is_enum_v<T>)
        return scalar(static_cast<std::underlying_type_t<T>>(x));
    else if constexpr (zserio::is_bitmask_v<T>)
        return scalar(static_cast<typename T::ZserioType::ValueType>(x.getValue()));
    else if constexpr (std::is_same_v<T, zserio::Bool>)
        return x ? "[\"i\",[1]]" : "[\"i\",[0]]";
    else
        return scalar(static_cast<typename T::ValueType>(x));
}
template <typename... A>
std::string nodes(const std::tuple<A...>& t)
{
    std::string s;
    std::apply([&](const auto&... f) { ((s += (s.empty() ? "" : ",") + node(f)), ...); }, t);
    return "[" + s + "]";
}

// ---------------------------------------------------------------- random values
inline std::string rndText(Rng& g, size_t most = 6)
{
    std::string s;
    if (g.chance(3))
        most = 140;
    for (size_t n = g.below(most + 1); n > 0; --n)
        s += g.chance(70) ? static_cast<char>('a' + g.below(3)) : static_cast<char>(g.pick<int>({0, 1, 10, 34, 47, 92, 127, 128, 200, 255, 32, 46}));
    return s;
}
template <typename T>
struct Items;
template <>
struct Items<CreatorEnum>
{
    static constexpr int v[3] = {0, 1, -1};
};
template <>
struct Items<CreatorUnsignedEnum>
{
    static constexpr int v[2] = {0, 1};
};
template <>
struct Items<ReflectableEnum>
{
    static constexpr int v[3] = {-1, 0, 1};
};
template <>
struct Items<ReflectableUtilEnum>
{
    static constexpr int v[2] = {0, 1};
};
template <typename T>
struct Mask;
template <>
struct Mask<CreatorBitmask>
{
    static constexpr unsigned v = 3;
};
template <>
struct Mask<WalkerBitmask>
{
    static constexpr unsigned v = 1;
};
template <>
struct Mask<ReflectableBitmask>
{
    static constexpr unsigned v = 7;
};
template <>
struct Mask<ReflectableUtilBitmask>
{
    static constexpr unsigned v = 3;
};
struct Gen
{
    Rng& g;
    unsigned wrong; // percentage of values outside their type
    size_t maxArr = 3;
    bool cleanBits = false; // no bits behind the last one of a bit buffer
    bool bad() { return wrong != 0 && g.chance(wrong); }

    template <typename T>
    void operator()(T& x)
    {
        if constexpr (Shape<T>::kind == 1)
            std::apply([&](auto&... f) { ((*this)(f), ...); }, Shape<T>::tie(x));
        else if constexpr (Shape<T>::kind == 2)
            branch(x, g.below(Shape<T>::n + 1));
        else if constexpr (is_opt<T>::value)
        {
            if (g.chance(50))
            {
                x.emplace();
                (*this)(*x);
            }
            else
                x.reset();
        }
        else if constexpr (std::is_same_v<T, zserio::String> || std::is_same_v<T, std::string>)
        {
            const std::string s = rndText(g);
            x.assign(s.data(), s.size());
        }
        else if constexpr (std::is_same_v<T, zserio::Bytes>)
        {
            const std::string s = rndText(g);
            x.assign(s.begin(), s.end());
        }
        else if constexpr (std::is_same_v<T, zserio::BitBuffer>)
        {
            const std::string s = rndText(g);
            const size_t n = s.empty() ? 0 : s.size() * 8 - g.below(8);
            std::vector<uint8_t> v(s.begin(), s.end());
            if (cleanBits && n % 8 != 0)
                v.back() = static_cast<uint8_t>(v.back() & (0xFF << (8 - n % 8)));
            x = zserio::BitBuffer(zserio::Span<const uint8_t>(v.data(), v.size()), n);
        }
        else if constexpr (is_vec<T>::value)
        {
            x.clear();
            for (size_t n = g.below(maxArr + 1); n > 0; --n)
            {
                x.emplace_back();
                (*this)(x.back());
            }
        }
        else if constexpr (std::is_enum_v<T>)
        {
            constexpr size_t n = sizeof(Items<T>::v) / sizeof(int);
            x = static_cast<T>(bad() ? static_cast<int>(g.below(256)) - 128 : Items<T>::v[g.below(n)]);
        }
        else if constexpr (zserio::is_bitmask_v<T>)
            x = T(typename T::ZserioType(static_cast<typename T::ZserioType::ValueType>(g.chance(70) ? g.below(Mask<T>::v + 1) : g.next())));
        else if constexpr (std::is_same_v<T, zserio::Bool>)
            x = T(g.chance(50));
        else
        {
            using V = typename T::ValueType;
            constexpr unsigned w = std::is_same_v<T, zserio::UInt31> || std::is_same_v<T, zserio::Int31> ? 31 : sizeof(V) * 8;
            const uint64_t m = g.magnitude(bad() ? sizeof(V) * 8 : w - (std::is_signed_v<V> ? 1 : 0));
            x = T(static_cast<V>(std::is_signed_v<V> && g.chance(50) ? ~m : m));
        }
    }
    template <typename T>
    void branch(T& x, size_t k)
    {
        if (k == 0)
            x.template emplace<tag<0, T>()>();
        withBranch(x, k, [&](auto K) { (*this)(x.template emplace<tag<decltype(K)::value, T>()>()); });
    }
    template <typename... A>
    void operator()(std::tuple<A...>& t)
    {
        std::apply([&](auto&... f) { ((*this)(f), ...); }, t);
    }
    template <typename T>
    void want(T& x, size_t k)
    {
        if (static_cast<size_t>(x.index()) != k)
            branch(x, k);
    }
    // makes optional fields and branches agree with the fields they depend on
    template <typename T, typename... A>
    void fix(T& x, const std::tuple<A...>& par)
    {
        if constexpr (std::is_same_v<T, WalkerChoice>)
        {
            const uint8_t s = std::get<0>(par);
            want(x, s == 8 ? 1 : s == 16 ? 2 : s == 32 ? 3 : s == 64 ? 4 : 0);
        }
        else if constexpr (std::is_same_v<T, ReflectableUtilChoice>)
        {
            const uint8_t s = std::get<0>(par);
            want(x, s == 1 || s == 2 ? 1 : 0);
        }
        else if constexpr (std::is_same_v<T, ReflectableChoice>)
        {
            const ReflectableEnum s = std::get<0>(par);
            want(x, s == ReflectableEnum::VALUE1 ? 1 : s == ReflectableEnum::VALUE2 ? 2 : 0);
        }
        else if constexpr (std::is_same_v<T, WalkerUnion> || std::is_same_v<T, ReflectableUnion> || std::is_same_v<T, ReflectableUtilUnion>)
        {
            if (static_cast<size_t>(x.index()) == 0)
                branch(x, 1 + g.below(Shape<T>::n));
            if constexpr (std::is_same_v<T, ReflectableUtilUnion>)
                if (static_cast<size_t>(x.index()) == 3)
                    fix(x.template get<tag<3, T>()>(), std::tuple<>());
        }
        else if constexpr (std::is_same_v<T, WalkerObject>)
        {
            if (x.identifier == 0)
                x.nested.reset();
            else if (!x.nested.has_value())
                (*this)(x.nested.emplace());
            for (auto& u : x.unionArray)
                fix(u, std::tuple<>());
            if (x.optionalUnionArray.has_value())
                for (auto& u : *x.optionalUnionArray)
                    fix(u, std::tuple<>());
            if (g.chance(70))
                x.choiceSelector = zserio::UInt8(g.pick<int>({8, 16, 32, 64}));
            fix(x.choiceField, std::make_tuple(x.choiceSelector));
        }
        else if constexpr (std::is_same_v<T, ReflectableObject>)
        {
            fix(x.reflectableChoice, std::make_tuple(x.reflectableEnum));
            fix(x.reflectableUnion, std::tuple<>());
        }
        else if constexpr (std::is_same_v<T, ReflectableUtilObject>)
        {
            if (g.chance(60))
                x.choiceParam = zserio::UInt8(static_cast<uint8_t>(g.below(4)));
            fix(x.reflectableUtilChoice, std::make_tuple(x.choiceParam));
        }
    }
    // changes one place somewhere below x
    template <typename T>
    void mutate(T& x)
    {
        if constexpr (Shape<T>::kind == 1)
        {
            constexpr size_t n = std::tuple_size_v<decltype(Shape<T>::tie(x))>;
            const size_t k = g.below(n);
            size_t i = 0;
            std::apply([&](auto&... f) { ((i++ == k ? mutate(f) : void()), ...); }, Shape<T>::tie(x));
        }
        else if constexpr (Shape<T>::kind == 2)
        {
            const size_t k = static_cast<size_t>(x.index());
            if (k == 0 || k > Shape<T>::n || g.chance(30))
                (*this)(x);
            else
                withBranch(x, k, [&](auto K) { mutate(x.template get<tag<decltype(K)::value, T>()>()); });
        }
        else if constexpr (is_opt<T>::value)
        {
            if (x.has_value() && g.chance(60))
                mutate(*x);
            else if (x.has_value())
                x.reset();
            else
                (*this)(x.emplace());
        }
        else if constexpr (is_vec<T>::value && !std::is_same_v<T, zserio::Bytes>)
        {
            if (x.empty() || g.chance(30))
            {
                x.emplace_back();
                (*this)(x.back());
            }
            else if (g.chance(30))
                x.pop_back();
            else
                mutate(x[g.below(x.size())]);
        }
        else if constexpr (std::is_same_v<T, zserio::String>)
        {
            if (x.empty() || g.chance(30))
                x.push_back(static_cast<char>(g.below(256)));
            else if (g.chance(30))
                x.pop_back();
            else
                x[g.below(x.size())] ^= static_cast<char>(1 << g.below(8));
        }
        else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T> || zserio::is_bitmask_v<T> || std::is_same_v<T, zserio::Bool>)
            (*this)(x);
        else if constexpr (std::is_same_v<T, zserio::BitBuffer> || std::is_same_v<T, zserio::Bytes>)
            (*this)(x);
        else
        {
            using V = typename T::ValueType;
            if (g.chance(50))
                x = T(static_cast<V>(static_cast<V>(x) ^ (V(1) << g.below(sizeof(V) * 8 - 1))));
            else
                (*this)(x);
        }
    }
};

// calls f(Shape tag) for every object type
template <typename T>
struct Type
{
    using type = T;
};
constexpr size_t NTYPES = 15;
template <typename F>
void withType(size_t i, F&& f)
{
    switch (i)
    {
    case 0: f(Type<CreatorNested>()); break;
    case 1: f(Type<CreatorObject>()); break;
    case 2: f(Type<WalkerNested>()); break;
    case 3: f(Type<WalkerObject>()); break;
    case 4: f(Type<ReflectableNested>()); break;
    case 5: f(Type<ReflectableObject>()); break;
    case 6: f(Type<ReflectableUtilObject>()); break;
    case 7: f(Type<DebugStringObject>()); break;
    case 8: f(Type<DebugStringParamObject>()); break;
    case 9: f(Type<WalkerUnion>()); break;
    case 10: f(Type<WalkerChoice>()); break;
    case 11: f(Type<ReflectableChoice>()); break;
    case 12: f(Type<ReflectableUnion>()); break;
    case 13: f(Type<ReflectableUtilChoice>()); break;
    default: f(Type<ReflectableUtilUnion>()); break;
    }
}
} // namespace obj
#endif
