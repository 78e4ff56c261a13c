// Stand-in for math::wide_integer::int128_t based on the compiler's 128 bit integer.
// Two's complement wrap-around as in wide-integer.
#pragma once
#include <cstdint>
#include <limits>
#include <ostream>
#include <type_traits>
namespace math {
namespace wide_integer {
class int128_t {
    using S = __int128;
    using U = unsigned __int128;
    S v_ = 0;
    struct raw {};
    constexpr int128_t(raw, S v) : v_(v) {}
  public:
    constexpr int128_t() = default;
    template <class I, class = std::enable_if_t<std::is_integral<I>::value>> constexpr int128_t(I x) : v_(static_cast<S>(x)) {}
    template <class I, class = std::enable_if_t<std::is_integral<I>::value>> explicit constexpr operator I() const { return static_cast<I>(v_); }
    explicit constexpr operator double() const { return static_cast<double>(v_); }
    static constexpr int128_t of(S v) { return int128_t(raw{}, v); }
    constexpr S get() const { return v_; }
    constexpr int128_t operator-() const { return of(static_cast<S>(U(0) - static_cast<U>(v_))); }
    constexpr int128_t operator+() const { return *this; }
    constexpr int128_t operator~() const { return of(~v_); }
    constexpr bool operator!() const { return v_ == 0; }
#define SHIM_OP_(op)                                                                                                   \
    friend constexpr int128_t operator op(int128_t a, int128_t b) {                                                    \
        return of(static_cast<S>(static_cast<U>(a.v_) op static_cast<U>(b.v_)));                                       \
    }                                                                                                                  \
    int128_t &operator op##=(int128_t b) { return *this = *this op b; }
    SHIM_OP_(+) SHIM_OP_(-) SHIM_OP_(*) SHIM_OP_(&) SHIM_OP_(|) SHIM_OP_(^)
#undef SHIM_OP_
    friend constexpr int128_t operator/(int128_t a, int128_t b) { return b.v_ == -1 ? -a : of(a.v_ / b.v_); }
    friend constexpr int128_t operator%(int128_t a, int128_t b) { return b.v_ == -1 ? of(0) : of(a.v_ % b.v_); }
    int128_t &operator/=(int128_t b) { return *this = *this / b; }
    int128_t &operator%=(int128_t b) { return *this = *this % b; }
    int128_t &operator++() { return *this += 1; }
    int128_t &operator--() { return *this -= 1; }
    int128_t operator++(int) { auto r = *this; *this += 1; return r; }
    int128_t operator--(int) { auto r = *this; *this -= 1; return r; }
#define SHIM_CMP_(op) friend constexpr bool operator op(int128_t a, int128_t b) { return a.v_ op b.v_; }
    SHIM_CMP_(==) SHIM_CMP_(!=) SHIM_CMP_(<) SHIM_CMP_(<=) SHIM_CMP_(>) SHIM_CMP_(>=)
#undef SHIM_CMP_
    friend std::ostream &operator<<(std::ostream &o, int128_t x) { return o << static_cast<long long>(x.v_); }
};
} // namespace wide_integer
} // namespace math
namespace std {
template <> class numeric_limits<math::wide_integer::int128_t> {
    using T = math::wide_integer::int128_t;
  public:
    static constexpr bool is_specialized = true, is_signed = true, is_integer = true, is_exact = true, is_bounded = true;
    static constexpr int digits = 127, radix = 2;
    static constexpr T min() { return T::of(static_cast<__int128>(static_cast<unsigned __int128>(1) << 127)); }
    static constexpr T lowest() { return min(); }
    static constexpr T max() { return T::of(static_cast<__int128>(~(static_cast<unsigned __int128>(1) << 127))); }
};
} // namespace std
