// Stand-in for tl::optional based on std::optional.
#pragma once
#include <optional>
#include <type_traits>
#include <utility>
namespace tl {
using std::bad_optional_access;
using std::in_place;
using std::in_place_t;
using std::nullopt;
using std::nullopt_t;
template <class T> class optional : public std::optional<T> {
  public:
    using std::optional<T>::optional;
    using std::optional<T>::operator=;
    optional() = default;
    template <class F> auto map(F &&f) const & -> optional<std::decay_t<decltype(std::forward<F>(f)(std::declval<T const &>()))>> {
        if (this->has_value()) { return std::forward<F>(f)(**this); }
        return nullopt;
    }
    template <class F> auto and_then(F &&f) const & { return this->has_value() ? std::forward<F>(f)(**this) : decltype(std::forward<F>(f)(**this)){}; }
};
template <class T> optional<std::decay_t<T>> make_optional(T &&x) { return optional<std::decay_t<T>>(std::forward<T>(x)); }
template <class T, class... A> optional<T> make_optional(A &&...a) { return optional<T>(in_place, std::forward<A>(a)...); }
} // namespace tl
