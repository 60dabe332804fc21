// Forced into the sources of one build of the metrics driver: std::atomic is replaced by a class with the same
// interface whose operations tell a scheduler that they are about to happen and that they have happened.
#pragma once
#include <bits/stdc++.h>
#include <fmt/core.h>
#include <fmt/format.h>
#include <boost/assert/source_location.hpp>

void verif_point();

namespace std {
template <typename T>
class vatomic
{
    atomic<T> _v;
    struct P { P() { verif_point(); } ~P() { verif_point(); } };
    using MO = memory_order;
    static constexpr MO SC = memory_order_seq_cst;

   public:
    using value_type = T;
    constexpr vatomic() noexcept : _v{} {}
    constexpr vatomic(T v) noexcept : _v(v) {}
    vatomic(const vatomic&) = delete;
    auto operator=(const vatomic&) -> vatomic& = delete;
    T operator=(T v) noexcept { P p; return _v = v; }
    T operator=(T v) volatile noexcept { P p; return _v = v; }
    bool is_lock_free() const noexcept { return _v.is_lock_free(); }
    static constexpr bool is_always_lock_free = atomic<T>::is_always_lock_free;
    void store(T v, MO m = SC) noexcept { P p; _v.store(v, m); }
    T load(MO m = SC) const noexcept { P p; return _v.load(m); }
    operator T() const noexcept { P p; return _v.load(); }
    T exchange(T v, MO m = SC) noexcept { P p; return _v.exchange(v, m); }
    bool compare_exchange_weak(T& e, T d, MO a, MO b) noexcept { P p; return _v.compare_exchange_weak(e, d, a, b); }
    bool compare_exchange_weak(T& e, T d, MO a = SC) noexcept { P p; return _v.compare_exchange_weak(e, d, a); }
    bool compare_exchange_strong(T& e, T d, MO a, MO b) noexcept { P p; return _v.compare_exchange_strong(e, d, a, b); }
    bool compare_exchange_strong(T& e, T d, MO a = SC) noexcept { P p; return _v.compare_exchange_strong(e, d, a); }
    template <typename U> T fetch_add(U v, MO m = SC) noexcept { P p; return _v.fetch_add(v, m); }
    template <typename U> T fetch_sub(U v, MO m = SC) noexcept { P p; return _v.fetch_sub(v, m); }
    T fetch_and(T v, MO m = SC) noexcept { P p; return _v.fetch_and(v, m); }
    T fetch_or(T v, MO m = SC) noexcept { P p; return _v.fetch_or(v, m); }
    T fetch_xor(T v, MO m = SC) noexcept { P p; return _v.fetch_xor(v, m); }
    T operator++() noexcept { P p; return ++_v; }
    T operator++(int) noexcept { P p; return _v++; }
    T operator--() noexcept { P p; return --_v; }
    T operator--(int) noexcept { P p; return _v--; }
    template <typename U> T operator+=(U v) noexcept { P p; return _v += v; }
    template <typename U> T operator-=(U v) noexcept { P p; return _v -= v; }
};
}  // namespace std
#define atomic vatomic
