#pragma once
// A map with few entries, in the order of insertion; the order of iteration of the real one is unspecified.
#include <functional>
#include <memory>
#include <memory_resource>
#include <stdexcept>
#include <unordered_map>
#include <utility>
namespace capi {
[[noreturn]] inline void missing() { verif_stop(); }
template <class K, class V>
class map {
public:
  using value_type = std::pair<K, V>;
  value_type e[6];
  bool used[6] = {false, false, false, false, false, false};
  using iterator = value_type*;
  map() = default;
  std::size_t size() const { std::size_t n = 0; for (int i = 0; i < 6; ++i) n += used[i] ? 1 : 0; return n; }
  bool empty() const { return size() == 0; }
  int slot(const K& k) const { int r = -1; for (int i = 0; i < 6; ++i) if (used[i] && e[i].first == k) r = i; return r; }
  std::size_t count(const K& k) const { return slot(k) >= 0 ? 1 : 0; }
  bool contains(const K& k) const { return slot(k) >= 0; }
  iterator end() { return nullptr; }
  iterator find(const K& k) { const int i = slot(k); return i < 0 ? nullptr : e + i; }
  V& at(const K& k) { const int i = slot(k); if (i < 0) missing(); return e[i].second; }
  template <class... A> std::pair<iterator, bool> try_emplace(const K& k, A&&... a) {
    const int i = slot(k);
    if (i >= 0) return {e + i, false};
    int f = 5;
    for (int j = 5; j >= 0; --j) if (!used[j]) f = j;
    used[f] = true; e[f].first = k; e[f].second = V(std::forward<A>(a)...);
    return {e + f, true};
  }
  template <class... A> std::pair<iterator, bool> emplace(const K& k, A&&... a) { return try_emplace(k, std::forward<A>(a)...); }
  std::pair<iterator, bool> insert_or_assign(const K& k, V v) { auto r = try_emplace(k); r.first->second = std::move(v); return r; }
  V& operator[](const K& k) { return try_emplace(k).first->second; }
  std::size_t erase(const K& k) { const int i = slot(k); if (i < 0) return 0; used[i] = false; return 1; }
  void clear() { for (int i = 0; i < 6; ++i) used[i] = false; }
};
}
namespace std { template <class K, class V> using verif_map = capi::map<K, V>; template <class K, class V> size_t size(const capi::map<K, V>& m) { return m.size(); } }
#define unordered_map verif_map
