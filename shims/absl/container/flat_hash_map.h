#ifndef VCSHIM_FLAT_HASH_MAP_H_
#define VCSHIM_FLAT_HASH_MAP_H_
#include <initializer_list>
#include <utility>
#include <vector>
#include "absl/log/vcshim_fail.h"
// Verification shim: association list with the flat_hash_map interface the
// repository uses; keys compared with ==.
namespace absl {
template <typename K, typename V, typename... Rest>
class flat_hash_map {
 public:
  using value_type = std::pair<K, V>;
  using iterator = typename std::vector<value_type>::iterator;
  using const_iterator = typename std::vector<value_type>::const_iterator;
  flat_hash_map() = default;
  flat_hash_map(std::initializer_list<value_type> l) { for (auto& e : l) insert(e); }
  iterator begin() { return v_.begin(); }
  iterator end() { return v_.end(); }
  const_iterator begin() const { return v_.begin(); }
  const_iterator end() const { return v_.end(); }
  bool empty() const { return v_.empty(); }
  size_t size() const { return v_.size(); }
  void clear() { v_.clear(); }
  void reserve(size_t n) { v_.reserve(n); }
  template <typename Q> iterator find(const Q& k) {
    iterator it = v_.begin();
    for (; it != v_.end(); ++it) if (it->first == k) break;
    return it;
  }
  template <typename Q> const_iterator find(const Q& k) const {
    const_iterator it = v_.begin();
    for (; it != v_.end(); ++it) if (it->first == k) break;
    return it;
  }
  template <typename Q> bool contains(const Q& k) const { return find(k) != v_.end(); }
  template <typename Q> size_t count(const Q& k) const { return contains(k) ? 1 : 0; }
  std::pair<iterator, bool> insert(value_type e) {
    iterator it = find(e.first);
    if (it != v_.end()) return {it, false};
    v_.push_back(std::move(e));
    return {v_.end() - 1, true};
  }
  template <typename... A> std::pair<iterator, bool> try_emplace(const K& k, A&&... a) {
    iterator it = find(k);
    if (it != v_.end()) return {it, false};
    v_.push_back(value_type(k, V(std::forward<A>(a)...)));
    return {v_.end() - 1, true};
  }
  template <typename... A> std::pair<iterator, bool> emplace(A&&... a) {
    return insert(value_type(std::forward<A>(a)...));
  }
  V& operator[](const K& k) { return try_emplace(k).first->second; }
  const V& at(const K& k) const {
    auto it = find(k);
    if (it == v_.end()) vc_check_failed("flat_hash_map::at");
    return it->second;
  }
  V& at(const K& k) {
    auto it = find(k);
    if (it == v_.end()) vc_check_failed("flat_hash_map::at");
    return it->second;
  }
  template <typename Q> size_t erase(const Q& k) {
    iterator it = find(k);
    if (it == v_.end()) return 0;
    v_.erase(it);
    return 1;
  }
 private:
  std::vector<value_type> v_;
};
}
#endif
