#ifndef VCSHIM_FLAT_HASH_SET_H_
#define VCSHIM_FLAT_HASH_SET_H_
#include <initializer_list>
#include <utility>
#include <vector>
namespace absl {
template <typename K, typename... Rest>
class flat_hash_set {
 public:
  using value_type = K;
  using iterator = typename std::vector<K>::const_iterator;
  using const_iterator = iterator;
  flat_hash_set() = default;
  flat_hash_set(std::initializer_list<K> l) { for (auto& e : l) insert(e); }
  template <typename It> flat_hash_set(It b, It e) { for (; b != e; ++b) insert(*b); }
  const_iterator begin() const { return v_.begin(); }
  const_iterator end() const { return v_.end(); }
  bool empty() const { return v_.empty(); }
  size_t size() const { return v_.size(); }
  void clear() { v_.clear(); }
  void reserve(size_t n) { v_.reserve(n); }
  template <typename Q> const_iterator find(const Q& k) const {
    const_iterator it = v_.begin();
    for (; it != v_.end(); ++it) if (*it == k) break;
    return it;
  }
  template <typename Q> bool contains(const Q& k) const { return find(k) != v_.end(); }
  template <typename Q> size_t count(const Q& k) const { return contains(k) ? 1 : 0; }
  std::pair<const_iterator, bool> insert(K k) {
    const_iterator it = find(k);
    if (it != v_.end()) return {it, false};
    v_.push_back(std::move(k));
    return {v_.end() - 1, true};
  }
  const_iterator insert(const_iterator, K k) { return insert(std::move(k)).first; }
  template <typename It> void insert(It b, It e) { for (; b != e; ++b) insert(*b); }
  template <typename... A> std::pair<const_iterator, bool> emplace(A&&... a) { return insert(K(std::forward<A>(a)...)); }
  template <typename Q> size_t erase(const Q& k) {
    for (size_t i = 0; i < v_.size(); ++i) if (v_[i] == k) { v_.erase(v_.begin() + i); return 1; }
    return 0;
  }
 private:
  std::vector<K> v_;
};
}
#endif
