// A stand-in for cpp-btree (not installed here): the part of btree_multimap the project
// uses, with its contract enforced. As in cpp-btree, any insertion or erasure invalidates
// every iterator; using one afterwards is reported.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <iterator>
#include <map>

namespace btree {
// may be replaced by a harness; must not return
inline void (*misuse)(const char*) = [](const char* what) {
    fprintf(stderr, "btree misuse: %s\n", what);
    abort();
};

template <class K, class V>
class btree_multimap {
    using M = std::multimap<K, V>;
    M m_;
    unsigned long gen_ = 0;

   public:
    using value_type = std::pair<const K, V>;
    class iterator {
        friend class btree_multimap;
        const btree_multimap* host_ = nullptr;
        mutable typename M::iterator i_;
        unsigned long gen_ = 0;
        iterator(const btree_multimap* h, typename M::iterator i) : host_{h}, i_{i}, gen_{h->gen_} {}
        void live() const {
            if (!host_) misuse("an iterator of no container is used");
            if (gen_ != host_->gen_) misuse("an iterator is used after the container has changed");
        }

       public:
        using iterator_category = std::bidirectional_iterator_tag;
        using value_type = btree_multimap::value_type;
        using difference_type = std::ptrdiff_t;
        using pointer = value_type*;
        using reference = value_type&;
        iterator() = default;
        reference operator*() const {
            live();
            if (i_ == const_cast<btree_multimap*>(host_)->m_.end()) misuse("the end is dereferenced");
            return *i_;
        }
        pointer operator->() const { return &**this; }
        iterator& operator++() {
            live();
            if (i_ == const_cast<btree_multimap*>(host_)->m_.end()) misuse("an iterator steps over the end");
            ++i_;
            return *this;
        }
        iterator operator++(int) { auto t = *this; ++*this; return t; }
        iterator& operator--() {
            live();
            if (i_ == const_cast<btree_multimap*>(host_)->m_.begin()) misuse("an iterator steps before the beginning");
            --i_;
            return *this;
        }
        iterator operator--(int) { auto t = *this; --*this; return t; }
        bool operator==(const iterator& b) const {
            if (!host_ && !b.host_) return true;
            if (host_ != b.host_) misuse("iterators of different containers are compared");
            live();
            b.live();
            return i_ == b.i_;
        }
        bool operator!=(const iterator& b) const { return !(*this == b); }
    };
    using const_iterator = iterator;

    btree_multimap() = default;
    btree_multimap(const btree_multimap& b) : m_{b.m_} {}
    btree_multimap(btree_multimap&& b) : m_{std::move(b.m_)} { b.m_.clear(), b.gen_++; }
    btree_multimap& operator=(const btree_multimap& b) { m_ = b.m_, gen_++; return *this; }
    btree_multimap& operator=(btree_multimap&& b) { m_ = std::move(b.m_), gen_++, b.m_.clear(), b.gen_++; return *this; }

    iterator begin() const { return it(self().m_.begin()); }
    iterator end() const { return it(self().m_.end()); }
    bool empty() const { return m_.empty(); }
    size_t size() const { return m_.size(); }
    size_t count(const K& k) const { return m_.count(k); }
    void clear() { m_.clear(), gen_++; }
    iterator lower_bound(const K& k) const { return it(self().m_.lower_bound(k)); }
    iterator upper_bound(const K& k) const { return it(self().m_.upper_bound(k)); }
    iterator find(const K& k) const { return it(self().m_.find(k)); }
    std::pair<iterator, iterator> equal_range(const K& k) const { return {lower_bound(k), upper_bound(k)}; }
    template <class P>
    iterator insert(P&& p) {
        auto i = m_.emplace(std::forward<P>(p));
        gen_++;
        return it(i);
    }
    template <class... A>
    iterator emplace(A&&... a) {
        auto i = m_.emplace(std::forward<A>(a)...);
        gen_++;
        return it(i);
    }
    iterator erase(iterator i) {
        i.live();
        auto n = m_.erase(i.i_);
        gen_++;
        return it(n);
    }
    iterator erase(iterator a, iterator b) {
        a.live(), b.live();
        auto n = m_.erase(a.i_, b.i_);
        gen_++;
        return it(n);
    }
    size_t erase(const K& k) {
        gen_++;
        return m_.erase(k);
    }
    void swap(btree_multimap& b) { m_.swap(b.m_), gen_++, b.gen_++; }

   private:
    btree_multimap& self() const { return const_cast<btree_multimap&>(*this); }
    iterator it(typename M::iterator i) const { return iterator{this, i}; }
};
}  // namespace btree
