// Stand-in for tree-gen's support library (tree-gen is not installed in this sandbox).
#pragma once
#include <cstdint>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include "tree-annotatable.hpp"
#include "tree-cbor.hpp"

namespace tree {
using signed_size_t = std::ptrdiff_t;
}

namespace tree::base {

class NotWellFormed : public std::runtime_error {
public:
    explicit NotWellFormed(const std::string& msg)
    : std::runtime_error(msg) {}
};

class OutOfRange : public std::out_of_range {
public:
    explicit OutOfRange(const std::string& msg)
    : std::out_of_range(msg) {}
};

// Node identity bookkeeping used while checking well-formedness and (de)serializing links.
class PointerMap {
public:
    std::map<const void*, size_t> map;
    size_t add_raw(const void* p, const char* name) {
        if (map.count(p)) {
            throw NotWellFormed(std::string{ "duplicate node of type " } + name + " found in tree");
        }
        auto n = map.size();
        map[p] = n;
        return n;
    }
    size_t get_raw(const void* p, const char* name) const {
        auto it = map.find(p);
        if (it == map.end()) {
            throw NotWellFormed(std::string{ "link to node of type " } + name + " not found in tree");
        }
        return it->second;
    }
};

class IdentifierMap {
public:
    std::map<size_t, std::shared_ptr<void>> nodes;
    std::vector<std::pair<size_t, void*>> pending;
    std::vector<void (*)(void*, const std::shared_ptr<void>&)> setters;
    void register_node(size_t id, const std::shared_ptr<void>& p) { nodes[id] = p; }
    void register_link(size_t id, void* link, void (*set)(void*, const std::shared_ptr<void>&)) {
        pending.emplace_back(id, link);
        setters.push_back(set);
    }
    void restore_links() {
        for (size_t i = 0; i < pending.size(); ++i) {
            auto it = nodes.find(pending[i].first);
            if (it == nodes.end()) {
                throw std::runtime_error("link target not found");
            }
            setters[i](pending[i].second, it->second);
        }
    }
};

class Completable {
public:
    virtual ~Completable() = default;
    virtual void find_reachable(PointerMap& map) const { (void)map; }
    virtual void check_complete(const PointerMap& map) const { (void)map; }
    [[nodiscard]] virtual bool is_complete() const {
        try {
            check_well_formed();
            return true;
        } catch (NotWellFormed&) {
            return false;
        }
    }
    virtual void check_well_formed() const {
        PointerMap map;
        find_reachable(map);
        check_complete(map);
    }
    [[nodiscard]] bool is_well_formed() const {
        try {
            check_well_formed();
            return true;
        } catch (NotWellFormed&) {
            return false;
        }
    }
};

class Base : public annotatable::Annotatable, public Completable {
public:
    ~Base() override = default;
};

template <class T>
class One;

template <class T>
class Maybe : public Completable {
protected:
    std::shared_ptr<T> val;

public:
    using value_type = T;
    Maybe() = default;
    Maybe(std::nullptr_t) {}
    template <class S>
    Maybe(const std::shared_ptr<S>& value)
    : val(std::static_pointer_cast<T>(value)) {}
    Maybe(const Maybe& value) = default;
    Maybe(Maybe&& value) noexcept = default;
    template <class S>
    Maybe(const Maybe<S>& value)
    : val(std::static_pointer_cast<T>(value.get_ptr())) {}
    Maybe& operator=(const Maybe& value) = default;
    Maybe& operator=(Maybe&& value) noexcept = default;

    void set(const Maybe<T>& value) { val = value.get_ptr(); }
    void reset() { val.reset(); }
    [[nodiscard]] virtual bool empty() const { return val == nullptr; }
    [[nodiscard]] size_t size() const { return val ? 1 : 0; }
    T& deref() const {
        if (!val) {
            throw OutOfRange("dereferencing empty Maybe/One object");
        }
        return *val;
    }
    const std::shared_ptr<T>& get_ptr() const { return val; }
    T& operator*() const { return deref(); }
    T* operator->() const { return &deref(); }

    template <class S>
    S* as() const {
        return val ? dynamic_cast<S*>(val.get()) : nullptr;
    }

    bool operator==(const Maybe& rhs) const { return val == rhs.val; }
    bool operator!=(const Maybe& rhs) const { return val != rhs.val; }
    [[nodiscard]] bool equals(const Maybe& rhs) const {
        if (!val || !rhs.val) {
            return !val && !rhs.val;
        }
        if constexpr (requires(const T& t) { t.equals(t); }) {
            return val->equals(*rhs.val);
        } else {
            return *val == *rhs.val;
        }
    }

    [[nodiscard]] One<T> copy() const;
    [[nodiscard]] One<T> clone() const;

    void find_reachable(PointerMap& map) const override {
        if (val) {
            map.add_raw(val.get(), typeid(T).name());
            val->find_reachable(map);
        }
    }
    void check_complete(const PointerMap& map) const override {
        if (val) {
            val->check_complete(map);
        }
    }
    void serialize_field(cbor::MapWriter& map, const PointerMap& ids) const {
        if (val) {
            map.append_int("@i", static_cast<std::int64_t>(ids.get_raw(val.get(), typeid(T).name())));
            if constexpr (requires(const T& t) { t.serialize(map, ids); }) {
                val->serialize(map, ids);
            }
        } else {
            map.append_null("@t");
        }
    }
    template <class R>
    void deserialize_with(const cbor::MapReader& map, IdentifierMap& ids) {
        if (map.at("@t").is_null()) {
            val.reset();
            return;
        }
        val = std::static_pointer_cast<T>(R::deserialize(map, ids));
        ids.register_node(static_cast<size_t>(map.at("@i").as_int()), val);
    }
};

template <class T>
class One : public Maybe<T> {
public:
    One() = default;
    template <class S>
    explicit One(const std::shared_ptr<S>& value)
    : Maybe<T>(value) {}
    One(const One& value) = default;
    One(One&& value) noexcept = default;
    template <class S>
    One(const Maybe<S>& value)
    : Maybe<T>(value) {}
    One& operator=(const One& value) = default;
    One& operator=(One&& value) noexcept = default;

    void check_complete(const PointerMap& map) const override {
        if (!this->val) {
            throw NotWellFormed(std::string{ "'One' edge of type " } + typeid(T).name() + " is empty");
        }
        this->val->check_complete(map);
    }
};

template <class T>
One<T> Maybe<T>::copy() const {
    return val ? One<T>(val->copy().get_ptr()) : One<T>();
}
template <class T>
One<T> Maybe<T>::clone() const {
    return val ? One<T>(val->clone().get_ptr()) : One<T>();
}

template <class T>
class Any : public Completable {
protected:
    std::vector<One<T>> vec;

public:
    using value_type = One<T>;
    Any() = default;
    Any(std::initializer_list<One<T>> il)
    : vec(il) {}

    std::vector<One<T>>& get_vec() { return vec; }
    const std::vector<One<T>>& get_vec() const { return vec; }

    void add_raw(T* ob, signed_size_t pos = -1) { add(One<T>(std::shared_ptr<T>(ob)), pos); }
    template <class S>
    void add(const Maybe<S>& ob, signed_size_t pos = -1) {
        if (ob.empty()) {
            return;
        }
        if (pos < 0 || static_cast<size_t>(pos) >= vec.size()) {
            vec.emplace_back(ob.get_ptr());
        } else {
            vec.emplace(vec.begin() + pos, ob.get_ptr());
        }
    }
    template <class S, class... Args>
    Any& emplace(Args... args) {
        vec.emplace_back(std::make_shared<S>(args...));
        return *this;
    }
    template <class S>
    void extend(const Any<S>& other) {
        for (const auto& o : other.get_vec()) {
            vec.emplace_back(o.get_ptr());
        }
    }
    void remove(signed_size_t pos = -1) {
        if (!vec.empty()) {
            if (pos < 0 || static_cast<size_t>(pos) >= vec.size()) {
                vec.pop_back();
            } else {
                vec.erase(vec.begin() + pos);
            }
        }
    }
    void reset() { vec.clear(); }
    [[nodiscard]] virtual bool empty() const { return vec.empty(); }
    [[nodiscard]] size_t size() const { return vec.size(); }
    One<T>& at(size_t i) {
        if (i >= vec.size()) {
            throw OutOfRange("index out of range in Any/Many");
        }
        return vec.at(i);
    }
    const One<T>& at(size_t i) const {
        if (i >= vec.size()) {
            throw OutOfRange("index out of range in Any/Many");
        }
        return vec.at(i);
    }
    One<T>& operator[](size_t i) { return at(i); }
    const One<T>& operator[](size_t i) const { return at(i); }
    One<T>& front() { return at(0); }
    const One<T>& front() const { return at(0); }
    One<T>& back() { return at(vec.size() - 1); }
    const One<T>& back() const { return at(vec.size() - 1); }
    auto begin() { return vec.begin(); }
    auto begin() const { return vec.begin(); }
    auto end() { return vec.end(); }
    auto end() const { return vec.end(); }
    bool operator==(const Any& rhs) const {
        if (vec.size() != rhs.vec.size()) {
            return false;
        }
        for (size_t i = 0; i < vec.size(); ++i) {
            if (!(vec[i] == rhs.vec[i])) {
                return false;
            }
        }
        return true;
    }
    [[nodiscard]] bool equals(const Any& rhs) const {
        if (vec.size() != rhs.vec.size()) {
            return false;
        }
        for (size_t i = 0; i < vec.size(); ++i) {
            if (!vec[i].equals(rhs.vec[i])) {
                return false;
            }
        }
        return true;
    }
    [[nodiscard]] Any copy() const {
        Any r;
        for (const auto& o : vec) {
            r.vec.push_back(o.copy());
        }
        return r;
    }
    [[nodiscard]] Any clone() const {
        Any r;
        for (const auto& o : vec) {
            r.vec.push_back(o.clone());
        }
        return r;
    }
    void find_reachable(PointerMap& map) const override {
        for (const auto& o : vec) {
            o.find_reachable(map);
        }
    }
    void check_complete(const PointerMap& map) const override {
        for (const auto& o : vec) {
            o.check_complete(map);
        }
    }
    void serialize_field(cbor::MapWriter& map, const PointerMap& ids) const {
        auto arr = map.append_array("@d");
        for (const auto& o : vec) {
            auto m = arr.append_map();
            o.serialize_field(m, ids);
            m.close();
        }
        arr.close();
    }
    template <class R>
    void deserialize_with(const cbor::MapReader& map, IdentifierMap& ids) {
        vec.clear();
        for (const auto& e : map.at("@d").as_array()) {
            One<T> o;
            o.template deserialize_with<R>(e.as_map(), ids);
            vec.push_back(o);
        }
    }
};

template <class T>
class Many : public Any<T> {
public:
    Many() = default;
    Many(std::initializer_list<One<T>> il)
    : Any<T>(il) {}
    void check_complete(const PointerMap& map) const override {
        if (this->vec.empty()) {
            throw NotWellFormed(std::string{ "'Many' edge of type " } + typeid(T).name() + " is empty");
        }
        Any<T>::check_complete(map);
    }
    [[nodiscard]] Many copy() const {
        Many r;
        for (const auto& o : this->vec) {
            r.vec.push_back(o.copy());
        }
        return r;
    }
    [[nodiscard]] Many clone() const {
        Many r;
        for (const auto& o : this->vec) {
            r.vec.push_back(o.clone());
        }
        return r;
    }
};

template <class T>
class OptLink : public Completable {
protected:
    std::weak_ptr<T> val;
    // The real library keeps a weak pointer; a strong one keeps clones usable in the stand-in.
    std::shared_ptr<T> strong_;

public:
    OptLink() = default;
    template <class S>
    OptLink(const Maybe<S>& value)
    : val(std::static_pointer_cast<T>(value.get_ptr()))
    , strong_(std::static_pointer_cast<T>(value.get_ptr())) {}
    template <class S>
    OptLink(const OptLink<S>& value)
    : val(value.get_ptr())
    , strong_(value.get_ptr()) {}
    OptLink(const OptLink&) = default;
    OptLink(OptLink&&) noexcept = default;
    OptLink& operator=(const OptLink&) = default;
    OptLink& operator=(OptLink&&) noexcept = default;

    void set_raw(const std::shared_ptr<void>& p) {
        strong_ = std::static_pointer_cast<T>(p);
        val = strong_;
    }
    void reset() { val.reset(), strong_.reset(); }
    [[nodiscard]] bool empty() const { return val.expired(); }
    [[nodiscard]] std::shared_ptr<T> get_ptr() const { return val.lock(); }
    T& deref() const {
        auto p = val.lock();
        if (!p) {
            throw OutOfRange("dereferencing empty or expired (Opt)Link object");
        }
        return *p;
    }
    T& operator*() const { return deref(); }
    T* operator->() const { return &deref(); }
    bool operator==(const OptLink& rhs) const { return val.lock() == rhs.val.lock(); }
    bool operator!=(const OptLink& rhs) const { return !(*this == rhs); }
    [[nodiscard]] bool links_to(const Maybe<T>& target) const { return val.lock() == target.get_ptr(); }
    [[nodiscard]] bool equals(const OptLink& rhs) const { return *this == rhs; }
    void find_reachable(PointerMap& map) const override { (void)map; }
    void check_complete(const PointerMap& map) const override {
        if (!empty()) {
            map.get_raw(val.lock().get(), "link");
        }
    }
    void serialize_field(cbor::MapWriter& map, const PointerMap& ids) const {
        if (empty()) {
            map.append_null("@l");
        } else {
            map.append_int("@l", static_cast<std::int64_t>(ids.get_raw(val.lock().get(), "link")));
        }
    }
    template <class R>
    void deserialize_with(const cbor::MapReader& map, IdentifierMap& ids) {
        if (!map.at("@l").is_null()) {
            ids.register_link(static_cast<size_t>(map.at("@l").as_int()), this,
                [](void* l, const std::shared_ptr<void>& p) { static_cast<OptLink*>(l)->set_raw(p); });
        }
    }
};

template <class T>
class Link : public OptLink<T> {
public:
    Link() = default;
    template <class S>
    Link(const Maybe<S>& value)
    : OptLink<T>(value) {}
    template <class S>
    Link(const OptLink<S>& value)
    : OptLink<T>(value) {}
    Link(const Link&) = default;
    Link(Link&&) noexcept = default;
    Link& operator=(const Link&) = default;
    Link& operator=(Link&&) noexcept = default;
    void check_complete(const PointerMap& map) const override {
        if (this->empty()) {
            throw NotWellFormed("'Link' edge is empty");
        }
        map.get_raw(this->val.lock().get(), "link");
    }
};

template <class T>
std::string serialize(const Maybe<T>& tree) {
    std::string out;
    PointerMap ids;
    tree.find_reachable(ids);
    cbor::MapWriter map(out);
    tree.serialize_field(map, ids);
    map.close();
    return out;
}

template <class T>
One<T> deserialize(const std::string& cbor) {
    IdentifierMap ids;
    One<T> tree;
    auto map = cbor::Reader::parse(cbor).as_map();
    tree.template deserialize_with<T>(map, ids);
    ids.restore_links();
    return tree;
}

template <class T, typename... Args>
One<T> make(Args... args) {
    return One<T>(std::make_shared<T>(args...));
}

}  // namespace tree::base
