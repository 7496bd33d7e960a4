// Stand-in for tree-gen's annotatable header (tree-gen is not installed in this sandbox).
// Written from the use libqasm makes of it; see /verif/DESIGN.md, "Stand-ins".
#pragma once
#include <any>
#include <memory>
#include <stdexcept>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>

namespace tree::annotatable {

class Annotatable {
    std::unordered_map<std::type_index, std::any> annotations_;

public:
    virtual ~Annotatable() = default;

    template <typename T>
    void set_annotation(T&& ob) {
        using D = std::decay_t<T>;
        annotations_[std::type_index(typeid(D))] = std::make_any<D>(std::forward<T>(ob));
    }
    template <typename T>
    void set_annotation(const T& ob) {
        annotations_[std::type_index(typeid(T))] = std::make_any<T>(ob);
    }
    template <typename T>
    [[nodiscard]] bool has_annotation() const {
        return annotations_.count(std::type_index(typeid(T))) != 0;
    }
    template <typename T>
    T* get_annotation_ptr() {
        auto it = annotations_.find(std::type_index(typeid(T)));
        return it == annotations_.end() ? nullptr : std::any_cast<T>(&it->second);
    }
    template <typename T>
    const T* get_annotation_ptr() const {
        auto it = annotations_.find(std::type_index(typeid(T)));
        return it == annotations_.end() ? nullptr : std::any_cast<T>(&it->second);
    }
    template <typename T>
    T& get_annotation() {
        if (auto p = get_annotation_ptr<T>()) {
            return *p;
        }
        throw std::runtime_error("object does not have an annotation of this type");
    }
    template <typename T>
    const T& get_annotation() const {
        if (auto p = get_annotation_ptr<T>()) {
            return *p;
        }
        throw std::runtime_error("object does not have an annotation of this type");
    }
    template <typename T>
    void erase_annotation() {
        annotations_.erase(std::type_index(typeid(T)));
    }
    template <typename T>
    void copy_annotation(const Annotatable& src) {
        if (auto p = src.get_annotation_ptr<T>()) {
            set_annotation<T>(T(*p));
        } else {
            erase_annotation<T>();
        }
    }
    void copy_annotations(const Annotatable& src) {
        for (const auto& kv : src.annotations_) {
            annotations_[kv.first] = kv.second;
        }
    }
};

}  // namespace tree::annotatable
