// Stand-in for emscripten's binding header: declares what the wrapper uses.
#pragma once
#include <string>
namespace emscripten {
template <class T>
struct class_ {
    explicit class_(const char*) {}
    template <class... A>
    const class_& constructor() const { return *this; }
    template <class F>
    const class_& function(const char*, F) const { return *this; }
};
}  // namespace emscripten
#define EMSCRIPTEN_BINDINGS(name) \
    static inline struct emscripten_##name { emscripten_##name(); } emscripten_instance_##name; \
    inline emscripten_##name::emscripten_##name()
