// Minimal stand-in for the two pybind11 names used by core/debug.h.  With it the library is compiled in its
// Python-module configuration, in which reported errors throw std::runtime_error instead of ending the process.
#pragma once
#include <utility>
namespace pybind11 {
struct arg {
    explicit constexpr arg(const char *) {}
    template <typename T>
    arg &operator=(T &&) {
        return *this;
    }
};
template <typename... Args>
void print(Args &&...) {
}
}  // namespace pybind11
