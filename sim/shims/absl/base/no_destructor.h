// Build shim (harness only): the sandbox's Abseil predates this header.
#ifndef VERIF_SHIM_ABSL_BASE_NO_DESTRUCTOR_H_
#define VERIF_SHIM_ABSL_BASE_NO_DESTRUCTOR_H_
#include <new>
#include <type_traits>
#include <utility>
namespace absl {
template <typename T>
class NoDestructor {
 public:
  template <typename... Ts>
    requires(sizeof...(Ts) != 1 ||
             (!std::is_same_v<std::remove_cvref_t<Ts>, NoDestructor> && ...))
  explicit constexpr NoDestructor(Ts&&... args) {
    new (&space_) T(std::forward<Ts>(args)...);
  }
  explicit NoDestructor(const T& x) { new (&space_) T(x); }
  explicit NoDestructor(T&& x) { new (&space_) T(std::move(x)); }
  NoDestructor(const NoDestructor&) = delete;
  NoDestructor& operator=(const NoDestructor&) = delete;
  T* get() { return std::launder(reinterpret_cast<T*>(&space_)); }
  const T* get() const {
    return std::launder(reinterpret_cast<const T*>(&space_));
  }
  T& operator*() { return *get(); }
  const T& operator*() const { return *get(); }
  T* operator->() { return get(); }
  const T* operator->() const { return get(); }

 private:
  alignas(T) unsigned char space_[sizeof(T)];
};
}  // namespace absl
#endif
