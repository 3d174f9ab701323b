// Build shim (harness only): the sandbox's Abseil predates this header.
#ifndef VERIF_SHIM_ABSL_FUNCTIONAL_OVERLOAD_H_
#define VERIF_SHIM_ABSL_FUNCTIONAL_OVERLOAD_H_
namespace absl {
template <typename... T>
struct Overload final : T... {
  using T::operator()...;
};
template <typename... T>
Overload(T...) -> Overload<T...>;
}  // namespace absl
#endif
