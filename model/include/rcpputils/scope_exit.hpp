#pragma once
#include <utility>
namespace rcpputils
{
template<typename CallableT>
class scope_exit final
{
public:
  explicit scope_exit(CallableT && callable) : callable_(std::forward<CallableT>(callable)) {}
  scope_exit(const scope_exit &) = delete;
  scope_exit(scope_exit &&) = default;
  scope_exit & operator=(const scope_exit &) = delete;
  scope_exit & operator=(scope_exit &&) = default;
  ~scope_exit() {if (!cancelled_) {callable_();}}
  void cancel() {cancelled_ = true;}

private:
  CallableT callable_;
  bool cancelled_{false};
};
template<typename CallableT>
scope_exit<CallableT> make_scope_exit(CallableT && callable)
{
  return scope_exit<CallableT>(std::forward<CallableT>(callable));
}
}  // namespace rcpputils
#define RCPPUTILS_SCOPE_EXIT_CONCAT2(a, b) a ## b
#define RCPPUTILS_SCOPE_EXIT_CONCAT(a, b) RCPPUTILS_SCOPE_EXIT_CONCAT2(a, b)
#define RCPPUTILS_SCOPE_EXIT(code) \
  auto RCPPUTILS_SCOPE_EXIT_CONCAT(scope_exit_, __LINE__) = rcpputils::make_scope_exit([&]() {code;})
