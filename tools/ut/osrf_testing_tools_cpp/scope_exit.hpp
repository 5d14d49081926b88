#pragma once
#include <utility>
template<class F> struct SE {F f; ~SE(){f();}}; template<class F> SE<F> mkse(F f){return SE<F>{f};}
#define OSRF_C1(a,b) a##b
#define OSRF_C(a,b) OSRF_C1(a,b)
#define OSRF_TESTING_TOOLS_CPP_SCOPE_EXIT(code) auto OSRF_C(se_,__LINE__) = mkse([&]() {code;})
