#pragma once
#define RCUTILS_FAULT_INJECTION_TEST(code) if (0) {int _rcutils_fault_injection_count = 0; (void)_rcutils_fault_injection_count; code}
#define RCUTILS_FAULT_INJECTION_NEVER_FAIL -1
static inline int rcutils_fault_injection_get_count() {return -1;}
static inline void rcutils_fault_injection_set_count(int) {}
