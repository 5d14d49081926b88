// Conversion of rmw_time_t to a DDS duration: min(total, INT_MAX s + 999999999 ns), normalised.
#include "vp.h"
#include "rmw_dds_common/time_utils.hpp"
typedef unsigned __int128 u128;
static const uint64_t G = 1000000000ull, M = 2147483647ull;
static bool le(rmw_time_t a, rmw_time_t b) {return a.sec < b.sec || (a.sec == b.sec && a.nsec <= b.nsec);}
// The exact total, compared without 128-bit multiplication: sec + nsec / G, nsec % G.
VP_ENTRY
{
  if (vp_param("prior", 0)) {
    // an earlier call with another time plays no part
    static const rmw_time_t earlier[] = {{1, 2}, {~0ull, ~0ull}, {0, 0}};
    (void)rmw_dds_common::clamp_rmw_time_to_dds_time(earlier[vp_choose("prior", 3)]);
  }
  rmw_time_t t{vp_sym("sec", 64), vp_sym("nsec", 64)}, in = t;
  rmw_time_t r = rmw_dds_common::clamp_rmw_time_to_dds_time(t);
  vp_check(t.sec == in.sec && t.nsec == in.nsec, "the argument is not modified");
  vp_check(r.nsec < G, "nanoseconds are normalised");
  vp_check(r.sec <= M, "seconds fit a DDS duration");
  uint64_t carry = t.nsec / G, rest = t.nsec - carry * G;
  bool fits = carry <= M && t.sec <= M - carry;
  if (fits) {
    vp_check(r.sec == t.sec + carry && r.nsec == rest, "a representable time is converted exactly");
    vp_cover("in range");
    if (carry) {vp_cover("normalised");}
  } else {
    vp_check(r.sec == M && r.nsec == G - 1, "an unrepresentable time saturates");
    vp_cover("saturated");
  }
  rmw_time_t again = rmw_dds_common::clamp_rmw_time_to_dds_time(r);
  vp_check(again.sec == r.sec && again.nsec == r.nsec, "idempotent");
  if (vp_param("pair", 1)) {
    rmw_time_t u{vp_sym("sec2", 64), vp_sym("nsec2", 64)};
    uint64_t c2 = u.nsec / G, r2 = u.nsec - c2 * G;
    // total(t) <= total(u), both sums kept to 65 bits
    u128 st = static_cast<u128>(t.sec) + carry, su = static_cast<u128>(u.sec) + c2;
    vp_assume(st < su || (st == su && rest <= r2));
    rmw_time_t v = rmw_dds_common::clamp_rmw_time_to_dds_time(u);
    vp_check(le(r, v), "monotone");
  }
  vp_observe("sec", r.sec);
  vp_observe("nsec", r.nsec);
}
