// QoS: compatibility of two profiles and adaptation of best-available policies.
//   mode 0: verdict; 1: reason text; 2: subscription adaptation; 3: publisher adaptation;
//   4: topic-level functions; 5: services; 6: arguments
#include <cstring>
#include <string>
#include "vp.h"
#include "vp_ros.h"
#include "rmw_dds_common/qos.hpp"
#define VP_PRIOR_QOS
#include "prior.h"
using namespace rmw_dds_common;   // NOLINT
typedef rmw_qos_profile_t Q;
static const uint64_t G = 1000000000ull;
static const rmw_time_t INF = RMW_DURATION_INFINITE, BA = RMW_QOS_DEADLINE_BEST_AVAILABLE;

static bool teq(rmw_time_t a, rmw_time_t b) {return (a.sec == b.sec) & (a.nsec == b.nsec);}
static bool tle(rmw_time_t a, rmw_time_t b) {return (a.sec < b.sec) | ((a.sec == b.sec) & (a.nsec <= b.nsec));}
static bool tlt(rmw_time_t a, rmw_time_t b) {return !tle(b, a);}
static bool unset(rmw_time_t a) {return (a.sec == 0) & (a.nsec == 0);}
static rmw_time_t dur(const char * n)
{
  rmw_time_t t{vp_sym(n, 64), vp_sym(n, 64)};
  vp_assume(t.nsec < G);
  return t;
}
// kinds: 0 concrete (what an endpoint can report), 1 anything, including BEST_AVAILABLE and SYSTEM_DEFAULT
static Q profile(const char * name, int kind)
{
  Q q;
  memset(&q, 0, sizeof q);
  q.history = static_cast<rmw_qos_history_policy_t>(vp_sym(name, 2));
  q.depth = vp_sym(name, 64);
  unsigned r = vp_sym(name, 3), d = vp_sym(name, 3), l = vp_sym(name, 3);
  if (kind) {
    vp_assume((r <= 4) & (d <= 4) & (l <= 5));
  } else {
    vp_assume((r >= 1) & (r <= 2) & (d >= 1) & (d <= 2) & ((l == 1) | (l == 3)));
  }
  q.reliability = static_cast<rmw_qos_reliability_policy_t>(r);
  q.durability = static_cast<rmw_qos_durability_policy_t>(d);
  q.liveliness = static_cast<rmw_qos_liveliness_policy_t>(l);
  q.deadline = dur(name);
  q.lifespan = dur(name);
  q.liveliness_lease_duration = dur(name);
  q.avoid_ros_namespace_conventions = vp_sym(name, 1);
  return q;
}
// Leaves only the policies in `dims` arbitrary (1 reliability, 2 durability, 4 liveliness, 8 deadline, 16 lease).
static void narrow(Q & q)
{
  const int64_t dims = vp_param("dims", 31);
  if (!(dims & 1)) {q.reliability = RMW_QOS_POLICY_RELIABILITY_RELIABLE;}
  if (!(dims & 2)) {q.durability = RMW_QOS_POLICY_DURABILITY_VOLATILE;}
  if (!(dims & 4)) {q.liveliness = RMW_QOS_POLICY_LIVELINESS_AUTOMATIC;}
  if (!(dims & 8)) {q.deadline = rmw_time_t{0, 0};}
  if (!(dims & 16)) {q.liveliness_lease_duration = rmw_time_t{0, 0};}
}
static bool rest_same(const Q & a, const Q & b)
{
  return (a.history == b.history) & (a.depth == b.depth) & teq(a.lifespan, b.lifespan) &
         (a.avoid_ros_namespace_conventions == b.avoid_ros_namespace_conventions);
}
static bool same(const Q & a, const Q & b)
{
  return rest_same(a, b) & (a.reliability == b.reliability) & (a.durability == b.durability) &
         (a.liveliness == b.liveliness) & teq(a.deadline, b.deadline) &
         teq(a.liveliness_lease_duration, b.liveliness_lease_duration);
}
// ---------------------------------------------------------------------------------- specification
static bool unk(unsigned v, unsigned unknown) {return (v == RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT) | (v == unknown);}
enum Cause {C_REL, C_DUR, C_DLN, C_DL, C_LIV, C_LSN, C_LS, W_REL, W_DUR, W_LIV, NCAUSES};
// the words by which a reason may name the policy
static const char * words[NCAUSES][3] = {
  {"eliab", "est effort", "BEST_EFFORT"}, {"urab", "ransient local", "olatile"}, {"eadline", "eadline", "eadline"},
  {"eadline", "eadline", "eadline"}, {"iveliness", "manual by topic", "MANUAL_BY_TOPIC"}, {"lease", "Lease", "lease"},
  {"lease", "Lease", "lease"}, {"eliab", "est effort", "BEST_EFFORT"}, {"urab", "ransient local", "olatile"},
  {"iveliness", "manual by topic", "MANUAL_BY_TOPIC"}};
static bool names_it(const std::string & r, int cause)
{
  for (auto w : words[cause]) {if (r.find(w) != std::string::npos) {return true;}}
  return false;
}
static unsigned errors_of(const Q & p, const Q & s)
{
  unsigned e = 0;
  e |= static_cast<unsigned>((p.reliability == RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT) &
    (s.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE)) << C_REL;
  e |= static_cast<unsigned>((p.durability == RMW_QOS_POLICY_DURABILITY_VOLATILE) &
    (s.durability == RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL)) << C_DUR;
  e |= static_cast<unsigned>(unset(p.deadline) & !unset(s.deadline)) << C_DLN;
  e |= static_cast<unsigned>(!unset(p.deadline) & !unset(s.deadline) & tlt(s.deadline, p.deadline)) << C_DL;
  e |= static_cast<unsigned>((p.liveliness == RMW_QOS_POLICY_LIVELINESS_AUTOMATIC) &
    (s.liveliness == RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC)) << C_LIV;
  e |= static_cast<unsigned>(unset(p.liveliness_lease_duration) & !unset(s.liveliness_lease_duration)) << C_LSN;
  e |= static_cast<unsigned>(!unset(p.liveliness_lease_duration) & !unset(s.liveliness_lease_duration) &
    tlt(s.liveliness_lease_duration, p.liveliness_lease_duration)) << C_LS;
  return e;
}
static unsigned warnings_of(const Q & p, const Q & s)
{
  const bool pr = unk(p.reliability, RMW_QOS_POLICY_RELIABILITY_UNKNOWN), sr = unk(s.reliability, RMW_QOS_POLICY_RELIABILITY_UNKNOWN);
  const bool pd = unk(p.durability, RMW_QOS_POLICY_DURABILITY_UNKNOWN), sd = unk(s.durability, RMW_QOS_POLICY_DURABILITY_UNKNOWN);
  const bool pl = unk(p.liveliness, RMW_QOS_POLICY_LIVELINESS_UNKNOWN), sl = unk(s.liveliness, RMW_QOS_POLICY_LIVELINESS_UNKNOWN);
  unsigned w = 0;
  w |= static_cast<unsigned>((pr & (sr | (s.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE))) |
    ((p.reliability == RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT) & sr)) << W_REL;
  w |= static_cast<unsigned>((pd & (sd | (s.durability == RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL))) |
    ((p.durability == RMW_QOS_POLICY_DURABILITY_VOLATILE) & sd)) << W_DUR;
  w |= static_cast<unsigned>((pl & (sl | (s.liveliness == RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC))) |
    ((p.liveliness == RMW_QOS_POLICY_LIVELINESS_AUTOMATIC) & sl)) << W_LIV;
  return w;
}
static void verdict()
{
  Q p = profile("pub", 1), s = profile("sub", 1);
  const int64_t rel = vp_param("rel", -1);
  if (rel >= 0) {vp_assume(p.reliability == static_cast<unsigned>(rel));}
  rmw_qos_compatibility_type_t c = static_cast<rmw_qos_compatibility_type_t>(vp_sym("before", 2));
  vp_check(qos_profile_check_compatible(p, s, &c, nullptr, 0) == RMW_RET_OK, "the check succeeds");
  const unsigned e = errors_of(p, s), w = warnings_of(p, s);
  unsigned want = e ? RMW_QOS_COMPATIBILITY_ERROR : w ? RMW_QOS_COMPATIBILITY_WARNING : RMW_QOS_COMPATIBILITY_OK;
  vp_check(static_cast<unsigned>(c) == want,
    "error exactly when some policy is incompatible, warning exactly when one may be, ok otherwise");
  vp_cover(c == RMW_QOS_COMPATIBILITY_OK ? "ok" : c == RMW_QOS_COMPATIBILITY_WARNING ? "warning" : "error");
  vp_observe("verdict", c);
}
static void reason()
{
  const size_t n = static_cast<size_t>(vp_param("size", 64)), cap = static_cast<size_t>(vp_param("cap", 700));
  const bool tight = vp_param("tight", 0);
  Q p = rmw_qos_profile_default, s = p;
  // every combination of policies; durations small: none, shorter, longer
  Q a = profile("pub", 1), b = profile("sub", 1);
  const int64_t part = vp_param("part", 0);
  if (part & 1) {p.reliability = a.reliability; s.reliability = b.reliability;}
  if (part & 2) {p.durability = a.durability; s.durability = b.durability;}
  if (part & 4) {p.liveliness = a.liveliness; s.liveliness = b.liveliness;}
  if (part & 8) {p.deadline = a.deadline; s.deadline = b.deadline;}
  if (part & 16) {p.liveliness_lease_duration = a.liveliness_lease_duration; s.liveliness_lease_duration = b.liveliness_lease_duration;}
  if (!(part & 4)) {p.liveliness = s.liveliness = RMW_QOS_POLICY_LIVELINESS_AUTOMATIC;}
  rmw_qos_compatibility_type_t c, c0;
  char * full = static_cast<char *>(malloc(cap));
  memset(full, 'x', cap);
  vp_check(qos_profile_check_compatible(p, s, &c0, nullptr, 0) == RMW_RET_OK, "the check without a buffer succeeds");
  vp_check(qos_profile_check_compatible(p, s, &c, full, cap) == RMW_RET_OK, "the check with a buffer succeeds");
  vp_check(c == c0, "the verdict does not depend on the buffer");
  size_t len = strnlen(full, cap);
  vp_check(len < cap, "the reason is terminated");
  std::string r(full, len);
  vp_check((len == 0) == (c == RMW_QOS_COMPATIBILITY_OK), "a reason is given exactly when the profiles may not match");
  if (c == RMW_QOS_COMPATIBILITY_ERROR) {
    vp_check(r.find("ERROR") != std::string::npos && r.find("WARNING") == std::string::npos, "errors are reported as such");
    unsigned e = errors_of(p, s);
    for (int i = 0; i <= C_LS; i++) {if (e & (1u << i)) {vp_check(names_it(r, i), "every incompatible policy is named");}}
    vp_cover("error");
  } else if (c == RMW_QOS_COMPATIBILITY_WARNING) {
    vp_check(r.find("WARNING") != std::string::npos && r.find("ERROR") == std::string::npos, "warnings are reported as such");
    unsigned w = warnings_of(p, s);
    for (int i = W_REL; i <= W_LIV; i++) {if (w & (1u << i)) {vp_check(names_it(r, i), "every doubtful policy is named");}}
    vp_cover("warning");
  }
  // A smaller buffer gets the beginning, always terminated, never overrun.
  size_t sizes[4] = {n, 1, len, len + 1};
  for (int i = 0; i < (tight ? 4 : 1); i++) {
    size_t z = sizes[i];
    if (!z) {continue;}
    char * small = static_cast<char *>(malloc(z));
    memset(small, 'y', z);
    vp_check(qos_profile_check_compatible(p, s, &c, small, z) == RMW_RET_OK, "the check with a small buffer succeeds");
    vp_check(c == c0, "the verdict does not depend on the size of the buffer");
    size_t l = strnlen(small, z);
    vp_check(l < z, "a truncated reason is terminated");
    vp_check(l == (len < z ? len : z - 1) && memcmp(small, full, l) == 0, "a truncated reason is the beginning of the reason");
    free(small);
  }
  vp_observe_mem("reason", full, len);
  free(full);
}
// ------------------------------------------------------------------------------------ adaptation
// More than six: all alike, with concrete durations, but for the last but one.
static rmw_topic_endpoint_info_t mem[400];
static rmw_topic_endpoint_info_array_t endpoints(int n, int uniform)
{
  rmw_topic_endpoint_info_array_t a;
  a.size = n;
  a.info_array = n ? mem : nullptr;
  for (int i = 0; i < n; i++) {
    mem[i] = rmw_get_zero_initialized_topic_endpoint_info();
    if (n > 6 && i > 0 && i != n - 2) {mem[i].qos_profile = mem[0].qos_profile; continue;}
    mem[i].qos_profile = profile("endpoint", vp_param("any", 0) ? 1 : 0);
    if (n > 6 && i == 0) {mem[i].qos_profile.deadline = mem[i].qos_profile.liveliness_lease_duration = rmw_time_t{7, 500};}
    narrow(mem[i].qos_profile);
    vp_assume(tle(mem[i].qos_profile.deadline, INF) & tle(mem[i].qos_profile.liveliness_lease_duration, INF));
    if (uniform && i) {
      // all endpoints have a deadline, or none has (likewise for the lease)
      vp_assume((unset(mem[i].qos_profile.deadline) == unset(mem[0].qos_profile.deadline)) &
        (unset(mem[i].qos_profile.liveliness_lease_duration) == unset(mem[0].qos_profile.liveliness_lease_duration)));
    }
  }
  return a;
}
static rmw_time_t want_max(const rmw_topic_endpoint_info_array_t & a, bool lease)
{
  rmw_time_t r{0, 0};
  for (size_t i = 0; i < a.size; i++) {
    rmw_time_t t = lease ? a.info_array[i].qos_profile.liveliness_lease_duration : a.info_array[i].qos_profile.deadline;
    if (tlt(r, t)) {r = t;}
  }
  return r;
}
static rmw_time_t want_min(const rmw_topic_endpoint_info_array_t & a, bool lease)
{
  rmw_time_t r{0, 0};
  for (size_t i = 0; i < a.size; i++) {
    rmw_time_t t = lease ? a.info_array[i].qos_profile.liveliness_lease_duration : a.info_array[i].qos_profile.deadline;
    if (!unset(t) && (unset(r) || tlt(t, r))) {r = t;}
  }
  return r;
}
static Q expected(const rmw_topic_endpoint_info_array_t & a, const Q & in, bool sub)
{
  Q w = in;
  bool allrel = true, alltl = true, allman = true, anyman = false;
  for (size_t i = 0; i < a.size; i++) {
    const Q & q = a.info_array[i].qos_profile;
    allrel &= q.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE;
    alltl &= q.durability == RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL;
    allman &= q.liveliness == RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC;
    anyman |= q.liveliness == RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC;
  }
  if (in.reliability == RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE) {
    w.reliability = !sub || allrel ? RMW_QOS_POLICY_RELIABILITY_RELIABLE : RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT;
  }
  if (in.durability == RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE) {
    w.durability = !sub || alltl ? RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL : RMW_QOS_POLICY_DURABILITY_VOLATILE;
  }
  if (in.liveliness == RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE) {
    w.liveliness = (sub ? allman : anyman) ? RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC : RMW_QOS_POLICY_LIVELINESS_AUTOMATIC;
  }
  if (teq(in.deadline, BA)) {w.deadline = sub ? want_max(a, false) : want_min(a, false);}
  if (teq(in.liveliness_lease_duration, BA)) {w.liveliness_lease_duration = sub ? want_max(a, true) : want_min(a, true);}
  return w;
}
static void check_adapted(const Q & w, const Q & q, const Q & in)
{
  vp_check(rest_same(q, in), "history, depth, lifespan and naming are never changed");
  vp_check(q.reliability == w.reliability, "reliability is adapted as documented");
  vp_check(q.durability == w.durability, "durability is adapted as documented");
  vp_check(q.liveliness == w.liveliness, "liveliness is adapted as documented");
  vp_check(teq(q.deadline, w.deadline), "the deadline is adapted as documented");
  vp_check(teq(q.liveliness_lease_duration, w.liveliness_lease_duration), "the lease duration is adapted as documented");
}
static void adapt(bool sub)
{
  const int n = static_cast<int>(vp_param("n", 2)), uniform = static_cast<int>(vp_param("uniform", 0));
  rmw_topic_endpoint_info_array_t a = endpoints(n, uniform), before = a;
  Q in = uniform ? rmw_qos_profile_best_available : profile("mine", 1);
  if (!uniform) {narrow(in);}
  if (vp_param("ba", 0)) {
    // arbitrary except that the durations ask for the best available
    in.deadline = BA;
    in.liveliness_lease_duration = BA;
  }
  Q q = in;
  rmw_ret_t r = sub ? qos_profile_get_best_available_for_subscription(&a, &q) :
    qos_profile_get_best_available_for_publisher(&a, &q);
  vp_check(r == RMW_RET_OK, "the adaptation succeeds");
  vp_check(a.size == before.size && a.info_array == before.info_array, "the endpoints are not modified");
  if (!uniform) {
    check_adapted(expected(a, in, sub), q, in);
    vp_cover("adapted");
  } else {
    for (int i = 0; i < n; i++) {
      rmw_qos_compatibility_type_t c = RMW_QOS_COMPATIBILITY_ERROR;
      r = sub ? qos_profile_check_compatible(mem[i].qos_profile, q, &c, nullptr, 0) :
        qos_profile_check_compatible(q, mem[i].qos_profile, &c, nullptr, 0);
      vp_check(r == RMW_RET_OK && c == RMW_QOS_COMPATIBILITY_OK, "the adapted profile is compatible with every endpoint");
    }
    Q w = q;
    r = sub ? qos_profile_get_best_available_for_subscription(&a, &w) :
      qos_profile_get_best_available_for_publisher(&a, &w);
    bool again = teq(q.deadline, BA) | teq(q.liveliness_lease_duration, BA);
    vp_check(again || same(w, q), "an adapted profile needs no further adaptation");
    vp_cover("compatible");
  }
  vp_observe("reliability", q.reliability);
  vp_observe("sec", q.deadline.sec);
}
// ------------------------------------------------------------------------------- topic-level functions
static int asked, live_arrays;
static const rmw_node_t * asked_node;
static const char * asked_topic;
static rcutils_allocator_t * asked_allocator;
static rmw_ret_t answer;
static int filled;
static Q answer_qos[400];
static bool asked_mangle;
static rmw_ret_t ask(
  const rmw_node_t * node, rcutils_allocator_t * al, const char * topic, bool no_mangle, rmw_topic_endpoint_info_array_t * out)
{
  asked++;
  asked_node = node;
  asked_topic = topic;
  asked_allocator = al;
  asked_mangle = no_mangle;
  vp_check(out && out->size == 0 && !out->info_array, "the result array passed in is empty");
  if (answer != RMW_RET_OK) {return answer;}
  if (filled) {
    rmw_ret_t r = rmw_topic_endpoint_info_array_init_with_size(out, filled, al);
    if (r != RMW_RET_OK) {return r;}
    for (int i = 0; i < filled; i++) {
      out->info_array[i].qos_profile = answer_qos[i];
      r = rmw_topic_endpoint_info_set_node_name(&out->info_array[i], "node", al);
      if (r != RMW_RET_OK) {return r;}
    }
  }
  return RMW_RET_OK;
}
static int64_t allocated;
static void * c_alloc(size_t n, void * s) {(*static_cast<int64_t *>(s))++; return malloc(n ? n : 1);}
static void c_free(void * p, void * s) {if (p) {(*static_cast<int64_t *>(s))--;} free(p);}
static void * c_realloc(void * p, size_t n, void * s) {if (!p) {(*static_cast<int64_t *>(s))++;} return realloc(p, n);}
static void * c_zalloc(size_t n, size_t m, void * s) {(*static_cast<int64_t *>(s))++; return calloc(n ? n : 1, m ? m : 1);}
static bool has_ba(const Q & q)
{
  return (q.reliability == RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE) | (q.durability == RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE) |
         (q.liveliness == RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE) | teq(q.deadline, BA) | teq(q.liveliness_lease_duration, BA);
}
static void topic_level()
{
  const bool sub = vp_param("sub", 1);
  rmw_context_t ctx;
  memset(&ctx, 0, sizeof ctx);
  ctx.options.allocator = rcutils_allocator_t{c_alloc, c_free, c_realloc, c_zalloc, &allocated};
  rmw_node_t node;
  memset(&node, 0, sizeof node);
  node.context = &ctx;
  const char * topic = "/topic";
  filled = static_cast<int>(vp_param("n", 2));
  rmw_topic_endpoint_info_array_t a = endpoints(filled, 0);
  for (int i = 0; i < filled; i++) {answer_qos[i] = mem[i].qos_profile;}
  answer = static_cast<rmw_ret_t>(vp_sym("answer", 8));
  Q in = profile("mine", 1);
  narrow(in);
  Q q = in;
  GetEndpointInfoByTopicFunction f(ask);
  rmw_ret_t r = sub ? qos_profile_get_best_available_for_topic_subscription(&node, topic, &q, f) :
    qos_profile_get_best_available_for_topic_publisher(&node, topic, &q, f);
  vp_check(allocated == 0, "everything obtained for the query is released");
  if (!has_ba(in)) {
    vp_check(r == RMW_RET_OK && same(q, in), "a profile without best-available policies is left alone");
    vp_check(asked == 0, "and the graph is not queried");
    vp_cover("nothing to adapt");
    return;
  }
  vp_check(asked == 1 && asked_node == &node && !strcmp(asked_topic, topic) && !asked_mangle &&
    asked_allocator && asked_allocator->allocate == c_alloc && asked_allocator->state == &allocated,
    "the endpoints of that topic are queried once, with the allocator of the context");
  if (answer != RMW_RET_OK) {
    vp_check(r == answer, "a failure of the query is reported");
    vp_check(same(q, in), "and the profile is left alone");
    vp_cover("query failed");
    return;
  }
  vp_check(r == RMW_RET_OK, "the adaptation succeeds");
  check_adapted(expected(a, in, sub), q, in);
  vp_cover("topic adapted");
  vp_observe("reliability", q.reliability);
}
static void services()
{
  Q in = profile("mine", 1), keep = in;
  Q q = qos_profile_update_best_available_for_services(in);
  const Q d = rmw_qos_profile_services_default;
  vp_check(same(in, keep), "the argument is not modified");
  vp_check(rest_same(q, in), "history, depth, lifespan and naming are never changed");
  vp_check(q.reliability == (in.reliability == RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE ? d.reliability : in.reliability),
    "reliability is the default for services exactly when best available was asked for");
  vp_check(q.durability == (in.durability == RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE ? d.durability : in.durability),
    "durability is the default for services exactly when best available was asked for");
  vp_check(q.liveliness == (in.liveliness == RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE ? d.liveliness : in.liveliness),
    "liveliness is the default for services exactly when best available was asked for");
  vp_check(teq(q.deadline, teq(in.deadline, BA) ? d.deadline : in.deadline),
    "the deadline is the default for services exactly when best available was asked for");
  vp_check(teq(q.liveliness_lease_duration, teq(in.liveliness_lease_duration, BA) ? d.liveliness_lease_duration :
    in.liveliness_lease_duration), "the lease duration is the default for services exactly when best available was asked for");
  vp_check(!has_ba(q), "no best-available policy is left");
  vp_cover("services");
  vp_observe("reliability", q.reliability);
}
static void arguments()
{
  Q p = rmw_qos_profile_default, s = p;
  s.depth = vp_sym("depth", 64);
  s.deadline = BA;
  const Q k = s;
  rmw_qos_compatibility_type_t c = static_cast<rmw_qos_compatibility_type_t>(vp_sym("before", 2)), c0 = c;
  char buf[4] = {'a', 'b', 'c', 'd'};
  size_t n = vp_sym("size", 64);
  rmw_topic_endpoint_info_array_t a = {0, nullptr};
  rmw_context_t ctx;
  memset(&ctx, 0, sizeof ctx);
  rmw_node_t node;
  memset(&node, 0, sizeof node);
  node.context = &ctx;
  GetEndpointInfoByTopicFunction f(ask);
  vp_check(qos_profile_check_compatible(p, s, nullptr, buf, 4) == RMW_RET_INVALID_ARGUMENT, "a null result is rejected");
  vp_check(qos_profile_check_compatible(p, s, nullptr, nullptr, 0) == RMW_RET_INVALID_ARGUMENT, "a null result is rejected");
  vp_check(buf[0] == 'a' && buf[3] == 'd', "nothing is written on rejection");
  rmw_ret_t r = qos_profile_check_compatible(p, s, &c, nullptr, n);
  vp_check((r == RMW_RET_INVALID_ARGUMENT) == (n != 0) && (r == RMW_RET_OK) == (n == 0), "a size without a buffer is rejected");
  vp_check(n == 0 || c == c0, "no verdict on rejection");
  vp_check(qos_profile_check_compatible(p, s, &c, buf, 0) == RMW_RET_OK && buf[0] == 'a', "a buffer of size zero is not written");
  vp_check(qos_profile_get_best_available_for_subscription(nullptr, &s) == RMW_RET_INVALID_ARGUMENT && same(s, k), "null endpoints are rejected");
  vp_check(qos_profile_get_best_available_for_subscription(&a, nullptr) == RMW_RET_INVALID_ARGUMENT, "a null profile is rejected");
  vp_check(qos_profile_get_best_available_for_publisher(nullptr, &s) == RMW_RET_INVALID_ARGUMENT && same(s, k), "null endpoints are rejected");
  vp_check(qos_profile_get_best_available_for_publisher(&a, nullptr) == RMW_RET_INVALID_ARGUMENT, "a null profile is rejected");
  vp_check(qos_profile_get_best_available_for_topic_subscription(nullptr, "t", &s, f) == RMW_RET_INVALID_ARGUMENT &&
    qos_profile_get_best_available_for_topic_subscription(&node, nullptr, &s, f) == RMW_RET_INVALID_ARGUMENT &&
    qos_profile_get_best_available_for_topic_subscription(&node, "t", nullptr, f) == RMW_RET_INVALID_ARGUMENT &&
    qos_profile_get_best_available_for_topic_publisher(nullptr, "t", &s, f) == RMW_RET_INVALID_ARGUMENT &&
    qos_profile_get_best_available_for_topic_publisher(&node, nullptr, &s, f) == RMW_RET_INVALID_ARGUMENT &&
    qos_profile_get_best_available_for_topic_publisher(&node, "t", nullptr, f) == RMW_RET_INVALID_ARGUMENT, "null arguments are rejected");
  vp_check(same(s, k) && asked == 0, "and nothing is done");
  vp_cover("arguments");
}

VP_ENTRY
{
  if (vp_param("prior", 0)) {prior_calls();}
  switch (vp_param("mode", 0)) {
    case 0: verdict(); break;
    case 1: reason(); break;
    case 2: adapt(true); break;
    case 3: adapt(false); break;
    case 4: topic_level(); break;
    case 5: services(); break;
    default: arguments();
  }
}
