// Earlier calls of the stateless functions, with other arguments: they must not have any effect on later answers.
#pragma once
#include <cstring>
#include <sstream>
#include <string>
#include <vector>
#include "vp.h"
#include "vp_ros.h"

#ifdef VP_PRIOR_QOS
#include "rmw_dds_common/qos.hpp"
static rmw_qos_profile_t prior_profile(int k)
{
  rmw_qos_profile_t q = rmw_qos_profile_default;
  q.history = k ? RMW_QOS_POLICY_HISTORY_KEEP_ALL : RMW_QOS_POLICY_HISTORY_KEEP_LAST;
  q.depth = 3 + k;
  q.reliability = k ? RMW_QOS_POLICY_RELIABILITY_RELIABLE : RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT;
  q.durability = k ? RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL : RMW_QOS_POLICY_DURABILITY_VOLATILE;
  q.liveliness = k ? RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC : RMW_QOS_POLICY_LIVELINESS_AUTOMATIC;
  q.deadline = rmw_time_t{k ? 1u : 2u, 77};
  q.liveliness_lease_duration = rmw_time_t{k ? 3u : 4u, 78};
  return q;
}
static rmw_topic_endpoint_info_t prior_mem[2];
static rmw_topic_endpoint_info_array_t prior_array(int k)
{
  rmw_topic_endpoint_info_array_t a;
  a.size = 2;
  a.info_array = prior_mem;
  for (int i = 0; i < 2; i++) {
    prior_mem[i] = rmw_get_zero_initialized_topic_endpoint_info();
    prior_mem[i].qos_profile = prior_profile(k);
  }
  return a;
}
static rmw_ret_t prior_ask(const rmw_node_t *, rcutils_allocator_t *, const char *, bool, rmw_topic_endpoint_info_array_t *) {return RMW_RET_OK;}
static void prior_calls()
{
  using namespace rmw_dds_common;   // NOLINT
  const int k = static_cast<int>(vp_choose("prior", 2));
  rmw_qos_compatibility_type_t c;
  char text[300];
  // incompatible in everything, or compatible
  (void)!qos_profile_check_compatible(prior_profile(0), prior_profile(k), &c, text, sizeof text);
  rmw_topic_endpoint_info_array_t a = prior_array(k);
  rmw_qos_profile_t q = rmw_qos_profile_best_available;
  (void)!qos_profile_get_best_available_for_subscription(&a, &q);
  q = rmw_qos_profile_best_available;
  (void)!qos_profile_get_best_available_for_publisher(&a, &q);
  rmw_context_t ctx;
  memset(&ctx, 0, sizeof ctx);
  ctx.options.allocator = rcutils_get_default_allocator();
  rmw_node_t node;
  memset(&node, 0, sizeof node);
  node.context = &ctx;
  GetEndpointInfoByTopicFunction f(prior_ask);
  q = k ? rmw_qos_profile_best_available : prior_profile(0);
  (void)!qos_profile_get_best_available_for_topic_subscription(&node, "/prior", &q, f);
  q = k ? rmw_qos_profile_best_available : prior_profile(0);
  (void)!qos_profile_get_best_available_for_topic_publisher(&node, "/prior", &q, f);
  q = qos_profile_update_best_available_for_services(k ? rmw_qos_profile_best_available : prior_profile(1));
  // a hash, and texts without one or with a malformed one
  rosidl_type_hash_t h;
  memset(&h, 0x5a, sizeof h);
  h.version = 1;
  std::string s;
  (void)!encode_type_hash_for_user_data_qos(h, s);
  if (k) {s = "typehash=RIHS01_5;";}
  (void)!parse_type_hash_from_user_data(reinterpret_cast<const uint8_t *>(s.data()), s.size(), h);
}
#endif
