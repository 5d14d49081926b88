// Model of the parts of rcutils / rmw / rosidl / rcpputils that rmw_dds_common is written against.
// These packages are not available in the sandbox; the declarations follow their public headers and
// model/ros.cpp gives every function its documented behaviour.
#pragma once
#include <assert.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif

// ---------------------------------------------------------------- rcutils
typedef int32_t rcutils_ret_t;
#define RCUTILS_RET_OK 0
#define RCUTILS_RET_WARN_UNUSED_MODEL
#define RCUTILS_RET_ERROR 2
#define RCUTILS_RET_BAD_ALLOC 10
#define RCUTILS_RET_INVALID_ARGUMENT 11
#define RCUTILS_RET_NOT_ENOUGH_SPACE 12
#define RCUTILS_RET_NOT_INITIALIZED 13
#define RCUTILS_RET_NOT_FOUND 14
#define RCUTILS_WARN_UNUSED __attribute__((warn_unused_result))
#define RCUTILS_PUBLIC
#define RCUTILS_UNLIKELY(x) __builtin_expect((x), 0)
#define RCUTILS_LIKELY(x) __builtin_expect((x), 1)
#define RCUTILS_UNUSED(x) (void)(x)
#define RCUTILS_STRINGIFY_IMPL(x) #x
#define RCUTILS_STRINGIFY(x) RCUTILS_STRINGIFY_IMPL(x)
#define RCUTILS_DEPRECATED_WITH_MSG(msg) __attribute__((deprecated(msg)))
#define RCUTILS_CAN_RETURN_WITH_ERROR_OF(x)
#define RCUTILS_CAN_FAIL_WITH(x)
#define RCUTILS_CAN_SET_MSG_AND_RETURN_WITH_ERROR_OF(x)

typedef struct rcutils_allocator_s
{
  void * (*allocate)(size_t size, void * state);
  void (* deallocate)(void * pointer, void * state);
  void * (*reallocate)(void * pointer, size_t size, void * state);
  void * (*zero_allocate)(size_t number_of_elements, size_t size_of_element, void * state);
  void * state;
} rcutils_allocator_t;
rcutils_allocator_t rcutils_get_zero_initialized_allocator(void);
rcutils_allocator_t rcutils_get_default_allocator(void);
bool rcutils_allocator_is_valid(const rcutils_allocator_t * allocator);
#define RCUTILS_CHECK_ALLOCATOR(allocator, fail_statement) \
  if (!rcutils_allocator_is_valid(allocator)) {fail_statement;}
#define RCUTILS_CHECK_ALLOCATOR_WITH_MSG(allocator, msg, fail_statement) \
  if (!rcutils_allocator_is_valid(allocator)) {RCUTILS_SET_ERROR_MSG(msg); fail_statement;}

typedef struct rcutils_error_string_s { char str[1024]; } rcutils_error_string_t;
void rcutils_set_error_state(const char * error_string, const char * file, size_t line_number);
bool rcutils_error_is_set(void);
rcutils_error_string_t rcutils_get_error_string(void);
void rcutils_reset_error(void);
#define RCUTILS_SET_ERROR_MSG(msg) \
  do {rcutils_set_error_state(msg, __FILE__, __LINE__);} while (0)
#define RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(fmt, ...) \
  do {vp_log(3, "", fmt, __VA_ARGS__); rcutils_set_error_state(fmt, __FILE__, __LINE__);} while (0)
#define RCUTILS_CHECK_FOR_NULL_WITH_MSG(value, msg, stmt) \
  do {if (NULL == value) {RCUTILS_SET_ERROR_MSG(msg); stmt;}} while (0)
#define RCUTILS_CHECK_ARGUMENT_FOR_NULL(arg, ret) \
  RCUTILS_CHECK_FOR_NULL_WITH_MSG(arg, #arg " argument is null", return ret)

void vp_log(int severity, const char * name, const char * format, ...)
__attribute__((format(printf, 3, 4)));
#define VP_LOG4(sev, name, ...) vp_log(sev, name, __VA_ARGS__)
#define RCUTILS_LOG_DEBUG(...) vp_log(0, "", __VA_ARGS__)
#define RCUTILS_LOG_INFO(...) vp_log(1, "", __VA_ARGS__)
#define RCUTILS_LOG_WARN(...) vp_log(2, "", __VA_ARGS__)
#define RCUTILS_LOG_ERROR(...) vp_log(3, "", __VA_ARGS__)
#define RCUTILS_LOG_FATAL(...) vp_log(4, "", __VA_ARGS__)
#define RCUTILS_LOG_DEBUG_NAMED(name, ...) vp_log(0, name, __VA_ARGS__)
#define RCUTILS_LOG_INFO_NAMED(name, ...) vp_log(1, name, __VA_ARGS__)
#define RCUTILS_LOG_WARN_NAMED(name, ...) vp_log(2, name, __VA_ARGS__)
#define RCUTILS_LOG_ERROR_NAMED(name, ...) vp_log(3, name, __VA_ARGS__)
#define RCUTILS_LOG_FATAL_NAMED(name, ...) vp_log(4, name, __VA_ARGS__)
#define RCUTILS_LOG_WARN_ONCE_NAMED(name, ...) vp_log(2, name, __VA_ARGS__)
#define RCUTILS_LOG_DEBUG_ONCE_NAMED(name, ...) vp_log(0, name, __VA_ARGS__)

char * rcutils_strdup(const char * str, rcutils_allocator_t allocator);
char * rcutils_strndup(const char * str, size_t string_length, rcutils_allocator_t allocator);
int rcutils_snprintf(char * buffer, size_t buffer_size, const char * format, ...)
__attribute__((format(printf, 3, 4)));
int rcutils_vsnprintf(char * buffer, size_t buffer_size, const char * format, va_list args);

typedef struct rcutils_string_array_s
{
  size_t size;
  char ** data;
  rcutils_allocator_t allocator;
} rcutils_string_array_t;
rcutils_string_array_t rcutils_get_zero_initialized_string_array(void);
rcutils_ret_t rcutils_string_array_init(
  rcutils_string_array_t * string_array, size_t size, const rcutils_allocator_t * allocator)
RCUTILS_WARN_UNUSED;
rcutils_ret_t rcutils_string_array_fini(rcutils_string_array_t * string_array) RCUTILS_WARN_UNUSED;

// ---------------------------------------------------------------- rosidl
#define ROSIDL_TYPE_HASH_VERSION_UNSET 0
#define ROSIDL_TYPE_HASH_SIZE 32
typedef struct rosidl_type_hash_s
{
  uint8_t version;
  uint8_t value[ROSIDL_TYPE_HASH_SIZE];
} rosidl_type_hash_t;
rosidl_type_hash_t rosidl_get_zero_initialized_type_hash(void);
rcutils_ret_t rosidl_stringify_type_hash(
  const rosidl_type_hash_t * type_hash, rcutils_allocator_t allocator, char ** output_string);
rcutils_ret_t rosidl_parse_type_hash_string(
  const char * type_hash_string, rosidl_type_hash_t * hash_out);

// ---------------------------------------------------------------- rmw
typedef int32_t rmw_ret_t;
#define RMW_RET_OK 0
#define RMW_RET_ERROR 1
#define RMW_RET_TIMEOUT 2
#define RMW_RET_UNSUPPORTED 3
#define RMW_RET_BAD_ALLOC 10
#define RMW_RET_INVALID_ARGUMENT 11
#define RMW_RET_INCORRECT_RMW_IMPLEMENTATION 12
#define RMW_RET_NODE_NAME_NON_EXISTENT 203
#define RMW_PUBLIC
#define RMW_WARN_UNUSED __attribute__((warn_unused_result))
#define RMW_SET_ERROR_MSG(msg) RCUTILS_SET_ERROR_MSG(msg)
#define RMW_SET_ERROR_MSG_WITH_FORMAT_STRING(fmt, ...) \
  RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(fmt, __VA_ARGS__)
#define RMW_CHECK_ARGUMENT_FOR_NULL(arg, ret) RCUTILS_CHECK_ARGUMENT_FOR_NULL(arg, ret)
#define RMW_CHECK_FOR_NULL_WITH_MSG(value, msg, stmt) RCUTILS_CHECK_FOR_NULL_WITH_MSG(value, msg, stmt)
#define rmw_get_error_string rcutils_get_error_string
#define rmw_reset_error rcutils_reset_error
#define rmw_error_is_set rcutils_error_is_set
#define rmw_error_string_t rcutils_error_string_t
#define RMW_GID_STORAGE_SIZE 16u

typedef struct rmw_time_s { uint64_t sec; uint64_t nsec; } rmw_time_t;
typedef int64_t rmw_duration_t;
#define RMW_DURATION_INFINITE {9223372036LL, 854775807LL}
#define RMW_DURATION_UNSPECIFIED {0LL, 0LL}
static inline bool rmw_time_equal(const rmw_time_t a, const rmw_time_t b)
{
  return a.sec == b.sec && a.nsec == b.nsec;
}

typedef struct rmw_gid_s
{
  const char * implementation_identifier;
  uint8_t data[RMW_GID_STORAGE_SIZE];
} rmw_gid_t;

typedef enum rmw_qos_history_policy_e
{
  RMW_QOS_POLICY_HISTORY_SYSTEM_DEFAULT, RMW_QOS_POLICY_HISTORY_KEEP_LAST,
  RMW_QOS_POLICY_HISTORY_KEEP_ALL, RMW_QOS_POLICY_HISTORY_UNKNOWN
} rmw_qos_history_policy_t;
typedef enum rmw_qos_reliability_policy_e
{
  RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT, RMW_QOS_POLICY_RELIABILITY_RELIABLE,
  RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT, RMW_QOS_POLICY_RELIABILITY_UNKNOWN,
  RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE
} rmw_qos_reliability_policy_t;
typedef enum rmw_qos_durability_policy_e
{
  RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT, RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL,
  RMW_QOS_POLICY_DURABILITY_VOLATILE, RMW_QOS_POLICY_DURABILITY_UNKNOWN,
  RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE
} rmw_qos_durability_policy_t;
typedef enum rmw_qos_liveliness_policy_e
{
  RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT = 0, RMW_QOS_POLICY_LIVELINESS_AUTOMATIC = 1,
  RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_NODE = 2, RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC = 3,
  RMW_QOS_POLICY_LIVELINESS_UNKNOWN = 4, RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE = 5
} rmw_qos_liveliness_policy_t;
#define RMW_QOS_DEADLINE_DEFAULT RMW_DURATION_UNSPECIFIED
#define RMW_QOS_DEADLINE_BEST_AVAILABLE {9223372036LL, 854775806LL}
#define RMW_QOS_LIFESPAN_DEFAULT RMW_DURATION_UNSPECIFIED
#define RMW_QOS_LIVELINESS_LEASE_DURATION_DEFAULT RMW_DURATION_UNSPECIFIED
#define RMW_QOS_LIVELINESS_LEASE_DURATION_BEST_AVAILABLE {9223372036LL, 854775806LL}
typedef struct rmw_qos_profile_s
{
  rmw_qos_history_policy_t history;
  size_t depth;
  rmw_qos_reliability_policy_t reliability;
  rmw_qos_durability_policy_t durability;
  rmw_time_t deadline;
  rmw_time_t lifespan;
  rmw_qos_liveliness_policy_t liveliness;
  rmw_time_t liveliness_lease_duration;
  bool avoid_ros_namespace_conventions;
} rmw_qos_profile_t;
typedef enum rmw_qos_compatibility_type_e
{
  RMW_QOS_COMPATIBILITY_OK = 0, RMW_QOS_COMPATIBILITY_WARNING, RMW_QOS_COMPATIBILITY_ERROR
} rmw_qos_compatibility_type_t;
static const rmw_qos_profile_t rmw_qos_profile_default =
{RMW_QOS_POLICY_HISTORY_KEEP_LAST, 10, RMW_QOS_POLICY_RELIABILITY_RELIABLE,
  RMW_QOS_POLICY_DURABILITY_VOLATILE, RMW_QOS_DEADLINE_DEFAULT, RMW_QOS_LIFESPAN_DEFAULT,
  RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT, RMW_QOS_LIVELINESS_LEASE_DURATION_DEFAULT, false};
static const rmw_qos_profile_t rmw_qos_profile_services_default =
{RMW_QOS_POLICY_HISTORY_KEEP_LAST, 10, RMW_QOS_POLICY_RELIABILITY_RELIABLE,
  RMW_QOS_POLICY_DURABILITY_VOLATILE, RMW_QOS_DEADLINE_DEFAULT, RMW_QOS_LIFESPAN_DEFAULT,
  RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT, RMW_QOS_LIVELINESS_LEASE_DURATION_DEFAULT, false};
static const rmw_qos_profile_t rmw_qos_profile_system_default =
{RMW_QOS_POLICY_HISTORY_SYSTEM_DEFAULT, 0, RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT,
  RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT, RMW_QOS_DEADLINE_DEFAULT, RMW_QOS_LIFESPAN_DEFAULT,
  RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT, RMW_QOS_LIVELINESS_LEASE_DURATION_DEFAULT, false};
static const rmw_qos_profile_t rmw_qos_profile_best_available =
{RMW_QOS_POLICY_HISTORY_KEEP_LAST, 10, RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE,
  RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE, RMW_QOS_DEADLINE_BEST_AVAILABLE, RMW_QOS_LIFESPAN_DEFAULT,
  RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE, RMW_QOS_LIVELINESS_LEASE_DURATION_BEST_AVAILABLE, false};
static const rmw_qos_profile_t rmw_qos_profile_unknown =
{RMW_QOS_POLICY_HISTORY_UNKNOWN, 0, RMW_QOS_POLICY_RELIABILITY_UNKNOWN,
  RMW_QOS_POLICY_DURABILITY_UNKNOWN, RMW_QOS_DEADLINE_DEFAULT, RMW_QOS_LIFESPAN_DEFAULT,
  RMW_QOS_POLICY_LIVELINESS_UNKNOWN, RMW_QOS_LIVELINESS_LEASE_DURATION_DEFAULT, false};
const char * rmw_qos_history_policy_to_str(rmw_qos_history_policy_t value);
const char * rmw_qos_reliability_policy_to_str(rmw_qos_reliability_policy_t value);
const char * rmw_qos_durability_policy_to_str(rmw_qos_durability_policy_t value);
const char * rmw_qos_liveliness_policy_to_str(rmw_qos_liveliness_policy_t value);

typedef struct rmw_init_options_s
{
  uint64_t instance_id;
  const char * implementation_identifier;
  size_t domain_id;
  char * enclave;
  rcutils_allocator_t allocator;
  void * impl;
} rmw_init_options_t;
typedef struct rmw_context_s
{
  uint64_t instance_id;
  const char * implementation_identifier;
  rmw_init_options_t options;
  size_t actual_domain_id;
  void * impl;
} rmw_context_t;
typedef struct rmw_node_s
{
  const char * implementation_identifier;
  void * data;
  const char * name;
  const char * namespace_;
  rmw_context_t * context;
} rmw_node_t;
typedef struct rmw_publisher_s
{
  const char * implementation_identifier;
  void * data;
  const char * topic_name;
} rmw_publisher_t;
typedef struct rmw_subscription_s
{
  const char * implementation_identifier;
  void * data;
  const char * topic_name;
} rmw_subscription_t;
typedef struct rmw_guard_condition_s
{
  const char * implementation_identifier;
  void * data;
  rmw_context_t * context;
} rmw_guard_condition_t;
typedef enum rmw_endpoint_type_e
{
  RMW_ENDPOINT_INVALID = 0, RMW_ENDPOINT_PUBLISHER, RMW_ENDPOINT_SUBSCRIPTION
} rmw_endpoint_type_t;

typedef struct rmw_topic_endpoint_info_s
{
  const char * node_name;
  const char * node_namespace;
  const char * topic_type;
  rosidl_type_hash_t topic_type_hash;
  rmw_endpoint_type_t endpoint_type;
  uint8_t endpoint_gid[RMW_GID_STORAGE_SIZE];
  rmw_qos_profile_t qos_profile;
} rmw_topic_endpoint_info_t;
typedef struct rmw_topic_endpoint_info_array_s
{
  size_t size;
  rmw_topic_endpoint_info_t * info_array;
} rmw_topic_endpoint_info_array_t;
rmw_topic_endpoint_info_t rmw_get_zero_initialized_topic_endpoint_info(void);
rmw_ret_t rmw_topic_endpoint_info_fini(
  rmw_topic_endpoint_info_t * topic_endpoint_info, rcutils_allocator_t * allocator) RMW_WARN_UNUSED;
rmw_ret_t rmw_topic_endpoint_info_set_topic_type(
  rmw_topic_endpoint_info_t * info, const char * topic_type, rcutils_allocator_t * allocator)
RMW_WARN_UNUSED;
rmw_ret_t rmw_topic_endpoint_info_set_topic_type_hash(
  rmw_topic_endpoint_info_t * info, const rosidl_type_hash_t * type_hash) RMW_WARN_UNUSED;
rmw_ret_t rmw_topic_endpoint_info_set_node_name(
  rmw_topic_endpoint_info_t * info, const char * node_name, rcutils_allocator_t * allocator)
RMW_WARN_UNUSED;
rmw_ret_t rmw_topic_endpoint_info_set_node_namespace(
  rmw_topic_endpoint_info_t * info, const char * node_namespace, rcutils_allocator_t * allocator)
RMW_WARN_UNUSED;
rmw_ret_t rmw_topic_endpoint_info_set_endpoint_type(
  rmw_topic_endpoint_info_t * info, rmw_endpoint_type_t type) RMW_WARN_UNUSED;
rmw_ret_t rmw_topic_endpoint_info_set_gid(
  rmw_topic_endpoint_info_t * info, const uint8_t gid[], size_t size) RMW_WARN_UNUSED;
rmw_ret_t rmw_topic_endpoint_info_set_qos_profile(
  rmw_topic_endpoint_info_t * info, const rmw_qos_profile_t * qos_profile) RMW_WARN_UNUSED;
rmw_topic_endpoint_info_array_t rmw_get_zero_initialized_topic_endpoint_info_array(void);
rmw_ret_t rmw_topic_endpoint_info_array_check_zero(rmw_topic_endpoint_info_array_t * a) RMW_WARN_UNUSED;
rmw_ret_t rmw_topic_endpoint_info_array_init_with_size(
  rmw_topic_endpoint_info_array_t * a, size_t size, rcutils_allocator_t * allocator) RMW_WARN_UNUSED;
rmw_ret_t rmw_topic_endpoint_info_array_fini(
  rmw_topic_endpoint_info_array_t * a, rcutils_allocator_t * allocator) RMW_WARN_UNUSED;

typedef struct rmw_names_and_types_s
{
  rcutils_string_array_t names;
  rcutils_string_array_t * types;
} rmw_names_and_types_t;
rmw_names_and_types_t rmw_get_zero_initialized_names_and_types(void);
rmw_ret_t rmw_names_and_types_check_zero(rmw_names_and_types_t * n) RMW_WARN_UNUSED;
rmw_ret_t rmw_names_and_types_init(
  rmw_names_and_types_t * n, size_t size, rcutils_allocator_t * allocator) RMW_WARN_UNUSED;
rmw_ret_t rmw_names_and_types_fini(rmw_names_and_types_t * n) RMW_WARN_UNUSED;
rmw_ret_t rmw_check_zero_rmw_string_array(rcutils_string_array_t * array) RMW_WARN_UNUSED;
rmw_ret_t rmw_convert_rcutils_ret_to_rmw_ret(rcutils_ret_t rcutils_ret) RMW_WARN_UNUSED;
#ifdef __cplusplus
}
#endif
