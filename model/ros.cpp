// Behaviour of the rcutils / rmw / rosidl functions (see vp_ros.h).  Compiled both to bitcode for the
// symbolic executor and natively for replay.
#include "vp_ros.h"
#include <stdio.h>
#include <stdlib.h>
#include "vp.h"

extern "C" int vp_ros_fault;
int vp_ros_fault = 0;      // makes rosidl_stringify_type_hash fail
static thread_local bool g_error = false;

extern "C" {
void rcutils_set_error_state(const char * error_string, const char * file, size_t)
{
  if (error_string && file) {g_error = true;}
}
bool rcutils_error_is_set(void) {return g_error;}
void rcutils_reset_error(void) {g_error = false;}
rcutils_error_string_t rcutils_get_error_string(void)
{
  rcutils_error_string_t r;
  memset(&r, 0, sizeof r);
  const char * t = g_error ? "error" : "error not set";
  memcpy(r.str, t, strlen(t) + 1);
  return r;
}
void vp_log(int, const char *, const char *, ...) {}

static void * dflt_alloc(size_t n, void *) {return malloc(n ? n : 1);}
static void dflt_free(void * p, void *) {free(p);}
static void * dflt_realloc(void * p, size_t n, void *) {return realloc(p, n);}
static void * dflt_zalloc(size_t n, size_t m, void *) {return calloc(n, m);}
rcutils_allocator_t rcutils_get_zero_initialized_allocator(void)
{
  rcutils_allocator_t a = {NULL, NULL, NULL, NULL, NULL};
  return a;
}
rcutils_allocator_t rcutils_get_default_allocator(void)
{
  rcutils_allocator_t a = {dflt_alloc, dflt_free, dflt_realloc, dflt_zalloc, NULL};
  return a;
}
bool rcutils_allocator_is_valid(const rcutils_allocator_t * a)
{
  return a && a->allocate && a->deallocate && a->zero_allocate && a->reallocate;
}
char * rcutils_strndup(const char * str, size_t n, rcutils_allocator_t allocator)
{
  if (!str) {return NULL;}
  char * r = static_cast<char *>(allocator.allocate(n + 1, allocator.state));
  if (!r) {return NULL;}
  memcpy(r, str, n);
  r[n] = '\0';
  return r;
}
char * rcutils_strdup(const char * str, rcutils_allocator_t allocator)
{
  if (!str) {return NULL;}
  return rcutils_strndup(str, strlen(str), allocator);
}
int rcutils_vsnprintf(char * buffer, size_t buffer_size, const char * format, va_list args)
{
  if (!format) {return -1;}
  if (!buffer && 0 == buffer_size) {return vsnprintf(NULL, 0, format, args);}
  if (!buffer || 0 == buffer_size) {return -1;}
  return vsnprintf(buffer, buffer_size, format, args);
}
int rcutils_snprintf(char * buffer, size_t buffer_size, const char * format, ...)
{
  va_list args;
  va_start(args, format);
  int r = rcutils_vsnprintf(buffer, buffer_size, format, args);
  va_end(args);
  return r;
}
rcutils_string_array_t rcutils_get_zero_initialized_string_array(void)
{
  rcutils_string_array_t a;
  memset(&a, 0, sizeof a);
  return a;
}
rcutils_ret_t rcutils_string_array_init(
  rcutils_string_array_t * a, size_t size, const rcutils_allocator_t * allocator)
{
  if (!allocator) {RCUTILS_SET_ERROR_MSG("allocator is null"); return RCUTILS_RET_INVALID_ARGUMENT;}
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(a, RCUTILS_RET_INVALID_ARGUMENT);
  a->size = size;
  a->data = static_cast<char **>(allocator->zero_allocate(size, sizeof(char *), allocator->state));
  if (!a->data && 0 != size) {
    RCUTILS_SET_ERROR_MSG("failed to allocate string array");
    return RCUTILS_RET_BAD_ALLOC;
  }
  a->allocator = *allocator;
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_string_array_fini(rcutils_string_array_t * a)
{
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(a, RCUTILS_RET_INVALID_ARGUMENT);
  if (!a->data) {return RCUTILS_RET_OK;}
  rcutils_allocator_t * al = &a->allocator;
  RCUTILS_CHECK_ALLOCATOR_WITH_MSG(al, "allocator is invalid", return RCUTILS_RET_INVALID_ARGUMENT);
  for (size_t i = 0; i < a->size; ++i) {
    al->deallocate(a->data[i], al->state);
    a->data[i] = NULL;
  }
  al->deallocate(a->data, al->state);
  a->data = NULL;
  a->size = 0;
  return RCUTILS_RET_OK;
}

// ---------------------------------------------------------------- rosidl
rosidl_type_hash_t rosidl_get_zero_initialized_type_hash(void)
{
  rosidl_type_hash_t h;
  memset(&h, 0, sizeof h);
  return h;
}
static const size_t kPrefix = 7, kHashStr = 7 + 2 * ROSIDL_TYPE_HASH_SIZE;
rcutils_ret_t rosidl_stringify_type_hash(
  const rosidl_type_hash_t * h, rcutils_allocator_t allocator, char ** out)
{
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(h, RCUTILS_RET_INVALID_ARGUMENT);
  RCUTILS_CHECK_ALLOCATOR_WITH_MSG(&allocator, "invalid allocator", return RCUTILS_RET_INVALID_ARGUMENT);
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(out, RCUTILS_RET_INVALID_ARGUMENT);
  if (vp_ros_fault) {
    *out = NULL;
    return vp_ros_fault;
  }
  char * s = static_cast<char *>(allocator.allocate(kHashStr + 1, allocator.state));
  if (!s) {
    *out = NULL;
    RCUTILS_SET_ERROR_MSG("Unable to allocate space for type hash string.");
    return RCUTILS_RET_BAD_ALLOC;
  }
  static const char hx[] = "0123456789abcdef";
  memcpy(s, "RIHS", 4);
  s[4] = hx[h->version >> 4];
  s[5] = hx[h->version & 15];
  s[6] = '_';
  for (size_t i = 0; i < ROSIDL_TYPE_HASH_SIZE; i++) {
    s[kPrefix + 2 * i] = hx[h->value[i] >> 4];
    s[kPrefix + 2 * i + 1] = hx[h->value[i] & 15];
  }
  s[kHashStr] = '\0';
  *out = s;
  return RCUTILS_RET_OK;
}
static int hexval(char c)
{
  // without branches, so that the executor does not fork on every digit
  const unsigned u = static_cast<unsigned char>(c), d = u - '0', l = (u | 32) - 'a';
  const bool dig = d < 10, let = l < 6;
  return dig ? static_cast<int>(d) : let ? static_cast<int>(l + 10) : -1;
}
rcutils_ret_t rosidl_parse_type_hash_string(const char * s, rosidl_type_hash_t * h)
{
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(s, RCUTILS_RET_INVALID_ARGUMENT);
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(h, RCUTILS_RET_INVALID_ARGUMENT);
  h->version = 0;
  size_t n = strlen(s);
  if (n < kPrefix) {RCUTILS_SET_ERROR_MSG("short"); return RCUTILS_RET_INVALID_ARGUMENT;}
  if (s[0] != 'R' || s[1] != 'I' || s[2] != 'H' || s[3] != 'S') {
    RCUTILS_SET_ERROR_MSG("prefix"); return RCUTILS_RET_INVALID_ARGUMENT;
  }
  int a = hexval(s[4]), b = hexval(s[5]);
  if (a < 0 || b < 0) {RCUTILS_SET_ERROR_MSG("version"); return RCUTILS_RET_INVALID_ARGUMENT;}
  h->version = static_cast<uint8_t>(a * 16 + b);
  if (h->version != 1) {RCUTILS_SET_ERROR_MSG("version"); return RCUTILS_RET_INVALID_ARGUMENT;}
  if (n != kHashStr) {RCUTILS_SET_ERROR_MSG("length"); return RCUTILS_RET_INVALID_ARGUMENT;}
  int bad = 0;
  for (size_t i = 0; i < ROSIDL_TYPE_HASH_SIZE; i++) {
    int hi = hexval(s[kPrefix + 2 * i]), lo = hexval(s[kPrefix + 2 * i + 1]);
    bad |= (hi < 0) | (lo < 0);
    h->value[i] = static_cast<uint8_t>((hi & 15) * 16 + (lo & 15));
  }
  if (bad) {RCUTILS_SET_ERROR_MSG("digit"); return RCUTILS_RET_INVALID_ARGUMENT;}
  return RCUTILS_RET_OK;
}

// ---------------------------------------------------------------- rmw
const char * rmw_qos_history_policy_to_str(rmw_qos_history_policy_t v)
{
  static const char n[][16] = {"system_default", "keep_last", "keep_all"};
  const unsigned u = v;
  const bool unknown = (u > 2);
  if (unknown) {return NULL;}
  return n[u];
}
const char * rmw_qos_reliability_policy_to_str(rmw_qos_reliability_policy_t v)
{
  static const char n[][16] = {"system_default", "reliable", "best_effort", "", "best_available"};
  const unsigned u = v;
  const bool unknown = (u > 4) | (u == 3);
  if (unknown) {return NULL;}
  return n[u];
}
const char * rmw_qos_durability_policy_to_str(rmw_qos_durability_policy_t v)
{
  static const char n[][16] = {"system_default", "transient_local", "volatile", "", "best_available"};
  const unsigned u = v;
  const bool unknown = (u > 4) | (u == 3);
  if (unknown) {return NULL;}
  return n[u];
}
const char * rmw_qos_liveliness_policy_to_str(rmw_qos_liveliness_policy_t v)
{
  static const char n[][16] = {"system_default", "automatic", "", "manual_by_topic", "", "best_available"};
  const unsigned u = v;
  const bool unknown = (u > 5) | (u == 2) | (u == 4);
  if (unknown) {return NULL;}
  return n[u];
}
rmw_topic_endpoint_info_t rmw_get_zero_initialized_topic_endpoint_info(void)
{
  rmw_topic_endpoint_info_t z;
  memset(&z, 0, sizeof z);
  return z;
}
static rmw_ret_t fini_str(const char ** s, rcutils_allocator_t * al)
{
  if (!s) {RMW_SET_ERROR_MSG("null"); return RMW_RET_INVALID_ARGUMENT;}
  al->deallocate(const_cast<char *>(*s), al->state);
  *s = NULL;
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_fini(rmw_topic_endpoint_info_t * i, rcutils_allocator_t * al)
{
  RCUTILS_CHECK_ALLOCATOR_WITH_MSG(al, "invalid allocator", return RMW_RET_INVALID_ARGUMENT);
  RMW_CHECK_ARGUMENT_FOR_NULL(i, RMW_RET_INVALID_ARGUMENT);
  (void)fini_str(&i->node_name, al);
  (void)fini_str(&i->node_namespace, al);
  (void)fini_str(&i->topic_type, al);
  *i = rmw_get_zero_initialized_topic_endpoint_info();
  return RMW_RET_OK;
}
static rmw_ret_t copy_str(const char ** dst, const char * str, rcutils_allocator_t * al)
{
  if (!str) {RMW_SET_ERROR_MSG("str is null"); return RMW_RET_INVALID_ARGUMENT;}
  if (!dst) {RMW_SET_ERROR_MSG("dst is null"); return RMW_RET_INVALID_ARGUMENT;}
  RCUTILS_CHECK_ALLOCATOR_WITH_MSG(al, "invalid allocator", return RMW_RET_INVALID_ARGUMENT);
  size_t n = strlen(str) + 1;
  char * t = static_cast<char *>(al->allocate(n, al->state));
  if (!t) {RMW_SET_ERROR_MSG("failed to allocate memory"); return RMW_RET_BAD_ALLOC;}
  memcpy(t, str, n);
  *dst = t;
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_topic_type(
  rmw_topic_endpoint_info_t * i, const char * s, rcutils_allocator_t * al)
{
  RMW_CHECK_ARGUMENT_FOR_NULL(i, RMW_RET_INVALID_ARGUMENT);
  return copy_str(&i->topic_type, s, al);
}
rmw_ret_t rmw_topic_endpoint_info_set_topic_type_hash(
  rmw_topic_endpoint_info_t * i, const rosidl_type_hash_t * h)
{
  RMW_CHECK_ARGUMENT_FOR_NULL(i, RMW_RET_INVALID_ARGUMENT);
  RMW_CHECK_ARGUMENT_FOR_NULL(h, RMW_RET_INVALID_ARGUMENT);
  i->topic_type_hash = *h;
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_node_name(
  rmw_topic_endpoint_info_t * i, const char * s, rcutils_allocator_t * al)
{
  RMW_CHECK_ARGUMENT_FOR_NULL(i, RMW_RET_INVALID_ARGUMENT);
  return copy_str(&i->node_name, s, al);
}
rmw_ret_t rmw_topic_endpoint_info_set_node_namespace(
  rmw_topic_endpoint_info_t * i, const char * s, rcutils_allocator_t * al)
{
  RMW_CHECK_ARGUMENT_FOR_NULL(i, RMW_RET_INVALID_ARGUMENT);
  return copy_str(&i->node_namespace, s, al);
}
rmw_ret_t rmw_topic_endpoint_info_set_endpoint_type(rmw_topic_endpoint_info_t * i, rmw_endpoint_type_t t)
{
  RMW_CHECK_ARGUMENT_FOR_NULL(i, RMW_RET_INVALID_ARGUMENT);
  i->endpoint_type = t;
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_gid(rmw_topic_endpoint_info_t * i, const uint8_t gid[], size_t size)
{
  RMW_CHECK_ARGUMENT_FOR_NULL(i, RMW_RET_INVALID_ARGUMENT);
  if (size > RMW_GID_STORAGE_SIZE) {
    RMW_SET_ERROR_MSG("size is more than RMW_GID_STORAGE_SIZE");
    return RMW_RET_INVALID_ARGUMENT;
  }
  memset(i->endpoint_gid, 0, RMW_GID_STORAGE_SIZE);
  memcpy(i->endpoint_gid, gid, size);
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_qos_profile(
  rmw_topic_endpoint_info_t * i, const rmw_qos_profile_t * q)
{
  RMW_CHECK_ARGUMENT_FOR_NULL(i, RMW_RET_INVALID_ARGUMENT);
  RMW_CHECK_ARGUMENT_FOR_NULL(q, RMW_RET_INVALID_ARGUMENT);
  i->qos_profile = *q;
  return RMW_RET_OK;
}
rmw_topic_endpoint_info_array_t rmw_get_zero_initialized_topic_endpoint_info_array(void)
{
  rmw_topic_endpoint_info_array_t a = {0, NULL};
  return a;
}
rmw_ret_t rmw_topic_endpoint_info_array_check_zero(rmw_topic_endpoint_info_array_t * a)
{
  RMW_CHECK_ARGUMENT_FOR_NULL(a, RMW_RET_INVALID_ARGUMENT);
  if (a->size != 0 || a->info_array != NULL) {
    RMW_SET_ERROR_MSG("topic_endpoint_info_array is not zeroed");
    return RMW_RET_ERROR;
  }
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_array_init_with_size(
  rmw_topic_endpoint_info_array_t * a, size_t size, rcutils_allocator_t * al)
{
  RCUTILS_CHECK_ALLOCATOR_WITH_MSG(al, "invalid allocator", return RMW_RET_INVALID_ARGUMENT);
  RMW_CHECK_ARGUMENT_FOR_NULL(a, RMW_RET_INVALID_ARGUMENT);
  a->info_array = static_cast<rmw_topic_endpoint_info_t *>(
    al->allocate(sizeof(*a->info_array) * size, al->state));
  if (!a->info_array) {
    RMW_SET_ERROR_MSG("failed to allocate memory for info_array");
    return RMW_RET_BAD_ALLOC;
  }
  a->size = size;
  for (size_t i = 0; i < size; i++) {
    a->info_array[i] = rmw_get_zero_initialized_topic_endpoint_info();
  }
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_array_fini(
  rmw_topic_endpoint_info_array_t * a, rcutils_allocator_t * al)
{
  RCUTILS_CHECK_ALLOCATOR_WITH_MSG(al, "invalid allocator", return RMW_RET_INVALID_ARGUMENT);
  RMW_CHECK_ARGUMENT_FOR_NULL(a, RMW_RET_INVALID_ARGUMENT);
  for (size_t i = 0; i < a->size; i++) {
    rmw_ret_t ret = rmw_topic_endpoint_info_fini(&a->info_array[i], al);
    if (RMW_RET_OK != ret) {return ret;}
  }
  al->deallocate(a->info_array, al->state);
  a->info_array = NULL;
  a->size = 0;
  return RMW_RET_OK;
}
rmw_names_and_types_t rmw_get_zero_initialized_names_and_types(void)
{
  rmw_names_and_types_t n;
  memset(&n, 0, sizeof n);
  return n;
}
rmw_ret_t rmw_names_and_types_check_zero(rmw_names_and_types_t * n)
{
  if (!n) {RMW_SET_ERROR_MSG("null"); return RMW_RET_INVALID_ARGUMENT;}
  if (n->names.size != 0 || n->names.data != NULL || n->types != NULL) {
    RMW_SET_ERROR_MSG("not zero");
    return RMW_RET_INVALID_ARGUMENT;
  }
  return RMW_RET_OK;
}
rmw_ret_t rmw_names_and_types_init(rmw_names_and_types_t * n, size_t size, rcutils_allocator_t * al)
{
  RCUTILS_CHECK_ALLOCATOR_WITH_MSG(al, "invalid allocator", return RMW_RET_INVALID_ARGUMENT);
  if (!n) {RMW_SET_ERROR_MSG("null"); return RMW_RET_INVALID_ARGUMENT;}
  rcutils_ret_t r = rcutils_string_array_init(&n->names, size, al);
  if (RCUTILS_RET_OK != r) {return rmw_convert_rcutils_ret_to_rmw_ret(r);}
  n->types = static_cast<rcutils_string_array_t *>(
    al->zero_allocate(size, sizeof(rcutils_string_array_t), al->state));
  if (!n->types && size > 0) {
    RMW_SET_ERROR_MSG("failed to allocate memory for types");
    r = rcutils_string_array_fini(&n->names);
    return RMW_RET_BAD_ALLOC;
  }
  return RMW_RET_OK;
}
rmw_ret_t rmw_names_and_types_fini(rmw_names_and_types_t * n)
{
  if (!n) {RMW_SET_ERROR_MSG("null"); return RMW_RET_INVALID_ARGUMENT;}
  if (n->names.size && !n->types) {
    RMW_SET_ERROR_MSG("invalid names and types");
    return RMW_RET_INVALID_ARGUMENT;
  }
  rcutils_ret_t r;
  if (n->types) {
    for (size_t i = 0; i < n->names.size; ++i) {
      r = rcutils_string_array_fini(&n->types[i]);
      if (RCUTILS_RET_OK != r) {return rmw_convert_rcutils_ret_to_rmw_ret(r);}
    }
    n->names.allocator.deallocate(n->types, n->names.allocator.state);
    n->types = NULL;
  }
  r = rcutils_string_array_fini(&n->names);
  return rmw_convert_rcutils_ret_to_rmw_ret(r);
}
rmw_ret_t rmw_check_zero_rmw_string_array(rcutils_string_array_t * a)
{
  if (!a) {RMW_SET_ERROR_MSG("null"); return RMW_RET_INVALID_ARGUMENT;}
  if (a->size != 0 || a->data != NULL) {
    RMW_SET_ERROR_MSG("not zero");
    return RMW_RET_INVALID_ARGUMENT;
  }
  return RMW_RET_OK;
}
rmw_ret_t rmw_convert_rcutils_ret_to_rmw_ret(rcutils_ret_t r)
{
  switch (r) {
    case RCUTILS_RET_OK: return RMW_RET_OK;
    case RCUTILS_RET_INVALID_ARGUMENT: return RMW_RET_INVALID_ARGUMENT;
    case RCUTILS_RET_BAD_ALLOC: return RMW_RET_BAD_ALLOC;
    default: return RMW_RET_ERROR;
  }
}
}
