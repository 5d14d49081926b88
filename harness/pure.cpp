// The functions without an object, called from several threads at once, each on data of its own: no races, and every
// call gives what it gives alone, before or after.
//   threads; op<thread>: op codes (see call()), negative: any; warm: whether the same was called before
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <string>
#include <unordered_map>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include "graph.h"
#include "vp_fs.h"
#include "rmw_dds_common/qos.hpp"
#include "rmw_dds_common/security.hpp"
#include "rmw_dds_common/time_utils.hpp"
using rmw_dds_common::operator<<;
using rmw_dds_common::operator==;

static const int OPS = 12, THREADS = 3;
struct In
{
  int op;
  rmw_qos_profile_t a, b;
  rosidl_type_hash_t hash;
  std::string text;
  rmw_time_t time;
  rmw_gid_t g1, g2;
};
static In in[THREADS];
static std::string out[THREADS];
static int nthreads;

// ----------------------------------------------------------------------------------------- files, all of them fixed
struct F { const char * name, * content; };
static const F sets[THREADS][7] = {
  {{"identity_ca.cert.pem", ""}, {"cert.pem", ""}, {"key.p11", "pkcs11:key0\n"}, {"permissions_ca.cert.pem", ""}, {"governance.p7s", ""},
    {"permissions.p7s", ""}, {"crl.pem", ""}},
  {{"identity_ca.cert.p11", "pkcs11:ca1 x"}, {"cert.p11", " pkcs11:cert1"}, {"key.pem", ""}, {"permissions_ca.cert.p11", "pkcs11:pca1"}, {"governance.p7s", ""},
    {"permissions.p7s", ""}, {"other", ""}},
  {{"identity_ca.cert.pem", ""}, {"cert.p11", "pkcs11:cert2"}, {"key.p11", "pkcs11:a-rather-long-identifier-of-a-key-2"}, {"governance.p7s", ""}, {"permissions.p7s", ""},
    {"permissions_ca.cert.p11", "nonsense"}, {"crl.pem", ""}},
};
static std::string dir(int t) {return std::string("enclave") + static_cast<char>('0' + t);}
static int find(const char * path)
{
  if (strncmp(path, "enclave", 7) != 0) {return -ENOENT;}
  int t = path[7] - '0';
  if (t < 0 || t >= THREADS || path[8] != '/') {return -ENOENT;}
  path += 8;
  while (*path == '/') {path++;}
  for (int i = 0; i < 7; i++) {
    if (!strcmp(sets[t][i].name, path)) {return 7 * t + i;}
  }
  return -ENOENT;
}
static const F & file(int h) {return sets[h % 21 / 7][h % 7];}
extern "C" int vp_fs_stat(const char * path, int)
{
  if (strlen(path) == 8 && !strncmp(path, "enclave", 7)) {return VP_FS_DIR;}
  int h = find(path);
  return h < 0 ? h : VP_FS_REGULAR;
}
static long pos[21 * (THREADS + 1)];
static int slot(int h) {return h + 21 * vp_thread_id();}
extern "C" int vp_fs_open(const char * path)
{
  int h = find(path);
  if (h < 0) {return h;}
  pos[slot(h)] = 0;
  return h;
}
extern "C" long vp_fs_read(int h, char * buf, size_t n)
{
  const F & f = file(h);
  size_t k = strlen(f.content) - pos[slot(h)];
  if (k > n) {k = n;}
  memcpy(buf, f.content + pos[slot(h)], k);
  pos[slot(h)] += static_cast<long>(k);
  return static_cast<long>(k);
}
extern "C" long vp_fs_size(const char * path)
{
  int h = find(path);
  return h < 0 ? h : static_cast<long>(strlen(file(h).content));
}
extern "C" void vp_fs_close(int) {}

// ---------------------------------------------------------------------------------------------------- what is called
static void put(std::string & s, uint64_t v)
{
  for (int i = 0; i < 8; i++) {s += static_cast<char>(v >> (8 * i));}
}
static void put(std::string & s, const rmw_qos_profile_t & q)
{
  put(s, q.history * 256 + q.reliability * 16 + q.durability);
  put(s, q.depth);
  put(s, q.liveliness * 2 + q.avoid_ros_namespace_conventions);
  for (const rmw_time_t & t : {q.deadline, q.lifespan, q.liveliness_lease_duration}) {put(s, t.sec); put(s, t.nsec);}
}
static rmw_topic_endpoint_info_array_t others(const In & i, const rcutils_allocator_t * al)
{
  rmw_topic_endpoint_info_array_t r;
  r.size = 2;
  r.info_array = static_cast<rmw_topic_endpoint_info_t *>(al->allocate(2 * sizeof(rmw_topic_endpoint_info_t), al->state));
  for (int k = 0; k < 2; k++) {
    r.info_array[k] = rmw_get_zero_initialized_topic_endpoint_info();
    r.info_array[k].qos_profile = k ? i.b : i.a;
  }
  return r;
}
static std::string call(const In & i, int t)
{
  using namespace rmw_dds_common;   // NOLINT
  std::string s;
  put(s, i.op);
  rcutils_allocator_t al = rcutils_get_default_allocator();
  switch (i.op) {
    case 0: case 1: {
        rmw_qos_compatibility_type_t c = RMW_QOS_COMPATIBILITY_OK;
        char text[200] = "";
        put(s, qos_profile_check_compatible(i.a, i.b, &c, i.op ? nullptr : text, i.op ? 0 : sizeof text));
        put(s, c);
        s += text;
        break;
      }
    case 2: case 3: {
        rmw_topic_endpoint_info_array_t a = others(i, &al);
        rmw_qos_profile_t q = rmw_qos_profile_best_available;
        q.depth = i.a.depth;
        put(s, i.op == 2 ? qos_profile_get_best_available_for_subscription(&a, &q) : qos_profile_get_best_available_for_publisher(&a, &q));
        put(s, q);
        al.deallocate(a.info_array, al.state);
        break;
      }
    case 4: case 5: {
        rmw_context_t ctx;
        memset(&ctx, 0, sizeof ctx);
        ctx.options.allocator = al;
        rmw_node_t node;
        memset(&node, 0, sizeof node);
        node.context = &ctx;
        rmw_qos_profile_t q = rmw_qos_profile_best_available;
        q.depth = i.b.depth;
        GetEndpointInfoByTopicFunction f = [&i, &s](const rmw_node_t *, rcutils_allocator_t * al, const char * topic, bool no_mangle,
          rmw_topic_endpoint_info_array_t * a) {
            vp_yield();
            s += topic;
            put(s, no_mangle);
            rmw_topic_endpoint_info_array_t x = others(i, al);
            *a = rmw_get_zero_initialized_topic_endpoint_info_array();
            rmw_ret_t r = rmw_topic_endpoint_info_array_init_with_size(a, 2, al);
            if (r == RMW_RET_OK) {for (int k = 0; k < 2; k++) {a->info_array[k] = x.info_array[k];}}
            al->deallocate(x.info_array, al->state);
            vp_yield();
            return r;
          };
        const std::string topic = std::string("/topic") + static_cast<char>('0' + t);
        put(s, i.op == 4 ? qos_profile_get_best_available_for_topic_subscription(&node, topic.c_str(), &q, f) :
          qos_profile_get_best_available_for_topic_publisher(&node, topic.c_str(), &q, f));
        put(s, q);
        break;
      }
    case 6: {
        rmw_qos_profile_t q = rmw_qos_profile_best_available;
        q.depth = i.a.depth;
        put(s, qos_profile_update_best_available_for_services(q));
        put(s, qos_profile_update_best_available_for_services(i.b));
        break;
      }
    case 7: {
        std::string e;
        put(s, encode_type_hash_for_user_data_qos(i.hash, e));
        s += e;
        break;
      }
    case 8: {
        rosidl_type_hash_t h = rosidl_get_zero_initialized_type_hash();
        put(s, parse_type_hash_from_user_data(reinterpret_cast<const uint8_t *>(i.text.data()), i.text.size(), h));
        put(s, h.version);
        s.append(reinterpret_cast<const char *>(h.value), sizeof h.value);
        break;
      }
    case 9: {
        std::unordered_map<std::string, std::string> m;
        put(s, get_security_files(i.a.depth & 1, std::string("file") + static_cast<char>('0' + t) + ":", dir(t), m));
        for (const char * k : {"IDENTITY_CA", "CERTIFICATE", "PRIVATE_KEY", "PERMISSIONS_CA", "GOVERNANCE", "PERMISSIONS", "CRL"}) {
          auto it = m.find(k);
          s += it == m.end() ? "-" : it->second;
          s += '|';
        }
        put(s, m.size());
        break;
      }
    case 10: {
        rmw_time_t r = clamp_rmw_time_to_dds_time(i.time);
        put(s, r.sec);
        put(s, r.nsec);
        break;
      }
    default: {
        Compare_rmw_gid_t lt;
        put(s, lt(i.g1, i.g2) * 4 + lt(i.g2, i.g1) * 2 + (i.g1 == i.g2));
        std::ostringstream o;
        o << i.g1 << ' ' << 10;
        s += o.str();
        GMsg m;
        convert_gid_to_msg(&i.g1, &m);
        rmw_gid_t g = i.g2;
        convert_msg_to_gid(&m, &g);
        s.append(reinterpret_cast<const char *>(g.data), sizeof g.data);
      }
  }
  return s;
}
static void thread(void * p)
{
  const int t = static_cast<int>(reinterpret_cast<intptr_t>(p));
  out[t] = call(in[t], t);
}
static bool equal(const std::string & a, const std::string & b)
{
  if (a.size() != b.size()) {return false;}
  int d = 0;
  for (size_t i = 0; i < a.size(); i++) {d |= a[i] ^ b[i];}
  return d == 0;
}
static rmw_qos_profile_t profile(int t, int which, bool vary)
{
  rmw_qos_profile_t q = rmw_qos_profile_default;
  const uint64_t k = vary ? vp_choose("profile", 2) : 0;
  q.reliability = k ? RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT : RMW_QOS_POLICY_RELIABILITY_RELIABLE;
  q.durability = k == static_cast<uint64_t>(which) ? RMW_QOS_POLICY_DURABILITY_VOLATILE : RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL;
  q.liveliness = k ? RMW_QOS_POLICY_LIVELINESS_AUTOMATIC : RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC;
  q.depth = 10 * t + 2 * which + k;
  q.deadline.sec = vary ? vp_sym("deadline", 8) : 5;
  q.liveliness_lease_duration.nsec = 100 * t + which;
  return q;
}

VP_ENTRY
{
  nthreads = static_cast<int>(vp_param("threads", 2));
  const bool warm = vp_choose("warm", 2);
  if (!vp_symbolic()) {
    if (chdir(getenv("VP_SCRATCH"))) {vp_unmodelled("chdir");}
    for (int t = 0; t < THREADS; t++) {
      mkdir(dir(t).c_str(), 0700);
      for (const F & f : sets[t]) {
        FILE * o = fopen((dir(t) + "/" + f.name).c_str(), "w");
        if (!o || fputs(f.content, o) < 0 || fclose(o)) {vp_unmodelled("cannot create a file");}
      }
    }
  }
  for (int t = 0; t < nthreads; t++) {
    char pn[4] = "op0";
    pn[2] = static_cast<char>('0' + t);
    const int64_t f = vp_param(pn, -1);
    In & i = in[t];
    i.op = f >= 0 ? static_cast<int>(f) : static_cast<int>(vp_choose("op", OPS));
    i.a = profile(t, 0, i.op <= 6 || i.op == 9);
    i.b = profile(t, 1, t == 0 && i.op <= 3);
    memset(&i.hash, 0, sizeof i.hash);
    i.hash.version = 1;
    for (int k = 0; k < ROSIDL_TYPE_HASH_SIZE; k++) {i.hash.value[k] = i.op == 7 ? static_cast<uint8_t>(vp_sym("hash", 8)) : static_cast<uint8_t>(k * 7 + t);}
    if (i.op == 8) {
      rosidl_type_hash_t h = i.hash;
      if (rmw_dds_common::encode_type_hash_for_user_data_qos(h, i.text) != RMW_RET_OK) {vp_unmodelled("no text");}
      i.text = (t ? "enclave=/a;" : "") + i.text;
      if (vp_choose("malformed", 2)) {i.text[i.text.size() - 5 - t] = '?';}
    }
    i.time = rmw_time_t{0, 0};
    if (i.op == 10) {i.time = rmw_time_t{vp_sym("sec", 64), vp_sym("nsec", 64)};}
    i.g1 = fixed_gid(static_cast<uint8_t>(30 + t));
    i.g2 = fixed_gid(static_cast<uint8_t>(60 + t));
    if (i.op == 11) {
      i.g1.data[15] = static_cast<uint8_t>(vp_sym("gid", 8));
      i.g2.data[15] = static_cast<uint8_t>(vp_sym("gid2", 8));
    }
  }
  std::string before[THREADS];
  if (warm) {for (int t = 0; t < nthreads; t++) {before[t] = call(in[t], t);}}
  for (int t = 1; t < nthreads; t++) {vp_spawn(thread, reinterpret_cast<void *>(static_cast<intptr_t>(t)));}
  thread(nullptr);
  vp_join();
  for (int t = 0; t < nthreads; t++) {
    if (warm) {vp_check(equal(out[t], before[t]), "a call gives what it gave before, whatever is called at the same time");}
    vp_check(equal(out[t], call(in[t], t)), "a call gives what it gives afterwards, whatever was called at the same time");
    vp_observe("size", out[t].size());
  }
  vp_cover(warm ? "warm" : "cold");
}
