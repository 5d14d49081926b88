// A reference model of the graph cache, and comparison of every query of the real one with it.
#pragma once
#include <cstring>
#include <functional>
#include <string>
#include <utility>
#include <vector>
#include "vp.h"
#include "vp_ros.h"
#include "rmw_dds_common/gid_utils.hpp"
#include "rmw_dds_common/graph_cache.hpp"
#include "rmw_dds_common/msg/participant_entities_info.hpp"

using rmw_dds_common::GraphCache;
typedef rmw_dds_common::msg::ParticipantEntitiesInfo PMsg;
typedef rmw_dds_common::msg::NodeEntitiesInfo NMsg;
typedef rmw_dds_common::msg::Gid GMsg;

struct MEp
{
  rmw_gid_t gid;
  std::string topic, type;
  rosidl_type_hash_t hash;
  rmw_gid_t pgid;
  rmw_qos_profile_t qos;
};
struct MNode { std::string name, ns; std::vector<rmw_gid_t> rd, wr; };
struct MPart { rmw_gid_t gid; std::string enclave; std::vector<MNode> nodes; };
struct Model
{
  std::vector<MEp> eps[2];       // writers, readers
  std::vector<MPart> parts;
};

static inline rmw_gid_t sym_gid(const char * name)
{
  rmw_gid_t g;
  memset(&g, 0, sizeof g);
  g.implementation_identifier = "vp";
  const int64_t full = vp_param("gid_bytes", 3);
  for (int i = 0; i < 16; i++) {
    g.data[i] = full == 16 || (full == 3 && (i == 0 || i == 7)) || i == 15 ? static_cast<uint8_t>(vp_sym(name, 8)) : static_cast<uint8_t>(i);
  }
  return g;
}
static inline rmw_gid_t fixed_gid(uint8_t n)
{
  rmw_gid_t g;
  memset(&g, 0, sizeof g);
  g.implementation_identifier = "vp";
  for (int i = 0; i < 16; i++) {g.data[i] = static_cast<uint8_t>(i);}
  g.data[15] = n;
  return g;
}
static inline bool geq(const rmw_gid_t & a, const rmw_gid_t & b) {return memcmp(a.data, b.data, 16) == 0;}
// A string: `head` followed by `n` symbolic non-zero characters; `lens` makes it 0 to lens - 1 arbitrary ones,
// `tail` appends that many fixed ones.
static inline std::string sym_str(const char * name, const char * head, int n)
{
  std::string s(vp_param("lens", 0) ? "" : head);
  if (vp_param("lens", 0)) {n = static_cast<int>(vp_choose(name, vp_param("lens", 0)));}
  if (vp_param("tail", 0)) {s += std::string(vp_param("tail", 0), 'l');}
  for (int i = 0; i < n; i++) {
    char c = static_cast<char>(vp_sym(name, 8));
    vp_assume(c != 0);
    s += c;
  }
  return s;
}
static inline rosidl_type_hash_t sym_hash(const char * name)
{
  rosidl_type_hash_t h;
  memset(&h, 0, sizeof h);
  h.version = static_cast<uint8_t>(vp_sym(name, 8));
  for (auto & b : h.value) {b = static_cast<uint8_t>(vp_sym(name, 8));}
  return h;
}
static inline bool heq(const rosidl_type_hash_t & a, const rosidl_type_hash_t & b)
{
  return (a.version == b.version) & (memcmp(a.value, b.value, sizeof a.value) == 0);
}
static inline rmw_qos_profile_t sym_qos(const char * name)
{
  rmw_qos_profile_t q = rmw_qos_profile_default;
  q.depth = vp_sym(name, 64);
  q.deadline = rmw_time_t{vp_sym(name, 64), vp_sym(name, 64)};
  q.lifespan = rmw_time_t{vp_sym(name, 64), vp_sym(name, 64)};
  q.liveliness_lease_duration = rmw_time_t{vp_sym(name, 64), vp_sym(name, 64)};
  q.history = static_cast<rmw_qos_history_policy_t>(vp_sym(name, 1) + 1);
  q.reliability = static_cast<rmw_qos_reliability_policy_t>(vp_sym(name, 1) + 1);
  q.durability = static_cast<rmw_qos_durability_policy_t>(vp_sym(name, 1) + 1);
  q.liveliness = static_cast<rmw_qos_liveliness_policy_t>(2 * vp_sym(name, 1) + 1);
  q.avoid_ros_namespace_conventions = vp_sym(name, 1);
  return q;
}
static inline bool teq(const rmw_time_t & a, const rmw_time_t & b) {return (a.sec == b.sec) & (a.nsec == b.nsec);}
static inline bool qeq(const rmw_qos_profile_t & a, const rmw_qos_profile_t & b)
{
  return (a.history == b.history) & (a.depth == b.depth) & (a.reliability == b.reliability) &
         (a.durability == b.durability) & teq(a.deadline, b.deadline) & teq(a.lifespan, b.lifespan) &
         (a.liveliness == b.liveliness) & teq(a.liveliness_lease_duration, b.liveliness_lease_duration) &
         (a.avoid_ros_namespace_conventions == b.avoid_ros_namespace_conventions);
}

// ------------------------------------------------------------------------------------ model operations
static inline MEp * m_find(std::vector<MEp> & v, const rmw_gid_t & g)
{
  for (auto & e : v) {if (geq(e.gid, g)) {return &e;}}
  return nullptr;
}
static inline bool m_add(Model & m, int reader, const MEp & e)
{
  if (m_find(m.eps[reader], e.gid)) {return false;}
  m.eps[reader].push_back(e);
  return true;
}
static inline bool m_remove(Model & m, int reader, const rmw_gid_t & g)
{
  for (size_t i = 0; i < m.eps[reader].size(); i++) {
    if (geq(m.eps[reader][i].gid, g)) {
      m.eps[reader].erase(m.eps[reader].begin() + i);
      return true;
    }
  }
  return false;
}
static inline MPart * m_part(Model & m, const rmw_gid_t & g)
{
  for (auto & p : m.parts) {if (geq(p.gid, g)) {return &p;}}
  return nullptr;
}
static inline MPart & m_part_or_new(Model & m, const rmw_gid_t & g)
{
  if (MPart * p = m_part(m, g)) {return *p;}
  m.parts.push_back(MPart());
  m.parts.back().gid = g;
  return m.parts.back();
}
static inline bool m_remove_part(Model & m, const rmw_gid_t & g)
{
  for (size_t i = 0; i < m.parts.size(); i++) {
    if (geq(m.parts[i].gid, g)) {
      m.parts.erase(m.parts.begin() + i);
      return true;
    }
  }
  return false;
}
static inline GMsg to_msg(const rmw_gid_t & g)
{
  GMsg r;
  for (int i = 0; i < 16; i++) {r.data[i] = static_cast<decltype(r.data[0] + 0)>(g.data[i]);}
  return r;
}
static inline rmw_gid_t from_msg(const GMsg & g)
{
  rmw_gid_t r = fixed_gid(0);
  for (int i = 0; i < 16; i++) {r.data[i] = static_cast<uint8_t>(g.data[i]);}
  return r;
}
static inline PMsg to_msg(const MPart & p)
{
  PMsg r;
  r.gid = to_msg(p.gid);
  for (auto & n : p.nodes) {
    NMsg x;
    x.node_name = n.name;
    x.node_namespace = n.ns;
    for (auto & g : n.rd) {x.reader_gid_seq.push_back(to_msg(g));}
    for (auto & g : n.wr) {x.writer_gid_seq.push_back(to_msg(g));}
    r.node_entities_info_seq.push_back(x);
  }
  return r;
}
// Is b a permutation of a?  (With as_sets an identifier may be there more than once.)
static bool as_sets;
static inline bool same_gids(const std::vector<GMsg> & a, const std::vector<rmw_gid_t> & b)
{
  if (as_sets) {
    for (auto & x : a) {
      bool hit = false;
      for (auto & y : b) {if (geq(from_msg(x), y)) {hit = true; break;}}
      if (!hit) {return false;}
    }
    for (auto & y : b) {
      bool hit = false;
      for (auto & x : a) {if (geq(from_msg(x), y)) {hit = true; break;}}
      if (!hit) {return false;}
    }
    return true;
  }
  if (a.size() != b.size()) {return false;}
  std::vector<bool> used(b.size(), false);
  for (auto & x : a) {
    bool hit = false;
    for (size_t i = 0; i < b.size() && !hit; i++) {
      if (!used[i] && geq(from_msg(x), b[i])) {hit = true; used[i] = true;}
    }
    if (!hit) {return false;}
  }
  return true;
}
static inline bool same_node(const NMsg & a, const MNode & b)
{
  return a.node_name == b.name && a.node_namespace == b.ns && same_gids(a.reader_gid_seq, b.rd) &&
         same_gids(a.writer_gid_seq, b.wr);
}
// The message describes exactly the state of the participant (the order is not significant).
static inline bool same_part(const PMsg & a, const MPart & b)
{
  if (!geq(from_msg(a.gid), b.gid) || a.node_entities_info_seq.size() != b.nodes.size()) {return false;}
  std::vector<bool> used(b.nodes.size(), false);
  for (auto & x : a.node_entities_info_seq) {
    bool hit = false;
    for (size_t i = 0; i < b.nodes.size() && !hit; i++) {
      if (!used[i] && same_node(x, b.nodes[i])) {hit = true; used[i] = true;}
    }
    if (!hit) {return false;}
  }
  return true;
}

// ------------------------------------------------------------------------------------------- queries
static inline std::string demangle_topic(const std::string & s)
{
  // "t" + c: hidden when c is '!', several names map to one otherwise
  if (s.size() != 2 || s[0] != 't') {return s;}
  if (s[1] == '!') {return "";}
  std::string r("/");
  r += static_cast<char>(s[1] | 1);
  return r;
}
static inline std::string demangle_type(const std::string & s)
{
  if (s.size() != 2 || s[0] != 'y') {return s;}
  std::string r("T");
  r += static_cast<char>(s[1] | 1);
  return r;
}
// The queries are made with these demangling functions, or with ones that change nothing.
static bool plain;
static inline std::string as_it_is(const std::string & s) {return s;}
typedef std::function<std::string(const std::string &)> Demangle;
static inline Demangle topic_fn() {return plain ? Demangle(as_it_is) : Demangle(demangle_topic);}
static inline Demangle type_fn() {return plain ? Demangle(as_it_is) : Demangle(demangle_type);}
static inline std::string topic_text(const std::string & s) {return plain ? s : demangle_topic(s);}
static inline std::string type_text(const std::string & s) {return plain ? s : demangle_type(s);}

static const char UNKNOWN_NAME[] = "_NODE_NAME_UNKNOWN_", UNKNOWN_NS[] = "_NODE_NAMESPACE_UNKNOWN_",
  BARE[] = "_CREATED_BY_BARE_DDS_APP_";

static inline void check_count(const GraphCache & c, Model & m, const std::string & topic, int reader)
{
  size_t n = 77, k = 0;
  rmw_ret_t r = reader ? c.get_reader_count(topic, &n) : c.get_writer_count(topic, &n);
  for (auto & e : m.eps[reader]) {if (e.topic == topic) {k++;}}
  vp_check(r == RMW_RET_OK, "counting succeeds");
  vp_check(n == k, "the count is the number of endpoints on exactly that topic");
}
static inline void check_attribution(
  Model & m, const MEp & e, int reader, const char * name, const char * ns)
{
  MPart * p = m_part(m, e.pgid);
  if (!p) {
    vp_check(!strcmp(name, BARE) && !strcmp(ns, BARE), "an endpoint of an unknown participant is marked as bare DDS");
    vp_cover("bare");
    return;
  }
  bool any = false, ok = false;
  for (auto & n : p->nodes) {
    for (auto & g : reader ? n.rd : n.wr) {
      if (geq(g, e.gid)) {
        any = true;
        if (n.name == name && n.ns == ns) {ok = true;}
      }
    }
  }
  if (any) {
    vp_check(ok, "an endpoint is attributed to the node that owns it");
    vp_cover("attributed");
  } else {
    vp_check(!strcmp(name, UNKNOWN_NAME) && !strcmp(ns, UNKNOWN_NS),
      "an endpoint that no node of its participant claims is marked as unknown");
    vp_cover("unknown");
  }
}
static inline void check_info(const GraphCache & c, Model & m, const std::string & topic, int reader)
{
  rcutils_allocator_t al = rcutils_get_default_allocator();
  rmw_topic_endpoint_info_array_t a = rmw_get_zero_initialized_topic_endpoint_info_array();
  rmw_ret_t r = reader ? c.get_readers_info_by_topic(topic, type_fn(), &al, &a) :
    c.get_writers_info_by_topic(topic, type_fn(), &al, &a);
  vp_check(r == RMW_RET_OK, "the query succeeds");
  size_t k = 0;
  for (auto & e : m.eps[reader]) {
    if (!(e.topic == topic)) {continue;}
    k++;
    const rmw_topic_endpoint_info_t * hit = nullptr;
    for (size_t i = 0; i < a.size; i++) {
      if (memcmp(a.info_array[i].endpoint_gid, e.gid.data, 16) == 0) {
        vp_check(!hit, "every endpoint is reported once");
        hit = &a.info_array[i];
      }
    }
    vp_check(hit != nullptr, "every endpoint on the topic is reported");
    vp_check(hit->node_name && hit->node_namespace && hit->topic_type, "all strings are set");
    check_attribution(m, e, reader, hit->node_name, hit->node_namespace);
    vp_check(type_text(e.type) == hit->topic_type, "the demangled type is reported");
    vp_check(heq(hit->topic_type_hash, e.hash), "the type hash is reported");
    vp_check(hit->endpoint_type == (reader ? RMW_ENDPOINT_SUBSCRIPTION : RMW_ENDPOINT_PUBLISHER), "the kind is reported");
    vp_check(qeq(hit->qos_profile, e.qos), "the QoS of the endpoint is reported");
  }
  vp_check(a.size == k, "only endpoints of that topic and kind are reported");
  if (a.info_array) {
    vp_check(rmw_topic_endpoint_info_array_fini(&a, &al) == RMW_RET_OK, "the result can be released");
  }
}
typedef std::vector<std::pair<std::string, std::string>> Pairs;
static inline void add_pair(Pairs & w, const std::string & t, const std::string & y)
{
  std::string a = topic_text(t), b = type_text(y);
  if (a.empty()) {return;}
  for (auto & p : w) {if (p.first == a && p.second == b) {return;}}
  w.push_back({a, b});
}
// The result is exactly these (topic, type) pairs, each once, one entry per topic.
static inline void check_pairs(rmw_names_and_types_t & n, const Pairs & want)
{
  size_t total = 0;
  for (size_t i = 0; i < n.names.size; i++) {
    vp_check(n.names.data[i] != nullptr, "names are set");
    for (size_t j = 0; j < i; j++) {vp_check(strcmp(n.names.data[i], n.names.data[j]) != 0, "every topic is listed once");}
    vp_check(n.types[i].size > 0, "every topic has a type");
    total += n.types[i].size;
  }
  for (auto & p : want) {
    size_t hits = 0;
    for (size_t i = 0; i < n.names.size; i++) {
      if (p.first == n.names.data[i]) {
        for (size_t j = 0; j < n.types[i].size; j++) {
          vp_check(n.types[i].data[j] != nullptr, "types are set");
          if (p.second == n.types[i].data[j]) {hits++;}
        }
      }
    }
    vp_check(hits == 1, "every topic and type that exists is listed, once");
  }
  vp_check(total == want.size(), "nothing else is listed");
}
static inline void check_names(const GraphCache & c, Model & m)
{
  rcutils_allocator_t al = rcutils_get_default_allocator();
  rmw_names_and_types_t n = rmw_get_zero_initialized_names_and_types();
  vp_check(c.get_names_and_types(topic_fn(), type_fn(), &al, &n) == RMW_RET_OK, "the query succeeds");
  Pairs want;
  for (auto & v : m.eps) {for (auto & e : v) {add_pair(want, e.topic, e.type);}}
  check_pairs(n, want);
  vp_check(rmw_names_and_types_fini(&n) == RMW_RET_OK, "the result can be released");
}
static inline void check_by_node(const GraphCache & c, Model & m, const std::string & name, const std::string & ns, int reader)
{
  rcutils_allocator_t al = rcutils_get_default_allocator();
  rmw_names_and_types_t n = rmw_get_zero_initialized_names_and_types();
  rmw_ret_t r = reader ?
    c.get_reader_names_and_types_by_node(name, ns, topic_fn(), type_fn(), &al, &n) :
    c.get_writer_names_and_types_by_node(name, ns, topic_fn(), type_fn(), &al, &n);
  std::vector<const MNode *> nodes;
  for (auto & p : m.parts) {for (auto & x : p.nodes) {if (x.name == name && x.ns == ns) {nodes.push_back(&x);}}}
  if (nodes.empty()) {
    vp_check(r == RMW_RET_NODE_NAME_NON_EXISTENT, "a node that does not exist is reported as such");
    vp_check(n.names.size == 0 && !n.names.data && !n.types, "and nothing is returned");
    vp_cover("no such node");
    return;
  }
  vp_check(r == RMW_RET_OK, "the query of an existing node succeeds");
  vp_cover("by node");
  if (nodes.size() == 1) {
    Pairs want;
    for (auto & g : reader ? nodes[0]->rd : nodes[0]->wr) {
      if (MEp * e = m_find(m.eps[reader], g)) {add_pair(want, e->topic, e->type);}
    }
    check_pairs(n, want);
  } else {
    // nodes of the same name: the answer is about one of them
    bool any = false;
    for (auto x : nodes) {
      Pairs want;
      for (auto & g : reader ? x->rd : x->wr) {
        if (MEp * e = m_find(m.eps[reader], g)) {add_pair(want, e->topic, e->type);}
      }
      size_t total = 0, hits = 0;
      for (size_t i = 0; i < n.names.size; i++) {
        total += n.types[i].size;
        for (size_t j = 0; j < n.types[i].size; j++) {
          for (auto & p : want) {if (p.first == n.names.data[i] && p.second == n.types[i].data[j]) {hits++;}}
        }
      }
      if (total == want.size() && hits == total) {any = true;}
    }
    vp_check(any, "the answer is about one of the nodes with that name");
  }
  vp_check(rmw_names_and_types_fini(&n) == RMW_RET_OK, "the result can be released");
}
static inline void check_nodes(const GraphCache & c, Model & m, bool enclaves = true)
{
  size_t total = 0;
  for (auto & p : m.parts) {total += p.nodes.size();}
  vp_check(c.get_number_of_nodes() == total, "the number of nodes");
  rcutils_allocator_t al = rcutils_get_default_allocator();
  rcutils_string_array_t a = rcutils_get_zero_initialized_string_array(), b = a, e = a;
  vp_check(c.get_node_names(&a, &b, enclaves ? &e : nullptr, &al) == RMW_RET_OK, "the query succeeds");
  vp_check(a.size == total && b.size == total && e.size == (enclaves ? total : 0), "one entry per node");
  std::vector<bool> used(total, false);
  for (auto & p : m.parts) {
    for (auto & n : p.nodes) {
      bool hit = false;
      for (size_t i = 0; i < total && !hit; i++) {
        if (!used[i] && n.name == a.data[i] && n.ns == b.data[i] && (!enclaves || p.enclave == e.data[i])) {
          hit = true;
          used[i] = true;
        }
      }
      vp_check(hit, "every node is listed with its own namespace and enclave");
    }
  }
  if (total) {vp_cover("nodes");}
  vp_check(rcutils_string_array_fini(&a) == RCUTILS_RET_OK && rcutils_string_array_fini(&b) == RCUTILS_RET_OK &&
    rcutils_string_array_fini(&e) == RCUTILS_RET_OK, "the results can be released");
}
