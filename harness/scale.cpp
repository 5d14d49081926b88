// Large graphs: sizes at which narrow counters, fixed buffers and chunked processing would give up.
//   mode 0: endpoints on one topic; 1: topic listings with many topics and types; 2: nodes and participants;
//   3: a node with many endpoints; 4: local changes of a large participant; 5: the printed graph
//   n: how many
#include <sstream>
#include "graph.h"

static rmw_gid_t gid(unsigned kind, unsigned i)
{
  rmw_gid_t g = fixed_gid(static_cast<uint8_t>(kind));
  g.data[3] = static_cast<uint8_t>(i >> 8);
  g.data[4] = static_cast<uint8_t>(i);
  return g;
}
static std::string num(const char * p, unsigned i)
{
  std::string s(p);
  s += static_cast<char>('a' + i / 676 % 26);
  s += static_cast<char>('a' + i / 26 % 26);
  s += static_cast<char>('a' + i % 26);
  return s;
}
static std::string same(const std::string & s) {return s;}
static int64_t N;
static GraphCache * c;

static void one_topic()
{
  const unsigned k = static_cast<unsigned>(N / 2);
  const bool reader = vp_param("reader", 0);
  for (unsigned t = 0; t < 2; t++) {          // the other kind has one endpoint of each
    c->add_entity(gid(9, t), t ? "other" : "topic", "type", rosidl_get_zero_initialized_type_hash(), gid(7, 0), rmw_qos_profile_default, !reader);
  }
  MPart p;
  p.gid = gid(7, 1);
  for (unsigned i = 0; i < 3; i++) {
    MNode n;
    n.name = num("n", i);
    n.ns = "/s";
    p.nodes.push_back(n);
  }
  std::string odd = "topi";
  odd += static_cast<char>(vp_sym("char", 8));
  vp_assume(odd[4] != 0);
  for (unsigned i = 0; i < N; i++) {
    rosidl_type_hash_t h = rosidl_get_zero_initialized_type_hash();
    h.version = 1;
    h.value[5] = static_cast<uint8_t>(i);
    rmw_qos_profile_t q = rmw_qos_profile_default;
    q.depth = i;
    vp_check(c->add_entity(gid(1, i), i == k ? odd : "topic", num("y", i), h, p.gid, q, reader), "every new endpoint is added");
    (reader ? p.nodes[i % 3].rd : p.nodes[i % 3].wr).push_back(gid(1, i));
  }
  c->update_participant_entities(to_msg(p));
  const size_t want = static_cast<size_t>(N) - (odd[4] == 'c' ? 0 : 1);
  size_t n = 0;
  vp_check((reader ? c->get_reader_count("topic", &n) : c->get_writer_count("topic", &n)) == RMW_RET_OK && n == want,
    "the count is the number of endpoints on exactly that topic");
  vp_check((reader ? c->get_writer_count("topic", &n) : c->get_reader_count("topic", &n)) == RMW_RET_OK && n == 1,
    "the other kind is counted separately");
  rcutils_allocator_t al = rcutils_get_default_allocator();
  rmw_topic_endpoint_info_array_t a = rmw_get_zero_initialized_topic_endpoint_info_array();
  vp_check((reader ? c->get_readers_info_by_topic("topic", same, &al, &a) :
    c->get_writers_info_by_topic("topic", same, &al, &a)) == RMW_RET_OK, "the query succeeds");
  vp_check(a.size == want, "only endpoints of that topic and kind are reported");
  std::vector<bool> seen(N, false);
  for (size_t j = 0; j < a.size; j++) {
    const rmw_topic_endpoint_info_t & e = a.info_array[j];
    unsigned i = e.endpoint_gid[3] * 256u + e.endpoint_gid[4];
    vp_check(i < N && !seen[i] && memcmp(e.endpoint_gid, gid(1, i).data, 16) == 0, "every endpoint is reported once");
    seen[i] = true;
    vp_check(num("y", i) == e.topic_type && e.topic_type_hash.value[5] == static_cast<uint8_t>(i) && e.qos_profile.depth == i,
      "with its own type, type hash and QoS");
    vp_check(num("n", i % 3) == e.node_name && !strcmp(e.node_namespace, "/s"), "and its own node");
  }
  vp_check(seen[k] == (odd[4] == 'c'), "on exactly that topic");
  vp_check(rmw_topic_endpoint_info_array_fini(&a, &al) == RMW_RET_OK, "the result can be released");
  vp_cover("many");
}
static void check_listing(rmw_names_and_types_t & a, size_t types, size_t tail)
{
  // topic "aaa" has `types` types, "abc", "abd", ... (tail of them) have one each
  vp_check(a.names.size == 1 + tail, "one entry per topic");
  std::vector<bool> seen(tail, false);
  bool big = false;
  for (size_t i = 0; i < a.names.size; i++) {
    std::string t = a.names.data[i];
    if (t == "big") {
      vp_check(!big && a.types[i].size == types, "every type of the topic");
      big = true;
      std::vector<bool> ty(types, false);
      for (size_t j = 0; j < types; j++) {
        const char * y = a.types[i].data[j];
        vp_check(strlen(y) == 4 && y[0] == 'y', "a type of the topic");
        unsigned k = (y[1] - 'a') * 676 + (y[2] - 'a') * 26 + (y[3] - 'a');
        vp_check(k < types && !ty[k], "each type once");
        ty[k] = true;
      }
    } else {
      vp_check(t.size() == 4 && t[0] == 't' && a.types[i].size == 1, "one type");
      unsigned k = (t[1] - 'a') * 676 + (t[2] - 'a') * 26 + (t[3] - 'a');
      vp_check(k < tail && !seen[k], "each topic once");
      seen[k] = true;
      vp_check(num("u", k) == a.types[i].data[0], "the type of the topic");
    }
  }
  vp_check(big, "the topic is listed");
  vp_check(rmw_names_and_types_fini(&a) == RMW_RET_OK, "the result can be released");
  vp_cover("many");
}
static void listings(bool by_node)
{
  // N / 2 endpoints of both kinds on one topic (each with its type), N / 2 on a topic of their own
  const unsigned half = static_cast<unsigned>(N / 2);
  const bool reader = vp_param("reader", 0);
  MPart p;
  p.gid = gid(7, 1);
  p.nodes.resize(2);
  p.nodes[0].name = "n";
  p.nodes[1].name = "m";
  p.nodes[0].ns = p.nodes[1].ns = "/s";
  char x = static_cast<char>(vp_sym("char", 8));
  vp_assume(x != 0);
  for (unsigned i = 0; i < 2 * half; i++) {
    const bool rd = by_node ? reader : i % 2;
    std::string topic = i < half ? "big" : num("t", i - half), type = i < half ? num("y", i) : num("u", i - half);
    if (i == half) {topic += x;}              // one that may be hidden
    c->add_entity(gid(1, i), topic, type, rosidl_get_zero_initialized_type_hash(), p.gid, rmw_qos_profile_default, rd);
    (rd ? p.nodes[0].rd : p.nodes[0].wr).push_back(gid(1, i));
  }
  if (by_node) {c->update_participant_entities(to_msg(p));}
  auto dem = [](const std::string & s) -> std::string {
      if (s.size() == 5 && s[0] == 't') {return s[4] == '!' ? "" : s.substr(0, 4);}
      return s;
    };
  rcutils_allocator_t al = rcutils_get_default_allocator();
  rmw_names_and_types_t a = rmw_get_zero_initialized_names_and_types();
  if (by_node) {
    vp_check((reader ? c->get_reader_names_and_types_by_node("n", "/s", dem, same, &al, &a) :
      c->get_writer_names_and_types_by_node("n", "/s", dem, same, &al, &a)) == RMW_RET_OK, "the query succeeds");
  } else {
    vp_check(c->get_names_and_types(dem, same, &al, &a) == RMW_RET_OK, "the query succeeds");
  }
  if (x == '!') {
    vp_check(a.names.size == half, "the hidden topic is left out");
    vp_check(rmw_names_and_types_fini(&a) == RMW_RET_OK, "the result can be released");
    vp_cover("hidden");
    return;
  }
  check_listing(a, half, half);
}
static void nodes()
{
  // one participant with N nodes, N participants with one each
  Model m;
  MPart p;
  p.gid = gid(7, 0);
  for (unsigned i = 0; i < N; i++) {
    MNode n;
    n.name = num("n", i);
    n.ns = num("/", i);
    p.nodes.push_back(n);
  }
  std::string odd = "n";
  odd += static_cast<char>(vp_sym("char", 8));
  vp_assume(odd[1] != 0);
  p.nodes[N / 2].name = odd;
  c->update_participant_entities(to_msg(p));
  c->add_participant(p.gid, "/e");
  for (unsigned i = 0; i < N; i++) {
    c->add_participant(gid(6, i), num("/f", i));
    c->add_node(gid(6, i), num("k", i), num("/g", i));
  }
  vp_check(c->get_number_of_nodes() == 2 * static_cast<size_t>(N), "the number of nodes");
  rcutils_allocator_t al = rcutils_get_default_allocator();
  rcutils_string_array_t a = rcutils_get_zero_initialized_string_array(), b = a, e = a;
  vp_check(c->get_node_names(&a, &b, &e, &al) == RMW_RET_OK, "the query succeeds");
  vp_check(a.size == 2u * N && b.size == a.size && e.size == a.size, "one entry per node");
  std::vector<bool> seen(2 * N, false);
  for (size_t i = 0; i < a.size; i++) {
    std::string ns = b.data[i];
    const bool many = ns.size() == 4;
    vp_check((many || ns.size() == 5) && ns[0] == '/', "a namespace");
    const char * d = ns.c_str() + (many ? 1 : 2);
    unsigned k = (d[0] - 'a') * 676 + (d[1] - 'a') * 26 + (d[2] - 'a');
    vp_check(k < N && !seen[many * N + k], "every node once");
    seen[many * N + k] = true;
    vp_check(many ? (k == N / 2 ? odd : num("n", k)) == a.data[i] : num("k", k) == a.data[i], "with its own name");
    vp_check((many ? "/e" : num("/f", k)) == e.data[i], "and the enclave of its participant");
  }
  vp_check(rcutils_string_array_fini(&a) == RCUTILS_RET_OK && rcutils_string_array_fini(&b) == RCUTILS_RET_OK &&
    rcutils_string_array_fini(&e) == RCUTILS_RET_OK, "the results can be released");
  for (unsigned i = 0; i < N; i++) {vp_check(c->remove_participant(gid(6, i)), "every participant can be removed");}
  vp_check(c->get_number_of_nodes() == static_cast<size_t>(N), "and takes its nodes along");
  vp_cover("many");
}
static bool exactly(const PMsg & msg, const MPart & p)
{
  if (!geq(from_msg(msg.gid), p.gid) || msg.node_entities_info_seq.size() != p.nodes.size()) {return false;}
  for (size_t i = 0; i < p.nodes.size(); i++) {       // in order, or else by name
    const NMsg & x = msg.node_entities_info_seq[i];
    const MNode * n = &p.nodes[i];
    if (!(x.node_name == n->name && x.node_namespace == n->ns)) {
      n = nullptr;
      for (auto & y : p.nodes) {if (x.node_name == y.name && x.node_namespace == y.ns) {n = &y;}}
      if (!n) {return false;}
    }
    for (int rd = 0; rd < 2; rd++) {
      auto & l = rd ? x.reader_gid_seq : x.writer_gid_seq;
      auto & w = rd ? n->rd : n->wr;
      if (l.size() != w.size()) {return false;}
      for (size_t j = 0; j < l.size(); j++) {
        bool hit = geq(from_msg(l[j]), w[j]);
        for (size_t k = 0; k < w.size() && !hit; k++) {hit = geq(from_msg(l[j]), w[k]);}
        if (!hit) {return false;}
      }
    }
  }
  return true;
}
static void local()
{
  MPart p;
  p.gid = gid(7, 0);
  c->add_participant(p.gid, "/e");
  PMsg msg;
  for (unsigned i = 0; i < N; i++) {
    MNode n;
    n.name = num("n", i);
    n.ns = "/s";
    p.nodes.push_back(n);
    msg = c->add_node(p.gid, n.name, n.ns);
  }
  vp_check(exactly(msg, p), "the message lists every node");
  msg = c->remove_node(p.gid, p.nodes[N / 2].name, "/s");
  p.nodes.erase(p.nodes.begin() + N / 2);
  vp_check(exactly(msg, p), "the message lists the remaining nodes");
  MPart q;
  q.gid = gid(7, 1);
  q.nodes.resize(1);
  MNode & n = q.nodes[0];
  n.name = "n";
  n.ns = "/s";
  c->add_participant(q.gid, "/e");
  c->add_node(q.gid, n.name, n.ns);
  for (unsigned i = 0; i < N; i++) {
    n.wr.push_back(gid(1, i));
    n.rd.push_back(gid(2, i));
    c->associate_writer(gid(1, i), q.gid, n.name, n.ns);
    msg = c->associate_reader(gid(2, i), q.gid, n.name, n.ns);
  }
  vp_check(exactly(msg, q), "the message lists every endpoint");
  // dissociate an arbitrary one
  rmw_gid_t g = gid(1, N - 1);
  g.data[4] = static_cast<uint8_t>(vp_sym("which", 8));
  bool known = false;
  for (size_t i = 0; i < n.wr.size(); i++) {if (!known && geq(n.wr[i], g)) {n.wr.erase(n.wr.begin() + i); known = true;}}
  msg = c->dissociate_writer(g, q.gid, n.name, n.ns);
  vp_check(exactly(msg, q), "the message lists the remaining endpoints");
  vp_cover(known ? "many" : "unknown");
}
static void printed()
{
  MPart p;
  p.gid = gid(7, 0);
  std::string odd = "q";
  odd += static_cast<char>(vp_sym("char", 8));
  vp_assume((odd[1] >= '-') & (odd[1] <= 'z'));
  for (unsigned i = 0; i < N; i++) {
    MNode n;
    n.name = i == N - 1 ? odd : num("n", i);
    n.ns = num("/", i);
    n.rd.push_back(gid(3, i));
    if (i == 1) {
      for (unsigned k = 0; k < N; k++) {
        n.rd.push_back(gid(4, k));
        n.wr.push_back(gid(5, k));
      }
    }
    p.nodes.push_back(n);
    c->add_participant(gid(6, i), num("/e", i));
    c->add_entity(gid(1, i), num("t", i), num("y", i), rosidl_get_zero_initialized_type_hash(), p.gid, rmw_qos_profile_default, i % 2);
  }
  c->update_participant_entities(to_msg(p));
  std::ostringstream s;
  rmw_dds_common::operator<<(s, *c);
  const std::string t = s.str();
  for (unsigned i = 0; i < N; i++) {
    vp_check(t.find("'" + num("t", i) + "'") != std::string::npos, "every endpoint is printed");
    vp_check(t.find("'" + p.nodes[i].name + "'") != std::string::npos, "every node is printed");
    for (int k : {1, 3, 4, 5, 6}) {
      std::ostringstream g;
      rmw_dds_common::operator<<(g, gid(k, i));
      vp_check(t.find(g.str()) != std::string::npos, k == 6 ? "every participant is printed" : k == 1 ? "every identifier is printed" : "every claim is printed");
    }
  }
  vp_cover("many");
}
VP_ENTRY
{
  c = new GraphCache;
  N = vp_param("n", 260);
  switch (vp_param("mode", 0)) {
    case 0: one_topic(); break;
    case 1: listings(false); break;
    case 2: nodes(); break;
    case 3: listings(true); break;
    case 4: local(); break;
    default: printed();
  }
  delete c;
}
