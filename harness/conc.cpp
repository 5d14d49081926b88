// Threads on one graph cache: every schedule at the granularity of the locks, races looked for everywhere.
// Whatever the threads saw, and what is left at the end, must be explained by some order of their operations.
//   threads, len, len<thread>; op codes t<thread><i> (see run()); negative: any below `nops`
//   mode 0: explained by an order; 1: no call of a callback after it was cleared or replaced
#include <sstream>
#include "graph.h"
using rmw_dds_common::operator<<;

struct NodeO { std::string name, ns, enclave; };
struct EpO { rmw_gid_t gid; std::string type, node; };
struct Op { int code; rmw_gid_t gid; };
struct Res
{
  bool b;
  size_t n;
  rmw_ret_t r;
  PMsg msg;
  std::vector<NodeO> nodes;
  std::vector<EpO> eps;
  Pairs pairs;
};
static GraphCache * c;
static Model * m0;
static int nthreads, lens[3];
static Op plan[3][3];
static Res * res[3][3];
static int calls, allowed = 1;
static rmw_gid_t LOCAL, REMOTE, W1, R1;
static std::string id(const std::string & s) {return s;}

static MEp endpoint(const rmw_gid_t & g, int t, int i)
{
  MEp e;
  e.gid = g;
  e.topic = "t1";
  e.type = std::string("y") + static_cast<char>('0' + t);
  e.type += static_cast<char>('0' + i);
  e.hash = rosidl_get_zero_initialized_type_hash();
  e.pgid = LOCAL;
  e.qos = rmw_qos_profile_default;
  return e;
}
static MPart remote_part(const rmw_gid_t & g, int t)
{
  MPart p;
  p.gid = g;
  MNode n;
  n.name = std::string("u") + static_cast<char>('0' + t);
  n.ns = "/s";
  n.rd.push_back(R1);
  p.nodes.push_back(n);
  return p;
}
static std::string own_name(int t, int i)
{
  std::string s("a");
  s += static_cast<char>('0' + t);
  s += static_cast<char>('0' + i);
  return s;
}
static std::string rem_name(int t, int i) {return std::string("n") + static_cast<char>('0' + 2 * t + i);}
static void take(rcutils_string_array_t & a, rcutils_string_array_t & b, rcutils_string_array_t & e, Res & r)
{
  for (size_t i = 0; i < a.size; i++) {r.nodes.push_back({a.data[i], b.data[i], e.data[i]});}
  (void)!rcutils_string_array_fini(&a);
  (void)!rcutils_string_array_fini(&b);
  (void)!rcutils_string_array_fini(&e);
}
static void take(rmw_names_and_types_t & n, Res & r)
{
  for (size_t i = 0; i < n.names.size; i++) {
    for (size_t j = 0; j < n.types[i].size; j++) {r.pairs.push_back({n.names.data[i], n.types[i].data[j]});}
  }
  (void)!rmw_names_and_types_fini(&n);
}
static Res run(const Op & o, int t, int i)
{
  Res r;
  r.b = false;
  r.n = 0;
  r.r = 0;
  rcutils_allocator_t al = rcutils_get_default_allocator();
  const MEp e = endpoint(o.gid, t, i);
  switch (o.code) {
    case 0: r.b = c->add_writer(e.gid, e.topic, e.type, e.hash, e.pgid, e.qos); break;
    case 1: r.b = c->add_reader(e.gid, e.topic, e.type, e.hash, e.pgid, e.qos); break;
    case 2: r.b = c->remove_writer(o.gid); break;
    case 3: r.b = c->remove_reader(o.gid); break;
    case 4: c->add_participant(o.gid, own_name(t, i)); break;
    case 5: c->update_participant_entities(to_msg(remote_part(o.gid, t))); break;
    case 6: r.b = c->remove_participant(o.gid); break;
    case 7: r.msg = c->add_node(LOCAL, own_name(t, i), "/s"); break;
    case 8: r.msg = c->remove_node(LOCAL, rem_name(t, i), "/s"); break;
    case 9: r.msg = c->associate_writer(o.gid, LOCAL, "k", "/s"); break;
    case 10: r.msg = c->associate_reader(o.gid, LOCAL, "k", "/s"); break;
    case 11: r.msg = c->dissociate_writer(W1, LOCAL, "k", "/s"); break;
    case 12: r.msg = c->dissociate_reader(R1, LOCAL, "k", "/s"); break;
    case 13: r.r = c->get_writer_count("t1", &r.n); break;
    case 14: r.r = c->get_reader_count("t1", &r.n); break;
    case 15: r.n = c->get_number_of_nodes(); break;
    case 16: {
        rcutils_string_array_t x = rcutils_get_zero_initialized_string_array(), y = x, z = x;
        r.r = c->get_node_names(&x, &y, &z, &al);
        take(x, y, z, r);
        break;
      }
    case 17: case 18: {
        rmw_topic_endpoint_info_array_t a = rmw_get_zero_initialized_topic_endpoint_info_array();
        r.r = o.code == 17 ? c->get_writers_info_by_topic("t1", id, &al, &a) : c->get_readers_info_by_topic("t1", id, &al, &a);
        for (size_t k = 0; k < a.size; k++) {
          EpO x;
          x.gid = fixed_gid(0);
          memcpy(x.gid.data, a.info_array[k].endpoint_gid, 16);
          x.type = a.info_array[k].topic_type;
          x.node = a.info_array[k].node_name;
          r.eps.push_back(x);
        }
        if (a.info_array) {(void)!rmw_topic_endpoint_info_array_fini(&a, &al);}
        break;
      }
    case 19: case 20: case 21: {
        rmw_names_and_types_t n = rmw_get_zero_initialized_names_and_types();
        r.r = o.code == 19 ? c->get_names_and_types(id, id, &al, &n) :
          o.code == 20 ? c->get_writer_names_and_types_by_node("k", "/s", id, id, &al, &n) :
          c->get_reader_names_and_types_by_node("k", "/s", id, id, &al, &n);
        take(n, r);
        break;
      }
    case 22: {
        std::ostringstream s;
        s << *c;
        r.n = s.str().empty();
        break;
      }
    case 23: c->set_on_change_callback([] {calls++;}); break;
    default: c->clear_on_change_callback();
  }
  return r;
}
static bool is_query(int code) {return code >= 13;}
static void add_obs_pair(Pairs & w, const std::string & t, const std::string & y)
{
  for (auto & p : w) {if (p.first == t && p.second == y) {return;}}
  w.push_back({t, y});
}
static bool same_pairs(const Pairs & a, const Pairs & b)
{
  if (a.size() != b.size()) {return false;}
  for (auto & x : a) {
    bool hit = false;
    for (auto & y : b) {hit = hit || (x.first == y.first && x.second == y.second);}
    if (!hit) {return false;}
  }
  return true;
}
static std::vector<NodeO> nodes_of(Model & m)
{
  std::vector<NodeO> r;
  for (auto & p : m.parts) {for (auto & n : p.nodes) {r.push_back({n.name, n.ns, p.enclave});}}
  return r;
}
static bool same_nodes(const std::vector<NodeO> & a, const std::vector<NodeO> & b)
{
  if (a.size() != b.size()) {return false;}
  std::vector<bool> used(b.size(), false);
  for (auto & x : a) {
    bool hit = false;
    for (size_t i = 0; i < b.size() && !hit; i++) {
      if (!used[i] && x.name == b[i].name && x.ns == b[i].ns && x.enclave == b[i].enclave) {hit = used[i] = true;}
    }
    if (!hit) {return false;}
  }
  return true;
}
static std::vector<EpO> eps_of(Model & m, int reader)
{
  std::vector<EpO> r;
  MPart * p = m_part(m, LOCAL);
  for (auto & e : m.eps[reader]) {
    EpO x;
    x.gid = e.gid;
    x.type = e.type;
    x.node = UNKNOWN_NAME;
    bool found = false;
    for (auto & n : p->nodes) {
      for (auto & g : reader ? n.rd : n.wr) {
        if (!found && geq(g, e.gid)) {x.node = n.name; found = true;}
      }
    }
    r.push_back(x);
  }
  return r;
}
static bool same_eps(const std::vector<EpO> & a, const std::vector<EpO> & b)
{
  if (a.size() != b.size()) {return false;}
  for (auto & x : a) {
    bool hit = false;
    for (auto & y : b) {if (!hit && geq(x.gid, y.gid) && x.type == y.type && x.node == y.node) {hit = true;}}
    if (!hit) {return false;}
  }
  return true;
}
static Pairs pairs_of(Model & m, int code)
{
  Pairs w;
  if (code == 19) {
    for (auto & v : m.eps) {for (auto & e : v) {add_obs_pair(w, e.topic, e.type);}}
    return w;
  }
  MPart * p = m_part(m, LOCAL);
  for (auto & n : p->nodes) {
    if (n.name != "k") {continue;}
    for (auto & g : code == 21 ? n.rd : n.wr) {if (MEp * e = m_find(m.eps[code == 21], g)) {add_obs_pair(w, e->topic, e->type);}}
  }
  return w;
}
static MNode & node(MPart & p, const std::string & name)
{
  for (auto & n : p.nodes) {if (n.name == name) {return n;}}
  vp_unmodelled("node of the scenario");
}
// Does the operation, done now, give this result?  The model advances.
static bool explains(Model & m, const Op & o, int t, int i, const Res & r)
{
  const MEp e = endpoint(o.gid, t, i);
  MPart & p = *m_part(m, LOCAL);
  switch (o.code) {
    case 0: case 1: return m_add(m, o.code, e) == r.b;
    case 2: case 3: return m_remove(m, o.code == 3, o.gid) == r.b;
    case 4: m_part_or_new(m, o.gid).enclave = own_name(t, i); return true;
    case 5: m_part_or_new(m, o.gid).nodes = remote_part(o.gid, t).nodes; return true;
    case 6: return m_remove_part(m, o.gid) == r.b;
    case 7: {
        MNode n;
        n.name = own_name(t, i);
        n.ns = "/s";
        p.nodes.push_back(n);
        return same_part(r.msg, p);
      }
    case 8: {
        for (size_t k = 0; k < p.nodes.size(); k++) {
          if (p.nodes[k].name == rem_name(t, i)) {p.nodes.erase(p.nodes.begin() + k); break;}
        }
        return same_part(r.msg, p);
      }
    case 9: node(p, "k").wr.push_back(o.gid); return same_part(r.msg, p);
    case 10: node(p, "k").rd.push_back(o.gid); return same_part(r.msg, p);
    case 11: case 12: {
        std::vector<rmw_gid_t> & l = o.code == 12 ? node(p, "k").rd : node(p, "k").wr;
        for (size_t k = 0; k < l.size(); k++) {if (geq(l[k], o.code == 12 ? R1 : W1)) {l.erase(l.begin() + k); break;}}
        return same_part(r.msg, p);
      }
    case 13: case 14: return r.r == RMW_RET_OK && r.n == m.eps[o.code - 13].size();
    case 15: return r.n == nodes_of(m).size();
    case 16: return r.r == RMW_RET_OK && same_nodes(r.nodes, nodes_of(m));
    case 17: case 18: return r.r == RMW_RET_OK && same_eps(r.eps, eps_of(m, o.code - 17));
    case 19: case 20: case 21: return r.r == RMW_RET_OK && same_pairs(r.pairs, pairs_of(m, o.code));
    case 22: return r.n == 0;
    default: return true;
  }
}
static bool final_matches(Model & m)
{
  for (int code = 13; code <= 21; code++) {
    Op o{code, LOCAL};
    if (!explains(m, o, 0, 0, run(o, 0, 0))) {return false;}
  }
  return true;
}
static bool search(Model & m, int * at)
{
  bool done = true;
  for (int t = 0; t < nthreads; t++) {
    if (at[t] == lens[t]) {continue;}
    done = false;
    Model x = m;
    if (explains(x, plan[t][at[t]], t, at[t], *res[t][at[t]])) {
      at[t]++;
      bool ok = search(x, at);
      at[t]--;
      if (ok) {return true;}
    }
  }
  return done && final_matches(m);
}
static bool after_clear, in_clear;
static void thread(void * arg)
{
  const int t = static_cast<int>(reinterpret_cast<intptr_t>(arg));
  for (int i = 0; i < lens[t]; i++) {
    Res r = run(plan[t][i], t, i);
    if (plan[t][i].code >= 23) {after_clear = true;}
    *res[t][i] = r;
  }
}

VP_ENTRY
{
  const int mode = static_cast<int>(vp_param("mode", 0));
  nthreads = static_cast<int>(vp_param("threads", 2));
  for (int t = 0; t < nthreads; t++) {
    char pn[5] = "len0";
    pn[3] = static_cast<char>('0' + t);
    lens[t] = static_cast<int>(vp_param(pn, vp_param("len", 1)));
  }
  LOCAL = fixed_gid(1);
  W1 = fixed_gid(3);
  R1 = fixed_gid(4);
  REMOTE = fixed_gid(2);
  c = new GraphCache;
  m0 = new Model;
  MPart & p = m_part_or_new(*m0, LOCAL);
  p.enclave = "/e";
  std::vector<std::string> there;
  for (int t = 0; t < nthreads; t++) {for (int i = 0; i < lens[t]; i++) {there.push_back(rem_name(t, i));}}
  there.push_back("k");
  for (auto & n : there) {
    MNode x;
    x.name = n;
    x.ns = "/s";
    if (n[0] == 'k') {x.wr.push_back(W1); x.rd.push_back(R1);}
    p.nodes.push_back(x);
  }
  MPart rp = remote_part(REMOTE, 9);
  m0->parts.push_back(rp);
  m_add(*m0, 0, endpoint(W1, 8, 0));
  m_add(*m0, 1, endpoint(R1, 8, 0));
  c->add_participant(LOCAL, "/e");
  c->update_participant_entities(to_msg(*m_part(*m0, LOCAL)));
  c->update_participant_entities(to_msg(rp));
  for (int rd = 0; rd < 2; rd++) {
    const MEp & e = m0->eps[rd][0];
    c->add_entity(e.gid, e.topic, e.type, e.hash, e.pgid, e.qos, rd);
  }
  vp_norace(&calls);
  vp_norace(&after_clear);
  if (mode == 1) {
    c->set_on_change_callback([] {
        vp_yield();
        vp_check(!after_clear, "the callback is not called once it has been cleared or replaced");
        calls++;
        vp_cover("callback");
      });
  } else {
    c->set_on_change_callback([] {calls++;});
  }
  const int nops = static_cast<int>(vp_param("nops", 22));
  for (int t = 0; t < nthreads; t++) {
    for (int i = 0; i < lens[t]; i++) {
      char pn[4] = "t00";
      pn[1] = static_cast<char>('0' + t);
      pn[2] = static_cast<char>('0' + i);
      int64_t f = vp_param(pn, -1);
      Op & o = plan[t][i];
      o.code = f >= 0 ? static_cast<int>(f) : static_cast<int>(vp_choose("op", nops));
      o.gid = o.code >= 4 && o.code <= 6 ? REMOTE : W1;
      if (o.code <= 6 || o.code == 9 || o.code == 10) {
        o.gid.data[15] = static_cast<uint8_t>(vp_sym("gid", 8));
        vp_assume(o.gid.data[15] != 1);
      }
      res[t][i] = new Res;
    }
  }
  for (int t = 1; t < nthreads; t++) {vp_spawn(thread, reinterpret_cast<void *>(static_cast<intptr_t>(t)));}
  thread(nullptr);
  vp_join();
  int total = 0, at[3] = {0, 0, 0};
  for (int t = 0; t < nthreads; t++) {for (int i = 0; i < lens[t]; i++) {total += !is_query(plan[t][i].code);}}
  if (mode == 0) {
    vp_check(search(*m0, at), "some order of the operations explains what every thread and every later query saw");
    vp_check(calls <= total, "the callback is not called more often than there are changes");
    vp_cover("explained");
  }
  vp_observe("nodes", c->get_number_of_nodes());
  vp_observe("calls", calls);
  for (int t = 0; t < nthreads; t++) {for (int i = 0; i < lens[t]; i++) {delete res[t][i];}}
  delete c;
  delete m0;
}
