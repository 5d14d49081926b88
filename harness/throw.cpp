// An exception in the middle of an operation: in the on-change callback, a demangling function, the publishing callback,
// the stream that is printed to, or because operator new finds no memory.  It reaches the caller, no lock stays behind, nothing
// leaks, and the graph can still be used.
//   op: 0..12 changes, 13..21 queries, 22 printing (see run()), 30..39 local operations through a context
//   fault: 0 on-change callback, 1 demangling, 2 memory, 3 stream, 4 publishing
#include <cstdlib>
#include <new>
#include <ostream>
#include <sstream>
#include <streambuf>
#include "graph.h"
#include "rmw_dds_common/context.hpp"
using rmw_dds_common::Context;
using rmw_dds_common::operator<<;

// --------------------------------------------------------------- memory: the executor has its own of these, for the same effect
static int64_t new_left;
extern "C" int64_t vp_fail_new(int64_t k)
{
  const int64_t r = new_left;
  new_left = k;
  return r;
}
static void * allocate(size_t n)
{
  if (new_left && --new_left == 0) {throw std::bad_alloc();}
  void * p = malloc(n ? n : 1);
  if (!p) {throw std::bad_alloc();}
  return p;
}
void * operator new(size_t n) {return allocate(n);}
void * operator new[](size_t n) {return allocate(n);}
void operator delete(void * p) noexcept {free(p);}
void operator delete[](void * p) noexcept {free(p);}
void operator delete(void * p, size_t) noexcept {free(p);}
void operator delete[](void * p, size_t) noexcept {free(p);}

// ------------------------------------------------------------------------------------------------------------------------------
struct Thrown { int what; };
static int countdown;         // of callbacks until one throws
static bool thrown;
static int calls;             // of the on-change callback
static void maybe()
{
  if (countdown && --countdown == 0) {
    thrown = true;
    throw Thrown{4711};
  }
}
static Context * ctx;
static GraphCache * c;
static Model * m;
static rmw_gid_t LOCAL, REMOTE, W1, R1;
static rmw_publisher_t publisher;
static rmw_ret_t publish(const rmw_publisher_t *, const void *)
{
  maybe();
  return RMW_RET_OK;
}
static std::string d(const std::string & s)
{
  maybe();
  return s;
}
struct Sink : std::streambuf
{
  int overflow(int ch) override
  {
    maybe();
    return ch == traits_type::eof() ? 0 : ch;
  }
  std::streamsize xsputn(const char *, std::streamsize n) override
  {
    maybe();
    return n;
  }
};
static MEp endpoint(const rmw_gid_t & g, const char * type)
{
  MEp e;
  e.gid = g;
  e.topic = "t1";
  e.type = type;
  e.hash = rosidl_get_zero_initialized_type_hash();
  e.pgid = LOCAL;
  e.qos = rmw_qos_profile_default;
  return e;
}
static MNode & node(MPart & p, const char * name)
{
  for (auto & n : p.nodes) {if (n.name == name) {return n;}}
  vp_unmodelled("node of the scenario");
}
static void drop(std::vector<rmw_gid_t> & l, const rmw_gid_t & g)
{
  for (size_t k = 0; k < l.size(); k++) {if (geq(l[k], g)) {l.erase(l.begin() + k); return;}}
}
static MPart remote_part(const rmw_gid_t & g, const char * name)
{
  MPart p;
  p.gid = g;
  MNode n;
  n.name = name;
  n.ns = "/a-namespace-that-does-not-fit-in-place";
  n.rd.push_back(R1);
  n.wr.push_back(W1);
  p.nodes.push_back(n);
  p.nodes.push_back(n);
  p.nodes[1].name += "2";
  return p;
}
static bool changed_by(int op) {return op < 13 || op >= 30;}

static rmw_ret_t r;
static rmw_gid_t g;
static const std::string K = "k", NS = "/s", NEW = "a-new-name-that-does-not-fit-in-place", OLD = "old", ENCLAVE = "/an-enclave-that-does-not-fit-in-place";
static const std::string TOPIC = "t1", TYPE = "a-type-name-that-does-not-fit-in-place";
// The results of queries: empty when there is none.
static rcutils_string_array_t x, y, z;
static rmw_topic_endpoint_info_array_t infos;
static rmw_names_and_types_t names;
static rcutils_allocator_t al;
static void run(int op, const PMsg & msg)
{
  size_t n;
  switch (op) {
    case 0: c->add_writer(g, TOPIC, TYPE, rosidl_get_zero_initialized_type_hash(), LOCAL, rmw_qos_profile_default); break;
    case 1: c->add_reader(g, TOPIC, TYPE, rosidl_get_zero_initialized_type_hash(), LOCAL, rmw_qos_profile_default); break;
    case 2: c->remove_writer(g); break;
    case 3: c->remove_reader(g); break;
    case 4: c->add_participant(g, ENCLAVE); break;
    case 5: c->update_participant_entities(msg); break;
    case 6: c->remove_participant(g); break;
    case 7: c->add_node(LOCAL, NEW, NS); break;
    case 8: c->remove_node(LOCAL, OLD, NS); break;
    case 9: c->associate_writer(g, LOCAL, K, NS); break;
    case 10: c->associate_reader(g, LOCAL, K, NS); break;
    case 11: c->dissociate_writer(W1, LOCAL, K, NS); break;
    case 12: c->dissociate_reader(R1, LOCAL, K, NS); break;
    case 13: r = c->get_writer_count(TOPIC, &n); break;
    case 14: r = c->get_reader_count(TOPIC, &n); break;
    case 15: c->get_number_of_nodes(); break;
    case 16: r = c->get_node_names(&x, &y, &z, &al); break;
    case 17: r = c->get_writers_info_by_topic(TOPIC, d, &al, &infos); break;
    case 18: r = c->get_readers_info_by_topic(TOPIC, d, &al, &infos); break;
    case 19: r = c->get_names_and_types(d, d, &al, &names); break;
    case 20: r = c->get_writer_names_and_types_by_node(K, NS, d, d, &al, &names); break;
    case 21: r = c->get_reader_names_and_types_by_node(K, NS, d, d, &al, &names); break;
    case 22: {
        Sink b;
        std::ostream s(&b);
        s.exceptions(std::ios::badbit);
        s << *c;
        break;
      }
    case 30: r = ctx->add_node_graph(NEW, NS); break;
    case 31: r = ctx->remove_node_graph(OLD, NS); break;
    case 32: r = ctx->add_subscriber_graph(g, K, NS); break;
    case 33: r = ctx->remove_subscriber_graph(R1, K, NS); break;
    case 34: r = ctx->add_publisher_graph(g, K, NS); break;
    case 35: r = ctx->remove_publisher_graph(W1, K, NS); break;
    case 36: r = ctx->add_client_graph(g, g, K, NS); break;
    case 37: r = ctx->remove_client_graph(W1, R1, K, NS); break;
    case 38: r = ctx->add_service_graph(g, g, K, NS); break;
    default: r = ctx->remove_service_graph(R1, W1, K, NS);
  }
}
static void apply(Model & m, int op, const MPart & sent)
{
  MPart & p = *m_part(m, LOCAL);
  MNode & k = node(p, "k");
  switch (op) {
    case 0: case 1: m_add(m, op, endpoint(g, TYPE.c_str())); break;
    case 2: case 3: m_remove(m, op == 3, g); break;
    case 4: m_part_or_new(m, g).enclave = ENCLAVE; break;
    case 5: m_part_or_new(m, g).nodes = sent.nodes; break;
    case 6: m_remove_part(m, g); break;
    case 7: case 30: {
        MNode n;
        n.name = NEW;
        n.ns = NS;
        p.nodes.push_back(n);
        break;
      }
    case 8: case 31: for (size_t i = 0; i < p.nodes.size(); i++) {if (p.nodes[i].name == OLD) {p.nodes.erase(p.nodes.begin() + i); break;}} break;
    case 9: case 34: k.wr.push_back(g); break;
    case 10: case 32: k.rd.push_back(g); break;
    case 11: case 35: drop(k.wr, W1); break;
    case 12: case 33: drop(k.rd, R1); break;
    case 36: case 38: k.rd.push_back(g); k.wr.push_back(g); break;
    case 37: case 39: drop(k.rd, R1); drop(k.wr, W1); break;
    default: break;
  }
}
static void check_all(Model & m)
{
  plain = true;
  check_nodes(*c, m);
  for (int rd = 0; rd < 2; rd++) {
    check_count(*c, m, "t1", rd);
    check_info(*c, m, "t1", rd);
    check_by_node(*c, m, "k", "/s", rd);
  }
  check_names(*c, m);
}
static void release()
{
  (void)!rcutils_string_array_fini(&x);
  (void)!rcutils_string_array_fini(&y);
  (void)!rcutils_string_array_fini(&z);
  if (infos.info_array) {(void)!rmw_topic_endpoint_info_array_fini(&infos, &al);}
  if (names.names.data) {(void)!rmw_names_and_types_fini(&names);}
}

VP_ENTRY
{
  const int op = static_cast<int>(vp_param("op", 0)), fault = static_cast<int>(vp_param("fault", 0));
  ctx = new Context;
  c = &ctx->graph_cache;
  m = new Model;
  LOCAL = fixed_gid(1);
  REMOTE = fixed_gid(2);
  W1 = fixed_gid(3);
  R1 = fixed_gid(4);
  ctx->gid = LOCAL;
  publisher.implementation_identifier = "vp";
  ctx->pub = &publisher;
  ctx->publish_callback = publish;
  {
    MPart & p = m_part_or_new(*m, LOCAL);
    p.enclave = "/e";
    MNode n;
    n.ns = NS;
    n.name = OLD;
    p.nodes.push_back(n);
    n.name = K;
    n.wr.push_back(W1);
    n.rd.push_back(R1);
    p.nodes.push_back(n);
    MPart rp = remote_part(REMOTE, "u");
    m->parts.push_back(rp);
    m_add(*m, 0, endpoint(W1, "y1"));
    m_add(*m, 1, endpoint(R1, "y2"));
    c->add_participant(LOCAL, "/e");
    c->update_participant_entities(to_msg(*m_part(*m, LOCAL)));
    c->update_participant_entities(to_msg(rp));
    for (int rd = 0; rd < 2; rd++) {
      const MEp & e = m->eps[rd][0];
      c->add_entity(e.gid, e.topic, e.type, e.hash, e.pgid, e.qos, rd);
    }
    // a second one, of a type with a long name
    for (int rd = 0; rd < 2; rd++) {
      MEp e = endpoint(fixed_gid(static_cast<uint8_t>(6 + rd)), TYPE.c_str());
      m_add(*m, rd, e);
      c->add_entity(e.gid, e.topic, e.type, e.hash, e.pgid, e.qos, rd);
    }
  }
  c->set_on_change_callback([fault] {calls++; if (fault == 0) {maybe();}});
  al = rcutils_get_default_allocator();
  x = y = z = rcutils_get_zero_initialized_string_array();
  infos = rmw_get_zero_initialized_topic_endpoint_info_array();
  names = rmw_get_zero_initialized_names_and_types();
  g = op >= 4 && op <= 6 ? REMOTE : W1;
  if (op <= 6 || op == 9 || op == 10 || (op >= 30 && op % 2 == 0)) {
    g.data[15] = static_cast<uint8_t>(vp_sym("gid", 8));
    vp_assume((g.data[15] != 1) & (g.data[15] != 77));   // see the end
    if (op > 6) {vp_assume((g.data[15] != 3) & (g.data[15] != 4));}
  }
  const MPart sent = remote_part(g, "v");
  const PMsg msg = to_msg(sent);
  bool completed = false, same = false, nomem = false;
  const int at = fault == 0 ? 1 + static_cast<int>(vp_choose("at", op >= 36 ? 2 : 1)) : 1 + static_cast<int>(vp_choose("at", vp_param("most", 12)));
  if (fault == 2) {vp_fail_new(at);} else {countdown = at;}
  try {
    run(op, msg);
    completed = true;
  } catch (const Thrown & t) {
    same = t.what == 4711;
  } catch (const std::bad_alloc &) {
    nomem = true;
  } catch (...) {
  }
  bool hit = thrown;
  if (fault == 2) {hit = vp_fail_new(0) == 0;}
  countdown = 0;
  if (!completed) {
    vp_check(!x.data && !y.data && !z.data && !infos.info_array && !infos.size && !names.names.data && !names.types,
      "nothing is left in the results of a query that throws");
  }
  release();
  vp_cover(hit ? "thrown" : "enough");
  Model after = *m;
  apply(after, op, sent);
  if (!hit) {
    vp_check(completed, "without a fault the operation completes");
    check_all(after);
  } else if (fault == 2) {
    vp_check(nomem || (completed && r != RMW_RET_OK) || op == 22, "the caller learns that there is no memory");
    if (!changed_by(op)) {check_all(*m);}
  } else {
    vp_check(same, "the exception reaches the caller");
    if (fault == 0 && op < 30) {check_all(after);}
    if (!changed_by(op)) {check_all(*m);}
  }
  // whatever has happened, all of it can still be done
  thrown = false;
  rmw_reset_error();
  for (int i : {16, 17, 18, 19, 20, 21, 22, 15}) {
    r = RMW_RET_OK;
    run(i, msg);
    vp_check(r == RMW_RET_OK, "queries succeed later");
    release();
    x = y = z = rcutils_get_zero_initialized_string_array();
    infos = rmw_get_zero_initialized_topic_endpoint_info_array();
    names = rmw_get_zero_initialized_names_and_types();
  }
  g = fixed_gid(77);
  const MPart more = remote_part(g, "w");
  const PMsg moremsg = to_msg(more);
  calls = 0;
  run(0, msg);
  run(1, msg);
  run(4, msg);
  run(5, moremsg);
  vp_check(calls == 4, "later changes are notified");
  size_t n = 0;
  vp_check(c->get_number_of_nodes() >= 2, "changes can be made later");
  vp_check(ctx->add_node_graph("later", "/s") == RMW_RET_OK && ctx->remove_node_graph("later", "/s") == RMW_RET_OK, "and local ones");
  vp_check(c->remove_participant(g) && c->remove_writer(g) && c->remove_reader(g), "and taken back");
  for (const rmw_gid_t & e : {W1, R1, fixed_gid(6), fixed_gid(7)}) {
    c->remove_writer(e);
    c->remove_reader(e);
  }
  (void)!c->get_writer_count("t1", &n);
  vp_observe("hit", hit && fault != 2);
  delete ctx;
  delete m;
}
