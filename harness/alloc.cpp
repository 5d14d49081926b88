// Queries with a failing allocator, and with unusable arguments.
//   mode 0: the n-th allocation fails; 1: arguments
//   q: 0 node names, 1 node names without enclaves, 2 names and types, 3/4 by node writer/reader, 5/6 info writers/readers
#include <algorithm>
#include "graph.h"

struct Al { int64_t live, count, fail, persistent, allocs; void * ptrs[64]; int n; };
static Al S;
static bool fails()
{
  int64_t k = ++S.count;
  return S.fail && (k == S.fail || (S.persistent && k > S.fail));
}
static void * a_alloc(size_t n, void * s)
{
  Al * a = static_cast<Al *>(s);
  if (fails()) {return nullptr;}
  a->live++;
  return malloc(n ? n : 1);
}
static void a_free(void * p, void * s)
{
  if (p) {static_cast<Al *>(s)->live--;}
  free(p);
}
static void * a_realloc(void * p, size_t n, void * s)
{
  if (fails()) {return nullptr;}
  if (!p) {static_cast<Al *>(s)->live++;}
  return realloc(p, n ? n : 1);
}
static void * a_zalloc(size_t n, size_t m, void * s)
{
  if (fails()) {return nullptr;}
  static_cast<Al *>(s)->live++;
  return calloc(n ? n : 1, m ? m : 1);
}
static GraphCache * c;
static Model * m;
static std::string dt(const std::string & s) {return "T" + s;}

struct Out
{
  rcutils_string_array_t a, b, e;
  rmw_names_and_types_t n;
  rmw_topic_endpoint_info_array_t i;
  Out()
  : a(rcutils_get_zero_initialized_string_array()), b(a), e(a), n(rmw_get_zero_initialized_names_and_types()),
    i(rmw_get_zero_initialized_topic_endpoint_info_array()) {}
  size_t size(int q) const {return q <= 1 ? a.size : q <= 4 ? n.names.size : i.size;}
  bool empty() const {return !a.data && !b.data && !e.data && !n.names.data && !n.types && !i.info_array;}
};
static rmw_ret_t ask(int q, Out & o, rcutils_allocator_t * al)
{
  switch (q) {
    case 0: return c->get_node_names(&o.a, &o.b, &o.e, al);
    case 1: return c->get_node_names(&o.a, &o.b, nullptr, al);
    case 2: return c->get_names_and_types(dt, dt, al, &o.n);
    case 3: return c->get_writer_names_and_types_by_node("n1", "/s", dt, dt, al, &o.n);
    case 4: return c->get_reader_names_and_types_by_node("n1", "/s", dt, dt, al, &o.n);
    case 5: return c->get_writers_info_by_topic("t1", dt, al, &o.i);
    default: return c->get_readers_info_by_topic("t1", dt, al, &o.i);
  }
}
static void release(int q, Out & o, rcutils_allocator_t * al)
{
  if (q <= 1) {
    vp_check(rcutils_string_array_fini(&o.a) == RCUTILS_RET_OK && rcutils_string_array_fini(&o.b) == RCUTILS_RET_OK &&
      rcutils_string_array_fini(&o.e) == RCUTILS_RET_OK, "the results can be released");
  } else if (q <= 4) {
    if (o.n.names.data) {vp_check(rmw_names_and_types_fini(&o.n) == RMW_RET_OK, "the results can be released");}
  } else if (o.i.info_array) {
    vp_check(rmw_topic_endpoint_info_array_fini(&o.i, al) == RMW_RET_OK, "the results can be released");
  }
}
static void failing(int q, rcutils_allocator_t al)
{
  // how many allocations does it take?
  Out ref;
  vp_check(ask(q, ref, &al) == RMW_RET_OK, "the query succeeds when memory is available");
  const int64_t need = S.count;
  const size_t size = ref.size(q);
  release(q, ref, &al);
  vp_check(S.live == 0, "a released result holds no memory");
  S.count = 0;
  S.fail = static_cast<int64_t>(vp_sym("fail", 16));
  vp_assume(S.fail >= 1);
  S.persistent = vp_sym("persistent", 1);
  Out o;
  rmw_ret_t r = ask(q, o, &al);
  const bool hit = S.fail <= need;
  S.fail = 0;
  if (hit) {
    vp_check(r != RMW_RET_OK, "a query that runs out of memory reports an error");
    vp_check(S.live == 0, "a failed query releases everything");
    vp_check(o.empty(), "a failed query leaves no dangling result");
    release(q, o, &al);
    vp_check(S.live == 0, "releasing the result of a failed query is harmless");
    vp_cover("failed");
  } else {
    vp_check(r == RMW_RET_OK && o.size(q) == size, "a query that gets its memory succeeds");
    release(q, o, &al);
    vp_check(S.live == 0, "a released result holds no memory");
    vp_cover("enough");
  }
  vp_observe("ret", r == RMW_RET_OK);
  // the cache is as before
  rmw_reset_error();
  Out again;
  vp_check(ask(q, again, &al) == RMW_RET_OK && again.size(q) == size, "the same query succeeds later");
  release(q, again, &al);
  check_nodes(*c, *m);
  check_count(*c, *m, "t1", 0);
  check_count(*c, *m, "t1", 1);
  vp_cover("rechecked");
}
static void garbage(rcutils_string_array_t & a)
{
  a.size = vp_sym("size", 64);
  if (vp_sym("data", 1)) {a.data = reinterpret_cast<char **>(&S);}
}
static void arguments(rcutils_allocator_t al)
{
  const int q = static_cast<int>(vp_param("q", 0));
  rcutils_allocator_t * use = &al;
  bool bad = false;
  if (vp_sym("noalloc", 1)) {use = nullptr; bad = true;} else {
    if (vp_sym("noallocate", 1)) {al.allocate = nullptr; bad = true;}
    if (vp_sym("nodeallocate", 1)) {al.deallocate = nullptr; bad = true;}
    if (vp_sym("norealloc", 1)) {al.reallocate = nullptr; bad = true;}
    if (vp_sym("nozalloc", 1)) {al.zero_allocate = nullptr; bad = true;}
  }
  Out o;
  rmw_ret_t r;
  if (q == 0) {
    garbage(o.a);
    garbage(o.b);
    garbage(o.e);
    rcutils_string_array_t a0 = o.a, b0 = o.b, e0 = o.e;
    bool na = vp_sym("null_a", 1), nb = vp_sym("null_b", 1), ne = vp_sym("null_e", 1);
    bad |= na | nb | (a0.size != 0) | (a0.data != nullptr) | (b0.size != 0) | (b0.data != nullptr);
    if (!ne) {bad |= (e0.size != 0) | (e0.data != nullptr);}
    r = c->get_node_names(na ? nullptr : &o.a, nb ? nullptr : &o.b, ne ? nullptr : &o.e, use);
    if (bad) {
      vp_check(o.a.size == a0.size && o.a.data == a0.data && o.b.size == b0.size && o.b.data == b0.data &&
        o.e.size == e0.size && o.e.data == e0.data, "a rejected query touches no argument");
    }
  } else if (q == 1) {
    size_t n = 5;
    const bool null = vp_sym("null", 1), rd = vp_sym("reader", 1);
    r = rd ? c->get_reader_count("t1", null ? nullptr : &n) : c->get_writer_count("t1", null ? nullptr : &n);
    vp_check((r == RMW_RET_INVALID_ARGUMENT) == null && (r == RMW_RET_OK) == !null, "a null count is rejected");
    vp_check(null || n == m->eps[rd].size(), "the count is right otherwise");
    vp_cover("arguments");
    return;
  } else {
    garbage(o.n.names);
    rmw_names_and_types_t dummy;
    if (vp_sym("types", 1)) {o.n.types = reinterpret_cast<rcutils_string_array_t *>(&dummy);}
    rmw_names_and_types_t n0 = o.n;
    const bool null = vp_sym("null", 1);
    bad |= null | (n0.names.size != 0) | (n0.names.data != nullptr) | (n0.types != nullptr);
    rmw_names_and_types_t * out = null ? nullptr : &o.n;
    // a node that exists or not
    const char * node = vp_sym("exists", 1) ? "n1" : "nx";
    r = q == 2 ? c->get_names_and_types(dt, dt, use, out) :
      q == 3 ? c->get_writer_names_and_types_by_node(node, "/s", dt, dt, use, out) :
      c->get_reader_names_and_types_by_node(node, "/s", dt, dt, use, out);
    if (bad) {
      vp_check(o.n.names.size == n0.names.size && o.n.names.data == n0.names.data && o.n.types == n0.types,
        "a rejected query touches no argument");
    }
    if (!bad && q > 2 && node[1] == 'x') {
      vp_check(r == RMW_RET_NODE_NAME_NON_EXISTENT && S.live == 0, "a node that does not exist is reported as such");
      vp_cover("no node");
      return;
    }
  }
  if (bad) {
    vp_check(r == RMW_RET_INVALID_ARGUMENT, "unusable arguments are rejected");
    vp_check(S.live == 0, "a rejected query keeps no memory");
    vp_cover("rejected");
  } else {
    vp_check(r == RMW_RET_OK, "usable arguments are accepted");
    if (q == 0 && !o.e.allocator.allocate) {o.e = rcutils_get_zero_initialized_string_array();}
    release(q == 0 ? 0 : 2, o, use);
    vp_check(S.live == 0, "a released result holds no memory");
    vp_cover("accepted");
  }
}

VP_ENTRY
{
  c = new GraphCache;
  m = new Model;
  // up to two participants with two nodes, two writers and two readers each
  const int np = static_cast<int>(vp_param("participants", 2)), nn = static_cast<int>(vp_param("nodes", 2)),
    ne = static_cast<int>(vp_param("endpoints", 2));
  for (int i = 0; i < np; i++) {
    MPart p;
    p.gid = fixed_gid(static_cast<uint8_t>(10 + i));
    p.enclave = "/enclave";
    for (int j = 0; j < nn; j++) {
      MNode n;
      n.name = std::string("n") + static_cast<char>('1' + i * nn + j);
      n.ns = "/s";
      for (int k = 0; k < ne; k++) {
        for (int rd = 0; rd < 2; rd++) {
          MEp e;
          e.gid = fixed_gid(static_cast<uint8_t>(20 + k + ne * (j + nn * (i + np * rd))));
          e.topic = k ? "t2" : "t1";
          e.type = std::string("y") + static_cast<char>('1' + i);
          e.hash = rosidl_get_zero_initialized_type_hash();
          e.pgid = p.gid;
          e.qos = rmw_qos_profile_default;
          (rd ? n.rd : n.wr).push_back(e.gid);
          m_add(*m, rd, e);
          c->add_entity(e.gid, e.topic, e.type, e.hash, e.pgid, e.qos, rd);
        }
      }
      p.nodes.push_back(n);
    }
    c->add_participant(p.gid, p.enclave);
    c->update_participant_entities(to_msg(p));
    m->parts.push_back(p);
  }
  rcutils_allocator_t al = {a_alloc, a_free, a_realloc, a_zalloc, &S};
  if (vp_param("mode", 0) == 0) {
    failing(static_cast<int>(vp_param("q", 0)), al);
  } else {
    arguments(al);
  }
  delete c;
  delete m;
}
