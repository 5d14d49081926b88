// Local graph operations through a Context: what is published, what is returned, what stays behind.
//   op<i>: 0 add_node 1 remove_node 2 add_subscriber 3 remove_subscriber 4 add_publisher 5 remove_publisher
//          6 add_client 7 remove_client 8 add_service 9 remove_service; negative: any
//   fail: 0 publishing succeeds, 1 may fail in the last operation, 2 in any
//   missing: 1 no publisher, 2 no callback (in the last operation)
//   loose: the last operation may add what is there already, or remove what is not
//   what: 1 publication, 2 rollback, 4 change callback
#include "graph.h"
#include "rmw_dds_common/context.hpp"
using rmw_dds_common::Context;

static Context * ctx;
static Model * m;
static int published;
static PMsg * last;
static const rmw_publisher_t * used;
static rmw_ret_t result;
static rmw_publisher_t publisher;

static rmw_ret_t publish(const rmw_publisher_t * pub, const void * msg)
{
  published++;
  used = pub;
  vp_check(msg != nullptr, "a message is published");
  *last = *static_cast<const PMsg *>(msg);
  return result;
}
static bool holds(const std::vector<rmw_gid_t> & l, const rmw_gid_t & g)
{
  for (auto & x : l) {if (geq(x, g)) {return true;}}
  return false;
}
static void drop(std::vector<rmw_gid_t> & l, const rmw_gid_t & g)
{
  for (size_t i = 0; i < l.size(); i++) {if (geq(l[i], g)) {l.erase(l.begin() + i); return;}}
}
// Associate and dissociate; with `loose` also what is associated already, or is not.
static bool loose;
static void join(std::vector<rmw_gid_t> & l, const rmw_gid_t & g)
{
  if (!loose) {vp_assume(!holds(l, g));} else if (holds(l, g)) {vp_cover("again"); return;}
  l.push_back(g);
}
static void leave(std::vector<rmw_gid_t> & l, const rmw_gid_t & g)
{
  if (!loose) {vp_assume(holds(l, g));} else if (!holds(l, g)) {vp_cover("absent");}
  drop(l, g);
}
// Everything a remote participant can learn about `p`, from a message obtained without changing it:
// associating and dissociating an identifier that nothing else uses.
static PMsg snapshot(const MPart & p)
{
  static const rmw_gid_t probe = fixed_gid(0xfe);
  ctx->graph_cache.associate_reader(probe, p.gid, p.nodes[0].name, p.nodes[0].ns);
  return ctx->graph_cache.dissociate_reader(probe, p.gid, p.nodes[0].name, p.nodes[0].ns);
}
static void check_state(const MPart & p, const char * what)
{
  if (p.nodes.empty()) {
    size_t other = 0;
    for (auto & x : m->parts) {if (&x != &p) {other += x.nodes.size();}}
    vp_check(ctx->graph_cache.get_number_of_nodes() == other, what);
    return;
  }
  vp_check(same_part(snapshot(p), p), what);
}

VP_ENTRY
{
  ctx = new Context;
  m = new Model;
  last = new PMsg;
  const int64_t what = vp_param("what", 3);
  const int steps = static_cast<int>(vp_param("steps", 3)), fail = static_cast<int>(vp_param("fail", 0)),
    missing = static_cast<int>(vp_param("missing", 0));
  ctx->gid = sym_gid("me");
  vp_assume(ctx->gid.data[15] != 0xfe);
  publisher.implementation_identifier = "vp";
  ctx->pub = &publisher;
  ctx->publish_callback = publish;
  ctx->graph_cache.add_participant(ctx->gid, "/enclave");
  MPart & me = m_part_or_new(*m, ctx->gid);
  me.enclave = "/enclave";
  if (vp_param("other", 0)) {
    // another participant, with a node that may have the same name and endpoints
    MPart o;
    o.gid = sym_gid("other");
    vp_assume(!geq(o.gid, ctx->gid));
    MNode n;
    n.name = sym_str("name", "n", 1);
    n.ns = "/s";
    n.rd.push_back(sym_gid("egid"));
    n.wr.push_back(sym_gid("egid"));
    o.nodes.push_back(n);
    ctx->graph_cache.update_participant_entities(to_msg(o));
    m->parts.reserve(2);
    m->parts.push_back(o);
  }
  MPart & p = m->parts[0];
  for (int s = 0; s < steps; s++) {
    char pn[8] = "op0";
    pn[2] = static_cast<char>('0' + s);
    int64_t fixed = vp_param(pn, -1);
    const int op = fixed >= 0 ? static_cast<int>(fixed) : static_cast<int>(vp_choose("op", 10));
    const bool lastop = s == steps - 1, add = op % 2 == 0;
    result = RMW_RET_OK;
    if (fail == 2 || (fail == 1 && lastop)) {result = static_cast<rmw_ret_t>(vp_sym("publish", 8));}
    ctx->pub = lastop && (missing & 1) ? nullptr : &publisher;
    if (lastop && (missing & 2)) {ctx->publish_callback = nullptr;}
    const MPart before = p;
    std::string name, ns;
    if (op == 0) {
      name = sym_str("name", "n", 1);
      ns = vp_param("sns", 0) ? sym_str("ns", "/", 1) : "/s";
    } else {
      vp_assume(!p.nodes.empty());
      size_t k = p.nodes.size() == 1 ? 0 : vp_choose("node", p.nodes.size());
      name = p.nodes[k].name;
      ns = p.nodes[k].ns;
    }
    rmw_gid_t e1, e2;
    if (op >= 2) {
      e1 = sym_gid("egid");
      vp_assume(e1.data[15] != 0xfe);
    }
    if (op >= 6) {
      e2 = sym_gid("egid2");
      vp_assume(e2.data[15] != 0xfe);
    }
    if (lastop) {as_sets = loose = vp_param("loose", 0);}
    // The possible states after the change: of one of the nodes with that name.
    std::vector<MPart> cand;
    if (op == 0) {
      MPart x = p;
      MNode n;
      n.name = name;
      n.ns = ns;
      x.nodes.push_back(n);
      cand.push_back(x);
    } else {
      for (size_t i = 0; i < p.nodes.size(); i++) {
        if (!(p.nodes[i].name == name && p.nodes[i].ns == ns)) {continue;}
        MPart x = p;
        MNode & n = x.nodes[i];
        switch (op) {
          case 1: x.nodes.erase(x.nodes.begin() + i); break;
          case 2: join(n.rd, e1); break;
          case 3: leave(n.rd, e1); break;
          case 4: join(n.wr, e1); break;
          case 5: leave(n.wr, e1); break;
          case 6: join(n.wr, e1); join(n.rd, e2); break;
          case 7: leave(n.wr, e1); leave(n.rd, e2); break;
          case 8: join(n.rd, e1); join(n.wr, e2); break;
          default: leave(n.rd, e1); leave(n.wr, e2);
        }
        cand.push_back(x);
      }
      if (cand.size() > 1) {vp_cover("same name");}
    }
    published = 0;
    used = nullptr;
    rmw_ret_t r;
    switch (op) {
      case 0: r = ctx->add_node_graph(name, ns); break;
      case 1: r = ctx->remove_node_graph(name, ns); break;
      case 2: r = ctx->add_subscriber_graph(e1, name, ns); break;
      case 3: r = ctx->remove_subscriber_graph(e1, name, ns); break;
      case 4: r = ctx->add_publisher_graph(e1, name, ns); break;
      case 5: r = ctx->remove_publisher_graph(e1, name, ns); break;
      case 6: r = ctx->add_client_graph(e1, e2, name, ns); break;
      case 7: r = ctx->remove_client_graph(e1, e2, name, ns); break;
      case 8: r = ctx->add_service_graph(e1, e2, name, ns); break;
      default: r = ctx->remove_service_graph(e1, e2, name, ns);
    }
    const bool can = ctx->pub && ctx->publish_callback;
    const bool good = can && result == RMW_RET_OK;
    if (what & 1) {
      vp_check(published == (can ? 1 : 0), "every operation publishes exactly one message");
      vp_check((r == RMW_RET_OK) == good, "an operation succeeds exactly when its message was published");
      vp_check(good || r == RMW_RET_ERROR, "and reports an error otherwise");
      if (can) {
        vp_check(used == &publisher, "the publisher of the context is used");
        bool ok = false;
        for (auto & x : cand) {if (!ok && same_part(*last, x)) {ok = true;}}
        vp_check(ok, "the message is the complete state of the participant after the operation");
        vp_cover("published");
      }
    }
    const MPart * next = &before;
    if (good || !add) {
      // which of them: the message tells (without one, a failed removal did one of them)
      next = &cand[0];
      for (auto & x : cand) {if (published && same_part(*last, x)) {next = &x; break;}}
    } else {
      vp_cover("failed addition");
    }
    const MPart after = *next;
    if (what & 2) {
      if (!good && !add && !published && cand.size() > 1) {
        break;          // ambiguous: nothing says which one
      }
      p = after;
      check_state(p, add ? (good ? "an addition that was published stays" :
        "a failed addition leaves the local graph as it was") : "a removal takes effect whether or not it was published");
    }
    p = after;
  }
  vp_observe("nodes", p.nodes.size());
  vp_observe("count", ctx->graph_cache.get_number_of_nodes());
  if (m->parts.size() > 1 && (what & 2)) {check_nodes(ctx->graph_cache, *m);}
  delete last;
  delete m;
  delete ctx;
}
