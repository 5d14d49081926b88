// Threads on one Context and its graph cache: every schedule at the granularity of locks and of publishing.
// The sequence of published messages is the history of the participant: message by message the state after
// the operation that published it, and the last state is the one that stays.
//   threads, len; op codes t<thread><i>: 0..9 as in context.cpp, 10 discovery of a participant, 11 discovery of
//   an endpoint, 12 a query; negative: any below `nops`.  fail: publishing may fail
#include "graph.h"
#include "rmw_dds_common/context.hpp"
using rmw_dds_common::Context;

struct Op { int code; rmw_gid_t rd, wr; std::string name; };
struct Sent { int thread; PMsg * msg; rmw_ret_t ret; };
static Context * ctx;
static int nthreads, len, nsent, fail;
static Op * plan[3][3];
static rmw_ret_t results[3][3];
static Sent sent[9];
static rmw_publisher_t publisher;
static rmw_gid_t ME;

static rmw_ret_t publish(const rmw_publisher_t *, const void * msg)
{
  // the message is on its way: others may run before and after it is handed over
  vp_yield();
  Sent & s = sent[nsent++];
  s.thread = vp_thread_id();
  s.msg = new PMsg(*static_cast<const PMsg *>(msg));
  s.ret = fail && vp_sym("publish", 1) ? RMW_RET_ERROR : RMW_RET_OK;
  vp_yield();
  return s.ret;
}
static rmw_gid_t gid_of(int kind, int t, int i) {return fixed_gid(static_cast<uint8_t>(0x10 + kind * 0x10 + t * 4 + i));}
static rmw_ret_t run(const Op & o)
{
  switch (o.code) {
    case 0: return ctx->add_node_graph(o.name, "/s");
    case 1: return ctx->remove_node_graph(o.name, "/s");
    case 2: return ctx->add_subscriber_graph(o.rd, "k", "/s");
    case 3: return ctx->remove_subscriber_graph(o.rd, "k", "/s");
    case 4: return ctx->add_publisher_graph(o.wr, "k", "/s");
    case 5: return ctx->remove_publisher_graph(o.wr, "k", "/s");
    case 6: return ctx->add_client_graph(o.wr, o.rd, "k", "/s");
    case 7: return ctx->remove_client_graph(o.wr, o.rd, "k", "/s");
    case 8: return ctx->add_service_graph(o.rd, o.wr, "k", "/s");
    case 9: return ctx->remove_service_graph(o.rd, o.wr, "k", "/s");
    case 10: {
        MPart p;
        p.gid = fixed_gid(2);
        MNode n;
        n.name = o.name;
        n.ns = "/s";
        p.nodes.push_back(n);
        ctx->graph_cache.update_participant_entities(to_msg(p));
        return RMW_RET_OK;
      }
    case 11:
      ctx->graph_cache.add_reader(o.rd, "t", "y", rosidl_get_zero_initialized_type_hash(), ME, rmw_qos_profile_default);
      return RMW_RET_OK;
    default: return ctx->graph_cache.get_number_of_nodes() > 0 ? RMW_RET_OK : RMW_RET_ERROR;
  }
}
static void drop(std::vector<rmw_gid_t> & l, const rmw_gid_t & g)
{
  for (size_t i = 0; i < l.size(); i++) {if (geq(l[i], g)) {l.erase(l.begin() + i); return;}}
}
static void apply(MPart & p, const Op & o)
{
  if (o.code == 0) {
    MNode n;
    n.name = o.name;
    n.ns = "/s";
    p.nodes.push_back(n);
    return;
  }
  if (o.code == 1) {
    for (size_t i = 0; i < p.nodes.size(); i++) {if (p.nodes[i].name == o.name) {p.nodes.erase(p.nodes.begin() + i); return;}}
    return;
  }
  MNode * k = nullptr;
  for (auto & n : p.nodes) {if (n.name == "k") {k = &n;}}
  switch (o.code) {
    case 2: k->rd.push_back(o.rd); break;
    case 3: drop(k->rd, o.rd); break;
    case 4: k->wr.push_back(o.wr); break;
    case 5: drop(k->wr, o.wr); break;
    case 6: case 8: k->rd.push_back(o.rd); k->wr.push_back(o.wr); break;
    default: drop(k->rd, o.rd); drop(k->wr, o.wr);
  }
}
static void thread(void * arg)
{
  const int t = static_cast<int>(reinterpret_cast<intptr_t>(arg));
  for (int i = 0; i < len; i++) {results[t][i] = run(*plan[t][i]);}
}

VP_ENTRY
{
  nthreads = static_cast<int>(vp_param("threads", 2));
  len = static_cast<int>(vp_param("len", 1));
  fail = static_cast<int>(vp_param("fail", 0));
  const int nops = static_cast<int>(vp_param("nops", 13));
  ctx = new Context;
  ME = fixed_gid(1);
  ctx->gid = ME;
  ctx->pub = &publisher;
  ctx->publish_callback = publish;
  ctx->graph_cache.add_participant(ME, "/e");
  MPart p;
  p.gid = ME;
  p.enclave = "/e";
  for (auto n : {"n0", "n1", "n2", "k"}) {
    MNode x;
    x.name = n;
    x.ns = "/s";
    if (n[0] == 'k') {
      for (int t = 0; t < nthreads; t++) {
        for (int i = 0; i < len; i++) {x.rd.push_back(gid_of(0, t, i)); x.wr.push_back(gid_of(1, t, i));}
      }
    }
    p.nodes.push_back(x);
  }
  ctx->graph_cache.update_participant_entities(to_msg(p));
  for (int t = 0; t < nthreads; t++) {
    for (int i = 0; i < len; i++) {
      char pn[4] = "t00";
      pn[1] = static_cast<char>('0' + t);
      pn[2] = static_cast<char>('0' + i);
      int64_t f = vp_param(pn, -1);
      Op & o = *(plan[t][i] = new Op);
      o.code = f >= 0 ? static_cast<int>(f) : static_cast<int>(vp_choose("op", nops));
      const bool rem = o.code % 2 == 1 && o.code < 10;
      o.rd = gid_of(rem ? 0 : 2, t, i);
      o.wr = gid_of(rem ? 1 : 3, t, i);
      if (o.code == 1) {
        vp_assume(i == 0);
        o.name = "n0";
        o.name[1] = static_cast<char>('0' + t);
      } else {
        o.name = "a00";
        o.name[1] = static_cast<char>('0' + t);
        o.name[2] = static_cast<char>('0' + i);
      }
    }
  }
  vp_norace(&nsent);
  vp_norace(sent);
  for (int t = 1; t < nthreads; t++) {vp_spawn(thread, reinterpret_cast<void *>(static_cast<intptr_t>(t)));}
  thread(nullptr);
  vp_join();

  int at[3] = {0, 0, 0}, expect = 0;
  for (int t = 0; t < nthreads; t++) {
    for (int i = 0; i < len; i++) {
      if (plan[t][i]->code < 10) {expect++;} else {
        vp_check(results[t][i] == RMW_RET_OK, "discovery and queries work meanwhile");
      }
    }
  }
  vp_check(nsent == expect, "every operation publishes exactly one message");
  for (int k = 0; k < nsent; k++) {
    const int t = sent[k].thread;
    while (at[t] < len && plan[t][at[t]]->code >= 10) {at[t]++;}
    vp_check(at[t] < len, "messages are published by their operations");
    const Op & o = *plan[t][at[t]];
    MPart x = p;
    apply(x, o);
    vp_check(same_part(*sent[k].msg, x), "each message is the state after its operation, in the order of publication");
    vp_check(results[t][at[t]] == sent[k].ret, "the operation reports whether its message was published");
    if (sent[k].ret == RMW_RET_OK || o.code % 2) {p = x;} else {vp_cover("rolled back");}
    at[t]++;
  }
  // what stays is the last state
  const rmw_gid_t probe = fixed_gid(0xfe);
  ctx->graph_cache.associate_reader(probe, ME, "k", "/s");
  PMsg now = ctx->graph_cache.dissociate_reader(probe, ME, "k", "/s");
  vp_check(same_part(now, p), "the local graph is the last state");
  vp_cover("replayed");
  vp_observe("nodes", ctx->graph_cache.get_number_of_nodes());
  vp_observe("sent", nsent);
  for (int k = 0; k < nsent; k++) {delete sent[k].msg;}
  for (int t = 0; t < nthreads; t++) {for (int i = 0; i < len; i++) {delete plan[t][i];}}
  delete ctx;
}
