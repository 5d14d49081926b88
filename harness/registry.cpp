// Histories of additions and removals of endpoints, with arbitrary identifiers, names and types.
#include "graph.h"

static GraphCache * c;
static Model * m;
static int calls;

VP_ENTRY
{
  c = new GraphCache;
  m = new Model;
  const int steps = static_cast<int>(vp_param("steps", 3));
  c->set_on_change_callback([] {calls++;});
  std::string topics[4];
  int nt = 0, when = -1, asked = -1, asked_reader = 0;
  if (vp_param("mid", 0) == 2) {when = static_cast<int>(vp_choose("when", steps - 1));}
  for (int s = 0; s < steps; s++) {
    char pn[8] = "op0";
    pn[2] = static_cast<char>('0' + s);
    int64_t fixed = vp_param(pn, -1);
    int op = fixed >= 0 ? static_cast<int>(fixed) : static_cast<int>(vp_choose("op", 4));
    bool generic = vp_sym("generic", 1);    // through add_entity / remove_entity
    int reader = op & 1;
    int before = calls;
    bool r, w;
    rmw_gid_t g = sym_gid("gid");
    if (op < 2) {
      MEp e;
      e.gid = g;
      e.topic = sym_str("topic", "t", 1);
      e.type = sym_str("type", "y", 1);
      e.hash = sym_hash("hash");
      e.pgid = sym_gid("pgid");
      e.qos = sym_qos("qos");
      topics[nt++] = e.topic;
      if (generic) {
        r = c->add_entity(e.gid, e.topic, e.type, e.hash, e.pgid, e.qos, reader);
      } else {
        r = reader ? c->add_reader(e.gid, e.topic, e.type, e.hash, e.pgid, e.qos) :
          c->add_writer(e.gid, e.topic, e.type, e.hash, e.pgid, e.qos);
      }
      w = m_add(*m, reader, e);
      vp_check(r == w, "an addition succeeds exactly when the endpoint is not known yet");
      vp_cover(r ? "added" : "duplicate");
    } else {
      r = generic ? c->remove_entity(g, reader) : reader ? c->remove_reader(g) : c->remove_writer(g);
      w = m_remove(*m, reader, g);
      vp_check(r == w, "a removal succeeds exactly when the endpoint is known");
      vp_cover(r ? "removed" : "not there");
    }
    vp_check(calls == before + (w ? 1 : 0), "the callback is called once per change, and only then");
    if (s == when && nt) {
      // one query only, so that nothing but this one can have been remembered
      asked = nt == 1 ? 0 : static_cast<int>(vp_choose("asked", nt));
      asked_reader = static_cast<int>(vp_choose("askedrd", 2));
      check_count(*c, *m, topics[asked], asked_reader);
    }
    if (vp_param("mid", 0) == 1) {
      for (int t = 0; t < nt && s + 1 < steps; t++) {
        for (int rd = 0; rd < 2; rd++) {check_count(*c, *m, topics[t], rd);}
      }
    }
  }
  vp_observe("writers", m->eps[0].size());
  vp_observe("readers", m->eps[1].size());
  const int64_t q = vp_param("query", 0);
  if (asked >= 0) {check_count(*c, *m, topics[asked], asked_reader);}
  for (int t = 0; t < nt; t++) {
    for (int rd = 0; rd < 2; rd++) {
      check_count(*c, *m, topics[t], rd);
      if (q & 1) {check_info(*c, *m, topics[t], rd);}
    }
  }
  if (q & 2) {check_names(*c, *m);}
  if (q & 4) {
    std::string other = sym_str("other", "t", 1);
    check_count(*c, *m, other, 0);
    check_count(*c, *m, other, 1);
  }
  delete c;
  delete m;
}
