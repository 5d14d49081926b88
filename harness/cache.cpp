// Histories over participants, nodes and their endpoints, with arbitrary identifiers and names.
//   op<i>: 0 add_participant, 1 update_participant_entities, 2 remove_participant, 3 add_node,
//          4 remove_node, 5/6 associate writer/reader, 7/8 dissociate writer/reader, 9/10 add writer/reader,
//          11/12 remove writer/reader, 13 clear the callback; negative: any
//   query: 1 nodes, 2 by node, 4 info by topic, 8 message checks, 16 callback checks, 32 remote convergence,
//          64 names and types, 128 counts, 256 the printed graph
//   mid: 1: queries between the steps, and another graph; 2: one query after one of the steps (flip: with other
//   demangling functions)
//   how: which of the overloads adds and removes endpoints
#include <sstream>
#include "graph.h"


static GraphCache * c, * remote;
static Model * m;
static int calls, expect_lo, expect_hi;
static bool cleared;
static int64_t Q;
static std::vector<std::string> * topics;
static std::vector<std::pair<std::string, std::string>> * names;

static void printable(const std::string & s)
{
  if (Q & 256) {for (char ch : s) {vp_assume((ch >= '-') & (ch <= 'z'));}}
}

static rmw_gid_t any_participant(bool existing)
{
  if (existing) {
    vp_assume(!m->parts.empty());
    size_t k = m->parts.size() == 1 ? 0 : vp_choose("participant", m->parts.size());
    return m->parts[k].gid;
  }
  return vp_param("few", 0) ? fixed_gid(static_cast<uint8_t>(vp_choose("pfew", 2))) : sym_gid("pgid");
}
static void any_name(MNode & n)
{
  n.name = sym_str("name", "n", 1);
  n.ns = vp_param("sns", 1) ? sym_str("ns", "/", 1) : "/s";
  printable(n.name);
  printable(n.ns);
}
static MNode any_node(int nr, int nw)
{
  MNode n;
  any_name(n);
  for (int i = 0; i < nr; i++) {n.rd.push_back(sym_gid("rgid"));}
  for (int i = 0; i < nw; i++) {n.wr.push_back(sym_gid("wgid"));}
  return n;
}
// The message is the state after the change of one of the nodes with that name; the model follows.
static void adopt(MPart & p, const std::vector<MPart> & cand, const PMsg & msg)
{
  for (auto & x : cand) {
    if (same_part(msg, x)) {
      p = x;
      if (Q & 32) {
        remote->update_participant_entities(msg);
      }
      return;
    }
  }
  vp_check(!(Q & (8 | 32)), "the returned message is the complete state of the participant after the change of one such node");
  p = cand[0];
}
static size_t pick_node(MPart & p)
{
  vp_assume(!p.nodes.empty());
  return p.nodes.size() == 1 ? 0 : vp_choose("node", p.nodes.size());
}

// The printed graph, line by line, whatever its layout.
static std::string gid_text(const rmw_gid_t & g)
{
  std::ostringstream s;
  rmw_dds_common::operator<<(s, g);
  return s.str();
}
static bool has(const std::string & l, const std::string & t) {return l.find(t) != std::string::npos;}
// Both of them in quotes, at different places.
static bool has_both(const std::string & l, const std::string & a, const std::string & b)
{
  const std::string x = "'" + a + "'", y = "'" + b + "'";
  for (size_t i = l.find(x); i != std::string::npos; i = l.find(x, i + 1)) {
    for (size_t j = l.find(y); j != std::string::npos; j = l.find(y, j + 1)) {
      if (j >= i + x.size() || i >= j + y.size()) {return true;}
    }
  }
  return false;
}
static bool has_gid(const std::string & l, const rmw_gid_t & g)
{
  const std::string t = gid_text(g);
  size_t at = l.find(t);
  if (at == std::string::npos) {return false;}
  at += t.size();
  return at == l.size() || !((l[at] >= '0' && l[at] <= '9') || (l[at] >= 'a' && l[at] <= 'f'));
}
static void check_dump(const GraphCache & c, Model & m)
{
  std::ostringstream s;
  s << 10 << " ";
  vp_check(&rmw_dds_common::operator<<(s, c) == &s, "printing returns the stream");
  const std::string t = s.str();
  s << 255;
  vp_check(s.str() == t + "255", "printing leaves the stream usable");
  std::vector<std::string> lines(1);
  for (char ch : t) {if (ch == '\n') {lines.emplace_back();} else {lines.back() += ch;}}
  size_t want = 0;
  for (auto & v : m.eps) {
    for (auto & e : v) {
      size_t n = 0, k = 0;
      for (auto & l : lines) {n += has_gid(l, e.gid) && has(l, "'" + e.topic + "'") && has(l, "'" + e.type + "'");}
      for (auto & u : m.eps) {for (auto & f : u) {k += geq(f.gid, e.gid) && f.topic == e.topic && f.type == e.type;}}
      vp_check(n == k, "every endpoint has one line with its identifier, topic and type");
    }
  }
  size_t nodes = 0, claims = 0;
  for (auto & p : m.parts) {
    size_t n = 0;
    for (auto & l : lines) {n += has_gid(l, p.gid) && !has(l, "topic");}
    vp_check(n >= 1, "every participant is printed");
    if (!p.enclave.empty()) {
      n = 0;
      for (auto & l : lines) {n += has(l, "'" + p.enclave);}
      vp_check(n >= 1, "with its enclave");
      vp_cover("enclave");
    }
    for (auto & x : p.nodes) {
      nodes++;
      n = 0;
      size_t k = 0;
      for (auto & l : lines) {n += has_both(l, x.name, x.ns);}
      for (auto & o : m.parts) {for (auto & y : o.nodes) {k += (y.name == x.name && y.ns == x.ns) || (y.name == x.ns && y.ns == x.name);}}
      vp_check(n == k, "every node has one line with its name and namespace");
      claims += x.rd.size() + x.wr.size();
      for (int rd = 0; rd < 2; rd++) {
        for (auto & g : rd ? x.rd : x.wr) {
          bool found = false;
          for (auto & l : lines) {found = found || (has_gid(l, g) && !has(l, "topic"));}
          vp_check(found, "and the identifiers of its endpoints");
          vp_cover("claim");
        }
      }
    }
  }
  for (auto & l : lines) {want += has(l, "topic");}
  vp_check(want == m.eps[0].size() + m.eps[1].size(), "nothing that is gone is printed");
}

// All queries of the graph.
static void queries(const GraphCache & c, Model & m)
{
  if (Q & 1) {
    check_nodes(c, m);
    if (vp_param("noenclave", 0)) {check_nodes(c, m, false);}
  }
  for (auto & t : *topics) {
    for (int rd = 0; rd < 2; rd++) {
      if (m.eps[rd].empty()) {continue;}
      if (Q & 4) {check_info(c, m, t, rd);}
      if (Q & 128) {check_count(c, m, t, rd);}
    }
  }
  if (Q & 64) {check_names(c, m);}
  if (Q & 256) {check_dump(c, m);}
}
static void ask()
{
  if (Q & 2) {
    std::string a = sym_str("qname", "n", 1), b = vp_param("sns", 1) ? sym_str("qns", "/", 1) : "/s";
    check_by_node(*c, *m, a, b, static_cast<int>(vp_sym("qreader", 1)));
  }
  queries(*c, *m);
}
// Another graph of the same process, and queries between the steps of the history, with other demangling functions:
// neither may have an effect on later answers.
static GraphCache * other;
static Model * om;
static void make_other()
{
  other = new GraphCache;
  om = new Model;
  MPart p;
  p.gid = fixed_gid(200);
  p.enclave = "/other";
  MEp e;
  e.gid = fixed_gid(201);
  e.topic = "to";
  e.type = "yo";
  e.hash = rosidl_get_zero_initialized_type_hash();
  e.pgid = p.gid;
  e.qos = rmw_qos_profile_default;
  MNode n;
  n.name = "nother";
  n.ns = "/o";
  n.rd.push_back(e.gid);
  n.wr.push_back(e.gid);
  p.nodes.push_back(n);
  other->add_participant(p.gid, p.enclave);
  other->update_participant_entities(to_msg(p));
  for (int rd = 0; rd < 2; rd++) {
    other->add_entity(e.gid, e.topic, e.type, e.hash, e.pgid, e.qos, rd);
    om->eps[rd].push_back(e);
  }
  om->parts.push_back(p);
}
static void ask_other()
{
  queries(*other, *om);
  if (Q & 2) {
    for (int rd = 0; rd < 2; rd++) {
      check_by_node(*other, *om, "nother", "/o", rd);
      check_by_node(*other, *om, "n", "/s", rd);
    }
  }
  if (Q & 4) {check_info(*other, *om, "to", 0);}
}
static void ask_between()
{
  plain = !plain;
  if ((Q & 2) && !names->empty()) {
    for (int rd = 0; rd < 2; rd++) {check_by_node(*c, *m, names->back().first, names->back().second, rd);}
  }
  queries(*c, *m);
  plain = !plain;
  queries(*c, *m);
  ask_other();
}
// One query after one of the steps, and the same one again at the end, before any other.
static int asked_topic = -1, asked_reader;
static std::string * asked_name, * asked_ns;
static bool asked;
static void ask_one(bool first)
{
  if (Q & (2 | 4 | 128)) {
    if (first) {asked_reader = static_cast<int>(vp_choose("askedrd", 2));}
    if (Q & 2) {
      if (first) {
        if (names->empty()) {return;}
        size_t k = names->size() == 1 ? 0 : vp_choose("askednm", names->size());
        asked_name = new std::string((*names)[k].first);
        asked_ns = new std::string((*names)[k].second);
      }
      check_by_node(*c, *m, *asked_name, *asked_ns, asked_reader);
    } else {
      if (first) {
        if (topics->empty()) {return;}
        asked_topic = topics->size() == 1 ? 0 : static_cast<int>(vp_choose("askedtp", topics->size()));
      }
      if (Q & 4) {check_info(*c, *m, (*topics)[asked_topic], asked_reader);}
      if (Q & 128) {check_count(*c, *m, (*topics)[asked_topic], asked_reader);}
    }
  } else {
    queries(*c, *m);
  }
  asked = true;
}

VP_ENTRY
{
  c = new GraphCache;
  remote = new GraphCache;
  m = new Model;
  topics = new std::vector<std::string>;
  names = new std::vector<std::pair<std::string, std::string>>;
  Q = vp_param("query", 0);
  const int steps = static_cast<int>(vp_param("steps", 3)), nops = static_cast<int>(vp_param("nops", 13));
  const int nnodes = static_cast<int>(vp_param("nodes", 1)), nr = static_cast<int>(vp_param("nr", 1)),
    nw = static_cast<int>(vp_param("nw", 1));
  c->set_on_change_callback([] {calls++;});
  if (vp_param("mid", 0) == 1) {make_other();}
  const int when = vp_param("mid", 0) == 2 ? static_cast<int>(vp_choose("when", steps - 1)) : -1;
  for (int s = 0; s < steps; s++) {
    char pn[8] = "op0";
    pn[2] = static_cast<char>('0' + s);
    int64_t fixed = vp_param(pn, -1);
    int op = fixed >= 0 ? static_cast<int>(fixed) : static_cast<int>(vp_choose("op", nops));
    int before = calls;
    int lo = 1, hi = 1;             // calls of the callback
    switch (op) {
      case 0: {
          rmw_gid_t g = any_participant(false);
          std::string e = sym_str("enclave", "/e", 1);
          printable(e);
          MPart * old = m_part(*m, g);
          if (old && old->enclave == e) {lo = 0;}
          c->add_participant(g, e);
          m_part_or_new(*m, g).enclave = e;
          vp_cover(old ? "participant updated" : "participant added");
          break;
        }
      case 1: {
          MPart p;
          p.gid = any_participant(false);
          MPart * old = m_part(*m, p.gid);
          for (int i = 0; i < nnodes; i++) {p.nodes.push_back(any_node(nr, nw));}
          PMsg msg = to_msg(p);
          c->update_participant_entities(msg);
          if (Q & 32) {remote->update_participant_entities(msg);}
          if (old && same_part(msg, *old)) {lo = 0;}
          m_part_or_new(*m, p.gid).nodes = p.nodes;
          vp_cover(old ? "discovery update" : "discovery of a new participant");
          break;
        }
      case 2: {
          rmw_gid_t g = any_participant(false);
          bool r = c->remove_participant(g), w = m_remove_part(*m, g);
          if (Q & 32) {remote->remove_participant(g);}
          vp_check(r == w || !(Q & (1 | 16)), "removing a participant succeeds exactly when it is known");
          lo = hi = w;
          vp_cover(w ? "participant removed" : "no such participant");
          break;
        }
      case 3: {
          rmw_gid_t g = any_participant(true);
          MNode n;
          any_name(n);
          MPart * p = m_part(*m, g);
          MPart x = *p;
          x.nodes.push_back(n);
          adopt(*p, {x}, c->add_node(g, n.name, n.ns));
          break;
        }
      case 4: {
          rmw_gid_t g = any_participant(true);
          MPart * p = m_part(*m, g);
          size_t k = pick_node(*p);
          MNode n = p->nodes[k];
          std::vector<MPart> cand;
          for (size_t i = 0; i < p->nodes.size(); i++) {
            if (p->nodes[i].name == n.name && p->nodes[i].ns == n.ns) {
              cand.push_back(*p);
              cand.back().nodes.erase(cand.back().nodes.begin() + i);
            }
          }
          if (cand.size() > 1) {vp_cover("same name");}
          adopt(*p, cand, c->remove_node(g, n.name, n.ns));
          break;
        }
      case 5: case 6: case 7: case 8: {
          const bool reader = op == 6 || op == 8, add = op < 7;
          rmw_gid_t g = any_participant(true), e = sym_gid("egid");
          MPart * p = m_part(*m, g);
          size_t k = pick_node(*p);
          std::string name = p->nodes[k].name, ns = p->nodes[k].ns;
          std::vector<MPart> cand;
          bool absent = false;
          for (size_t i = 0; i < p->nodes.size(); i++) {
            if (p->nodes[i].name == name && p->nodes[i].ns == ns) {
              cand.push_back(*p);
              std::vector<rmw_gid_t> & l = reader ? cand.back().nodes[i].rd : cand.back().nodes[i].wr;
              size_t at = l.size();
              for (size_t j = 0; j < l.size(); j++) {if (geq(l[j], e)) {at = j; break;}}
              if (add) {
                vp_assume(at == l.size());
                l.push_back(e);
              } else if (at < l.size()) {
                l.erase(l.begin() + at);
                vp_cover("dissociated");
              } else {
                absent = true;
              }
            }
          }
          if (cand.size() > 1) {vp_cover("same name");}
          if (absent) {lo = 0;}
          PMsg msg = add ? (reader ? c->associate_reader(e, g, name, ns) : c->associate_writer(e, g, name, ns)) :
            (reader ? c->dissociate_reader(e, g, name, ns) : c->dissociate_writer(e, g, name, ns));
          adopt(*p, cand, msg);
          break;
        }
      case 9: case 10: {
          MEp e;
          e.gid = sym_gid("egid");
          e.topic = vp_param("stopic", 1) ? sym_str("topic", "t", 1) : "tt";
          e.type = vp_param("stype", 1) ? sym_str("type", "y", 1) : "yy";
          printable(e.topic);
          e.hash = sym_hash("hash");
          e.pgid = any_participant(false);
          e.qos = sym_qos("qos");
          topics->push_back(e.topic);
          bool r;
          switch (vp_param("how", 0)) {
            case 0:
              r = op == 10 ? c->add_reader(e.gid, e.topic, e.type, e.hash, e.pgid, e.qos) :
                c->add_writer(e.gid, e.topic, e.type, e.hash, e.pgid, e.qos);
              break;
            case 1:
              r = c->add_entity(e.gid, e.topic, e.type, e.hash, e.pgid, e.qos, op == 10);
              break;
            case 2:       // without a type hash
              e.hash = rosidl_get_zero_initialized_type_hash();
              r = op == 10 ? c->add_reader(e.gid, e.topic, e.type, e.pgid, e.qos) :
                c->add_writer(e.gid, e.topic, e.type, e.pgid, e.qos);
              break;
            default:
              e.hash = rosidl_get_zero_initialized_type_hash();
              r = c->add_entity(e.gid, e.topic, e.type, e.pgid, e.qos, op == 10);
          }
          bool w = m_add(*m, op == 10, e);
          vp_check(r == w || !(Q & (128 | 16)), "an addition succeeds exactly when the endpoint is not known yet");
          lo = hi = w;
          break;
        }
      case 11: case 12: {
          rmw_gid_t g = sym_gid("egid");
          bool r = vp_param("how", 0) & 1 ? c->remove_entity(g, op == 12) : op == 12 ? c->remove_reader(g) : c->remove_writer(g);
          bool w = m_remove(*m, op == 12, g);
          vp_check(r == w || !(Q & (128 | 16)), "a removal succeeds exactly when the endpoint is known");
          lo = hi = w;
          break;
        }
      default:
        c->clear_on_change_callback();
        cleared = true;
        lo = hi = 0;
        vp_cover("cleared");
    }
    if (cleared) {lo = hi = 0;}
    vp_check(!(Q & 16) || (calls - before >= lo && calls - before <= hi),
      "the callback is called once per change, and only then");
    if (op >= 0 && op <= 8 && !m->parts.empty()) {
      for (auto & p : m->parts) {for (auto & n : p.nodes) {names->push_back({n.name, n.ns});}}
    }
    if (other && s + 1 < steps) {ask_between();}
    if (s == when) {
      plain = vp_param("flip", 0);
      ask_one(true);
      plain = false;
    }
  }
  vp_observe("writers", m->eps[0].size());
  vp_observe("participants", m->parts.size());
  if (asked) {ask_one(false);}
  ask();
  if (other) {ask_other();}
  if (Q & 32) {
    // The remote cache shows the same nodes with the same endpoints, whatever order it learns things in.
    for (auto & v : m->eps) {
      for (auto & e : v) {
        remote->add_entity(e.gid, e.topic, e.type, e.hash, e.pgid, e.qos, &v == &m->eps[1]);
      }
    }
    for (auto & p : m->parts) {
      if (p.nodes.empty()) {continue;}
      for (auto & n : p.nodes) {
        for (int rd = 0; rd < 2; rd++) {check_by_node(*remote, *m, n.name, n.ns, rd);}
      }
    }
    Model r = *m;
    for (auto & p : r.parts) {p.enclave = "";}
    check_nodes(*remote, r);
  }
  delete c;
  delete remote;
  delete other;
  delete om;
  delete asked_name;
  delete asked_ns;
  delete m;
  delete topics;
  delete names;
}
