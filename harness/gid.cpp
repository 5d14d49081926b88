// Identifiers: ordering, equality, conversion and text, for all 16 bytes.
//   mode 0: order and equality, 1: conversions, 2: text, 3: as the key of a map
#include <map>
#include <sstream>
#include "graph.h"
using rmw_dds_common::Compare_rmw_gid_t;
using rmw_dds_common::operator==;
using rmw_dds_common::operator<<;

static rmw_gid_t any(const char * n, const char * id)
{
  rmw_gid_t g;
  memset(&g, 0, sizeof g);
  g.implementation_identifier = id;
  for (int i = 0; i < 16; i++) {g.data[i] = static_cast<uint8_t>(vp_sym(n, 8));}
  return g;
}
static std::string text(const rmw_gid_t & g, int * after = nullptr)
{
  std::ostringstream s;
  typedef std::ios_base S;
  static const S::fmtflags flags[] = {S::fmtflags(), S::uppercase | S::showbase | S::left, S::boolalpha | S::showpos | S::internal, S::unitbuf | S::showpoint | S::fixed,
    S::scientific | S::right | S::skipws};
  {
    // the rest of the formatting is none of its business
    std::ostringstream t;
    t.flags(S::dec | flags[vp_choose("flags", sizeof flags / sizeof *flags)]);
    t.precision(11);
    t.fill('#');
    const S::fmtflags before = t.flags();
    vp_check(&(t << g) == &t, "printing returns the stream");
    vp_check(t.flags() == before && t.precision() == 11 && t.fill() == '#' && t.good(), "printing an identifier does not change how other things are printed");
  }
  s << g;
  std::string r = s.str();
  if (after) {
    s << *after;
    vp_check(s.str() == r + std::to_string(*after), "printing an identifier does not change how numbers are printed");
  }
  return r;
}
static void hex(std::string & r, unsigned v)
{
  static const char d[] = "0123456789abcdef";
  if (v >= 16) {r += d[v / 16];}
  r += d[v % 16];
}

VP_ENTRY
{
  static const char * ids[] = {"a", "b", nullptr};
  const int mode = static_cast<int>(vp_param("mode", 0));
  Compare_rmw_gid_t lt;
  if (vp_param("prior", 0)) {
    // earlier calls with other identifiers play no part
    rmw_gid_t o = any("prior", "z"), p = fixed_gid(9);
    (void)lt(o, p);
    (void)(o == p);
    GMsg m;
    rmw_dds_common::convert_gid_to_msg(&p, &m);
    rmw_dds_common::convert_msg_to_gid(&m, &o);
    (void)text(p);
  }
  if (mode == 0) {
    rmw_gid_t a = any("a", ids[0]), b = any("b", ids[1]), c = any("c", ids[2]);
    bool same = true;
    for (int i = 0; i < 16; i++) {same &= a.data[i] == b.data[i];}
    const bool ab = lt(a, b), ba = lt(b, a);
    vp_check((a == b) == same, "equality compares all 16 bytes and nothing else");
    vp_check((b == a) == same, "equality is symmetric");
    vp_check((!ab && !ba) == same, "identifiers are equivalent in the order exactly when they are equal");
    vp_check(!(ab && ba), "the order is asymmetric");
    vp_check(!lt(a, a), "the order is irreflexive");
    const bool bc = lt(b, c), ac = lt(a, c);
    vp_check(!(ab && bc) || ac, "the order is transitive");
    rmw_gid_t a2 = a;
    a2.implementation_identifier = ids[2];
    vp_check(a2 == a && !lt(a, a2) && !lt(a2, a) && lt(a2, b) == ab, "the implementation identifier plays no part");
    vp_cover(same ? "equal" : "different");
    vp_observe("ab", ab);
    vp_observe("bc", bc);
  } else if (mode == 1) {
    rmw_gid_t g = any("g", "x"), in = g;
    GMsg m;
    for (int i = 0; i < 16; i++) {m.data[i] = static_cast<char>(vp_sym("before", 8));}
    rmw_dds_common::convert_gid_to_msg(&g, &m);
    vp_check(geq(g, in) && g.implementation_identifier == in.implementation_identifier, "the source is not modified");
    for (int i = 0; i < 16; i++) {
      vp_check(static_cast<uint8_t>(m.data[i]) == g.data[i], "the message carries every byte in its place");
    }
    rmw_gid_t back = any("back", "kept");
    const char * id = back.implementation_identifier;
    GMsg m2 = m;
    rmw_dds_common::convert_msg_to_gid(&m, &back);
    vp_check(m == m2, "the message is not modified");
    vp_check(geq(back, g), "converting there and back gives the same identifier");
    vp_check(back.implementation_identifier == id, "only the bytes are converted");
    rmw_gid_t other = any("other", "y");
    GMsg mo;
    rmw_dds_common::convert_gid_to_msg(&other, &mo);
    vp_check((mo == m) == (other == g), "messages are equal exactly when the identifiers are");
    rmw_gid_t r1 = fixed_gid(1), r2 = fixed_gid(2);
    rmw_dds_common::convert_msg_to_gid(&mo, &r1);
    rmw_dds_common::convert_msg_to_gid(&m, &r2);
    vp_check((r1 == r2) == (mo == m), "identifiers are equal exactly when the messages are");
    vp_cover("converted");
    vp_observe_mem("m", &m.data[0], 16);
  } else if (mode == 2) {
    // `sym` arbitrary bytes from `at` on; the others fixed
    rmw_gid_t g = fixed_gid(0xa5);
    const int at = static_cast<int>(vp_param("at", 0)), n = static_cast<int>(vp_param("sym", 2));
    for (int i = 0; i < n; i++) {g.data[(at + i) % 16] = static_cast<uint8_t>(vp_sym("byte", 8));}
    int after = 42;
    std::string want, got = text(g, &after);
    for (int i = 0; i < 16; i++) {
      if (i) {want += '.';}
      hex(want, g.data[i]);
    }
    vp_check(got == want, "the text is the 16 bytes in hexadecimal, separated by dots");
    vp_cover("text");
    vp_observe_mem("text", got.data(), got.size());
  } else {
    std::map<rmw_gid_t, int, Compare_rmw_gid_t> m;
    rmw_gid_t k[5];
    const int n = static_cast<int>(vp_param("n", 3));
    for (int i = 0; i < n; i++) {
      k[i] = any("k", ids[i % 3]);
      bool known = false;
      for (int j = 0; j < i; j++) {known |= geq(k[i], k[j]);}
      vp_check(m.emplace(k[i], i).second == !known, "a map tells identifiers apart by their bytes");
    }
    for (int i = 0; i < n; i++) {
      auto it = m.find(k[i]);
      vp_check(it != m.end() && geq(it->first, k[i]) && geq(k[it->second], k[i]), "and finds each of them");
    }
    vp_cover("map");
  }
}
