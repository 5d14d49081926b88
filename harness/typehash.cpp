// The type hash in USER_DATA.
//   mode 0: every hash, encoded and parsed again between other keys; 1: a valid text altered or cut anywhere;
//        2: arbitrary bytes; 3: arguments and failures
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "vp.h"
#include "vp_ros.h"
#include "rmw/impl/cpp/key_value.hpp"
#include "rmw_dds_common/qos.hpp"
#define VP_PRIOR_QOS
#include "prior.h"
extern "C" int vp_ros_fault;

static rosidl_type_hash_t any(const char * name, int version)
{
  rosidl_type_hash_t h;
  memset(&h, 0, sizeof h);
  h.version = static_cast<uint8_t>(version < 0 ? vp_sym("version", 8) : version);
  for (int i = 0; i < ROSIDL_TYPE_HASH_SIZE; i++) {h.value[i] = static_cast<uint8_t>(vp_sym(name, 8));}
  return h;
}
static bool same(const rosidl_type_hash_t & a, const rosidl_type_hash_t & b)
{
  int d = a.version ^ b.version;
  for (int i = 0; i < ROSIDL_TYPE_HASH_SIZE; i++) {d |= a.value[i] ^ b.value[i];}
  return d == 0;
}
static std::string text(const rosidl_type_hash_t & h)
{
  static const char d[] = "0123456789abcdef";
  std::string r("typehash=RIHS");
  r += d[h.version >> 4];
  r += d[h.version & 15];
  r += '_';
  for (int i = 0; i < ROSIDL_TYPE_HASH_SIZE; i++) {
    r += d[h.value[i] >> 4];
    r += d[h.value[i] & 15];
  }
  return r + ';';
}
static bool same_text(const std::string & a, const std::string & b)
{
  if (a.size() != b.size()) {return false;}
  int d = 0;
  for (size_t i = 0; i < a.size(); i++) {d |= a[i] ^ b[i];}
  return d == 0;
}
// From memory of exactly that size.
static rmw_ret_t parse(const std::string & s, rosidl_type_hash_t & h)
{
  uint8_t * p = static_cast<uint8_t *>(malloc(s.size() ? s.size() : 1));
  memcpy(p, s.data(), s.size());
  rmw_ret_t r = rmw_dds_common::parse_type_hash_from_user_data(p, s.size(), h);
  bool kept = true;
  for (size_t i = 0; i < s.size(); i++) {kept &= p[i] == static_cast<uint8_t>(s[i]);}
  vp_check(kept, "the user data is not modified");
  free(p);
  return r;
}
// What the "key=value;" encoding says about the key.
static void check_parse(const std::string & s)
{
  rosidl_type_hash_t h = any("before", -1), want = rosidl_get_zero_initialized_type_hash();
  rmw_ret_t r = parse(s, h);
  auto kv = rmw::impl::cpp::parse_key_value(std::vector<uint8_t>(s.begin(), s.end()));
  rmw_ret_t expect = RMW_RET_OK;
  auto it = kv.find("typehash");
  if (it != kv.end()) {
    std::string v(it->second.begin(), it->second.end());
    if (v.find('\0') != std::string::npos) {vp_stop();}         // not specified
    if (rosidl_parse_type_hash_string(v.c_str(), &want) != RCUTILS_RET_OK) {expect = RMW_RET_ERROR;}
  }
  vp_check(r == expect, "a present but malformed hash is an error, anything else is not");
  if (r == RMW_RET_OK) {
    vp_check(same(h, want), "the hash of the key, or the zero hash without the key");
  }
  vp_cover(expect != RMW_RET_OK ? "malformed" : it == kv.end() ? "absent" : "parsed");
  vp_observe("ret", r == RMW_RET_OK);
}
static std::string around(const char * name)
{
  std::string r;
  if (const size_t n = vp_param("longer", 0)) {
    // a long value, or many keys
    if (vp_choose(name, 2)) {return "other=" + std::string(n, 'v') + ";";}
    for (int i = 0; r.size() < n; i++) {r += "k" + std::to_string(i) + "=typehash;";}
    return r;
  }
  switch (vp_choose(name, 4)) {
    case 0: break;
    case 1: {
        // another key and value of one character each
        char k = static_cast<char>(vp_sym(name, 8)), v = static_cast<char>(vp_sym(name, 8));
        vp_assume((k >= 'a') & (k <= 'z') & (v > ' ') & (v != ';'));
        r = std::string(1, k) + "=" + v + ";";
        break;
      }
    case 2: r = "enclave=/a/b;xtypehash=RIHS01_0;"; break;
    default: r = "typehas=1;typehashx=RIHS02_;typeHash=2;";
  }
  return r;
}

VP_ENTRY
{
  if (vp_param("prior", 0)) {prior_calls();}
  const int mode = static_cast<int>(vp_param("mode", 0));
  if (mode == 0) {
    const rosidl_type_hash_t h = any("hash", -1), copy = h;
    std::string s("what was there before");
    vp_check(rmw_dds_common::encode_type_hash_for_user_data_qos(h, s) == RMW_RET_OK, "every hash can be encoded");
    vp_check(same(h, copy), "the hash is not modified");
    if (h.version == 0) {
      vp_check(s.empty(), "an unset hash is encoded as nothing");
      rosidl_type_hash_t b = any("before", 1);
      vp_check(parse(s, b) == RMW_RET_OK && same(b, rosidl_get_zero_initialized_type_hash()), "and nothing is parsed as an unset hash");
      vp_cover("unset");
      return;
    }
    vp_check(same_text(s, text(h)), "the text is the key, the hash in hexadecimal and a separator");
    vp_cover("text");
    vp_assume(h.version == 1);
    rosidl_type_hash_t b = any("before", 2);
    rmw_ret_t r = parse(around("pre") + s + around("post"), b);
    vp_check(r == RMW_RET_OK, "what was encoded can be parsed, whatever keys surround it");
    vp_check(same(b, h), "and gives the same hash");
    vp_cover("round trip");
  } else if (mode == 1) {
    rosidl_type_hash_t h;
    h.version = 1;
    for (int i = 0; i < ROSIDL_TYPE_HASH_SIZE; i++) {h.value[i] = static_cast<uint8_t>(i * 9 + 3);}
    std::string s = "a=b;" + text(h) + "c=d;";
    const size_t part = static_cast<size_t>(vp_param("part", 0));
    if (part == 0) {
      s.resize(vp_choose("cut", s.size() + 1));
    } else {
      const size_t n = s.size() / 4 + 1, at = (part - 1) * n + vp_choose("at", n);
      vp_assume(at < s.size());
      s[at] = static_cast<char>(vp_sym("byte", 8));
    }
    check_parse(s);
  } else if (mode == 2) {
    static const char * const heads[] = {"", "typehash=", "typehash=;", "a=typehash=", "typehash=RIHS01_", "\0", "typehash"};
    std::string s = heads[vp_choose("head", sizeof heads / sizeof *heads)];
    const int n = static_cast<int>(vp_choose("len", vp_param("len", 2) + 1));
    for (int i = 0; i < n; i++) {s += static_cast<char>(vp_sym("data", 8));}
    check_parse(s);
  } else {
    rosidl_type_hash_t h = any("hash", -1), copy = h;
    vp_check(rmw_dds_common::parse_type_hash_from_user_data(nullptr, vp_sym("size", 64), h) == RMW_RET_INVALID_ARGUMENT,
      "no user data is rejected");
    vp_ros_fault = vp_choose("fault", 2) ? RCUTILS_RET_BAD_ALLOC : RCUTILS_RET_INVALID_ARGUMENT;
    std::string s;
    rmw_ret_t r = rmw_dds_common::encode_type_hash_for_user_data_qos(copy, s);
    if (copy.version == 0) {
      vp_check(r == RMW_RET_OK && s.empty(), "an unset hash needs no memory");
      vp_cover("unset");
    } else {
      vp_check(r == (vp_ros_fault == RCUTILS_RET_BAD_ALLOC ? RMW_RET_BAD_ALLOC : RMW_RET_ERROR), "a failure is reported");
      vp_cover("failed");
    }
  }
}
