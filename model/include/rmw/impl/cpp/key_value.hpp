#pragma once
#include <cctype>
#include <map>
#include <string>
#include <vector>
#include <cstdint>
namespace rmw
{
namespace impl
{
namespace cpp
{
inline std::map<std::string, std::vector<uint8_t>> parse_key_value(std::vector<uint8_t> kv)
{
  std::map<std::string, std::vector<uint8_t>> m;
  bool keyfound = false;
  std::string key;
  std::vector<uint8_t> value;
  uint8_t prev = '\0';
  if (kv.size() == 0) {goto not_valid;}
  for (uint8_t u8 : kv) {
    if (keyfound) {
      if ((u8 == ';') && (prev != ';')) {
        prev = u8;
        continue;
      } else if ((u8 != ';') && (prev == ';')) {
        if (value.size() == 0) {goto not_valid;}
        m[key] = value;
        key.clear();
        value.clear();
        keyfound = false;
      } else {
        value.push_back(u8);
      }
    }
    if (!keyfound) {
      if (u8 == '=') {
        if (key.size() == 0) {goto not_valid;}
        keyfound = true;
      } else if ((u8 >= '0' && u8 <= '9') || (u8 >= 'a' && u8 <= 'z') || (u8 >= 'A' && u8 <= 'Z')) {
        key.push_back(u8);
      } else if ((u8 == '\0') && (key.size() == 0) && (m.size() > 0)) {
        break;
      } else if ((prev != ';') || (key.size() > 0)) {
        goto not_valid;
      }
    }
    prev = u8;
  }
  if (keyfound) {
    if (value.size() == 0) {goto not_valid;}
    m[key] = value;
  } else if (key.size() > 0) {
    goto not_valid;
  }
  return m;
not_valid:
  m.clear();
  return m;
}
}  // namespace cpp
}  // namespace impl
}  // namespace rmw
