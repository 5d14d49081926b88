// get_security_files over a file system whose content is symbolic: what is found, what is returned.
#include "vp.h"
#include "vp_fs.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include "rmw_dds_common/security.hpp"

enum Kind {NONE, REG, DIRECTORY, CHARDEV, LOOP, LINK_REG, LINK_NONE, LINK_DIR, KINDS};
static const int NATTR = 6;
struct Attr { const char * key; const char * p11; const char * file; };
static const Attr attrs[NATTR + 1] = {
  {"IDENTITY_CA", "identity_ca.cert.p11", "identity_ca.cert.pem"},
  {"CERTIFICATE", "cert.p11", "cert.pem"},
  {"PRIVATE_KEY", "key.p11", "key.pem"},
  {"PERMISSIONS_CA", "permissions_ca.cert.p11", "permissions_ca.cert.pem"},
  {"GOVERNANCE", nullptr, "governance.p7s"},
  {"PERMISSIONS", nullptr, "permissions.p7s"},
  {"CRL", nullptr, "crl.pem"},
};
static const int MAXF = 40, MAXC = 40, MAXLONG = 6000;
// style: how the content is made up when the file is first looked into
struct File { char name[64]; int kind; int len; char * content; int style; };
static File files[MAXF];
static char contents[MAXF][MAXC], longer[MAXLONG];
static int nfiles;
static char root[256];
static size_t root_len;
static int focus;          // attribute explored in depth, or -1
static int maxlen;         // bytes of symbolic content

enum Style {FIXED, SYMBOLIC, SIZE};
// A symbolic kind: the executor forks only when, and if, the code asks for the file.
static int choose_kind(const char * name, int n)
{
  char v[80] = "kind:";
  strcat(v, name);
  int k = static_cast<int>(vp_sym(v, 8));
  vp_assume((k >= 0) & (k < n));
  return k;
}
static File * add_file(const char * name, int kind, const char * content, int len, int style = FIXED)
{
  File & f = files[nfiles++];
  strcpy(f.name, name);
  f.kind = kind;
  f.len = len;
  f.style = style;
  f.content = contents[&f - files];
  memcpy(f.content, content, len);
  return &f;
}
static bool regular(int k) {return (k == REG) | (k == LINK_REG);}
static int sym_content(char * c, const char * name, int n)
{
  for (int i = 0; i < n; i++) {c[i] = static_cast<char>(vp_sym(name, 8));}
  return n;
}
static void fill(File & f)
{
  int how = f.style;
  f.style = FIXED;
  if (how == SIZE && regular(f.kind)) {f.len = static_cast<int>(vp_choose("size", 2));}
  if (how != SYMBOLIC || f.kind != REG) {return;}
  char * body = f.content;
  int n = 0, style = vp_param("longer", 1) > 1 ? 3 : static_cast<int>(vp_choose("style", 4));
  if (style != 1) {
    // the alternative is only there or not
    for (int i = 0; i < nfiles; i++) {
      if (!strcmp(files[i].name, attrs[focus].file)) {vp_assume(files[i].kind <= REG);}
    }
  }
  if (style == 0) {
    n = sym_content(body, "content", static_cast<int>(vp_choose("content_len", maxlen + 1)));
  } else if (style == 1) {
    // around the accepted prefix
    n = sym_content(body, "content", static_cast<int>(vp_choose("before", vp_param("around", 2))));
    memcpy(body + n, "pkcs11:", 7);
    n += 7;
    n += sym_content(body + n, "content", static_cast<int>(vp_choose("after", vp_param("around", 2) + 1)));
  } else if (style == 2) {
    // the prefix cut short or altered in one place
    memcpy(body, "pkcs11:xy z", 11);
    n = static_cast<int>(vp_choose("cut", 12));
    if (n) {body[vp_choose("at", n)] = static_cast<char>(vp_sym("content", 8));}
  } else {
    // long values, longer than any inline buffer
    static const int lengths[] = {300, 4100, 5900};
    n = lengths[vp_choose("longer", vp_param("longer", 1))];
    body = f.content = longer;
    memset(body, 'v', n);
    int k = static_cast<int>(vp_choose("lead", 3)) * 20;
    memset(body, ' ', k);
    memcpy(body + k, "pkcs11:", 7);
    body[k + 8 + vp_choose("stop", 3) * 60] = static_cast<char>(vp_sym("content", 8));
  }
  f.len = n;
}

// --------------------------------------------------------------------------- the symbolic file system
// The name of a path below the root directory, or null.
static const char * below_root(const char * p)
{
  // repeated separators are equivalent to one
  size_t i = 0;
  while (i < root_len) {
    if (*p != root[i]) {return nullptr;}
    if (*p == '/') {
      while (*p == '/') {p++;}
      while (i < root_len && root[i] == '/') {i++;}
    } else {p++; i++;}
  }
  if (root_len && root[root_len - 1] != '/') {
    if (*p != '/') {return nullptr;}
    while (*p == '/') {p++;}
  }
  return p;
}
// Another enclave, for an earlier lookup.
static const char OTHER[] = "enclaves/b";
static File * lookup(const char * path)
{
  const size_t ol = sizeof OTHER - 1;
  if (vp_param("prior", 0) && strncmp(path, OTHER, ol) == 0) {
    while (path[ol] == '/' && path[ol + 1] == '/') {path++;}
    for (int i = 0; i < nfiles; i++) {
      if (files[i].name[0] == ':' && path[ol] == '/' && strcmp(files[i].name + 1, path + ol + 1) == 0) {return &files[i];}
    }
    return nullptr;
  }
  const char * n = below_root(path);
  if (!n || !*n) {return nullptr;}
  for (int i = 0; i < nfiles; i++) {
    if (strcmp(files[i].name, n) == 0) {return &files[i];}
  }
  // a name the documentation does not mention: it may exist, too
  if (strchr(n, '/') || strlen(n) > 60 || nfiles == MAXF) {return nullptr;}
  File * f = add_file(n, choose_kind(n, 2), "pkcs11:other", 12);
  return f;
}
static int err_of(int k) {return k == LOOP ? -ELOOP : -ENOENT;}
extern "C" int vp_fs_stat(const char * path, int follow)
{
  const char * n = below_root(path);
  if (n && !*n) {return VP_FS_DIR;}
  File * f = lookup(path);
  if (!f) {return -ENOENT;}
  switch (f->kind) {
    case REG: return VP_FS_REGULAR;
    case DIRECTORY: return VP_FS_DIR;
    case CHARDEV: return follow ? VP_FS_CHAR : VP_FS_LINK;
    case LOOP: return follow ? -ELOOP : VP_FS_LINK;
    case LINK_REG: return follow ? VP_FS_REGULAR : VP_FS_LINK;
    case LINK_NONE: return follow ? -ENOENT : VP_FS_LINK;
    case LINK_DIR: return follow ? VP_FS_DIR : VP_FS_LINK;
    default: return -ENOENT;
  }
}
static int pos[MAXF];
static int opened;
extern "C" int vp_fs_open(const char * path)
{
  File * f = lookup(path);
  if (!f) {return -ENOENT;}
  if (f->kind == NONE || f->kind == LINK_NONE || f->kind == LOOP) {return err_of(f->kind);}
  opened++;
  fill(*f);
  int h = static_cast<int>(f - files);
  pos[h] = 0;
  return h;
}
extern "C" long vp_fs_read(int h, char * buf, size_t n)
{
  File & f = files[h];
  if (f.kind == DIRECTORY || f.kind == LINK_DIR) {return -EISDIR;}
  if (f.kind == CHARDEV) {return 0;}
  size_t k = f.len - pos[h];
  if (k > n) {k = n;}
  memcpy(buf, f.content + pos[h], k);
  pos[h] += static_cast<int>(k);
  return static_cast<long>(k);
}
extern "C" long vp_fs_size(const char * path)
{
  File * f = lookup(path);
  if (!f || !regular(f->kind)) {return -ENOENT;}
  fill(*f);
  return f->len;
}
extern "C" void vp_fs_close(int) {opened--;}

// --------------------------------------------------------------------- the same files, on a real disk
extern "C" void vp_each_input(void (* f)(const char * name, uint64_t value));
static void mkdirs(std::string p)
{
  for (size_t i = 1; i < p.size(); i++) {
    if (p[i] == '/') {mkdir(p.substr(0, i).c_str(), 0700);}
  }
  mkdir(p.c_str(), 0700);
}
static void put(const std::string & p, const char * c, int len)
{
  int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
  if (fd < 0 || write(fd, c, len) != len) {vp_unmodelled("cannot create a file");}
  close(fd);
}
static void materialise(File & f, const std::string & aux)
{
  fill(f);
  std::string p = root_len ? std::string(root) + "/" + f.name : std::string(f.name);
  std::string t = aux + "/" + f.name;
  if (f.name[0] == ':') {p = std::string(OTHER) + "/" + (f.name + 1);}
  int e = 0;
  switch (f.kind) {
    case REG: put(p, f.content, f.len); break;
    case DIRECTORY: e = mkdir(p.c_str(), 0700); break;
    case CHARDEV: e = symlink("/dev/null", p.c_str()); break;
    case LOOP: e = symlink(f.name, p.c_str()); break;
    case LINK_REG: put(t, f.content, f.len); e = symlink(t.c_str(), p.c_str()); break;
    case LINK_NONE: e = symlink((t + ".absent").c_str(), p.c_str()); break;
    case LINK_DIR: mkdir(t.c_str(), 0700); e = symlink(t.c_str(), p.c_str()); break;
    default: break;
  }
  if (e) {vp_unmodelled("cannot create a file");}
}

// ------------------------------------------------------------------------------------------ the oracle
static bool space(unsigned char c) {return c == ' ' || (c >= 9 && c <= 13);}
// The first whitespace-delimited token; accepted iff it starts with "pkcs11:".
static bool p11_value(File & f, std::string & v)
{
  if (!regular(f.kind)) {return false;}
  fill(f);
  int i = 0;
  while (i < f.len && space(f.content[i])) {i++;}
  int b = i;
  while (i < f.len && !space(f.content[i])) {i++;}
  if (i - b < 7 || memcmp(f.content + b, "pkcs11:", 7) != 0) {return false;}
  v.assign(f.content + b, i - b);
  return true;
}
static std::string collapse(const std::string & s, size_t from)
{
  std::string r;
  for (size_t i = from; i < s.size(); i++) {
    if (s[i] == '/' && !r.empty() && r.back() == '/') {continue;}
    r += s[i];
  }
  return r;
}

VP_ENTRY
{
  const int mode = static_cast<int>(vp_param("mode", 0));
  focus = static_cast<int>(vp_param("focus", -1));
  maxlen = static_cast<int>(vp_param("len", 9));
  char cwd[512] = "", aux[600] = "";
  if (!vp_symbolic()) {
    std::string s = std::string(getenv("VP_SCRATCH")) + "/a/b/c/d/e";
    mkdirs(s);
    if (chdir(s.c_str())) {vp_unmodelled("chdir");}
    strcpy(cwd, s.c_str());
    s = std::string(getenv("VP_SCRATCH")) + "/aux";
    mkdirs(s);
    strcpy(aux, s.c_str());
  }
  bool supports = vp_sym("supports_pkcs11", 1);
  bool three = false;                     // the overload without the flag
  std::string prefix = "file://";
  strcpy(root, "enclaves/a");

  if (mode == 2) {
    // spelling of the root directory
    static const char * const variants[] = {"r", "r/", "", "./r", "r//x", "r/./x", "r/../x", "r x/%y", "r/x//", "/r",
      "/r/", "//r", "/r//x/", "a-root-directory-with-a-long-name/and/some/more/levels/in/it"};
    const char * v = variants[vp_choose("root", sizeof variants / sizeof *variants)];
    if (v[0] == '/' && !vp_symbolic()) {
      strcpy(root, v[1] == '/' ? "/" : "");
      strcat(root, cwd);
      strcat(root, v[1] == '/' ? v + 1 : v);
    } else {strcpy(root, v);}
  } else if (mode == 3) {
    int n = static_cast<int>(vp_choose("root_len", vp_param("rlen", 3) + 1));
    for (int i = 0; i < n; i++) {
      root[i] = static_cast<char>(vp_sym("root", 8));
      vp_assume(root[i] != 0);
    }
    if (n) {vp_assume(root[0] != '/');}
    root[n] = 0;
  } else if (mode == 4) {
    int n = static_cast<int>(vp_choose("prefix_len", vp_param("plen", 18) + 1));
    prefix.clear();
    for (int i = 0; i < n; i++) {prefix += static_cast<char>(vp_sym("prefix", 8));}
    three = vp_sym("three", 1);
  }
  root_len = strlen(root);
  if (three) {supports = false;}

  // what is in the directory
  for (int a = 0; a <= NATTR; a++) {
    const Attr & A = attrs[a];
    int kp = NONE, kf = REG;
    char body[MAXC];
    int n = 0;
    if (mode == 0) {
      // presence and absence of everything
      kf = choose_kind(A.file, 2);
      if (A.p11) {kp = choose_kind(A.p11, 2);}
      memcpy(body, "pkcs11:id=%01", 13);
      body[12] = static_cast<char>('0' + a);
      n = 13;
    } else if (mode == 1 && a == focus) {
      kf = choose_kind(A.file, KINDS);
      if (A.p11) {
        kp = choose_kind(A.p11, KINDS);
        memcpy(body, "pkcs11:link", 11);
        n = 11;
      }
    } else if (a == NATTR) {kf = choose_kind(A.file, 2);} else if (mode == 3 || mode == 4) {
      // mixed sources
      if (A.p11 && (a & 1)) {kp = REG; memcpy(body, "pkcs11:k ", 9); n = 9;}
    } else if (mode == 2 && A.p11 && a == 1) {
      kp = choose_kind(A.p11, 2);
      memcpy(body, "pkcs11:k ", 9); n = 9;
    }
    add_file(A.file, kf, "x", 1, mode == 1 && a == focus ? SIZE : FIXED);
    if (A.p11) {add_file(A.p11, kp, body, n, mode == 1 && a == focus ? SYMBOLIC : FIXED);}
  }
  const int prior = vp_param("prior", 0) ? static_cast<int>(vp_choose("prior", 4)) : -1;
  if (prior >= 0) {
    // everything, everything as a file, everything but the permissions, nothing
    for (int a = 0; a <= NATTR && prior < 3; a++) {
      if (prior == 2 && a == 5) {continue;}
      char n[64] = ":";
      add_file(strcat(n, attrs[a].file), REG, "x", 1);
      n[1] = 0;
      if (prior == 0 && attrs[a].p11) {add_file(strcat(n, attrs[a].p11), REG, "pkcs11:b", 8);}
    }
  }
  if (!vp_symbolic()) {
    if (root_len) {mkdirs(root);}
    if (vp_param("prior", 0)) {mkdirs(OTHER);}
    vp_each_input([](const char * name, uint64_t v) {
        if (strncmp(name, "kind:", 5) != 0 || v == NONE) {return;}
        std::string n(name + 5);
        n = n.substr(0, n.rfind('#'));
        for (int i = 0; i < nfiles; i++) {if (n == files[i].name) {return;}}
        add_file(n.c_str(), static_cast<int>(v), "pkcs11:other", 12);
      });
    for (int i = 0; i < nfiles; i++) {materialise(files[i], aux);}
  }

  std::unordered_map<std::string, std::string> result;
  // the result of an earlier lookup, perhaps of an enclave with other files
  const bool stale = vp_choose("stale", mode == 2 || mode == 0 ? 2 : 1);
  if (stale) {
    for (int a = 0; a < NATTR; a++) {result[attrs[a].key] = "old";}
    if (mode == 0) {result["CRL"] = "old";}
    result["LEFTOVER"] = "old";
  }
  if (prior >= 0) {
    std::unordered_map<std::string, std::string> r;
    try {(void)rmw_dds_common::get_security_files(vp_choose("priorp11", 2) != 0, "other:", OTHER, r);} catch (...) {}
  }
  bool ok = false, threw = false;
  try {
    ok = three ? rmw_dds_common::get_security_files(prefix, root, result) :
      rmw_dds_common::get_security_files(supports, prefix, root, result);
  } catch (...) {threw = true;}
  // what must come back
  bool expect = true;
  std::string want[NATTR + 1];
  bool verbatim[NATTR + 1], present[NATTR + 1];
  for (int a = 0; a <= NATTR; a++) {
    const Attr & A = attrs[a];
    File * pem = nullptr, * p11 = nullptr;
    for (int i = 0; i < nfiles; i++) {
      if (!strcmp(files[i].name, A.file)) {pem = &files[i];}
      if (A.p11 && !strcmp(files[i].name, A.p11)) {p11 = &files[i];}
    }
    verbatim[a] = supports && p11 && p11_value(*p11, want[a]);
    present[a] = verbatim[a] | regular(pem->kind);
    // (a revocation list whose state cannot be determined is not skipped silently)
    expect &= a < NATTR ? present[a] : pem->kind != LOOP;
    if (!verbatim[a]) {want[a] = std::string(root) + (root_len ? "/" : "") + A.file;}
  }

  vp_check(!threw, "no exception for any state of the directory");
  vp_check(ok == expect, "true exactly when every required attribute has an acceptable file");
  if (!ok) {
    vp_check(result.empty(), "nothing is returned on failure");
    vp_cover("incomplete");
  } else {
    vp_cover("complete");
    size_t n = 0;
    for (int a = 0; a <= NATTR; a++) {
      auto it = result.find(attrs[a].key);
      if (a == NATTR && !present[a]) {
        if (stale && it != result.end()) {vp_check(it->second == "old", "only entries that were there"); n++; continue;}
        vp_check(it == result.end(), "no revocation list unless crl.pem is a regular file");
        continue;
      }
      n++;
      vp_check(it != result.end(), "every attribute is present");
      const std::string & v = it->second;
      if (verbatim[a]) {
        vp_check(v == want[a], "a PKCS#11 URI is returned verbatim and preferred");
        vp_cover("pkcs11");
      } else {
        vp_check(v.compare(0, prefix.size(), prefix) == 0, "the value starts with the prefix");
        vp_check(collapse(v, prefix.size()) == collapse(want[a], 0), "the value is the prefix and the path of the file");
        vp_cover(a == NATTR ? "crl" : "file");
      }
    }
    vp_check(result.size() == n + (stale ? result.count("LEFTOVER") : 0), "nothing else is returned");
  }
  if (vp_symbolic()) {vp_check(opened == 0, "every file that was opened is closed");}
  vp_observe("ok", ok);
  vp_observe("n", result.size());
  uint64_t h = 0;
  if (mode < 2) {
    for (int a = 0; a <= NATTR; a++) {
      auto it = result.find(attrs[a].key);
      if (it != result.end()) {h = h * 31 + it->second.size();}
    }
  }
  vp_observe("h", h);
}
