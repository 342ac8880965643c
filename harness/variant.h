// variant.h - loading build variants and controlling their hidden state (writable segments, thread-local block)
#pragma once
#include "mc.h"
#include "ops.h"
#include <dlfcn.h>
#include <link.h>
#include <malloc.h>
struct Seg { char *p; size_t n; std::vector<char> init; };
struct Variant {
  std::string name; void *h; OpTable *t; std::vector<Seg> segs; char *tls = 0; size_t tlsn = 0; std::vector<char> tls_init;
  void load(const char *nm, const char *path) {
    name = nm; h = dlopen(path, RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(2); }
    t = (OpTable *)dlsym(h, OPS_SYMBOL); if (!t) { fprintf(stderr, "no %s in %s\n", OPS_SYMBOL, path); exit(2); }
    dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *v) { return ((Variant *)v)->scan(i); }, this);
    for (auto &s : segs) s.init.assign(s.p, s.p + s.n);
    if (tls) tls_init.assign(tls, tls + tlsn);
  }
  int scan(struct dl_phdr_info *i) {
    bool mine = false; uintptr_t a = (uintptr_t)t, relo = 0, relo_e = 0;
    for (int k = 0; k < i->dlpi_phnum; ++k) { auto &p = i->dlpi_phdr[k]; uintptr_t b = i->dlpi_addr + p.p_vaddr; if (p.p_type == PT_LOAD && a >= b && a < b + p.p_memsz) mine = true; if (p.p_type == PT_GNU_RELRO) { relo = b; relo_e = (b + p.p_memsz + 4095) & ~(uintptr_t)4095; } }
    if (!mine) return 0;
    for (int k = 0; k < i->dlpi_phnum; ++k) { auto &p = i->dlpi_phdr[k]; uintptr_t b = i->dlpi_addr + p.p_vaddr, e = b + p.p_memsz;
      if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) { if (relo && b < relo_e && relo <= b) b = relo_e < e ? relo_e : e; if (b < e) segs.push_back({(char *)b, (size_t)(e - b), {}}); }
      if (p.p_type == PT_TLS) { tls = (char *)i->dlpi_tls_data; tlsn = p.p_memsz; } }
    return 1;
  }
  void fresh() { for (auto &s : segs) memcpy(s.p, s.init.data(), s.n); if (tls) memcpy(tls, tls_init.data(), tlsn); }
  uint64_t hidden() const { uint64_t h = 5; for (auto &s : segs) h = mc::hash_bytes(s.p, s.n, h); if (tls) h = mc::hash_bytes(tls, tlsn, h); return h; }
  bool pristine() const { for (auto &s : segs) if (memcmp(s.p, s.init.data(), s.n)) return false; return !tls || !memcmp(tls, tls_init.data(), tlsn); }
};
struct Result {
  std::vector<double> val, sc; std::vector<unsigned char> kind;
  bool bits_equal(const Result &o) const { return val.size() == o.val.size() && kind == o.kind && !memcmp(val.data(), o.val.data(), val.size() * 8); }
  uint64_t hash() const { return mc::hash_bytes(val.data(), val.size() * 8, val.size()); }
};
// -0.0 and the sign bit of NaN are observable only through bit inspection; treat NaN as one value
static inline void canon(std::vector<double> &v) { for (auto &x : v) if (x != x) x = NAN; }
enum { OUTMAX = 60000 };
struct Buf { std::vector<double> v, s; std::vector<unsigned char> k; Buf() : v(OUTMAX), s(OUTMAX), k(OUTMAX) {} };
static Result collect(const OpCtx &x) { Result r; long n = x.n < OUTMAX ? x.n : OUTMAX; r.val.assign(x.val, x.val + n); r.sc.assign(x.sc, x.sc + n); r.kind.assign(x.kind, x.kind + n); canon(r.val); if (x.n > OUTMAX) r.val.push_back(-999); return r; }
static std::string opname(OpTable *t, int i) { char b[200]; t->name(i, b, sizeof b); return b; }
static std::string first_diff(const Result &a, const Result &b) {
  if (a.val.size() != b.val.size()) return mc::strf("%zu observed values instead of %zu", b.val.size(), a.val.size());
  for (size_t i = 0; i < a.val.size(); ++i) if (memcmp(&a.val[i], &b.val[i], 8)) return mc::strf("observed value %zu of %zu is %.17g instead of %.17g", i, a.val.size(), b.val[i], a.val[i]);
  return "kinds differ";
}
