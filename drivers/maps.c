// Associative containers: every operation sequence over a small key set, from
// every fill level, against an association list.
#include "vp.h"
FN(void *, m_new, "", (size_t)) FN(void, m_free, "", (void *)) FN(void, m_set, "", (void *, const void *, size_t, const void *)) FN(bool, m_get, "", (void *, const void *, size_t, void *))
FN(bool, m_has, "", (void *, const void *, size_t)) FN(size_t, m_size, "", (void *)) FN(void, m_sets, "", (void *, const char *, const void *)) FN(bool, m_gets, "", (void *, const char *, void *)) FN(bool, m_hass, "", (void *, const char *))
FN(void *, m_iter, "", (void *)) FN(bool, m_next, "", (void *)) FN(size_t, m_itkey, "", (void *, void *, size_t)) FN(void, m_itval, "", (void *, void *)) FN(void, m_end, "", (void *))
FN(void *, h_new, "", (void)) FN(void, h_free, "", (void *)) FN(void, h_set, "", (void *, const void *, size_t, const void *, size_t)) FN(void *, h_get, "", (void *, const void *, size_t))
FN(void *, t_new, "", (void)) FN(void, t_free, "", (void *)) FN(void, t_set, "", (void *, const char *, const char *)) FN(char *, t_get, "", (void *, const char *))

typedef struct { unsigned char k[48]; size_t kn; unsigned char v[64]; size_t vn; } ent;
static ent model[2048]; static int nm;
static int kind, valsize; // kind 0 map, 1 map2, 2 stringtable
static ent *mfind(const void *k, size_t n) { for (int i = 0; i < nm; i++) if (model[i].kn == n && !memcmp(model[i].k, k, n)) return &model[i]; return 0; }
static void mset(const void *k, size_t n, const void *v, size_t vn) { ent *e = mfind(k, n); if (!e) { e = &model[nm++]; memcpy(e->k, k, n); e->kn = n; } memcpy(e->v, v, vn); e->vn = vn; }

typedef struct { unsigned char k[48]; size_t n; } key;
// exact-size heap copies, so that reads past the given sizes are seen
static void *dup_(const void *p, size_t n) { char *q = vp_raw(n ? n : 1); if (n) memcpy(q, p, n); return n ? q : q; }
static void set(void *c, key *k, int vi) {
  unsigned char v[64]; for (int i = 0; i < 64; i++) v[i] = 'a' + (vi * 7 + i * 3 + k->n) % 23;
  size_t vn = kind == 1 ? (size_t[]){ 4, 1, 40, 0 }[vi & 3] : kind == 0 ? valsize : (size_t[]){ 3, 0, 40, 1 }[vi & 3];
  if (kind == 2) { char ks[64]; memcpy(ks, k->k, k->n); ks[k->n] = 0; char vs[65]; memcpy(vs, v, vn); vs[vn] = 0; char *kd = dup_(ks, k->n + 1), *vd = dup_(vs, vn + 1); t_set(c, kd, vd); memset(kd, 'x', k->n); memset(vd, 'x', vn); free(kd); free(vd); }
  else { void *kd = dup_(k->k, k->n), *vd = dup_(v, vn);
    if (kind == 0) { if ((vi & 1) && k->n && k->k[k->n - 1] == 0 && strlen((char *)k->k) + 1 == k->n) m_sets(c, kd, vd); else m_set(c, kd, k->n, vd); } else h_set(c, kd, k->n, vd, vn);
    memset(kd, 'x', k->n); memset(vd, 'x', vn); free(kd); free(vd); }
  mset(k->k, k->n, v, vn); vp_trans++;
}
static void look(void *c, key *k) {
  ent *e = mfind(k->k, k->n); vp_trans++;
  void *kd = dup_(k->k, k->n);
  if (kind == 0) {
    unsigned char *b = vp_raw(valsize); memset(b, 0x5a, valsize); bool g = m_get(c, kd, k->n, b), h = m_has(c, kd, k->n);
    if (g != !!e || h != !!e) vp_viol("lookup", "key %s: get=%d has=%d, expected %d", vp_show(k->k, k->n), g, h, !!e);
    else if (e && memcmp(b, e->v, valsize)) vp_viol("value", "key %s: wrong value %s, expected %s", vp_show(k->k, k->n), vp_show(b, valsize), vp_show(e->v, valsize));
    else if (!e) for (int i = 0; i < valsize; i++) if (b[i] != 0x5a) { vp_viol("touched", "a failed get changed the buffer"); break; }
    if (k->n && k->k[k->n - 1] == 0 && strlen((char *)k->k) + 1 == k->n) {
      memset(b, 0x5a, valsize); g = m_gets(c, kd, b); h = m_hass(c, kd);
      if (g != !!e || h != !!e || (e && memcmp(b, e->v, valsize))) vp_viol("lookups", "string key %s: gets=%d hass=%d expected %d", vp_show(k->k, k->n), g, h, !!e); }
    free(b);
  } else if (kind == 1) {
    unsigned char *p = h_get(c, kd, k->n);
    if (!!p != !!e) vp_viol("lookup", "key %s: get %s, expected %s", vp_show(k->k, k->n), p ? "found" : "missing", e ? "found" : "missing");
    else if (e && memcmp(p, e->v, e->vn)) vp_viol("value", "key %s: wrong value", vp_show(k->k, k->n));
  } else {
    char ks[64]; memcpy(ks, k->k, k->n); ks[k->n] = 0; char *p = t_get(c, ks);
    if (!!p != !!e) vp_viol("lookup", "key %s: get %s, expected %s", ks, p ? "found" : "missing", e ? "found" : "missing");
    else if (e && (strlen(p) != e->vn || memcmp(p, e->v, e->vn))) vp_viol("value", "key %s: value %s", ks, p);
  }
  free(kd);
}
static void full(void *c, key *extra, int nx) {
  for (int i = 0; i < nm; i++) { key k; memcpy(k.k, model[i].k, 48); k.n = model[i].kn; look(c, &k); }
  for (int i = 0; i < nx; i++) look(c, &extra[i]);
  if (kind == 0) {
    if (m_size(c) != nm) vp_viol("size", "size %zu, expected %d", m_size(c), nm);
    static char seen[2048]; memset(seen, 0, sizeof seen);
    void *it = m_iter(c); int n = 0; unsigned char kb[64], *vb = vp_raw(valsize);
    while (m_next(it)) { if (++n > nm + 2) break; vp_trans++;
      size_t kn = m_itkey(it, kb, sizeof kb); m_itval(it, vb); ent *e = mfind(kb, kn);
      if (!e || memcmp(e->v, vb, valsize)) { vp_viol("iter", "iteration gives key %s with a wrong value", vp_show(kb, kn)); continue; }
      if (seen[e - model]++) vp_viol("iterdup", "iteration gives key %s twice", vp_show(kb, kn));
      if (kn) { unsigned char *sm = vp_raw(kn); memset(sm, 0x5a, kn); if (m_itkey(it, sm, kn - 1) != 0 || sm[0] != 0x5a) vp_viol("itkey", "itkey with a short buffer"); 
        if (m_itkey(it, sm, kn) != kn || memcmp(sm, e->k, kn)) vp_viol("itkey", "itkey with an exact buffer"); free(sm); } }
    if (n != nm) vp_viol("itern", "iteration gives %d entries, expected %d", n, nm);
    if (m_next(it)) vp_viol("iterend", "next after the end");
    m_end(it); free(vb);
  }
}
static void pre(key *k, int fam, int i) {
  memset(k, 0, sizeof *k);
  switch (fam) {
  case 0: k->n = sprintf((char *)k->k, "k%d", i) + (kind == 0); break;
  case 1: k->n = 14; for (int b = 0; b < 7; b++) memcpy(k->k + 2 * b, (i >> b & 1) ? "Aa" : "BB", 2); if (kind == 0) k->n = 14; break; // all hashes equal
  case 2: k->n = 3; k->k[0] = 1 + i / 100; k->k[1] = 1 + i % 100; k->k[2] = 0x80 | ((0x7f + 0x80 - (k->k[0] * 961 + k->k[1] * 31)) & 0x7f); if (kind == 2 && !k->k[2]) k->k[2] = 1; break; // hashes end in the same last bits
  case 3: k->n = 1 + i % 40; memset(k->k, 'p', k->n); k->k[k->n - 1] = 'A' + i / 40; break; // prefixes of one another
  }
}
static void run(int fam, int P, int depth, int nv) {
  key ks[10]; int nk = 0;
  memset(ks, 0, sizeof ks);
  if (P) { pre(&ks[nk++], fam, 0); if (P > 1) pre(&ks[nk++], fam, P - 1); }
  pre(&ks[nk++], fam, P); pre(&ks[nk++], fam, P + 1);
  ks[nk++].n = 0; // empty key
  ks[nk].n = 2; memcpy(ks[nk++].k, "Aa", 2); ks[nk].n = 2; memcpy(ks[nk++].k, "BB", 2);
  if (kind < 2) { ks[nk].n = 3; memcpy(ks[nk++].k, "Aa\0", 3); }
  int nops = nk * nv; long total = 1; for (int i = 0; i < depth; i++) total *= nops;
  for (long s = 0; s < total; s++) {
    vp_mark(); nm = 0; vp_armed = 1;
    if (setjmp(vp_jb)) { vp_armed = 0; vp_viol("panic", "panics"); return; }
    vp_case("%s valsize=%d family=%d prefill=%d ops=%ld depth=%d", kind == 0 ? "map" : kind == 1 ? "map2" : "stringtable", valsize, fam, P, s, depth);
    void *c = kind == 0 ? m_new(valsize) : kind == 1 ? h_new() : t_new();
    for (int i = 0; i < P; i++) { key k; pre(&k, fam, i); set(c, &k, i); }
    long x = s; vp_states++; vp_traces++;
    if (s == 0) full(c, ks, nk);
    for (int i = 0; i < depth; i++) { int op = x % nops; x /= nops; key *k = &ks[op / nv]; set(c, k, op % nv + i); look(c, k); for (int j = 0; j < nk && depth < 4; j++) look(c, &ks[j]); }
    full(c, ks, nk);
    if (kind == 0) m_free(c); else if (kind == 1) h_free(c); else t_free(c);
    vp_armed = 0;
    long l = vp_leaked(); if (l) vp_viol("leak", "%ld blocks not released by free", l);
    if ((s & 63) == 0) vp_tick();
  }
}
// ---- many keys of several shapes, overwritten with values of other sizes while the table grows
static size_t bigkey(unsigned char *b, int fam, int i) {
  switch (fam) {
  case 0: return sprintf((char *)b, "key %d", i) + (kind == 0);
  case 1: b[0] = i >> 24; b[1] = i >> 16; b[2] = i >> 8; b[3] = i; return 4;             // integers, zero bytes first
  case 2: b[0] = i; b[1] = i >> 8; b[2] = 0; b[3] = 0; b[4] = i >> 16; return 5;
  case 3: { int n = 20 + i % 300; memset(b, 'p', n); return n + sprintf((char *)b + n, "%d", i) + (kind == 0); } // long, common beginning
  default: { int n = sprintf((char *)b, "%d", i); memset(b + n, 'q', 280); b[n + 280] = 0; return n + 280 + (kind == 0); } } // long, common end
}
static size_t bigval(unsigned char *v, int i, int r) { size_t n = kind == 0 ? (size_t)valsize : (size_t[]){ 3, 90, 0, 200, 1 }[(i + r * 2) % 5]; for (size_t j = 0; j < n; j++) v[j] = 'a' + (i * 7 + r * 5 + j * 3) % 23; return n; }
static void bigset(void *c, int fam, int i, int r) { unsigned char k[700], v[300]; size_t kn = bigkey(k, fam, i), vn = bigval(v, i, r); vp_trans++; if (kind == 2) { k[kn] = 0; v[vn] = 0; t_set(c, (char *)k, (char *)v); } else { void *kd = dup_(k, kn), *vd = dup_(v, vn); if (kind == 0) m_set(c, kd, kn, vd); else h_set(c, kd, kn, vd, vn); memset(kd, 'x', kn); free(kd); free(vd); } }
static int bigget(void *c, int fam, int i, int r) { unsigned char k[700], v[300], b[300]; size_t kn = bigkey(k, fam, i), vn = r >= 0 ? bigval(v, i, r) : 0; vp_trans++; int ok; void *kd = dup_(k, kn); if (kind == 0) { bool g = m_get(c, kd, kn, b); ok = g == (r >= 0) && (!g || !memcmp(b, v, vn)); } else if (kind == 1) { unsigned char *p = h_get(c, kd, kn); ok = !!p == (r >= 0); if (ok && p && vn) { unsigned char *q = vp_raw(vn); memcpy(q, p, vn); ok = !memcmp(q, v, vn); free(q); } } else { k[kn] = 0; char *p = t_get(c, (char *)k); ok = !!p == (r >= 0) && (!p || (strlen(p) == vn && !memcmp(p, v, vn))); } free(kd); if (!ok) vp_viol("big", "key number %d of kind %d: wrong or missing", i, fam); return ok; }
static void large(int fam, int N, int mode) { vp_mark(); vp_armed = 1; vp_states++; vp_traces++; vp_case("%s: %d keys of kind %d, overwriting %d", kind == 0 ? "map" : kind == 1 ? "map2" : "stringtable", N, fam, mode); if (setjmp(vp_jb)) { vp_armed = 0; vp_viol("panic", "panics"); return; } void *c = kind == 0 ? m_new(valsize) : kind == 1 ? h_new() : t_new(); static unsigned char rd[70000]; int ok = 1; memset(rd, 0, sizeof rd);
  for (int i = 0; i < N && ok; i++) { if ((i & 255) == 0) vp_tick(); bigset(c, fam, i, 0); ok = bigget(c, fam, i, 0) && bigget(c, fam, i + N, -1); if (mode) { int j = mode == 1 ? i : i / 2; rd[j]++; bigset(c, fam, j, rd[j]); ok = ok && bigget(c, fam, j, rd[j]); } int look_ = kind == 2 ? 997 : i < 600 ? 31 : 499; if (i % look_ == 0) for (int j = 0; j <= i && ok; j += 1 + (i > 2000) * 7) ok = bigget(c, fam, j, rd[j]); }
  for (int j = 0; j < N && ok; j++) { if ((j & 255) == 0) vp_tick(); ok = bigget(c, fam, j, rd[j]); }
  if (ok && kind == 0) { if (m_size(c) != N) vp_viol("size", "size %zu, expected %d", m_size(c), N); void *it = m_iter(c); int n = 0; static unsigned char seen[70000]; memset(seen, 0, sizeof seen); unsigned char kb[700], vb[300], k2[700], v2[300]; while (m_next(it) && ++n <= N) { size_t kn = m_itkey(it, kb, sizeof kb); m_itval(it, vb); int i = fam == 0 ? atoi((char *)kb + 4) : fam == 1 ? kb[0] << 24 | kb[1] << 16 | kb[2] << 8 | kb[3] : fam == 2 ? kb[0] | kb[1] << 8 | kb[4] << 16 : fam == 3 ? atoi((char *)kb + strspn((char *)kb, "p")) : atoi((char *)kb); if (i < 0 || i >= N || bigkey(k2, fam, i) != kn || memcmp(kb, k2, kn) || seen[i]++ || memcmp(vb, v2, bigval(v2, i, rd[i]))) { vp_viol("iter", "iteration gives key %s", vp_show(kb, kn > 40 ? 40 : kn)); break; } } if (n != N) vp_viol("itern", "iteration gives %d entries, expected %d", n, N); m_end(it); }
  if (kind == 0) m_free(c); else if (kind == 1) h_free(c); else t_free(c); vp_armed = 0; if (ok && vp_leaked()) vp_viol("leak", "%ld blocks not released by free", vp_leaked()); }
void vp_body(void) {
  BIND(m_new, "map.new"); BIND(m_free, "map.free"); BIND(m_set, "map.set"); BIND(m_get, "map.get"); BIND(m_has, "map.has"); BIND(m_size, "map.size"); BIND(m_sets, "map.sets"); BIND(m_gets, "map.gets"); BIND(m_hass, "map.hass");
  BIND(m_iter, "map.iter"); BIND(m_next, "map.next"); BIND(m_itkey, "map.itkey"); BIND(m_itval, "map.itval"); BIND(m_end, "map.end");
  BIND(h_new, "map2.new"); BIND(h_free, "map2.free"); BIND(h_set, "map2.set"); BIND(h_get, "map2.get");
  BIND(t_new, "stringtable.new"); BIND(t_free, "stringtable.free"); BIND(t_set, "stringtable.set"); BIND(t_get, "stringtable.get");
  int job = 0;
  for (kind = 0; kind < 3; kind++) for (int vs = 0; vs < (kind == 0 ? 9 : 1); vs++) { valsize = vs;
    for (int fam = 0; fam < 4; fam++) {
      if (kind == 0 && vs != 4 && fam) continue;
      int hi = vp_thorough ? 420 : 130;
      for (int P = 0; P <= hi; P++) {
        if (fam == 1 && P > 126) break;
        if (kind == 0 && P > 70 && vs != 4) break;
        if (!MINE(job++)) continue;
        int d = 1, nv = 2;
        if (P <= 2) d = vp_thorough ? 4 : 3;
        else if (P % 8 == 0 || P % 8 == 7 || P == 25 || P == 24 || P == 18 || P == 17 || P == 28 || P == 49 || P == 50 || P == 97 || P == 98 || P == 99) d = 2;
        if (vp_thorough && d == 1) d = 2;
        if (P <= 1 && (kind || vs == 4)) nv = d == 4 ? 2 : 3;
        if (vs == 0 && kind == 0 && P > 3) continue;
        run(fam, P, d, nv);
      } } }
  // big tables
  for (kind = 0; kind < 3; kind++) for (int fam = 0; fam < 4; fam += 3) { valsize = 4; for (int P = 200; P <= 1500; P += 433) { if (MINE(job++)) run(fam, P, 1, 1); } }
  for (kind = 0; kind < 3; kind++) for (int fam = 0; fam < 5; fam++) { if (kind == 2 && (fam == 1 || fam == 2)) continue; for (int mode = 0; mode < 3; mode++) { valsize = 8; int N = kind == 2 ? (vp_thorough ? 9000 : 3000) : vp_thorough ? 60000 : mode ? 5000 : 20000; if (fam >= 3 && N > 5000) N = 5000 + 4000 * vp_thorough; if (MINE(job++)) large(fam, N, mode); } }
  vp_sample("prefill 0..%d x families {numbered, equal hashes, equal low bits, prefixes} x all set sequences over 8 keys", vp_thorough ? 420 : 130);
}
