#include "vp.h"
#include <time.h>
#include <sys/time.h>
// the clock, set by the harness when fake is on
static int fake; static int64_t fnow, fus, slept; static int nslept;
time_t time(time_t *t) { int64_t r = fnow; if (!fake) { struct timespec x; clock_gettime(CLOCK_REALTIME, &x); r = x.tv_sec; } if (t) *t = r; return r; }
int gettimeofday(struct timeval *restrict tv, void *restrict z) { (void)z; if (fake) { tv->tv_sec = fnow; tv->tv_usec = fus; } else { struct timespec x; clock_gettime(CLOCK_REALTIME, &x); tv->tv_sec = x.tv_sec; tv->tv_usec = x.tv_nsec / 1000; } return 0; }
int nanosleep(const struct timespec *t, struct timespec *r) { (void)r; nslept++; if (t->tv_nsec < 0 || t->tv_nsec > 999999999 || t->tv_sec < 0) return -1; slept += t->tv_sec * 1000000LL + t->tv_nsec / 1000; return 0; }
FN(bool, t_sleep, "", (int64_t))
FN(bool, d_fmt, "", (int64_t, char *, size_t, const char *)) FN(bool, d_parse, "", (const char *, int64_t *)) FN(int64_t, d_add, "", (int64_t, int64_t)) FN(int64_t, d_new, "", (int64_t, int)) FN(int64_t, d_set, "", (int64_t, int)) FN(int, unit, "", (int))
FN(void, t_unix, "", (int64_t, int *)) FN(void, t_parse, "", (const char *, int *)) FN(bool, t_fmt, "", (int *, char *, size_t)) FN(int64_t, t_sub, "", (int *, int *)) FN(void, t_local, "", (int *)) FN(void, t_now, "", (int *))
// independent calendar: walks days
static int mdays(int y, int m) { static const int D[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return D[m - 1] + (m == 2 && (y % 4 == 0 && (y % 100 || y % 400 == 0))); }
static void chk(int64_t sec, int Y, int M, int D) {
  int o[9], h = (sec % 86400 + 86400) % 86400; vp_case("time %lld", (long long)sec); t_unix(sec, o); vp_states++; vp_traces++; vp_trans += 3;
  int w[9] = { Y, M, D, h / 3600, h / 60 % 60, h % 60, 0, 0, 0 }; if (memcmp(o, w, sizeof w)) { vp_viol("fromunix", "gives %d-%d-%d %d:%d:%d, expected %d-%d-%d", o[0], o[1], o[2], o[3], o[4], o[5], Y, M, D); return; }
  o[6] = sec % 1000 < 0 ? 0 : sec % 1000; char b[64], e[64]; sprintf(e, "%d-%02d-%02dT%02d:%02d:%02d.%03dZ", Y, M, D, w[3], w[4], w[5], o[6]); if (!t_fmt(o, b, 64) || strcmp(b, e)) vp_viol("fmtiso", "gives %s, expected %s", b, e);
  int p[9]; t_parse(e, p); if (memcmp(p, o, sizeof p)) vp_viol("parseiso", "%s doesn't read back", e);
  int z[9]; t_unix(0, z); int64_t d = t_sub(o, z); if (d != sec * 1000 + o[6]) vp_viol("sub", "difference to 1970 is %lld", (long long)d);
  static int prev[9]; static int64_t ps; if (prev[0] && t_sub(o, prev) != sec * 1000 + o[6] - ps) vp_viol("sub", "difference to the previous date"); memcpy(prev, o, sizeof prev); ps = sec * 1000 + o[6];
}
static void zone(int64_t sec, int zh, int zm, int ms, int digits) {
  int o[9]; t_unix(sec + (zh * 60 + zm) * 60, o); char e[80], f[16]; snprintf(f, 16, "%03d", ms); f[digits] = 0; if (digits) snprintf(e, 80, "%d-%02d-%02dT%02d:%02d:%02d.%s+%02d:%02d", o[0], o[1], o[2], o[3], o[4], o[5], f, zh, zm); else snprintf(e, 80, "%d-%02d-%02dT%02d:%02d:%02d+%02d:%02d", o[0], o[1], o[2], o[3], o[4], o[5], zh, zm);
  int64_t m = 0; int w = 100; for (int i = 0; i < digits; i++, w /= 10) m += (f[i] - '0') * w; vp_case("zone %s", e); vp_states++; vp_traces++;
  int p[9], z[9]; t_parse(e, p); t_unix(0, z); if (p[7] != zh || p[8] != zm || p[6] != m) vp_viol("isozone", "zone %d:%d ms %d", p[7], p[8], p[6]); int64_t d = t_sub(p, z); if (d != sec * 1000 + m) vp_viol("subzone", "instant %lld, expected %lld", (long long)d, (long long)(sec * 1000 + m));
}
static const char *F[] = { "logfile", "mm:ss", "mm:ss.ms", "hh:mm:ss,ms", "[h]:mm:ss.mmm" };
static void dur(int64_t us) {
  long ms = us / 1000, s = ms / 1000, m = s / 60, h = m / 60; char e[5][64], b[64]; vp_case("duration %lld us", (long long)us);
  if (m) sprintf(e[0], "%ldm %f s", m, (ms % 60000) / 1000.0); else sprintf(e[0], "%f s", (ms % 60000) / 1000.0);
  sprintf(e[1], "%02ld:%02ld", m, s % 60); sprintf(e[2], "%02ld:%02ld.%03ld", m, s % 60, ms % 1000); sprintf(e[3], "%02ld:%02ld:%02ld,%03ld", h, m % 60, s % 60, ms % 1000);
  if (h) sprintf(e[4], "%ld:%02ld:%02ld.%03ld", h, m % 60, s % 60, ms % 1000); else sprintf(e[4], "%ld:%02ld.%03ld", m, s % 60, ms % 1000);
  for (int k = 0; k < 5; k++) { int n = strlen(e[k]); memset(b, 'Z', 64); bool ok = d_fmt(us, b, 60, F[k]); vp_trans++; if (!ok || strcmp(b, e[k])) vp_viol("durfmt", "%s gives %s, expected %s", F[k], b, e[k]);
    for (int sz = n - 1; sz <= n + 1; sz++) { memset(b, 'Z', 64); ok = d_fmt(us, b, sz, F[k]); if (ok != (sz >= n + 1) || b[sz] != 'Z') vp_viol("durroom", "%s in %d bytes of %d: %d", F[k], sz, n + 1, ok); } }
  // the mm:ss.ms and [h]:mm:ss.mmm forms read back
  int64_t g = -1, w = ms * 1000; if (!d_parse(e[2], &g) || g != w) vp_viol("durparse", "%s reads as %lld", e[2], (long long)g);
  g = -1; if (!d_parse(e[4], &g) || g != w) vp_viol("durparse", "%s reads as %lld", e[4], (long long)g);
  g = -1; if (!d_parse(e[1], &g) || g != s * 1000000) vp_viol("durparse", "%s reads as %lld", e[1], (long long)g);
  vp_states++; vp_traces++;
}
void vp_body(void) {
  BIND(d_fmt, "d_fmt"); BIND(d_parse, "d_parse"); BIND(d_add, "d_add"); BIND(d_new, "d_new"); BIND(d_set, "d_set"); BIND(unit, "unit"); BIND(t_unix, "t_unix"); BIND(t_parse, "t_parse"); BIND(t_fmt, "t_fmt"); BIND(t_sub, "t_sub"); BIND(t_local, "t_local"); BIND(t_now, "t_now");
  long job = 0; vp_quiet(1);
  int Y = 1970, M = 1, D = 1; int64_t s = 0; int last = vp_thorough ? 2500 : 2130;
  while (Y < last) { if (MINE(job++)) { chk(s, Y, M, D); chk(s + 86399, Y, M, D); chk(s + (int64_t)(job * 7919 % 86400), Y, M, D); } s += 86400; if (++D > mdays(Y, M)) { D = 1; if (++M > 12) { M = 1; Y++; vp_tick(); } } }
  Y = 1970; M = 1; D = 1; s = 0; while (Y > 1902) { s -= 86400; if (--D < 1) { if (--M < 1) { M = 12; Y--; } D = mdays(Y, M); } if (MINE(job++)) { chk(s, Y, M, D); chk(s + 86399, Y, M, D); } }
  for (int i = 0; i < 86400; i++) if (MINE(job++)) chk(951782400 + i, 2000, 2, 29); // every second of a leap day
  vp_tick();
  for (int zh = 0; zh <= 14; zh++) for (int zm = 0; zm < 60; zm += 15) for (int k = 0; k < 40; k++) if (MINE(job++)) for (int dg = 0; dg <= 3; dg++) zone(951782400 - 40000 + k * 2203LL, zh, zm, (k * 37 + zm) % 1000, dg);
  for (int ms = 0; ms < 1000; ms++) if (MINE(job++)) zone(1700000000, 2, 0, ms, 3);
  for (int64_t v = 0; v < 4000; v++) if (MINE(job++)) { dur(v * 1000); dur(v * 1000 + 999); dur(v * 1000000); dur(v * 1000000 + 5000); dur(v * 59999000); dur(v * 60000000 - (v > 0)); dur(v * 3600000000LL / 7 ); dur(359999000000LL + v * 1000000); if (!(v & 63)) vp_tick(); }
  for (int us = 0; us < 1000; us++) if (MINE(job++)) { dur(us); for (int m = 0; m < 60; m += 7) for (int h = 0; h < 30; h += 3) dur(us * 1000LL + m * 60000000LL + h * 3600000000LL + 59000000LL); vp_tick(); }
  static const int64_t V[] = { 0, 1, 2, 59, 60, 1000, 123456, 99999999, -1, -77, 2147483648LL, 4000000000LL };
  for (int i = 0; i < 12; i++) for (int u = 0; u < 4; u++) { int64_t k = (int64_t[]){ 1, 1000, 1000000, 60000000 }[u]; vp_case("units %lld %d", (long long)V[i], u); if (unit(u) != k || d_new(V[i], unit(u)) != V[i] * k || d_set(V[i], unit(u)) != V[i] * k) vp_viol("durunit", "duration of %lld units %d", (long long)V[i], u); for (int j = 0; j < 12; j++) if (d_add(V[i], V[j]) != V[i] + V[j]) vp_viol("duradd", "sum"); vp_states++; }
  static const char *BAD[] = { "", "x", ":", ".5", " 1:2", "-1:2" }; for (int i = 0; i < 6; i++) { int64_t g; vp_case("parse_duration %s", BAD[i]); if (d_parse(BAD[i], &g)) vp_viol("durbad", "accepts %s", BAD[i]); vp_states++; }
  static const struct { const char *s; int64_t us; } GOOD[] = { { "1:02", 62000000 }, { "0:00.5", 500000 }, { "0:00.25", 250000 }, { "0:01.000001", 1000001 }, { "10:00:00", 36000000000LL }, { "100:00", 6000000000LL }, { "01:00:00.001", 3600001000LL }, { "00:00:59.999", 59999000 }, { "36:00", 2160000000LL } };
  for (int i = 0; i < 9; i++) { int64_t g = -1; vp_case("parse_duration %s", GOOD[i].s); if (!d_parse(GOOD[i].s, &g) || g != GOOD[i].us) vp_viol("durgood", "reads as %lld", (long long)g); vp_states++; }
  static const char *ISO[] = { "2025-12-08", "2025/12/08T20:31:06Z", "2025-12-08T20:31:06", "x", "", "2025-12-08T20:31Z", "2025-12-08T20:31:06+02", "2025-12-08 20:31:06Z" }; for (int i = 0; i < 8; i++) { int p[9]; vp_case("parse_iso %s", ISO[i]); if (!VP_TRY(t_parse(ISO[i], p))) vp_viol("isobad", "accepts %s", ISO[i]); vp_states++; }
  static const char *TZ[] = { "UTC0", "AAA-2", "BBB5", "CCC-5:30", "DDD-14", "EEE12", "FFF3:30", "GGG-12:45", "HHH-13", "III0:15" }; static const int OFF[] = { 0, 120, -300, 330, 840, -720, -210, 765, 780, -15 };
  for (int z = 0; z < 10; z++) { setenv("TZ", TZ[z], 1); tzset(); for (int k = 0; k < 600; k++) if (MINE(job++)) { int64_t sec = 951782400 - 86400 + k * 433; int o[9], w[9]; t_unix(sec, o); o[6] = k; t_local(o); setenv("TZ", "UTC0", 1); t_unix(sec + OFF[z] * 60, w); w[6] = k; setenv("TZ", TZ[z], 1); tzset(); vp_case("local %s %lld", TZ[z], (long long)sec); if (memcmp(o, w, sizeof w)) { vp_viol("local", "gives %d-%d-%d %d:%d:%d", o[0], o[1], o[2], o[3], o[4], o[5]); break; }
      int a[9], b[9]; t_unix(sec, a); t_unix(sec + 5000, b); if (t_sub(b, a) != 5000000) vp_viol("subtz", "difference depends on TZ"); vp_states++; vp_traces++; } vp_tick(); }
  setenv("TZ", "UTC0", 1); tzset(); int n[9]; int64_t t0 = time(0); t_now(n); int64_t t1 = time(0); int e0[9]; t_unix(0, e0); int64_t g = t_sub(n, e0) / 1000; if (g < t0 || g > t1) vp_viol("now", "now is %lld", (long long)g);
  // the clock at and around the borders of days and years, in every zone
  BIND(t_sleep, "t_sleep"); fake = 1; static const int64_t B[] = { 951868800, 946684800, 1704067200, 1735689600, 1709164800, 1720000000 };
  for (int z = 0; z < 10; z++) for (int b = 0; b < 6; b++) for (int q = -60; q <= 60; q++) if (MINE(job++)) { fnow = B[b] + q * 900; setenv("TZ", TZ[z], 1); tzset(); for (int k = 0; k < 3; k++) { int64_t sec = k == 0 ? fnow : k == 1 ? 951782400 : fnow + 40000; int o[9], w[9]; t_unix(sec, o); o[6] = 7; t_local(o); t_unix(sec + OFF[z] * 60, w); w[6] = 7; vp_case("local %s %lld when the clock is %lld", TZ[z], (long long)sec, (long long)fnow); vp_states++; if (memcmp(o, w, sizeof w)) { vp_viol("local", "gives %d-%d-%d %d:%d:%d", o[0], o[1], o[2], o[3], o[4], o[5]); break; } } }
  setenv("TZ", "UTC0", 1); tzset(); fnow = 1700000000; for (fus = 0; fus < 1000000; fus += 37) if (MINE(fus)) { int o[9], w[9]; vp_case("now at %lld microseconds", (long long)fus); vp_states++; t_unix(fnow, w); w[6] = fus / 1000; t_now(o); if (memcmp(o, w, sizeof w)) { vp_viol("now", "gives %d.%03d", o[5], o[6]); break; } }
  fake = 0; static const int64_t SL[] = { 0, 1, 999, 1000, 999999, 1000000, 1000001, 1999999, 2000000, 61500000, 3600000001LL, 4294967296LL, 5000000000000LL }; for (int i = 0; i < 13; i++) { slept = nslept = 0; if (i > 6 && !nslept) { t_sleep(1); if (!nslept) break; slept = nslept = 0; } vp_case("sleep %lld", (long long)SL[i]); vp_states++; bool r = t_sleep(SL[i]); if (!r) vp_viol("sleep", "fails"); else if (nslept && (slept < SL[i] || slept > SL[i] + 1000)) vp_viol("sleep", "sleeps %lld", (long long)slept); }
  // long durations, minutes and seconds over 59, all fractions
  for (int64_t h = 1; h < 40000000LL; h = h * 3 + 1) if (MINE(job++)) for (int k = 0; k < 60; k += 7) dur(h * 3600000000LL + k * 61000000LL + 1000 * k);
  for (int m = 0; m < 200; m++) for (int sx = 0; sx < 130; sx += 3) if (MINE(job++)) { char b[40]; int64_t gg = -1; sprintf(b, "2:%02d:%02d", m, sx); vp_case("parse_duration %s", b); vp_states++; if (!d_parse(b, &gg) || gg != (7200LL + m * 60 + sx) * 1000000) vp_viol("durgood", "reads as %lld", (long long)gg); sprintf(b, "%d:%d", m, sx); if (!d_parse(b, &gg) || gg != (m * 60LL + sx) * 1000000) vp_viol("durgood", "%s reads as %lld", b, (long long)gg); }
  for (int dg = 1; dg <= 6; dg++) { int tot = 1; for (int i = 0; i < dg; i++) tot *= 10; for (int f = 0; f < tot; f++) if (MINE(f)) { char b[40]; int64_t gg = -1; sprintf(b, "1:02.%0*d", dg, f); int64_t w = 62000000 + (int64_t)f * (1000000 / tot); if (!(f & 1023)) vp_tick(); vp_states++; if (!d_parse(b, &gg) || gg != w) { vp_case("parse_duration %s", b); vp_viol("durgood", "reads as %lld", (long long)gg); if (vp_nviol > 5) break; } } }
  for (int dg = 4; dg <= 9; dg++) for (int k = 0; k < 500; k++) if (MINE(job++)) { char f[16], e[80]; sprintf(f, "%09d", (int)(k * 7654321L % 1000000000)); f[dg] = 0; sprintf(e, "2024-02-29T20:31:06.%s%s", f, k % 2 ? "Z" : "+02:30"); int p[9]; vp_case("parse_iso %s", e); vp_states++; t_parse(e, p); int w = (f[0] - '0') * 100 + (f[1] - '0') * 10 + f[2] - '0'; if (p[6] != w && p[6] != w + 1) vp_viol("isofrac", "gives %d milliseconds", p[6]); }
  vp_sample("every day 1902..%d, every second of 2000-02-29, zones 0:00..14:45, durations by ms/s/min/h grids in 5 formats and all buffer sizes around the need", last);
}
