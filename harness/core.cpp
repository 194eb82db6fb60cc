// Explorer: generation, schedules, failure confirmation, shrinking, replay files, evidence.
#include "h.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <string>
#include <vector>
#include <algorithm>
#include <unordered_set>
#include <map>
using namespace std;
int g_leakcheck, g_flavour =
#ifdef FLAVOUR_CXX
    1;
#else
    0;
#endif
FState fstate[160];
static vector<Family> &fams() { static vector<Family> v; return v; }
struct PM { string prop, fam; int prof, w, leak; };
static vector<PM> &props() { static vector<PM> v; return v; }
void reg_family(const Family &f) { fams().push_back(f); }
void reg_prop(const char *p, const char *f, int prof, int w, int leak) { props().push_back({p, f, prof, strcmp(f, "crowd") ? w * 10 : w, leak}); }
static int fam_index(const string &n) { for (size_t i = 0; i < fams().size(); i++) if (n == fams()[i].name) return i; fprintf(stderr, "no family %s\n", n.c_str()); exit(2); }
static vector<const char *> case_labels; static bool case_nontriv;
void label(const char *s) { for (auto x : case_labels) if (!strcmp(x, s)) return; case_labels.push_back(s); }
void nontriv(void) { case_nontriv = true; }
const char *ename(int e) {
  switch (e) { case 0: return "0"; case EPERM: return "EPERM"; case ESRCH: return "ESRCH"; case EINTR: return "EINTR"; case EAGAIN: return "EAGAIN"; case ENOMEM: return "ENOMEM"; case EBUSY: return "EBUSY"; case EINVAL: return "EINVAL"; case ENOSPC: return "ENOSPC"; case ERANGE: return "ERANGE"; case EDEADLK: return "EDEADLK"; case ENOSYS: return "ENOSYS"; case ETIMEDOUT: return "ETIMEDOUT"; case EOWNERDEAD: return "EOWNERDEAD"; case ENOTRECOVERABLE: return "ENOTRECOVERABLE"; case ENOTSUP: return "ENOTSUP"; case EFAULT: return "EFAULT"; case EOVERFLOW: return "EOVERFLOW"; case EEXIST: return "EEXIST"; }
  static char b[4][16]; static int k; k = (k + 1) & 3; snprintf(b[k], 16, "%d", e); return b[k];
}
extern "C" void sim_describe(int f, char *b, int n) {
  if (f < 0 || f >= 160) { *b = 0; return; }
  FState &s = fstate[f]; snprintf(b, n, "T%d op%d %s", s.thr, s.op, s.fn ? s.fn : "-");
}
struct Sched { int strategy, gap, depth; uint32_t base, len; int adv; uint64_t seed; vector<SimDec> dec; uint32_t maxsteps = 0; };
static const Prog *run_prog;
static void body(void *) { fams()[run_prog->fam].run(*run_prog); }
static uint64_t start_of(int sel) { // FILETIME
  const uint64_t E = 116444736000000000ull; // 1970
  switch (sel) { case 0: return E + 1700000000ull * 10000000; case 1: return E + 1700000000ull * 10000000 + 9999999; case 2: return E + 2147483646ull * 10000000 + 1234567; case 3: return E + 2147483648ull * 10000000 + 5; case 4: return E + 4294967295ull * 10000000 + 9990000; case 5: return E + 1000000000ull * 10000000 + 9994321; case 6: return E + 9000000000ull * 10000000 + 77; }
  return E + 1700000000ull * 10000000;
}
static int run_one(const Prog &p, const Sched &s) {
  SimCfg c; memset(&c, 0, sizeof c); c.start_time = start_of(p.startsel); c.tick = p.tick; c.wake_policy = p.wake;
  c.sys_mask = p.ncpu >= 64 ? ~0ull : (1ull << p.ncpu) - 1; c.proc_mask = c.sys_mask;
  c.strategy = s.strategy; c.seed = s.seed; c.gap = s.gap; c.depth = s.depth; c.base = s.base; c.len = s.len; c.adv_permille = s.adv;
  c.dec = s.dec.data(); c.ndec = s.dec.size(); c.max_steps = s.maxsteps; c.cxx = g_flavour;
  case_labels.clear(); case_nontriv = false; memset(fstate, 0, sizeof fstate); run_prog = &p;
  return sim_case(&c, body, 0);
}
static uint64_t hprog(const Prog &p) {
  uint64_t h = 1469598103934665603ull; auto mix = [&](const void *q, size_t n) { const uint8_t *b = (const uint8_t *)q; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull; };
  mix(&p.fam, 4); mix(p.cfg, sizeof p.cfg); mix(&p.nt, 4); for (int i = 0; i < p.nt; i++) mix(p.t[i].op, sizeof(Op) * p.t[i].n); mix(&p.wake, 16); return h;
}
// ---------------------------------------------------------------- text form
static string to_text(const string &prop, const Prog &p, const Sched &s, const string &kind, const string &msg) {
  string o; char b[400]; Family &f = fams()[p.fam];
  snprintf(b, sizeof b, "property %s\nflavour %s\n", prop.c_str(), g_flavour ? "cxx" : "c"); o += b;
  o += "kind " + kind + "\n# " + msg + "\n";
  snprintf(b, sizeof b, "family %s %d\nenv %d %d %d %d\nsched %d %d %d %u %u %d %llu %u\n", f.name, p.prof, p.wake, p.tick, p.startsel, p.ncpu, s.strategy, s.gap, s.depth, s.base, s.len, s.adv, (unsigned long long)s.seed, s.maxsteps); o += b;
  o += "leak "; o += g_leakcheck ? "1\n" : "0\n";
  o += "cfg"; for (int i = 0; i < NCFG; i++) { snprintf(b, sizeof b, " %d", p.cfg[i]); o += b; } o += "\n";
  for (int t = 0; t < p.nt; t++) { snprintf(b, sizeof b, "thread %d\n", p.t[t].n); o += b; for (int i = 0; i < p.t[t].n; i++) { const Op &q = p.t[t].op[i]; snprintf(b, sizeof b, "op %d %d %d %d # T%d.%d %s\n", q.c, q.a, q.b, q.d, t, i, f.opname ? f.opname(q.c) : ""); o += b; } }
  for (auto &d : s.dec) { snprintf(b, sizeof b, "dec %u %d %u\n", d.step, d.act, d.arg); o += b; }
  return o;
}
static bool from_text(const char *path, Prog &p, Sched &s, string &prop, string &kind) {
  FILE *f = fopen(path, "r"); if (!f) return false; char line[1024]; memset(&p, 0, sizeof p); s.dec.clear();
  while (fgets(line, sizeof line, f)) {
    char w[64], a[64]; if (sscanf(line, "%63s", w) != 1) continue; string k = w;
    if (k == "property") { sscanf(line, "%*s %63s", a); prop = a; }
    else if (k == "flavour") { sscanf(line, "%*s %63s", a); if ((strcmp(a, "cxx") == 0) != (g_flavour == 1)) { fclose(f); return false; } }
    else if (k == "kind") { sscanf(line, "%*s %63s", a); kind = a; }
    else if (k == "family") { sscanf(line, "%*s %63s %d", a, &p.prof); p.fam = fam_index(a); }
    else if (k == "env") sscanf(line, "%*s %d %d %d %d", &p.wake, &p.tick, &p.startsel, &p.ncpu);
    else if (k == "leak") sscanf(line, "%*s %d", &g_leakcheck);
    else if (k == "sched") { unsigned long long sd; sscanf(line, "%*s %d %d %d %u %u %d %llu %u", &s.strategy, &s.gap, &s.depth, &s.base, &s.len, &s.adv, &sd, &s.maxsteps); s.seed = sd; }
    else if (k == "cfg") { char *q = line + 3; for (int i = 0; i < NCFG; i++) p.cfg[i] = strtol(q, &q, 10); }
    else if (k == "thread") { p.nt++; }
    else if (k == "op") { Thr &t = p.t[p.nt - 1]; int c, x, y, d; sscanf(line, "%*s %d %d %d %d", &c, &x, &y, &d); Op q; q.c = c; q.a = x; q.b = y; q.d = d; t.op[t.n++] = q; }
    else if (k == "dec") { SimDec d; unsigned st, ar; int ac; sscanf(line, "%*s %u %d %u", &st, &ac, &ar); d.step = st; d.act = ac; d.arg = ar; s.dec.push_back(d); }
  }
  fclose(f); return true;
}
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
// ---------------------------------------------------------------- shrinking
static Sched replay_of(const Sched &s) { Sched r = s; r.strategy = ST_REPLAY; r.dec.assign(sim_log, sim_log + sim_nlog); return r; }
struct Fail { Prog p; Sched s; string kind, msg; };
static bool still(const Prog &p, const Sched &s, const string &kind, Fail &out) {
  if (!run_one(p, s) || kind != sim_res.kind) return false;
  out.p = p; out.s = replay_of(s); out.kind = sim_res.kind; out.msg = sim_res.msg; return true;
}
static bool still_any(const Prog &p, const Sched &s, const string &kind, Fail &out, uint64_t seed) {
  if (still(p, s, kind, out)) return true;
  Sched d = s; d.strategy = ST_DEFAULT; d.dec.clear(); if (still(p, d, kind, out)) return true;
  for (int k = 0; k < 6; k++) { Sched r = s; r.dec.clear(); r.strategy = k & 1 ? ST_RANDOM : ST_KPRE; r.gap = k < 3 ? 5 : 40; r.depth = 2 + k; r.seed = seed * 31 + k; r.len = sim_res.steps; r.base = sim_res.mark; if (still(p, r, kind, out)) return true; }
  return false;
}
static void shrink(Fail &f, double budget) {
  double end = wall() + budget; bool prog = true; int round = 0; string kind = f.kind;
  while (prog && wall() < end && round++ < 8) {
    prog = false; Fail g;
    for (int t = f.p.nt - 1; t >= 0 && wall() < end; t--) if (f.p.t[t].n) { Prog q = f.p; q.t[t].n = 0; if (still_any(q, f.s, kind, g, t)) { f = g; prog = true; } }
    for (int sz = 8; sz >= 1; sz /= 2) for (int t = 0; t < f.p.nt; t++) for (int i = 0; i + sz <= f.p.t[t].n && wall() < end;) { Prog q = f.p; memmove(&q.t[t].op[i], &q.t[t].op[i + sz], sizeof(Op) * (q.t[t].n - i - sz)); q.t[t].n -= sz; if (still_any(q, f.s, kind, g, i)) { f = g; prog = true; } else i++; }
    for (int t = 0; t < f.p.nt; t++) for (int i = 0; i < f.p.t[t].n && wall() < end; i++) for (int k = 0; k < 3; k++) { Prog q = f.p; Op &o = q.t[t].op[i]; if (k == 0 ? !o.a : k == 1 ? !o.b : !o.d) continue; if (k == 0) o.a = 0; else if (k == 1) o.b = 0; else o.d = 0; if (still(q, f.s, kind, g)) { f = g; prog = true; } }
    for (int i = 0; i < NCFG && wall() < end; i++) if (f.p.cfg[i]) { Prog q = f.p; q.cfg[i] = 0; if (still(q, f.s, kind, g)) { f = g; prog = true; }  else for (int k = 0; k < 14 && f.p.cfg[i] > 1 && wall() < end; k++) { Prog h = f.p; h.cfg[i] -= k < 8 ? (h.cfg[i] + 1) / 2 : k < 11 ? (h.cfg[i] + 7) / 8 : 1; if (h.cfg[i] == f.p.cfg[i]) break; if (still_any(h, f.s, kind, g, k)) { f = g; prog = true; } else if (k < 8) k = 7; else if (k < 11) k = 10; else break; } }
    { Prog q = f.p; q.wake = q.tick = q.startsel = 0; if (still(q, f.s, kind, g)) f = g; }
    // schedule decisions
    { Sched d = f.s; d.strategy = ST_DEFAULT; d.dec.clear(); if (f.s.dec.size() && still(f.p, d, kind, g)) { f = g; f.s.dec.clear(); } }
    for (int sz = max<int>(1, f.s.dec.size() / 2); sz >= 1 && wall() < end; sz /= 2)
      for (size_t i = 0; i + sz <= f.s.dec.size() && wall() < end;) { Sched d = f.s; d.dec.erase(d.dec.begin() + i, d.dec.begin() + i + sz); if (still(f.p, d, kind, g)) { size_t was = f.s.dec.size(); f = g; if (f.s.dec.size() < was) { prog = true; } else i++; } else i++; }
  }
}
// ---------------------------------------------------------------- exploration
struct Shared { volatile int stop; volatile int found; volatile uint64_t progs, evals, steps, nontriv; volatile int done; };
static void json_str(FILE *o, const string &s) { fputc('"', o); for (unsigned char c : s) { if (c == '"' || c == '\\') { fputc('\\', o); fputc(c, o); } else if (c == '\n') fputs("\\n", o); else if (c < 32) fputc(' ', o); else fputc(c, o); } fputc('"', o); }
static uint64_t hs(const string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ull; return h; }

static void gen_prog(const string &prop, uint64_t seed, uint64_t idx, Prog &p, int &leak) {
  Rng r(seed * 1000003 + hs(prop) * 7 + idx * 0x51ED27 + 1 + (g_flavour ? 0x777 : 0));
  vector<PM *> v; int tot = 0; for (auto &m : props()) if (m.prop == prop) { v.push_back(&m); tot += m.w; }
  if (v.empty()) { fprintf(stderr, "property %s has no family\n", prop.c_str()); exit(2); }
  int k = r.n(tot); PM *m = v[0]; for (auto x : v) { if (k < x->w) { m = x; break; } k -= x->w; }
  memset(&p, 0, sizeof p); p.fam = fam_index(m->fam); p.prof = m->prof; leak = m->leak;
  p.wake = r.n(3); static const int tk[] = {0, 0, 1, 137, 10007}; p.tick = r.pick(tk); p.startsel = r.p(1, 2) ? 0 : r.n(7); static const int nc[] = {4, 4, 1, 2, 8, 64, 3}; p.ncpu = r.pick(nc);
  fams()[p.fam].gen(r, p, m->prof);
}
static const char *only_fam; static double shrink_budget = 40;
struct Known { string kind, sub; }; static vector<Known> knowns;
static int known_index(const char *kind, const char *msg) { for (size_t i = 0; i < knowns.size(); i++) if (knowns[i].kind == kind && strstr(msg, knowns[i].sub.c_str())) return i; return -1; }
static int worker(const string &prop, uint64_t seed, int w, int nw, uint64_t nprogs, int nsched, double tmax, const string &out, Shared *sh) {
  double t0 = wall(); unordered_set<uint64_t> seen; map<string, uint64_t> labels; uint64_t evals = 0, progs = 0, nt = 0, maxsteps = 0, switches = 0; vector<string> samples; map<string, uint64_t> famc; double lastsample = 0; uint64_t strat[8] = {0}; map<string, uint64_t> kn;
  Fail f; bool failed = false; uint64_t unstable = 0;
  for (uint64_t i = w; i < nprogs && !failed; i += nw) {
    if (sh->stop || wall() - t0 > tmax) break;
    Prog p; int leak; gen_prog(prop, seed, i, p, leak); g_leakcheck = leak;
    if (only_fam && strcmp(only_fam, fams()[p.fam].name)) continue;
    uint64_t ph = hprog(p); progs++; famc[fams()[p.fam].name]++;
    Rng r(seed ^ (i * 0x9E3779B97F4A7C15ull) ^ hs(prop)); uint32_t L = 0, base = 0;
    for (int k = 0; k < nsched; k++) {
      Sched s; s.seed = r.next() >> 16; s.adv = 0; s.gap = 1; s.depth = 0; s.base = base; s.len = L > base ? L - base : 100;
      if (k == 0) s.strategy = ST_DEFAULT;
      else { static const int gaps[] = {2, 4, 10, 30, 100, 300}; static const int advs[] = {0, 0, 5, 30}; s.adv = r.pick(advs);
        switch (r.n(10)) { case 0: case 1: case 2: s.strategy = ST_RANDOM; s.gap = r.pick(gaps); break; case 3: case 4: case 5: s.strategy = ST_PCT; s.depth = r.r(1, 5); break; case 6: case 7: case 8: s.strategy = ST_KPRE; s.depth = r.r(1, 4); break; default: s.strategy = ST_STARVE; } }
      int bad = run_one(p, s); evals++; strat[s.strategy]++; if (sim_res.steps > maxsteps) maxsteps = sim_res.steps; switches += sim_res.switches;
      if (k == 0) { L = sim_res.steps; base = sim_res.mark; }
      if (case_nontriv) { nt++; if (seen.size() < 6000000) seen.insert(ph ^ (sim_res.trace_hash * 0x9E3779B97F4A7C15ull)); }
      for (auto l : case_labels) labels[l]++;
      if (case_nontriv && samples.size() < 3 && wall() - lastsample > 1) { lastsample = wall(); Sched rr = replay_of(s); if (rr.dec.size() > 60) rr.dec.resize(60); samples.push_back(to_text(prop, p, rr, "sample", "labels")); }
      int ki = bad ? known_index(sim_res.kind, sim_res.msg) : -1; if (ki >= 0) { kn[to_string(ki)]++; continue; }
      if (bad) {
        Sched rs = replay_of(s); string kind = sim_res.kind, msg = sim_res.msg; Fail g; int okc = 0;
        for (int q = 0; q < 3; q++) okc += still(p, rs, kind, g);
        if (okc < 3) { Fail h; okc = 0; for (int q = 0; q < 3; q++) okc += still(p, s, kind, h); if (okc == 3) g = h, g.s = s; }
        if (okc == 3) { f = g; failed = true; break; }
        unstable++; fprintf(stderr, "unstable %s: %s: %s\n", prop.c_str(), kind.c_str(), msg.c_str());
        FILE *u = fopen((out + ".unstable").c_str(), "w"); if (u) { fputs(to_text(prop, p, s, kind, msg).c_str(), u); fclose(u); }
      }
    }
    sh->progs = progs; sh->evals = evals;
  }
  string prefix = out;
  if (failed) {
    if (__sync_bool_compare_and_swap(&sh->found, 0, w + 1)) {
      sh->stop = 1; fprintf(stderr, "worker %d: %s: %s -- shrinking\n", w, f.kind.c_str(), f.msg.c_str());
      shrink(f, shrink_budget);
      int okc = 0; Fail g; for (int q = 0; q < 3; q++) okc += still(f.p, f.s, f.kind, g);
      string txt = to_text(prop, f.p, f.s, f.kind, f.msg);
      FILE *o = fopen((prefix + ".fail").c_str(), "w"); fputs(txt.c_str(), o); fclose(o);
    }
  }
  FILE *o = fopen((prefix + ".json").c_str(), "w");
  uint64_t tot, cov = sim_cov_edges(&tot);
  fprintf(o, "{\"evals\":%llu,\"progs\":%llu,\"nontrivial\":%llu,\"unstable\":%llu,\"maxsteps\":%llu,\"switches\":%llu,\"cov\":%llu,\"covtotal\":%llu,\"wall\":%.2f,\"strategies\":{\"default\":%llu,\"random\":%llu,\"pct\":%llu,\"kpreempt\":%llu,\"starve\":%llu},\"labels\":{", (unsigned long long)evals, (unsigned long long)progs, (unsigned long long)nt, (unsigned long long)unstable, (unsigned long long)maxsteps, (unsigned long long)switches, (unsigned long long)cov, (unsigned long long)tot, wall() - t0, (unsigned long long)strat[0], (unsigned long long)strat[1], (unsigned long long)strat[2], (unsigned long long)strat[3], (unsigned long long)strat[4]);
  bool first = true; for (auto &l : labels) { if (!first) fputc(',', o); first = false; json_str(o, l.first); fprintf(o, ":%llu", (unsigned long long)l.second); }
  fputs("},\"known\":{", o); first = true; for (auto &l : kn) { if (!first) fputc(',', o); first = false; json_str(o, l.first); fprintf(o, ":%llu", (unsigned long long)l.second); }
  fputs("},\"families\":{", o); first = true; for (auto &l : famc) { if (!first) fputc(',', o); first = false; json_str(o, l.first); fprintf(o, ":%llu", (unsigned long long)l.second); }
  fputs("},\"samples\":[", o); for (size_t i = 0; i < samples.size(); i++) { if (i) fputc(',', o); json_str(o, samples[i]); } fputs("]}\n", o); fclose(o);
  o = fopen((prefix + ".hashes").c_str(), "wb"); for (uint64_t h : seen) fwrite(&h, 8, 1, o); fclose(o);
  return failed ? 10 : 0;
}
int main(int argc, char **argv) {
  string prop, replay, out = "/tmp/ptw"; uint64_t seed = 1, nprogs = 1000, one = ~0ull; int nsched = 10, nw = 4; double tmax = 60; bool trace = false, trace2 = false, info = false; const char *shr = 0;
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "--prop") prop = nx(); else if (a == "--shrink") shrink_budget = atof(nx().c_str()); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--progs") nprogs = strtoull(nx().c_str(), 0, 10); else if (a == "--scheds") nsched = atoi(nx().c_str()); else if (a == "--workers") nw = atoi(nx().c_str()); else if (a == "--tmax") tmax = atof(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--replay") replay = nx(); else if (a == "--trace") trace = true; else if (a == "--trace2") trace2 = true; else if (a == "--info") info = true; else if (a == "--known") { FILE *k = fopen(nx().c_str(), "r"); char l[1000]; while (k && fgets(l, sizeof l, k)) { char *t = strchr(l, '\t'); if (!t) continue; *t = 0; t[1 + strcspn(t + 1, "\n")] = 0; knowns.push_back({l, t + 1}); } if (k) fclose(k); } else if (a == "--only") only_fam = strdup(nx().c_str()); else if (a == "--one") one = strtoull(nx().c_str(), 0, 10); }
  sim_init(); sim_trace = trace2 ? 2 : trace; (void)shr;
  if (info) { for (auto &m : props()) printf("%s %s %d %d\n", m.prop.c_str(), m.fam.c_str(), m.prof, m.w); return 0; }
  if (!replay.empty()) {
    Prog p; Sched s; string pr, kind; if (!from_text(replay.c_str(), p, s, pr, kind)) { fprintf(stderr, "not a replay for this flavour\n"); return 4; }
    int bad = run_one(p, s); printf("%s %s: %s\n", bad ? "FAIL" : "ok", sim_res.kind, sim_res.msg); printf("steps %u switches %u nontriv %d labels:", sim_res.steps, sim_res.switches, case_nontriv); for (auto l : case_labels) printf(" %s", l); puts("");
    return bad ? 1 : 0; }
  if (one != ~0ull) { Prog p; int leak; gen_prog(prop, seed, one, p, leak); g_leakcheck = leak; Sched s; s.strategy = ST_DEFAULT; s.gap = s.depth = s.adv = 0; s.base = s.len = 0; s.seed = 1; int bad = run_one(p, s); puts(to_text(prop, p, s, "x", "x").c_str()); printf("%s %s: %s\n", bad ? "FAIL" : "ok", sim_res.kind, sim_res.msg); return bad; }
  Shared *sh = (Shared *)mmap(0, sizeof(Shared) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  vector<pid_t> pids;
  for (int w = 0; w < nw; w++) { pid_t c = fork(); if (c == 0) { _exit(worker(prop, seed, w, nw, nprogs, nsched, tmax, out + "." + to_string(w), sh)); } pids.push_back(c); }
  int rc = 0; for (pid_t c : pids) { int st; waitpid(c, &st, 0); if (WIFSIGNALED(st)) { fprintf(stderr, "worker died: signal %d\n", WTERMSIG(st)); rc = max(rc, 3); } else if (WEXITSTATUS(st) == 10) rc = rc == 3 ? 3 : 10; else if (WEXITSTATUS(st)) rc = 3; }
  vector<uint64_t> all; for (int w = 0; w < nw; w++) { FILE *h = fopen((out + "." + to_string(w) + ".hashes").c_str(), "rb"); if (!h) continue; uint64_t x; while (fread(&x, 8, 1, h) == 1) all.push_back(x); fclose(h); unlink((out + "." + to_string(w) + ".hashes").c_str()); }
  sort(all.begin(), all.end()); all.erase(unique(all.begin(), all.end()), all.end());
  printf("DISTINCT %zu\n", all.size());
  return sh->found ? 10 : rc;
}
