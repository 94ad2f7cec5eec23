// Verification driver: steps real GANDALF simulations according to a small command script and dumps the
// observable state (particles, stars, sinks, tree, diagnostics, clocks) for the offline oracles.
// usage: gdrv script     (paths in the script are relative to the working directory)
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <cmath>
#include <set>
#include "Exception.h"
#include "Parameters.h"
#include "Simulation.h"
#include "Debug.h"
#include "HeaderInfo.h"
#include "SphSnapshot.h"
using namespace std;

#ifdef MPI_PARALLEL
#include "mpi.h"
#endif

static FILE *res = 0;      // result stream (JSON lines)
static string esc(const string &v)
{
  string o;
  for (size_t i = 0; i < v.size(); i++) { char b[8]; unsigned char c = v[i]; if (c < 32 || c == '"' || c == '\\' || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += v[i]; }
  return o;
}
static void dump_params(Parameters *P)
{
      for (map<string,int>::iterator i = P->intparams.begin(); i != P->intparams.end(); ++i)
        fprintf(res, "{\"p\":\"%s\",\"k\":\"i\",\"v\":%d}\n", i->first.c_str(), i->second);
      for (map<string,double>::iterator i = P->floatparams.begin(); i != P->floatparams.end(); ++i)
        fprintf(res, "{\"p\":\"%s\",\"k\":\"f\",\"v\":\"%.17g\"}\n", i->first.c_str(), i->second);
      for (map<string,string>::iterator i = P->stringparams.begin(); i != P->stringparams.end(); ++i)
        fprintf(res, "{\"p\":\"%s\",\"k\":\"s\",\"v\":\"%s\"}\n", i->first.c_str(), esc(i->second).c_str());
}
static int mpirank = 0;

struct Table {
  string name;
  vector<string> cols;
  vector<double> data;
  void col(const string &s) { cols.push_back(s); }
};

struct Dump {
  vector<pair<string,double> > sc;
  vector<Table> tabs;
  void s(const string &k, double v) { sc.push_back(make_pair(k, v)); }
  void write(const string &fn) {
    FILE *f = fopen(fn.c_str(), "wb");
    if (!f) { fprintf(stderr, "gdrv: cannot open %s\n", fn.c_str()); exit(97); }
    string h = "{\"scalars\":{";
    char b[64];
    for (size_t i = 0; i < sc.size(); i++) {
      if (std::isfinite(sc[i].second)) snprintf(b, 64, "%.17g", sc[i].second);
      else snprintf(b, 64, "%s", std::isnan(sc[i].second) ? "NaN" : (sc[i].second > 0 ? "Infinity" : "-Infinity"));
      h += (i ? ",\"" : "\"") + sc[i].first + "\":" + b;
    }
    h += "},\"tables\":[";
    for (size_t t = 0; t < tabs.size(); t++) {
      size_t nc = tabs[t].cols.size();
      snprintf(b, 64, "%zu", nc ? tabs[t].data.size()/nc : (size_t) 0);
      h += string(t ? "," : "") + "{\"name\":\"" + tabs[t].name + "\",\"n\":" + b + ",\"cols\":[";
      for (size_t c = 0; c < nc; c++) h += (c ? ",\"" : "\"") + tabs[t].cols[c] + "\"";
      h += "]}";
    }
    h += "]}\n";
    fwrite(h.data(), 1, h.size(), f);
    for (size_t t = 0; t < tabs.size(); t++)
      fwrite(tabs[t].data.data(), sizeof(double), tabs[t].data.size(), f);
    fclose(f);
  }
};

static const char *XYZ[3] = {"x", "y", "z"};

template <int ndim> struct Drv {
  Simulation<ndim> *sim;
  Parameters *params;
  string simtype;
  bool is_sph, is_mfv;

  Drv(SimulationBase *s, Parameters *p) : params(p) {
    sim = static_cast<Simulation<ndim>*>(s);
    simtype = p->stringparams["sim"];
    is_sph = (simtype == "sph" || simtype == "gradhsph");
    is_mfv = (simtype == "meshlessfv" || simtype == "mfvmuscl" || simtype == "mfvrk");
  }

  static void vec(Table &t, const string &pre, int n = ndim) { for (int k = 0; k < n; k++) t.col(pre + XYZ[k]); }

  void part_cols(Table &t) {
    const char *ints[] = {"idx", "iorig", "ptype", "flags", "dead", "active", "sinkid", "level", "levelneib", "nstep", "nlast"};
    for (size_t i = 0; i < sizeof(ints)/sizeof(ints[0]); i++) t.col(ints[i]);
    vec(t, "r"); vec(t, "v"); vec(t, "a"); vec(t, "atree"); vec(t, "r0"); vec(t, "v0"); vec(t, "a0");
    const char *fl[] = {"m", "h", "rho", "pressure", "sound", "u", "u0", "dudt", "dudt0", "gpot", "gpot_hydro", "dt", "dt_next",
                        "tlast", "ionfrac", "ueq", "dt_therm", "vsig_max", "hrangesqd", "hfactor", "ionstate", "h_dust"};
    for (size_t i = 0; i < sizeof(fl)/sizeof(fl[0]); i++) t.col(fl[i]);
    if (is_sph) { t.col("div_v"); t.col("alpha"); t.col("dalphadt"); t.col("invomega"); t.col("zeta"); }
    if (is_mfv) {
      t.col("div_v"); t.col("ndens"); t.col("invomega"); t.col("zeta");
      const char *q[] = {"W", "Q", "dQ", "dQdt", "alim"};
      char b[32];
      for (int i = 0; i < 5; i++) for (int k = 0; k < ndim+2; k++) { snprintf(b, 32, "%s%d", q[i], k); t.col(b); }
      for (int i = 0; i < ndim+2; i++) for (int k = 0; k < ndim; k++) { snprintf(b, 32, "grad%d%d", i, k); t.col(b); }
      for (int i = 0; i < ndim; i++) for (int k = 0; k < ndim; k++) { snprintf(b, 32, "B%d%d", i, k); t.col(b); }
      vec(t, "rdmdt");
    }
  }

  void part_row(Table &t, int i) {
    Particle<ndim> &p = sim->hydro->GetParticlePointer(i);
    vector<double> &d = t.data;
    d.push_back(i); d.push_back(p.iorig); d.push_back(p.ptype); d.push_back(p.flags.get()); d.push_back(p.flags.is_dead());
    d.push_back(p.flags.check(active)); d.push_back(p.sinkid); d.push_back(p.level); d.push_back(p.levelneib);
    d.push_back(p.nstep); d.push_back(p.nlast);
    FLOAT *vs[] = {p.r, p.v, p.a, p.atree, p.r0, p.v0, p.a0};
    for (int q = 0; q < 7; q++) for (int k = 0; k < ndim; k++) d.push_back(vs[q][k]);
    double fl[] = {p.m, p.h, p.rho, p.pressure, p.sound, p.u, p.u0, p.dudt, p.dudt0, p.gpot, p.gpot_hydro, p.dt, p.dt_next,
                   p.tlast, p.ionfrac, p.ueq, p.dt_therm, p.vsig_max, p.hrangesqd, p.hfactor, (double) p.ionstate, p.h_dust};
    d.insert(d.end(), fl, fl + sizeof(fl)/sizeof(fl[0]));
    if (is_sph) {
      GradhSphParticle<ndim> &g = static_cast<GradhSphParticle<ndim>&>(p);
      d.push_back(g.div_v); d.push_back(g.alpha); d.push_back(g.dalphadt); d.push_back(g.invomega); d.push_back(g.zeta);
    }
    if (is_mfv) {
      MeshlessFVParticle<ndim> &g = static_cast<MeshlessFVParticle<ndim>&>(p);
      d.push_back(g.div_v); d.push_back(g.ndens); d.push_back(g.invomega); d.push_back(g.zeta);
      FLOAT *q[] = {g.Wprim, g.Qcons0, g.dQ, g.dQdt, g.alpha_slope};
      for (int i = 0; i < 5; i++) for (int k = 0; k < ndim+2; k++) d.push_back(q[i][k]);
      for (int i = 0; i < ndim+2; i++) for (int k = 0; k < ndim; k++) d.push_back(g.grad[i][k]);
      for (int i = 0; i < ndim; i++) for (int k = 0; k < ndim; k++) d.push_back(g.B[i][k]);
      for (int k = 0; k < ndim; k++) d.push_back(g.rdmdt[k]);
    }
  }

  void star_table(Table &t) {
    t.name = "star";
    const char *ints[] = {"istar", "active", "level", "nstep", "nlast", "Ncomp"};
    for (int i = 0; i < 6; i++) t.col(ints[i]);
    vec(t, "r"); vec(t, "v"); vec(t, "a"); vec(t, "adot"); vec(t, "a2dot"); vec(t, "a3dot");
    const char *fl[] = {"m", "h", "radius", "gpot", "gpe", "dt", "tlast", "NLyC"};
    for (int i = 0; i < 8; i++) t.col(fl[i]);
    if (!sim->nbody) return;
    for (int i = 0; i < sim->nbody->Nstar; i++) {
      StarParticle<ndim> &s = sim->nbody->stardata[i];
      vector<double> &d = t.data;
      d.push_back(s.istar); d.push_back(s.flags.check(active)); d.push_back(s.level); d.push_back(s.nstep); d.push_back(s.nlast); d.push_back(s.Ncomp);
      FLOAT *vs[] = {s.r, s.v, s.a, s.adot, s.a2dot, s.a3dot};
      for (int q = 0; q < 6; q++) for (int k = 0; k < ndim; k++) d.push_back(vs[q][k]);
      double f[] = {s.m, s.h, s.radius, s.gpot, s.gpe, s.dt, s.tlast, s.NLyC};
      d.insert(d.end(), f, f + 8);
    }
  }

  void sink_table(Table &t) {
    t.name = "sink";
    const char *c[] = {"istar", "Ngas", "macctot", "radius", "dmdt", "menc", "mmax", "racc", "ketot", "gpetot", "rotketot", "utot",
                       "taccrete", "trad", "trot", "tvisc", "Lx", "Ly", "Lz"};
    for (int i = 0; i < 19; i++) t.col(c[i]);
    if (!sim->sinks) return;
    for (int i = 0; i < sim->sinks->Nsink; i++) {
      SinkParticle<ndim> &s = sim->sinks->sink[i];
      double d[] = {(double) s.istar, (double) s.Ngas, s.macctot, s.radius, s.dmdt, s.menc, s.mmax, s.racc, s.ketot, s.gpetot,
                    s.rotketot, s.utot, s.taccrete, s.trad, s.trot, s.tvisc, s.angmom[0], s.angmom[1], s.angmom[2]};
      t.data.insert(t.data.end(), d, d + 19);
    }
  }

  void scalars(Dump &d) {
    d.s("t", sim->t); d.s("n", sim->n); d.s("nresync", sim->nresync); d.s("Nsteps", sim->Nsteps); d.s("Nblocksteps", sim->Nblocksteps);
    d.s("Nfullsteps", sim->Nfullsteps); d.s("level_max", sim->level_max); d.s("level_step", sim->level_step); d.s("timestep", sim->timestep);
    d.s("dt_max", sim->dt_max); d.s("Noutsnap", sim->Noutsnap); d.s("tsnapnext", sim->tsnapnext); d.s("tsnaplast", sim->tsnaplast);
    d.s("level_diff_max", sim->level_diff_max); d.s("integration_step", sim->integration_step);
    d.s("Nlevels", sim->Nlevels); d.s("Noutlitesnap", sim->Noutlitesnap); d.s("tlitesnapnext", sim->tlitesnapnext); d.s("tlitesnaplast", sim->tlitesnaplast); if (sim->hydro) d.s("mmean", sim->hydro->mmean);
    d.s("tlitesnaplast", sim->tlitesnaplast); d.s("dt_min_hydro", sim->dt_min_hydro); d.s("dt_min_nbody", sim->dt_min_nbody);
    d.s("rebuild_tree", sim->rebuild_tree);
    if (sim->hydro) {
      d.s("Nhydro", sim->hydro->Nhydro); d.s("Ntot", sim->hydro->Ntot); d.s("NPeriodicGhost", sim->hydro->NPeriodicGhost);
      d.s("mmean", sim->hydro->mmean); d.s("hmin_sink", sim->hydro->hmin_sink); d.s("kernrange", sim->hydro->kernrange);
      d.s("Nhydromax", sim->hydro->Nhydromax); d.s("Nghost", sim->hydro->Nghost);
      for (int i = 0; i < Ntypes; i++) { char b[16]; snprintf(b, 16, "Ntype%d", i); d.s(b, sim->hydro->types[i].N); }
    }
    if (sim->nbody) { d.s("Nstar", sim->nbody->Nstar); d.s("Nnbody", sim->nbody->Nnbody); }
    if (sim->sinks) { d.s("Nsink", sim->sinks->Nsink); }
    for (int k = 0; k < ndim; k++) {
      d.s(string("boxmin") + XYZ[k], sim->simbox.min[k]); d.s(string("boxmax") + XYZ[k], sim->simbox.max[k]);
    }
    SimUnits &u = sim->simunits;
    d.s("rout", u.r.outscale); d.s("mout", u.m.outscale); d.s("tout", u.t.outscale); d.s("vout", u.v.outscale); d.s("aout", u.a.outscale);
    d.s("rhoout", u.rho.outscale); d.s("uout", u.u.outscale); d.s("tempout", u.temp.outscale); d.s("Eout", u.E.outscale);
    d.s("rin", u.r.inscale); d.s("min", u.m.inscale); d.s("tin", u.t.inscale); d.s("vin", u.v.inscale);
    d.s("rhoin", u.rho.inscale); d.s("uin", u.u.inscale);
  }

  void diag_scalars(Dump &d, const Diagnostics<ndim> &g, const string &p) {
    d.s(p + "Nhydro", g.Nhydro); d.s(p + "Nstar", g.Nstar); d.s(p + "Ndead", g.Ndead); d.s(p + "Etot", g.Etot); d.s(p + "utot", g.utot);
    d.s(p + "ketot", g.ketot); d.s(p + "gpetot", g.gpetot); d.s(p + "mtot", g.mtot); d.s(p + "Eerror", g.Eerror);
    for (int k = 0; k < ndim; k++) {
      d.s(p + "mom" + XYZ[k], g.mom[k]); d.s(p + "force" + XYZ[k], g.force[k]); d.s(p + "rcom" + XYZ[k], g.rcom[k]);
      d.s(p + "vcom" + XYZ[k], g.vcom[k]);
    }
    for (int k = 0; k < 3; k++) d.s(p + "angmom" + XYZ[k], g.angmom[k]);
  }

  void dump(const string &fn, bool ghosts, bool diag) {
    Dump d;
    scalars(d);
    if (diag) {
      sim->CalculateDiagnostics();
      diag_scalars(d, sim->diag, "diag_");
      diag_scalars(d, sim->diag0, "diag0_");
    }
    if (sim->hydro && sim->hydro->GetParticleArrayUnsafe()) {
      Table t; t.name = "part"; part_cols(t);
      for (int i = 0; i < sim->hydro->Nhydro; i++) part_row(t, i);
      d.tabs.push_back(t);
      if (ghosts) {
        Table g; g.name = "ghost"; part_cols(g);
        for (int i = sim->hydro->Nhydro; i < sim->hydro->Nhydro + sim->hydro->NPeriodicGhost; i++) part_row(g, i);
        d.tabs.push_back(g);
      }
    }
    Table s; star_table(s); d.tabs.push_back(s);
    Table k; sink_table(k); d.tabs.push_back(k);
    d.write(fn);
  }

  // ------------------------------------------------------------------------------------------ tree dump
  template <template<int> class P, template<int> class C>
  bool tree_dump_as(TreeBase<ndim> *tb, const string &fn, const char *kind) {
    Tree<ndim,P,C> *tr = static_cast<Tree<ndim,P,C>*>(tb);
    Dump d; scalars(d);
    d.s("tree_Ncell", tr->Ncell); d.s("tree_Ntot", tr->Ntot); d.s("tree_Nleafmax", tr->MaxNumPartInLeafCell());
    d.s("tree_hmax", tr->GetMaximumSmoothingLength());
    Table t; t.name = "cell";
    const char *ints[] = {"c", "cnext", "copen", "id", "level", "ifirst", "ilast", "N", "Nactive", "leaf"};
    for (int i = 0; i < 10; i++) t.col(ints[i]);
    vec(t, "bbmin"); vec(t, "bbmax"); vec(t, "hbmin"); vec(t, "hbmax"); vec(t, "vbmin"); vec(t, "vbmax"); vec(t, "rcell"); vec(t, "r"); vec(t, "v");
    const char *fl[] = {"m", "rmax", "hmax", "maxsound", "cdistsqd", "mac", "amin", "q0", "q1", "q2", "q3", "q4"};
    for (int i = 0; i < 12; i++) t.col(fl[i]);
    Table l; l.name = "leafpart"; l.col("c"); l.col("idx");
    for (int c = 0; c < tr->Ncell; c++) {
      C<ndim> &x = tr->celldata[c];
      bool leaf = (x.copen == -1);
      double iv[] = {(double) c, (double) x.cnext, (double) x.copen, (double) x.id, (double) x.level, (double) x.ifirst, (double) x.ilast,
                     (double) x.N, (double) x.Nactive, (double) leaf};
      t.data.insert(t.data.end(), iv, iv + 10);
      FLOAT *vs[] = {x.bb.min, x.bb.max, x.hbox.min, x.hbox.max, x.vbox.min, x.vbox.max, x.rcell, x.r, x.v};
      for (int q = 0; q < 9; q++) for (int k = 0; k < ndim; k++) t.data.push_back(vs[q][k]);
      double fv[] = {x.m, x.rmax, x.hmax, x.maxsound, x.cdistsqd, x.mac, x.amin, x.q[0], x.q[1], x.q[2], x.q[3], x.q[4]};
      t.data.insert(t.data.end(), fv, fv + 12);
      if (leaf && x.N > 0) {
        int i = x.ifirst, cnt = 0;
        while (i != -1 && cnt < tr->Ntot + 10) {
          l.data.push_back(c); l.data.push_back(i); cnt++;
          if (i == x.ilast) break;
          i = tr->inext[i];
        }
      }
    }
    d.tabs.push_back(t); d.tabs.push_back(l);
    if (sim->hydro) { Table p; p.name = "part"; part_cols(p);
      for (int i = 0; i < sim->hydro->Nhydro + sim->hydro->NPeriodicGhost; i++) part_row(p, i); d.tabs.push_back(p); }
    d.write(fn);
    return true;
  }

  bool tree_dump(const string &fn, bool ghost) {
    if (!sim->neib) return false;
    TreeBase<ndim> *tb = ghost ? sim->neib->GetGhostTree() : sim->neib->GetTree();
    if (!tb) return false;
    string ns = params->stringparams["neib_search"];
    if (is_sph) {
      if (ns == "kdtree") return tree_dump_as<GradhSphParticle,KDTreeCell>(tb, fn, "kd");
      if (ns == "octtree") return tree_dump_as<GradhSphParticle,OctTreeCell>(tb, fn, "oct");
      if (ns == "bruteforce") return tree_dump_as<GradhSphParticle,BruteForceTreeCell>(tb, fn, "bf");
    }
    if (is_mfv) {
      if (ns == "kdtree") return tree_dump_as<MeshlessFVParticle,KDTreeCell>(tb, fn, "kd");
      if (ns == "octtree") return tree_dump_as<MeshlessFVParticle,OctTreeCell>(tb, fn, "oct");
      if (ns == "bruteforce") return tree_dump_as<MeshlessFVParticle,BruteForceTreeCell>(tb, fn, "bf");
    }
    return false;
  }

  // compact per-step trace: one row per MainLoop call
  void trace_row(FILE *f) {
    fprintf(f, "{\"t\":%.17g,\"n\":%d,\"nresync\":%d,\"Nsteps\":%d,\"level_max\":%d,\"level_step\":%d,\"timestep\":%.17g,\"dt_max\":%.17g,"
               "\"Nhydro\":%d,\"Nstar\":%d,\"Noutsnap\":%d,\"Nblocksteps\":%d}\n",
            sim->t, sim->n, sim->nresync, sim->Nsteps, sim->level_max, sim->level_step, sim->timestep, sim->dt_max,
            sim->hydro ? sim->hydro->Nhydro : 0, sim->nbody ? sim->nbody->Nstar : 0, sim->Noutsnap, sim->Nblocksteps);
  }
};

// ------------------------------------------------------------------------------------------------ hooks
static void *hook_drv = 0;
static void *hook_drv_() { return hook_drv; }
struct HookReq { string point, prefix; int every, maxn, seen, written, kind; };   // kind: 0 state, 1 tree, 2 ghost tree, 3 state with ghosts
template <int ndim> static void hook_write(const HookReq &h, const char *fn) {
  Drv<ndim> *d = static_cast<Drv<ndim>*>(hook_drv_());
  if (h.kind == 0 || h.kind == 3) d->dump(fn, h.kind == 3, false);
  else d->tree_dump(fn, h.kind == 2);
}
static vector<HookReq> hookreqs;
static int hook_ndim = 0;
#ifdef GANDALF_VERIF_HOOKS
void (*gandalf_verif_hook)(SimulationBase *, const char *) = 0;
static void on_hook(SimulationBase *, const char *point) {
  for (size_t q = 0; q < hookreqs.size(); q++) {
    HookReq &h = hookreqs[q];
    if (h.point != point) continue;
    h.seen++;
    if ((h.seen - 1) % h.every != 0 || h.written >= h.maxn) continue;
    h.written++;
    char b[256]; snprintf(b, 256, "%s%06d.dmp", h.prefix.c_str(), h.seen);
    if (hook_ndim == 1) hook_write<1>(h, b);
    else if (hook_ndim == 2) hook_write<2>(h, b);
    else hook_write<3>(h, b);
  }
}
#endif

static vector<double> read_raw(const string &fn) {
  FILE *f = fopen(fn.c_str(), "rb");
  if (!f) { fprintf(stderr, "gdrv: cannot open %s\n", fn.c_str()); exit(97); }
  fseek(f, 0, SEEK_END); long n = ftell(f)/8; rewind(f);
  vector<double> v(n);
  if (n && fread(v.data(), 8, n, f) != (size_t) n) exit(97);
  fclose(f);
  return v;
}

static void write_raw(const string &fn, const vector<double> &v) {
  FILE *f = fopen(fn.c_str(), "wb");
  if (!f) exit(97);
  fwrite(v.data(), 8, v.size(), f); fclose(f);
}

template <int ndim> int run_script(SimulationBase *sb, Parameters *params, istream &in) {
  Drv<ndim> drv(sb, params);
  Simulation<ndim> *sim = drv.sim;
  string line;
  hook_drv = &drv; hook_ndim = ndim;
#ifdef GANDALF_VERIF_HOOKS
  gandalf_verif_hook = on_hook;
#endif
  int nstep_total = 0;
  while (getline(in, line)) {
    istringstream ls(line);
    string cmd; ls >> cmd;
    if (cmd.empty() || cmd[0] == '#') continue;
    if (cmd == "prepython") sim->PreSetupForPython();
    else if (cmd == "array") { string ty, q, fn; ls >> ty >> q >> fn; vector<double> v = read_raw(fn); sim->ImportArray(v.data(), (int) v.size(), q, ty); }
    else if (cmd == "ptype") { // ptype file : particle types for python ICs, applied before setup
      string fn; ls >> fn; vector<double> v = read_raw(fn);
      for (size_t i = 0; i < v.size(); i++) sim->hydro->GetParticlePointer((int) i).ptype = (int) v[i]; }
    else if (cmd == "restart") { sim->restart = true; }
    else if (cmd == "setup") { sim->SetupSimulation(); fprintf(res, "{\"ev\":\"setup\"}\n"); }
    else if (cmd == "steps") { int n; ls >> n; for (int i = 0; i < n; i++) { sim->MainLoop(); nstep_total++; } fprintf(res, "{\"ev\":\"steps\",\"n\":%d,\"t\":%.17g}\n", nstep_total, sim->t); }
    else if (cmd == "until") { double t; int nmax; ls >> t >> nmax; int i = 0; while (sim->t < t && i < nmax) { sim->MainLoop(); i++; nstep_total++; } fprintf(res, "{\"ev\":\"until\",\"n\":%d,\"t\":%.17g}\n", i, sim->t); }
    else if (cmd == "toresync") { int nmax; ls >> nmax; int i = 0; do { sim->MainLoop(); i++; nstep_total++; } while (sim->n != sim->nresync && i < nmax); fprintf(res, "{\"ev\":\"toresync\",\"n\":%d,\"t\":%.17g,\"sync\":%d}\n", i, sim->t, sim->n == sim->nresync); }
    else if (cmd == "stepdump") { // stepdump N every prefix : dump after every step
      int n, every; string pre; ls >> n >> every >> pre; char b[256];
      for (int i = 0; i < n; i++) { sim->MainLoop(); nstep_total++; if ((i+1) % every == 0) { snprintf(b, 256, "%s%06d.dmp", pre.c_str(), i+1); drv.dump(b, false, false); } } }
    else if (cmd == "steptree") { int n, every; string pre; ls >> n >> every >> pre; char b[256];
      for (int i = 0; i < n; i++) { sim->MainLoop(); nstep_total++; if ((i+1) % every == 0) { snprintf(b, 256, "%s%06d.tree", pre.c_str(), i+1); drv.tree_dump(b, false); } } }
    else if (cmd == "steptrace") { int n; string fn; ls >> n >> fn; FILE *f = fopen(fn.c_str(), "w"); drv.trace_row(f);
      for (int i = 0; i < n; i++) { sim->MainLoop(); nstep_total++; drv.trace_row(f); } fclose(f); }
    else if (cmd == "hookdump") { // hookdump POINT every max prefix [ghosts]
      HookReq h; string o; ls >> h.point >> h.every >> h.maxn >> h.prefix >> o; h.seen = h.written = 0; h.kind = o == "ghosts" ? 3 : 0; hookreqs.push_back(h); }
    else if (cmd == "hooktree") { // hooktree POINT every max prefix [ghost]
      HookReq h; string o; ls >> h.point >> h.every >> h.maxn >> h.prefix >> o; h.seen = h.written = 0; h.kind = o == "ghost" ? 2 : 1; hookreqs.push_back(h); }
    else if (cmd == "nohooks") hookreqs.clear();
    else if (cmd == "dump") { string fn, o; bool g = false, dg = false; ls >> fn; while (ls >> o) { if (o == "ghosts") g = true; if (o == "diag") dg = true; } drv.dump(fn, g, dg); }
    else if (cmd == "tree") { string fn, o; ls >> fn >> o; bool ok = drv.tree_dump(fn, o == "ghost"); fprintf(res, "{\"ev\":\"tree\",\"ok\":%d}\n", (int) ok); }
    else if (cmd == "run") { int n = -1; ls >> n; if (!ls) n = -1; sim->Run(n); fprintf(res, "{\"ev\":\"run\",\"Nsteps\":%d,\"t\":%.17g,\"Noutsnap\":%d}\n", sim->Nsteps, sim->t, sim->Noutsnap); }
    else if (cmd == "output") { string s = sim->Output(); fprintf(res, "{\"ev\":\"output\",\"file\":\"%s\",\"t\":%.17g,\"Noutsnap\":%d}\n", s.c_str(), sim->t, sim->Noutsnap); }
    else if (cmd == "irun") { int n = -1; ls >> n; if (!ls) n = -1; list<SphSnapshotBase*> l = sim->InteractiveRun(n);
      fprintf(res, "{\"ev\":\"irun\",\"Nsteps\":%d,\"t\":%.17g,\"snaps\":[", sim->Nsteps, sim->t); bool first = true;
      for (auto q : l) { fprintf(res, "%s[%d,%d,%.17g]", first ? "" : ",", q->GetNTypes(), q->GetNparticlesType("default"), (double) q->t); first = false; }
      fprintf(res, "]}\n"); }
    else if (cmd == "outloop") { // outloop tmax nmax Nsnap : steps with output, as Run() does, until t>=tmax, nmax steps or Nsnap snapshots; one event per step
      double tm; int nmax, ns; ls >> tm >> nmax >> ns; int i = 0;
      while (sim->t < tm && i < nmax && sim->Noutsnap < ns) { sim->MainLoop(); string o = sim->Output(); i++; nstep_total++;
        fprintf(res, "{\"ev\":\"step\",\"Nsteps\":%d,\"t\":%.17g,\"timestep\":%.17g,\"Noutsnap\":%d,\"Noutlitesnap\":%d,\"tsnapnext\":%.17g,\"tlitesnapnext\":%.17g,\"n\":%d,\"nresync\":%d,\"Nblocksteps\":%d,\"file\":\"%s\"}\n",
          sim->Nsteps, sim->t, sim->timestep, sim->Noutsnap, sim->Noutlitesnap, sim->tsnapnext, sim->tlitesnapnext, sim->n, sim->nresync, sim->Nblocksteps, o.c_str()); }
      fprintf(res, "{\"ev\":\"outloop\",\"n\":%d,\"t\":%.17g}\n", i, sim->t); }
    else if (cmd == "writesnap") { string fn, fm; ls >> fn >> fm; bool ok = sim->WriteSnapshotFile(fn, fm); fprintf(res, "{\"ev\":\"writesnap\",\"ok\":%d}\n", (int) ok); }
    else if (cmd == "readsnap") { string fn, fm; ls >> fn >> fm; bool ok = sim->ReadSnapshotFile(fn, fm); fprintf(res, "{\"ev\":\"readsnap\",\"ok\":%d}\n", (int) ok); }
    else if (cmd == "convert") { sim->ConvertToCodeUnits(); }
    else if (cmd == "restartsnap") { sim->RestartSnapshot(); }
    else if (cmd == "setparamd") { string k; double v; ls >> k >> v; sim->SetParam(k, v); }
    else if (cmd == "setparami") { string k; int v; ls >> k >> v; sim->SetParam(k, v); }
    else if (cmd == "getparam") { string k; ls >> k; fprintf(res, "{\"getparam\":\"%s\",\"v\":\"%s\"}\n", k.c_str(), esc(sim->GetParam(k)).c_str()); }
    else if (cmd == "simparams") { dump_params(sim->simparams); }
    else if (cmd == "setparam") { string k, v; ls >> k >> v; sim->SetParam(k, v); }
    else if (cmd == "trace") { string fn; ls >> fn; FILE *f = fopen(fn.c_str(), "a"); drv.trace_row(f); fclose(f); }
    else if (cmd == "header") { string fn, fm; ls >> fn >> fm; HeaderInfo h = sim->ReadHeaderSnapshotFile(fn, fm);
      fprintf(res, "{\"ev\":\"header\",\"Nhydro\":%d,\"Nstar\":%d,\"ndim\":%d,\"t\":%.17g}\n", h.Nhydro, h.Nstar, h.ndim, (double) h.t); }
    else if (cmd == "kill") { int i; while (ls >> i) { Particle<ndim> &p = sim->hydro->GetParticlePointer(i); p.flags.set(dead); p.m = 0; } }
    else if (cmd == "deletedead") { int nd = sim->hydro->DeleteDeadParticles(); fprintf(res, "{\"ev\":\"deletedead\",\"n\":%d}\n", nd); }
    else if (cmd == "process") { sim->ProcessParameters(); }
    else if (cmd == "eoscall") { // rows: r v rho u p ionfrac ionstate
      string fi, fo; ls >> fi >> fo; vector<double> v = read_raw(fi); const int w = 2*ndim + 5; vector<double> o;
      EOS<ndim> *e = sim->hydro->eos;
      for (size_t b = 0; b + w <= v.size(); b += w) {
        EosParticleProxy<ndim> q;
        for (int k = 0; k < ndim; k++) { q.r[k] = v[b+k]; q.v[k] = v[b+ndim+k]; }
        const double *z = &v[b + 2*ndim];
        q.rho = z[0]; q.u = z[1]; q.p = z[2]; q.ionfrac = z[3]; q.ionstate = (int) z[4];
        StateVector<ndim> st; e->ConstructStateVector(q, st);
        double r[] = {e->Pressure(q), e->EntropicFunction(q), e->SoundSpeed(q), e->Temperature(q), e->SpecificInternalEnergy(q),
                      e->InternalEnergyFromPressure(q), st.Ucons.energy, st.sound_speed};
        o.insert(o.end(), r, r + 8);
      }
      write_raw(fo, o); fprintf(res, "{\"ev\":\"eos\",\"gamma\":%.17g,\"rows\":%zu}\n", (double) e->gamma, o.size()/8); }
    else if (cmd == "ewaldcall") { // rows: m dr -> acorr gpotcorr
      string fi, fo; ls >> fi >> fo; vector<double> v = read_raw(fi); vector<double> o;
      if (!sim->ewald) { fprintf(stderr, "gdrv: no ewald object\n"); exit(97); }
      for (size_t b = 0; b + ndim + 1 <= v.size(); b += ndim + 1) {
        FLOAT dr[ndim], a[ndim], g = 0; for (int k = 0; k < ndim; k++) { dr[k] = v[b+1+k]; a[k] = 0; }
        sim->ewald->CalculatePeriodicCorrection(v[b], dr, a, g);
        for (int k = 0; k < ndim; k++) o.push_back(a[k]);
        o.push_back(g);
      }
      write_raw(fo, o); fprintf(res, "{\"ev\":\"ewald\",\"rows\":%zu}\n", o.size()/(ndim+1)); }
    else if (cmd == "units") { // every unit's scale factors
      SimUnits &u = sim->simunits;
      struct { const char *n; SimUnit *u; } L[] = {{"r",&u.r},{"m",&u.m},{"t",&u.t},{"v",&u.v},{"a",&u.a},{"rho",&u.rho},{"sigma",&u.sigma},{"press",&u.press},
        {"f",&u.f},{"E",&u.E},{"mom",&u.mom},{"angmom",&u.angmom},{"angvel",&u.angvel},{"dmdt",&u.dmdt},{"L",&u.L},{"kappa",&u.kappa},{"B",&u.B},
        {"Q",&u.Q},{"Jcur",&u.Jcur},{"u",&u.u},{"dudt",&u.dudt},{"temp",&u.temp}};
      for (size_t i = 0; i < sizeof(L)/sizeof(L[0]); i++)
        fprintf(res, "{\"unit\":\"%s\",\"inscale\":%.17g,\"inSI\":%.17g,\"outscale\":%.17g,\"outSI\":%.17g,\"outcgs\":%.17g,\"inunit\":\"%s\",\"outunit\":\"%s\"}\n",
          L[i].n, L[i].u->inscale, L[i].u->inSI, L[i].u->outscale, L[i].u->outSI, L[i].u->outcgs, L[i].u->inunit.c_str(), L[i].u->outunit.c_str()); }
    else if (cmd == "unitconv") { // unitconv name string : SI value and output scale of a unit string
      string n, s; ls >> n >> s; SimUnits &u = sim->simunits; SimUnit *q = n=="r"?(SimUnit*)&u.r:n=="m"?(SimUnit*)&u.m:n=="t"?(SimUnit*)&u.t:n=="v"?(SimUnit*)&u.v:
        n=="rho"?(SimUnit*)&u.rho:n=="press"?(SimUnit*)&u.press:n=="E"?(SimUnit*)&u.E:n=="u"?(SimUnit*)&u.u:n=="a"?(SimUnit*)&u.a:n=="L"?(SimUnit*)&u.L:
        n=="dmdt"?(SimUnit*)&u.dmdt:n=="temp"?(SimUnit*)&u.temp:n=="sigma"?(SimUnit*)&u.sigma:n=="f"?(SimUnit*)&u.f:n=="mom"?(SimUnit*)&u.mom:
        n=="angmom"?(SimUnit*)&u.angmom:n=="angvel"?(SimUnit*)&u.angvel:n=="dudt"?(SimUnit*)&u.dudt:n=="kappa"?(SimUnit*)&u.kappa:n=="B"?(SimUnit*)&u.B:n=="Q"?(SimUnit*)&u.Q:(SimUnit*)&u.Jcur;
      fprintf(res, "{\"unitconv\":\"%s\",\"s\":\"%s\",\"SI\":%.17g,\"scale\":%.17g}\n", n.c_str(), s.c_str(), q->SIUnit(s), q->OutputScale(s)); }
    else if (cmd == "destroy") { delete sb; return 0; }
    else { fprintf(stderr, "gdrv: unknown command %s\n", cmd.c_str()); exit(97); }
  }
  return 0;
}

extern int unit_main(istream &in, FILE *res);

int main(int argc, char **argv) {
  if (argc < 2) return 97;
#ifdef MPI_PARALLEL
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &mpirank);
  ExceptionHandler::makeExceptionHandler(cplusplus);
  ExceptionHandler::set_mpi(1);
#else
  ExceptionHandler::makeExceptionHandler(cplusplus);
#endif
  ifstream in(argv[1]);
  if (!in) return 97;
  string rf = argc > 2 ? argv[2] : "result.jsonl";
  if (mpirank) { char b[16]; snprintf(b, 16, ".%d", mpirank); rf += b; }
  res = fopen(rf.c_str(), "w");
  setvbuf(res, 0, _IOLBF, 0);
  Parameters *params = new Parameters();
  string line;
  int rc = 0;
  while (getline(in, line)) {
    istringstream ls(line);
    string cmd; ls >> cmd;
    if (cmd.empty() || cmd[0] == '#') continue;
    if (cmd == "param") { string k, v; ls >> k; getline(ls, v); size_t p = v.find_first_not_of(' '); params->SetParameter(k, p == string::npos ? "" : v.substr(p)); }
    else if (cmd == "fparam") { string k; double v; ls >> k >> v; params->floatparams[k] = v; }
    else if (cmd == "paramfile") { string f; ls >> f; params->ReadParamsFile(f); }
    else if (cmd == "newparams") { params = new Parameters(); }
    else if (cmd == "record") { params->RecordParametersToFile(); }
    else if (cmd == "printparams") { dump_params(params); }
    else if (cmd == "sim") {
      int nd = params->intparams["ndim"];
      SimulationBase *sb = SimulationBase::SimulationFactory(nd, params->stringparams["sim"], params);
      if (nd == 1) rc = run_script<1>(sb, params, in);
      else if (nd == 2) rc = run_script<2>(sb, params, in);
      else rc = run_script<3>(sb, params, in);
    }
    else { fprintf(stderr, "gdrv: unknown command %s\n", cmd.c_str()); return 97; }
  }
  fprintf(res, "{\"ev\":\"done\"}\n");
  fclose(res);
#ifdef MPI_PARALLEL
  MPI_Finalize();
#endif
  return rc;
}
