// Unit-level driver: calls single numerical components (kernels, Riemann solvers, slope limiters, random numbers,
// shock-tube solution) of the code under test on given inputs and records what they return.
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <cmath>
#include "Exception.h"
#include "Parameters.h"
#include "SmoothingKernel.h"
#include "RiemannSolver.h"
#include "SlopeLimiter.h"
#include "Particle.h"
#include "RandomNumber.h"
#include "Ewald.h"
using namespace std;
#ifdef GANDALF_VERIF_HOOKS
class SimulationBase;
void (*gandalf_verif_hook)(SimulationBase *, const char *) = 0;
#endif

static vector<double> rd(const string &fn) {
  FILE *f = fopen(fn.c_str(), "rb");
  if (!f) { fprintf(stderr, "gunit: cannot open %s\n", fn.c_str()); exit(97); }
  fseek(f, 0, SEEK_END); long n = ftell(f)/8; rewind(f);
  vector<double> v(n);
  if (n && fread(v.data(), 8, n, f) != (size_t) n) exit(97);
  fclose(f);
  return v;
}
static void wr(const string &fn, const vector<double> &v) {
  FILE *f = fopen(fn.c_str(), "wb");
  if (!f) exit(97);
  fwrite(v.data(), 8, v.size(), f); fclose(f);
}

template <class K> static void kern_eval(K &k, const vector<double> &s, vector<double> &out) {
  for (size_t i = 0; i < s.size(); i++) {
    double q = s[i];
    double v[] = {k.w0(q), k.w1(q), k.womega(q), k.wzeta(q), k.wgrav(q), k.wpot(q),
                  k.w0_s2(q*q), k.womega_s2(q*q), k.wzeta_s2(q*q)};
    out.insert(out.end(), v, v + 9);
  }
}
// drag kernel is normalised numerically by the tabulated kernel; the line-of-sight kernel exists only there
template <int nd> static void kernel(const string &name, int tab, const vector<double> &s, vector<double> &out, const string &ex) {
  SmoothingKernel<nd> *b;
  if (tab) {
    TabulatedKernel<nd> *t = new TabulatedKernel<nd>(name);
    b = t;
    out.push_back(b->kernrange); out.push_back(b->invkernrange); out.push_back(b->kernrangesqd); out.push_back(b->kernnorm);
    kern_eval(*t, s, out);
    vector<double> o2;
    for (size_t i = 0; i < s.size(); i++) { o2.push_back(t->wdrag(s[i])); o2.push_back(t->wLOS(s[i])); }
    wr(ex, o2);
  } else {
    if (name == "m4") { M4Kernel<nd> *t = new M4Kernel<nd>(name); b = t; }
    else if (name == "quintic") { QuinticKernel<nd> *t = new QuinticKernel<nd>(name); b = t; }
    else { GaussianKernel<nd> *t = new GaussianKernel<nd>(name); b = t; }
    out.push_back(b->kernrange); out.push_back(b->invkernrange); out.push_back(b->kernrangesqd); out.push_back(b->kernnorm);
    kern_eval(*b, s, out);
    vector<double> o2;
    for (size_t i = 0; i < s.size(); i++) { o2.push_back(b->wdrag(s[i])); o2.push_back(0.0); }
    wr(ex, o2);
  }
}

template <int nd> static void riemann(const string &name, double gamma, int zmf, int iso, const vector<double> &in, vector<double> &out) {
  ExactRiemannSolver<nd> ex(gamma, zmf != 0);
  HllcRiemannSolver<nd> hl(gamma, zmf != 0, iso != 0);
  const int w = 2*(nd+2) + 2*nd;
  for (size_t b = 0; b + w <= in.size(); b += w) {
    FLOAT Wl[nd+2], Wr[nd+2], n[nd], vf[nd], flux[nd+2][nd];
    const double *p = &in[b];
    for (int i = 0; i < nd+2; i++) { Wl[i] = p[i]; Wr[i] = p[nd+2+i]; }
    for (int i = 0; i < nd; i++) { n[i] = p[2*(nd+2)+i]; vf[i] = p[2*(nd+2)+nd+i]; }
    if (name == "exact") ex.ComputeFluxes(Wl, Wr, n, vf, flux);
    else if (name == "hllcs") {                  // state-vector interface (ideal gas or isothermal states built here)
      StateVector<nd> S[2];
      for (int q = 0; q < 2; q++) {
        const FLOAT *W = q ? Wr : Wl;
        S[q].Wprim.density = S[q].Ucons.density = W[nd]; S[q].Wprim.pressure = W[nd+1];
        S[q].Ucons.energy = iso ? W[nd+1] : W[nd+1]/(gamma - 1.0);
        for (int i = 0; i < nd; i++) { S[q].Wprim.velocity[i] = W[i]; S[q].Ucons.momentum[i] = W[nd]*W[i]; S[q].Ucons.energy += 0.5*W[nd]*W[i]*W[i]; }
        S[q].sound_speed = sqrt((iso ? 1.0 : gamma)*W[nd+1]/W[nd]);
      }
      hl.ComputeFluxes(S[0], S[1], n, vf, flux);
    }
    else hl.ComputeFluxes(Wl, Wr, n, vf, flux);
    for (int i = 0; i < nd+2; i++) for (int k = 0; k < nd; k++) out.push_back(flux[i][k]);
    for (int k = 0; k < nd; k++) out.push_back(vf[k]);
  }
}

// rows: pl pr dl dr ul ur s -> pstar ustar p d u
static void star(double gamma, const vector<double> &in, vector<double> &out) {
  ExactRiemannSolver<1> ex(gamma, false);
  for (size_t b = 0; b + 7 <= in.size(); b += 7) {
    const double *q = &in[b];
    double cl = sqrt(gamma*q[0]/q[2]), cr = sqrt(gamma*q[1]/q[3]);
    FLOAT ps = -1, us = 0, p = -1, d = -1, u = 0;
    ex.ComputeStarRegion(q[0], q[1], q[2], q[3], cl, cr, q[4], q[5], ps, us);
    if (ps >= 0.0) ex.SampleExactSolution(ps, us, q[6], q[0], q[1], q[2], q[3], cl, cr, q[4], q[5], p, d, u);
    double v[] = {ps, us, p, d, u};
    out.insert(out.end(), v, v + 5);
  }
}

template <int nd, class L> static void limit(L &lim, const vector<double> &in, vector<double> &out) {
  // input: sets of  Nneib, then (1+Nneib) particles of  r W grad h
  const int w = nd + (nd+2) + (nd+2)*nd + 1;
  size_t b = 0;
  while (b < in.size()) {
    int nn = (int) in[b++];
    vector<MeshlessFVParticle<nd> > ps(nn + 1);
    for (int i = 0; i <= nn; i++, b += w) {
      const double *q = &in[b];
      for (int k = 0; k < nd; k++) ps[i].r[k] = q[k];
      for (int v = 0; v < nd+2; v++) ps[i].Wprim[v] = q[nd+v];
      for (int v = 0; v < nd+2; v++) for (int k = 0; k < nd; k++) ps[i].grad[v][k] = q[nd + nd+2 + v*nd + k];
      ps[i].h = q[w-1];
      for (int v = 0; v < nd+2; v++) ps[i].alpha_slope[v] = 1.0;
    }
    vector<MeshlessFVParticle<nd> > ng(ps.begin() + 1, ps.end());
    lim.CellLimiter(ps[0], ng);
    for (int v = 0; v < nd+2; v++) out.push_back(ps[0].alpha_slope[v]);
    for (int j = 0; j < nn; j++) {
      FLOAT dr[nd], gW[nd+2][nd], dW[nd+2];
      for (int k = 0; k < nd; k++) dr[k] = 0.5*(ng[j].r[k] - ps[0].r[k]);
      lim.ComputeLimitedSlopes(ps[0], ng[j], dr, gW, dW);
      for (int v = 0; v < nd+2; v++) out.push_back(dW[v]);
      for (int v = 0; v < nd+2; v++) for (int k = 0; k < nd; k++) out.push_back(gW[v][k]);
    }
  }
}
template <int nd> static void limiter(const string &name, int edge, const vector<double> &in, vector<double> &out) {
  if (name == "null") { NullLimiter<nd> l; limit<nd>(l, in, out); }
  else if (name == "zeroslope") { ZeroSlopeLimiter<nd> l; limit<nd>(l, in, out); }
  else if (name == "tvdscalar") { TVDScalarLimiter<nd> l(edge != 0); limit<nd>(l, in, out); }
  else if (name == "scalar") { ScalarLimiter<nd> l(edge != 0); limit<nd>(l, in, out); }
  else if (name == "springel2009") { Springel2009Limiter<nd> l(edge != 0); limit<nd>(l, in, out); }
  else if (name == "gizmo") { GizmoLimiter<nd> l; limit<nd>(l, in, out); }
  else exit(97);
}
template <int nd> static void visc(double ns, double nb, const vector<double> &in, vector<double> &out) {
  ViscousFlux<nd> v(ns, nb);
  const int w = 2*(nd+2) + 2*nd*nd;
  for (size_t b = 0; b + w <= in.size(); b += w) {
    FLOAT Wl[nd+2], Wr[nd+2], gl[nd+2][nd], gr[nd+2][nd], fl[nd+2][nd];
    for (int i = 0; i < nd+2; i++) { Wl[i] = in[b+i]; Wr[i] = in[b+nd+2+i]; for (int k = 0; k < nd; k++) fl[i][k] = 0; }
    for (int i = 0; i < nd; i++) for (int k = 0; k < nd; k++) { gl[i][k] = in[b+2*(nd+2)+i*nd+k]; gr[i][k] = in[b+2*(nd+2)+nd*nd+i*nd+k]; }
    v.ComputeViscousFlux(Wl, Wr, gl, gr, fl);
    for (int i = 0; i < nd+2; i++) for (int k = 0; k < nd; k++) out.push_back(fl[i][k]);
  }
}

#define ND(call1, call2, call3) do { if (nd == 1) call1; else if (nd == 2) call2; else call3; } while (0)

int main(int argc, char **argv) {
  if (argc < 2) return 97;
  ExceptionHandler::makeExceptionHandler(cplusplus);
  ifstream in(argv[1]);
  if (!in) return 97;
  FILE *res = fopen(argc > 2 ? argv[2] : "result.jsonl", "w");
  setvbuf(res, 0, _IOLBF, 0);
  string line;
  while (getline(in, line)) {
    istringstream ls(line);
    string cmd, name, fi, fo, fx; int nd = 0, a = 0, b = 0; double g = 0, g2 = 0;
    ls >> cmd;
    if (cmd.empty() || cmd[0] == '#') continue;
    vector<double> out;
    if (cmd == "kernel") { ls >> nd >> name >> a >> fi >> fo >> fx; vector<double> s = rd(fi);
      ND(kernel<1>(name, a, s, out, fx), kernel<2>(name, a, s, out, fx), kernel<3>(name, a, s, out, fx)); wr(fo, out); }
    else if (cmd == "riemann") { ls >> nd >> name >> g >> a >> b >> fi >> fo; vector<double> s = rd(fi);
      ND(riemann<1>(name, g, a, b, s, out), riemann<2>(name, g, a, b, s, out), riemann<3>(name, g, a, b, s, out)); wr(fo, out); }
    else if (cmd == "star") { ls >> g >> fi >> fo; star(g, rd(fi), out); wr(fo, out); }
    else if (cmd == "shock") { // shock rhol rhor vl vr pl pr xl x0 xr t n gamma out
      double q[10]; int n; for (int i = 0; i < 10; i++) ls >> q[i]; ls >> n >> g >> fo;
      ShocktubeSolution s(q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8], q[9], n, g);
      const char *names[] = {"x", "rho", "vx", "press", "u"};
      for (int v = 0; v < 5; v++) {
        vector<double> o(n);
#ifdef GANDALF_SNAPSHOT_SINGLE_PRECISION
        vector<float> f(n); s.ComputeShocktubeSolution(names[v], f.data(), n); for (int i = 0; i < n; i++) o[i] = f[i];
#else
        s.ComputeShocktubeSolution(names[v], o.data(), n);
#endif
        out.insert(out.end(), o.begin(), o.end());
      }
      wr(fo, out); }
    else if (cmd == "limiter") { ls >> nd >> name >> a >> fi >> fo; vector<double> s = rd(fi);
      ND(limiter<1>(name, a, s, out), limiter<2>(name, a, s, out), limiter<3>(name, a, s, out)); wr(fo, out); }
    else if (cmd == "visc") { ls >> nd >> g >> g2 >> fi >> fo; vector<double> s = rd(fi);
      ND(visc<1>(g, g2, s, out), visc<2>(g, g2, s, out), visc<3>(g, g2, s, out)); wr(fo, out); }
    else if (cmd == "rand") { // rand xorshift|default seed n out : floats, gaussians
      ls >> name >> a >> b >> fo;
      RandomNumber *r = name == "xorshift" ? (RandomNumber *) new XorshiftRand(a) : (RandomNumber *) new DefaultSystemRand(a);
      for (int i = 0; i < b; i++) out.push_back(r->floatrand());
      for (int i = 0; i < b; i++) out.push_back(r->doublerand());
      for (int i = 0; i < b; i++) out.push_back((double) r->intrand());
      for (int i = 0; i < b; i++) out.push_back(r->gaussrand(0.0, 1.0));
      for (int i = 0; i < b; i++) out.push_back(r->gaussrand(3.0, 0.5));
      wr(fo, out); }
    else { fprintf(stderr, "gunit: unknown command %s\n", cmd.c_str()); return 97; }
    fprintf(res, "{\"ev\":\"%s\",\"n\":%zu}\n", cmd.c_str(), out.size());
  }
  fprintf(res, "{\"ev\":\"done\"}\n");
  fclose(res);
  return 0;
}
