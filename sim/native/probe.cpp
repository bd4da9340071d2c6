// Compiled into every node image with the repository's headers (-fno-access-control): turns a
// SimulationBase into a SimView and forwards the hook to the host.  Reads only.
#include <cstring>
#include <string>
#include <list>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include "Precision.h"
#include "Exception.h"
#include "Simulation.h"
#include "Parameters.h"
#include "Nbody.h"
#include "Sinks.h"
#include "Hydrodynamics.h"
#include "MeshlessFV.h"
#include "SphSnapshot.h"
#ifdef MPI_PARALLEL
#include "MpiControl.h"
#endif
#include "view.h"
using namespace std;

int gandalf_main(int, char**);
extern "C" int sim_main(int ac, char** av) { return gandalf_main(ac, av); }

static bool is_mfv(SimulationBase* s) {
  const string& k = s->simparams->stringparams["sim"];
  return k.find("meshless") != string::npos || k.find("mfv") != string::npos || k.find("mfm") != string::npos;
}

static bool is_gradh(SimulationBase* s) { const string& k = s->simparams->stringparams["sim"]; return k == "sph" || k == "gradhsph"; }

template <int ndim>
static void view_t(Simulation<ndim>* s, SimView* v) {
  v->Nhydro = s->hydro ? s->hydro->Nhydro : 0;
  v->Nhydromax = s->hydro ? s->hydro->Nhydromax : 0;
  v->Nstar = s->nbody ? s->nbody->Nstar : 0;
  v->Nnbody = s->nbody ? s->nbody->Nnbody : 0;
  v->Nsink = s->sinks ? s->sinks->Nsink : 0;
  v->mmean = s->hydro ? s->hydro->mmean : 0.0;
  for (int k=0; k<ndim; k++) { v->boxmin[k] = s->simbox.min[k]; v->boxmax[k] = s->simbox.max[k]; }
#ifdef MPI_PARALLEL
  if (s->mpicontrol && v->event != 1) {
    Box<ndim> b = s->mpicontrol->MyDomain();
    for (int k=0; k<ndim; k++) { v->dommin[k] = b.min[k]; v->dommax[k] = b.max[k]; }
  }
#endif
}

template <int ndim>
static void fill_t(Simulation<ndim>* s, double* H, double* S) {
  const bool mfv = is_mfv(s);
  if (s->hydro) for (int i=0; i<s->hydro->Nhydro; i++) {
    Particle<ndim>& p = s->hydro->GetParticlePointer(i);
    double* c = H + (size_t) i*HYDRO_COLS;
    memset(c, 0, HYDRO_COLS*sizeof(double));
    c[0]=p.iorig; c[1]=p.ptype; c[2]=(double) p.flags.get(); c[3]=p.sinkid; c[4]=p.levelneib;
    c[5]=p.nstep; c[6]=p.nlast; c[7]=p.level;
    for (int k=0; k<ndim; k++) { c[44+k]=p.atree[k]; c[8+k]=p.r[k]; c[11+k]=p.v[k]; c[14+k]=p.a[k]; c[33+k]=p.r0[k]; }
    c[17]=p.m; c[18]=p.h; c[19]=p.rho; c[20]=p.u; c[21]=p.dt; c[22]=p.dt_next; c[23]=p.tlast; c[24]=p.gpot;
    if (mfv) {
      MeshlessFVParticle<ndim>& q = static_cast<MeshlessFVParticle<ndim>&>(p);
      for (int k=0; k<ndim+2 && k<5; k++) c[25+k] = q.Qcons0[k];
      c[40] = q.invomega; c[42] = q.zeta; c[43] = q.ndens;
    }
    else {
      SphParticle<ndim>& q = static_cast<SphParticle<ndim>&>(p);
      c[25] = q.div_v; c[38] = q.alpha; c[39] = q.dalphadt; c[41] = q.pressure;
      if (is_gradh(s)) { GradhSphParticle<ndim>& g = static_cast<GradhSphParticle<ndim>&>(p); c[40] = g.invomega; c[42] = g.zeta; }
    }
    c[30]=p.dudt; c[31]=p.flags.is_dead() ? 1.0 : 0.0; c[32]=p.u0; c[36]=i; c[37]=p.sound;
  }
  if (s->nbody) for (int i=0; i<s->nbody->Nstar; i++) {
    StarParticle<ndim>& p = s->nbody->stardata[i];
    double* c = S + (size_t) i*STAR_COLS;
    memset(c, 0, STAR_COLS*sizeof(double));
    for (int k=0; k<ndim; k++) { c[k]=p.r[k]; c[3+k]=p.v[k]; c[6+k]=p.a[k]; }
    c[9]=p.m; c[10]=p.h; c[11]=p.radius; c[12]=p.nstep; c[13]=p.nlast; c[14]=p.level; c[15]=p.tlast;
    c[16]=p.dt; c[17]=p.dt_next; c[25]=p.Ncomp; c[26]=p.gpot;
    if (s->sinks && i < s->sinks->Nsink) {
      c[18]=s->sinks->sink[i].radius; for (int k=0; k<3; k++) c[19+k]=s->sinks->sink[i].angmom[k];
      c[22]=s->sinks->sink[i].menc; c[23]=s->sinks->sink[i].Ngas; c[24]=1.0;
    }
  }
}

static void fill(void* p, double* H, double* S) {
  SimulationBase* s = (SimulationBase*) p;
  if (s->ndims == 1) fill_t(static_cast<Simulation<1>*>(s), H, S);
  else if (s->ndims == 2) fill_t(static_cast<Simulation<2>*>(s), H, S);
  else fill_t(static_cast<Simulation<3>*>(s), H, S);
}

extern "C" void gandalf_sim_hook(int event, SimulationBase* s) {
  SimView v; memset(&v, 0, sizeof v);
  v.ndim=s->ndims; v.rank=s->rank; v.event=event; v.restart=s->restart; v.Nsteps=s->Nsteps; v.n=s->n;
  v.nresync=s->nresync; v.Nblocksteps=s->Nblocksteps; v.Nfullsteps=s->Nfullsteps; v.level_max=s->level_max;
  v.level_step=s->level_step; v.Nlevels=s->Nlevels; v.integration_step=s->integration_step;
  v.level_diff_max=s->level_diff_max; v.Noutsnap=s->Noutsnap; v.Noutlitesnap=s->Noutlitesnap;
  v.nlastrestart=s->nlastrestart; v.kill=s->kill_simulation; v.ismfv=is_mfv(s);
  v.dimensionless=s->simunits.dimensionless; v.hydro_single=s->hydro_single_timestep;
  v.t=s->t; v.timestep=s->timestep; v.dt_max=s->dt_max; v.tend=s->tend; v.tsnapnext=s->tsnapnext;
  v.tsnaplast=s->tsnaplast; v.tlitesnapnext=s->tlitesnapnext; v.tlitesnaplast=s->tlitesnaplast;
  v.dt_snap=s->dt_snap; v.dt_litesnap=s->dt_litesnap; v.dt_min_hydro=s->dt_min_hydro;
  v.sr=s->simunits.r.outscale; v.sm=s->simunits.m.outscale; v.st=s->simunits.t.outscale;
  v.sv=s->simunits.v.outscale; v.su=s->simunits.u.outscale; v.srho=s->simunits.rho.outscale;
  v.rin=s->simunits.r.inscale; v.min_=s->simunits.m.inscale; v.tin=s->simunits.t.inscale;
  v.vin=s->simunits.v.inscale; v.uin=s->simunits.u.inscale; v.rhoin=s->simunits.rho.inscale;
  if (s->ndims == 1) view_t(static_cast<Simulation<1>*>(s), &v);
  else if (s->ndims == 2) view_t(static_cast<Simulation<2>*>(s), &v);
  else view_t(static_cast<Simulation<3>*>(s), &v);
  sim_host_event(&v, s, fill);
}

// Drives the public simulation API the way the interactive front-end does: set up, then a list of
// calls.  op 'I' n = InteractiveRun(n), op 'R' n = Run(n).  Every snapshot object handed back is
// reported through `snap`, one call per species.
typedef void (*snap_fn)(int call, int idx, const char* file, double t, const char* species, int n, int ncol,
                        const double* const* cols, const char* const* names);
typedef void (*call_fn)(int call, int op, int arg, double t, int Nsteps, int finished);

extern "C" int probe_drive(const char* paramfile, int restart, int nops, const char* ops, const int* args,
                           double dt_python, int max_calls, snap_fn snap, call_fn call_end) {
#ifndef MPI_PARALLEL
  Parameters* params = new Parameters();
  ExceptionHandler::makeExceptionHandler(cplusplus);
  params->ReadParamsFile(paramfile);
  params->RecordParametersToFile();
  SimulationBase* sim = SimulationBase::SimulationFactory(params->intparams["ndim"], params->stringparams["sim"], params);
  sim->restart = restart;
  if (dt_python > 0.0) sim->dt_python = dt_python;
  sim->SetupSimulation();
  int calls = 0, i = 0;
  while (calls < max_calls && sim->t < sim->tend && sim->Nsteps < sim->Nstepsmax) {
    char op = ops[i]; int a = args[i];
    i = (i + 1) % nops;   // cycle until the end time is reached
    if (op == 'R') sim->Run(a);
    else {
      list<SphSnapshotBase*> l = sim->InteractiveRun(a);
      int idx = 0;
      for (list<SphSnapshotBase*>::iterator it = l.begin(); it != l.end(); ++it, ++idx) {
        SphSnapshotBase* sn = *it;
        for (int k=0; k<sn->GetNTypes(); k++) {
          string sp = sn->GetSpecies(k);
          const char* want[5] = {"x", "vx", "m", "h", "iorig"};
          const double* cols[5]; const char* names[5]; int nc = 0, np = sn->GetNparticlesType(sp);
          for (int w=0; w<5; w++) {
            if (want[w] == string("iorig") && sp == "star") continue;
            double* out = NULL; int sz = 0; double sc = 1.0;
            sn->ExtractArray(want[w], sp, &out, &sz, sc, "default");
            if (out && sz == np) { cols[nc] = out; names[nc++] = want[w]; }
          }
          snap(calls, idx, sn->filename.c_str(), sn->t, sp.c_str(), np, nc, cols, names);
        }
      }
    }
    call_end(calls, op, a, sim->t, sim->Nsteps, !(sim->t < sim->tend && sim->Nsteps < sim->Nstepsmax));
    calls++;
  }
  delete sim;
  delete params;
  return calls;
#else
  return -1;
#endif
}
