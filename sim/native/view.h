// Plain-data view of one simulation object, filled by probe.cpp (compiled inside the node image,
// against the repository's own headers) and consumed by the host (the simulator).
#pragma once
#include <stdint.h>

enum { HYDRO_COLS = 48, STAR_COLS = 28 };

// Columns of one hydro row (doubles):
//  0 iorig 1 ptype 2 flags 3 sinkid 4 levelneib 5 nstep 6 nlast 7 level
//  8-10 r  11-13 v  14-16 a  17 m 18 h 19 rho 20 u 21 dt 22 dt_next 23 tlast 24 gpot
//  25-29 Qcons (rho v v v E order of the code; div_v in 25 for SPH) 30 dudt 31 is_dead 32 u0
//  33-35 r0 36 index 37 sound 38 alpha 39 dalphadt (SPH) 40 invomega 41 pressure 42 zeta 43 ndens (MFV)
//  44-46 atree 47 spare
// Columns of one star row:
//  0-2 r 3-5 v 6-8 a 9 m 10 h 11 radius 12 nstep 13 nlast 14 level 15 tlast 16 dt 17 dt_next
//  18 sink radius 19-21 sink angmom 22 sink menc 23 sink Ngas 24 has_sink 25 Ncomp 26 gpot 27 spare
struct SimView {
  int32_t ndim, rank, event, restart, Nsteps, n, nresync, Nblocksteps;
  int32_t Nfullsteps, level_max, level_step, Nlevels, integration_step, level_diff_max, Noutsnap, Noutlitesnap;
  int32_t nlastrestart, kill, Nhydro, Nstar, Nsink, ismfv, Nnbody, dimensionless;
  int32_t hydro_single, Nhydromax, spare_i[6];
  double t, timestep, dt_max, tend, tsnapnext, tsnaplast, tlitesnapnext, tlitesnaplast;
  double dt_snap, dt_litesnap, mmean, sr, sm, st, sv, su;
  double srho, rin, min_, tin, vin, uin, rhoin, dt_min_hydro;
  double boxmin[3], boxmax[3], dommin[3], dommax[3], spare_d[4];
};

typedef void (*fill_fn)(void* sim, double* hydro_rows, double* star_rows);

extern "C" void sim_host_event(SimView* v, void* sim, fill_fn fill);
