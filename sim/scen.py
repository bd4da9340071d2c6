"""Small physical set-ups the simulated programs run.

A scenario is a JSON-able dict: {"fam": name, "p": parameters, "ic": None | file-generator arguments}.  Every family is a
function of a random.Random; sizes are chosen so that one run takes a fraction of a second."""
import os, random
import numpy as np
import snapfmt

BASE = {"run_id": "RUN", "dimensionless": 1, "noutputstep": 100000, "ndiagstep": 100000, "nrestartstep": 100000,
        "tabulated_kernel": 0, "Nleafmax": 6, "h_converge": 0.01, "ntreebuildstep": 1, "ntreestockstep": 1}


def _box(p, nd, lo, hi, kind="periodic"):
    for k in range(nd):
        p["boxmin[%d]" % k], p["boxmax[%d]" % k] = lo, hi
        p["boundary_lhs[%d]" % k] = p["boundary_rhs[%d]" % k] = kind


def _common(r, p, tree=True):
    if tree:
        p["neib_search"] = r.choice(["kdtree", "kdtree", "octtree", "bruteforce"])
        if p["neib_search"] == "octtree" and "dust_forces" in p:
            p["neib_search"] = "kdtree"
    p["Nleafmax"] = r.choice([6, 8]) if p.get("neib_search") == "octtree" else r.choice([1, 4, 6, 8])
    if r.random() < 0.2:
        p["tabulated_kernel"] = 1
    if r.random() < 0.3:
        p["kernel"] = r.choice(["m4", "quintic"]) if p.get("_quintic") else "m4"
    p.pop("_quintic", None)
    if r.random() < 0.25 and p["sim"] in ("gradhsph", "sph"):
        p["ntreebuildstep"] = r.choice([2, 4])
        p["ntreestockstep"] = 1
    return p


def f_box(r):
    nd = r.choice([1, 2, 2, 3])
    n = {1: r.choice([32, 64]), 2: 16, 3: 10}[nd]
    p = dict(BASE, sim="gradhsph", ic="box", ndim=nd, particle_distribution=r.choice(["random", "cubic_lattice"]),
             gas_eos=r.choice(["isothermal", "energy_eqn"]), press1=1.0, rhofluid1=1.0, hydro_forces=1)
    if nd == 3:
        p["particle_distribution"] = "cubic_lattice"
    for k in range(3):
        p["Nlattice1[%d]" % k] = n
    p["Nhydro"] = n ** nd
    _box(p, nd, 0.0, 1.0, r.choice(["periodic", "periodic", "mirror"]))
    if r.random() < 0.6:
        p["Nlevels"] = r.choice([2, 3, 5])
    _common(r, p)
    return p, None, {1: 0.2, 2: 0.08, 3: 0.12}[nd]


def f_soundwave(r):
    p = dict(BASE, sim=r.choice(["gradhsph", "gradhsph", "mfvmuscl"]), ic="soundwave", ndim=1, press1=1.0,
             rhofluid1=1.0, amp=0.01, Nhydro=r.choice([32, 48, 64]), gas_eos=r.choice(["isothermal", "energy_eqn"]), gamma_eos=1.6666666)
    if p["sim"] == "mfvmuscl":
        p["gas_eos"] = "energy_eqn"
    _box(p, 1, 0.0, 1.0)
    _common(r, p)
    return p, None, 0.3


def f_sod(r):
    p = dict(BASE, sim=r.choice(["gradhsph", "gradhsph", "mfvmuscl"]), ic="shocktube", ndim=1, press1=1.0, press2=0.1975,
             rhofluid1=1.0, rhofluid2=0.25, gas_eos="energy_eqn", gamma_eos=1.4)
    p["Nlattice1[0]"], p["Nlattice2[0]"] = 64, 16
    p["zero_mass_flux"] = r.choice([0, 1])
    _box(p, 1, -2.0, 2.0)
    _common(r, p)
    p["Nlevels"] = r.choice([1, 2, 3, 4])
    if p["sim"] == "gradhsph":
        p["sph_integration"] = "lfkdk" if p["Nlevels"] > 1 else r.choice(["lfkdk", "lfdkd"])
    return p, None, 0.6


def f_sedov(r):
    p = dict(BASE, sim=r.choice(["gradhsph", "gradhsph", "mfvmuscl"]), ic="sedov", ndim=2, press1=1.0, rhofluid1=1.0,
             particle_distribution="hexagonal_lattice", smooth_ic=1, gas_eos="energy_eqn", gamma_eos=1.66666666, courant_mult=0.15,
             accel_mult=0.15, energy_mult=0.2, Nlevels=r.choice([1, 3, 5, 8]), level_diff_max=r.choice([1, 2, 20]))
    p["Nlattice1[0]"] = p["Nlattice1[1]"] = 16
    p["zero_mass_flux"] = r.choice([0, 1])
    p["boxmin[0]"], p["boxmax[0]"], p["boxmin[1]"], p["boxmax[1]"] = -0.5, 0.5, -0.433, 0.433
    for k in range(2):
        p["boundary_lhs[%d]" % k] = p["boundary_rhs[%d]" % k] = "periodic"
    _common(r, p)
    return p, None, 0.006


def f_khi(r):
    p = dict(BASE, sim=r.choice(["gradhsph", "mfvmuscl"]), ic="khi", ndim=2, press1=2.5, press2=2.5, rhofluid1=1.0,
             rhofluid2=2.0, amp=0.1, gas_eos="energy_eqn", gamma_eos=1.66666666)
    p["vfluid1[0]"], p["vfluid2[0]"], p["lambda"] = -0.5, 0.5, 0.5
    p["Nlattice1[0]"], p["Nlattice1[1]"], p["Nlattice2[0]"], p["Nlattice2[1]"] = 16, 8, 16, 8
    p["Nlevels"] = r.choice([1, 3])
    p["zero_mass_flux"] = r.choice([0, 1])
    _box(p, 2, -0.5, 0.5)
    _common(r, p)
    return p, None, 0.08


def f_freefall(r):
    p = dict(BASE, sim=r.choice(["gradhsph", "gradhsph", "mfvmuscl"]), ic="sphere", ndim=3, Nhydro=r.choice([100, 160]),
             particle_distribution=r.choice(["random", "cubic_lattice"]), mcloud=1.0, radius=1.0, self_gravity=1,
             hydro_forces=r.choice([0, 1]), gas_eos="energy_eqn", gamma_eos=1.6666666, press1=0.1, rhofluid1=1.0,
             multipole=r.choice(["monopole", "quadrupole", "fast_monopole"]), Nlevels=r.choice([1, 1, 3]))
    if p["sim"] == "mfvmuscl":
        p["hydro_forces"] = 1
    _common(r, p)
    return p, None, 0.4


def f_plummer(r):
    p = dict(BASE, sim="nbody", ic="plummer", ndim=3, Nhydro=0, Nstar=r.choice([12, 20, 32]), starfrac=1.0, gasfrac=0.0, rplummer=1.0,
             mplummer=1.0, rstar=0.01, radius=10.0, nbody=r.choice(["lfkdk", "lfdkd", "hermite4", "hermite4ts", "hermite6ts"]),
             com_frame=1, nbody_softening=1, Npec=r.choice([1, 2]), nbody_mult=0.1)
    p["Nlevels"] = r.choice([1, 3, 6])
    return p, None, 1.0


def f_binary(r):
    p = dict(BASE, sim="nbody", ic=r.choice(["binary", "triple", "quadruple"]), ndim=3, abin=1.0, abin2=0.1, ebin=0.1, m1=0.5, m2=0.5,
             nbody=r.choice(["lfkdk", "hermite4", "hermite4ts"]), nbody_softening=0, nbody_mult=0.1, Nlevels=1)
    return p, None, {"binary": 1.5, "triple": 0.5, "quadruple": 0.2}[p["ic"]]


def f_hybrid(r):
    p = dict(BASE, sim="gradhsph", ic="plummer", ndim=3, mplummer=1.0, rplummer=1.0, radius=10.0, rstar=0.01, starfrac=0.5, gasfrac=0.5,
             Nhydro=100, Nstar=10, com_frame=1, gas_eos="energy_eqn", gamma_eos=1.6666666, self_gravity=1,
             nbody=r.choice(["lfkdk", "hermite4", "hermite4ts"]), nbody_softening=1, Nlevels=r.choice([1, 3]), Npec=2,
             sph_single_timestep=r.choice([0, 1]))
    _common(r, p)
    return p, None, 0.3


def f_sinks(r):
    """collapsing cloud in physical units; gas is turned into sinks and accreted"""
    p = dict(BASE, sim=r.choice(["gradhsph", "gradhsph", "mfvmuscl"]), ic="bb", ndim=3, Nhydro=r.choice([150, 220]), particle_distribution="hexagonal_lattice",
             mcloud=1.0, radius=0.01037, angvel=1.6e-12, amp=0.5, com_frame=1, dimensionless=0, routunit="pc", moutunit="m_sun",
             toutunit="myr", voutunit="km_s", rhooutunit="g_cm3", tempoutunit="K", uoutunit="J_kg", angveloutunit="rad_s",
             gas_eos="barotropic", gamma_eos=1.6666666, eta_eos=1.4, temp0=10.0, mu_bar=2.35, rho_bary=1.0e-14, self_gravity=1,
             avisc="mon97", nbody="lfkdk", sink_particles=1, create_sinks=1, nbody_softening=1,
             smooth_accretion=r.choice([0, 1]), smooth_accrete_frac=0.05, smooth_accrete_dt=0.05, sink_radius_mode=r.choice(["hmult", "hmult", "fixed"]),
             sink_radius=2.0, rho_sink=r.choice([2.0e-17, 5e-17]), courant_mult=0.2, accel_mult=0.4, energy_mult=0.5, nbody_mult=0.2,
             Nlevels=r.choice([1, 4]), level_diff_max=2, thetamaxsqd=0.15, multipole="fast_monopole")
    if p["sink_radius_mode"] == "fixed":
        p["sink_radius"] = 0.001
    _common(r, p)
    return p, None, 0.03


def f_dustbox(r):
    p = dict(BASE, sim="sph", ic="dustybox", ndim=r.choice([2, 2, 3]), press1=1.0, rhofluid1=1.0, particle_distribution="cubic_lattice",
             gas_eos="energy_eqn", gamma_eos=1.6666666, dust_forces=r.choice(["full_twofluid", "full_twofluid", "test_particle"]), drag_law="fixed", drag_coeff=1.0, dust_mass_factor=1)
    n = 12 if p["ndim"] == 2 else 10
    p["vfluid1[0]"], p["vfluid2[0]"] = 0.0, 1.0
    p["Nlattice1[0]"] = p["Nlattice1[1]"] = p["Nlattice1[2]"] = n
    _box(p, p["ndim"], -0.5, 0.5)
    _common(r, p)
    if p["ndim"] == 3 and p["neib_search"] == "bruteforce":
        p["neib_search"] = "kdtree"
    return p, None, 0.15 if p["ndim"] == 2 else 0.06


def f_dustwave(r):
    p = dict(BASE, sim="sph", ic="soundwave", ndim=1, press1=1.0, rhofluid1=1.0, amp=1e-2, Nhydro=32, gas_eos="isothermal",
             dust_forces="full_twofluid", drag_law="LP2012", drag_coeff=1.0, dust_mass_factor=0.1)
    _box(p, 1, 0.0, 1.0)
    _common(r, p)
    return p, None, 0.3


def f_accrete(r):
    """existing sinks inside gas read from a file: accretion from the first step"""
    mfv = r.random() < 0.25
    nd = 3
    p = dict(BASE, sim="mfvmuscl" if mfv else "gradhsph", ic="file", in_file="ic.su", in_file_form="su", ndim=nd,
             gas_eos=r.choice(["isothermal", "energy_eqn"]) if not mfv else "energy_eqn", gamma_eos=1.6666666, self_gravity=1,
             nbody=r.choice(["lfkdk", "lfkdk", "lfdkd"]), sink_particles=1, create_sinks=0, nbody_softening=1,
             smooth_accretion=r.choice([0, 1]), smooth_accrete_frac=r.choice([0.01, 0.05]), smooth_accrete_dt=0.05,
             sink_radius_mode="fixed", sink_radius=0.3, rho_sink=1.0e4, Nlevels=r.choice([1, 1, 3]), courant_mult=0.2, accel_mult=0.3, Npec=2, nbody_mult=0.2,
             multipole=r.choice(["monopole", "quadrupole", "fast_monopole"]), temp0=1.0, mu_bar=1.0)
    ic = {"kind": "gas+sinks", "seed": r.randrange(10**6), "n": r.choice([120, 200]), "ns": r.choice([1, 2, 2, 3]), "nd": nd,
          "rsink": r.choice([0.15, 0.25]), "ms": r.choice([0.3, 1.0]), "cs2": r.choice([0.05, 0.3]), "open": 1}
    p["gas_eos"] = "energy_eqn"
    _common(r, p)
    return p, ic, 0.25


def f_swallow(r):
    """large sinks, overlapping or not, each with many particles inside"""
    p, ic, tend = f_accrete(r)
    ic.update(n=r.choice([500, 900]), ns=r.choice([2, 3, 4]), rsink=r.choice([0.35, 0.6, 0.7]), ms=r.choice([0.3, 1.0]), cs2=0.3, relax=1)
    p["sim"] = "gradhsph"
    p["sink_radius"] = ic["rsink"]
    p["neib_search"] = "kdtree"
    p["smooth_accretion"] = r.choice([0, 1, 1])
    return p, ic, 0.05


def f_edgesinks(r):
    """sinks close to the edges of a periodic or mirrored box filled with gas"""
    nd = r.choice([2, 3, 3])
    p = dict(BASE, sim=r.choice(["gradhsph", "gradhsph", "gradhsph", "mfvmuscl"]), ic="file", in_file="ic.su", in_file_form="su", ndim=nd, gas_eos="energy_eqn", gamma_eos=1.6666666,
             nbody="lfkdk", sink_particles=1, create_sinks=0, nbody_softening=1, self_gravity=r.choice([0, 0, 1]),
             smooth_accretion=r.choice([0, 0, 1]), smooth_accrete_frac=r.choice([0.01, 0.05]), smooth_accrete_dt=0.05,
             sink_radius_mode="fixed", rho_sink=1.0e4, Nlevels=r.choice([1, 1, 3]), courant_mult=0.1, accel_mult=0.2, nbody_mult=0.1, temp0=1.0, mu_bar=1.0)
    if nd == 2:
        p["self_gravity"] = 0
    rs = r.choice([0.16, 0.2, 0.35] if nd == 3 else [0.12, 0.2, 0.3])
    p["sink_radius"] = rs
    _box(p, nd, 0.0, 1.0)
    if r.random() < 0.3:
        for k in range(nd):
            if r.random() < 0.6 and not p["self_gravity"]:
                p["boundary_lhs[%d]" % k] = p["boundary_rhs[%d]" % k] = "mirror"
    ic = {"kind": "box+sinks", "seed": r.randrange(10**6), "n": 10 if nd == 3 else 18, "ns": r.choice([1, 2, 3]), "nd": nd, "rsink": rs, "ms": r.choice([0.05, 0.3]), "cs2": 0.3}
    _common(r, p)
    if r.random() < 0.5:
        p["neib_search"] = "kdtree"
    return p, ic, 0.06


def f_dustmix(r):
    """gas with a different number of dust particles read from a file, types interleaved in memory as the file orders them"""
    p = dict(BASE, sim="sph", ic="file", in_file="ic.su", in_file_form="su", ndim=2, gas_eos="energy_eqn", gamma_eos=1.6666666,
             dust_forces=r.choice(["full_twofluid", "test_particle"]), drag_law="fixed", drag_coeff=1.0)
    _box(p, 2, 0.0, 1.0)
    ic = {"kind": "mix", "seed": r.randrange(10**6), "n": 20, "nd": 2, "ndust": r.choice([12, 16])}
    _common(r, p)
    return p, ic, 0.08


def f_ewald(r):
    """self-gravity in a periodic box (Ewald sums)"""
    p = dict(BASE, sim=r.choice(["gradhsph", "gradhsph", "mfvmuscl"]), ic="jeans", ndim=3, press1=1.0, rhofluid1=1.0, amp=0.025, particle_distribution="cubic_lattice",
             gas_eos="energy_eqn", gamma_eos=1.6666666, temp0=0.05, hydro_forces=1, self_gravity=1, nEwaldGrid=8, EFratio=1.4, courant_mult=0.1, accel_mult=0.2)
    for k in range(3):
        p["Nlattice1[%d]" % k] = 10
    _box(p, 3, 0.0, 1.0)
    _common(r, p)
    p["neib_search"] = "kdtree"
    return p, None, 0.02


def f_gresho(r):
    p = dict(BASE, sim=r.choice(["gradhsph", "mfvmuscl"]), ic="gresho", ndim=2, gas_eos="energy_eqn", gamma_eos=1.6666666, hydro_forces=1,
             time_dependent_avisc=r.choice(["none", "mm97", "cd2010"]), courant_mult=0.15, accel_mult=0.3, energy_mult=0.5)
    p["Nlattice1[0]"] = p["Nlattice1[1]"] = 16
    _box(p, 2, -0.5, 0.5)
    _common(r, p)
    return p, None, 0.06


def f_evrard(r):
    p = dict(BASE, sim=r.choice(["gradhsph", "gradhsph", "mfvmuscl"]), ic="evrard", ndim=3, Nhydro=r.choice([120, 200]), particle_distribution="hexagonal_lattice", mcloud=1.0, radius=1.0,
             thermal_energy=0.05, gas_eos="energy_eqn", gamma_eos=1.6666666, self_gravity=1, hydro_forces=1, Nlevels=r.choice([1, 3, 5]), level_diff_max=2,
             thetamaxsqd=0.15, multipole=r.choice(["monopole", "quadrupole", "fast_monopole", "fast_quadrupole"]), gravity_mac=r.choice(["geometric", "gadget2", "eigenmac"]))
    _common(r, p)
    return p, None, 0.25


def f_noh(r):
    p = dict(BASE, sim="gradhsph", ic="noh", ndim=2, press1=1e-4, rhofluid1=1.0, radius=1.0, Nhydro=250, particle_distribution="hexagonal_lattice", gas_eos="energy_eqn",
             gamma_eos=1.6666666, acond="wadsley2008", courant_mult=0.1, accel_mult=0.1, Nlevels=r.choice([1, 4]), h_converge=0.02)
    for k in range(3):
        p["Nlattice1[%d]" % k] = 18
    p["boxmin[0]"] = p["boxmin[1]"] = -1.0
    p["boxmax[0]"] = p["boxmax[1]"] = 1.0
    _common(r, p)
    return p, None, 0.12


def f_disc(r):
    """gas disc around a star with a planet"""
    p = dict(BASE, sim="gradhsph", ic="disc", ndim=2, Nhydro=200, gas_eos="disc_locally_isothermal", gamma_eos=1.66, courant_mult=0.2, accel_mult=0.4, energy_mult=0.5,
             sink_particles=1, rho_sink=1.0e4, nbody="lfkdk", self_gravity=0, smooth_accretion=0, Nlevels=1)
    _common(r, p)
    return p, None, 0.4


def f_mfvdust(r):
    p = dict(BASE, sim="mfvmuscl", ic="dustybox", ndim=2, press1=1.0, rhofluid1=1.0, particle_distribution="cubic_lattice", gas_eos="energy_eqn", gamma_eos=1.6666666,
             dust_forces=r.choice(["full_twofluid", "test_particle"]), drag_law="fixed", drag_coeff=3.0, dust_mass_factor=1)
    p["vfluid1[0]"], p["vfluid2[0]"] = -0.5, 0.5
    p["Nlattice1[0]"] = p["Nlattice1[1]"] = p["Nlattice1[2]"] = 12
    _box(p, 2, -0.5, 0.5)
    _common(r, p)
    return p, None, 0.1


def f_subsys(r):
    """hierarchical stars integrated with sub-systems"""
    p = dict(BASE, sim="nbody", ic=r.choice(["binary", "quadruple", "plummer"]), ndim=3, abin=1.0, abin2=0.1, ebin=0.1, m1=0.5, m2=0.5, nbody=r.choice(["lfkdk", "hermite4"]),
             sub_systems=1, sub_system_integration=r.choice(["lfkdk", "hermite4"]), nbody_softening=0, nbody_mult=0.1, nsystembuildstep=1, gpefrac=0.05, Nlevels=1,
             Nhydro=0, Nstar=16, starfrac=1.0, gasfrac=0.0, rplummer=1.0, mplummer=1.0, rstar=0.01, radius=10.0)
    return p, None, {"binary": 1.5, "quadruple": 0.2, "plummer": 0.6}[p["ic"]]


def spice(r, p):
    """swarm variation: optional physics and numerics on top of a family, each switched on in a fraction of the runs"""
    mfv = "mfv" in p["sim"]
    if p["sim"] == "nbody":
        return
    def opt(q, k, *v):
        if r.random() < q:
            p[k] = r.choice(v)
    if mfv:
        opt(0.3, "riemann_solver", "exact", "hllc")
        opt(0.3, "slope_limiter", "gizmo", "springel2009", "tess2011", "balsara2004", "zeroslope")
        opt(0.2, "time_step_limiter", "none", "conservative")
    else:
        opt(0.25, "time_dependent_avisc", "mm97", "cd2010")
        if p.get("gas_eos") == "energy_eqn":
            opt(0.2, "acond", "wadsley2008", "price2008")
    if p.get("self_gravity"):
        opt(0.3, "gravity_mac", "geometric", "gadget2", "eigenmac")
        opt(0.2, "grav_kernel", "mean_h", "mean_grav")
    if p["ic"] != "box" and not (p["ndim"] == 3 and "boxmin[0]" in p):      # a larger kernel would not fit into these small boxes
        opt(0.15, "h_fac", 1.1, 1.3)
    opt(0.15, "rand_algorithm", "none", "xorshift")


FAMILIES = {f.__name__[2:]: f for f in (f_box, f_soundwave, f_sod, f_sedov, f_khi, f_freefall, f_plummer, f_binary, f_hybrid, f_sinks,
                                        f_dustbox, f_dustwave, f_accrete, f_dustmix, f_ewald, f_gresho, f_evrard,
                                        f_noh, f_disc, f_mfvdust, f_subsys)}

EXTRA = {"swallow": f_swallow, "edgesinks": f_edgesinks}          # drawn only by the checks that name them


def make_ic(ic):
    rs = np.random.RandomState(ic["seed"])
    nd = ic["nd"]
    if ic["kind"] == "gas+sinks":
        n = ic["n"]
        pts = []
        while len(pts) < n:
            x = rs.uniform(-1, 1, nd)
            if (x ** 2).sum() < 1:
                pts.append(x)
        r = np.array(pts)
        # spread the points out a little so that none coincide
        for _ in range(ic.get("relax", 15)):
            d = r[:, None, :] - r[None, :, :]
            q = (d ** 2).sum(-1) + np.eye(n)
            f = (d / q[..., None] ** 1.5)
            for i in range(n):
                f[i, i] = 0
            r = r + 0.002 * f.sum(1) / n ** 0.33
        v = rs.normal(0, 0.05, (n, nd))
        m = np.full(n, 1.0 / n)
        h = np.full(n, 1.2 * (4.19 / n) ** (1.0 / 3))
        u = np.full(n, ic["cs2"])
        ns = ic["ns"]
        ang = np.arange(ns) * 2 * np.pi / ns + rs.uniform(0, 6)
        d = 0.0 if ns == 1 else 0.45
        sr = np.stack([d * np.cos(ang), d * np.sin(ang), np.zeros(ns)], 1)[:, :nd]
        sv = np.stack([-0.4 * np.sin(ang), 0.4 * np.cos(ang), np.zeros(ns)], 1)[:, :nd]
        rad = np.full(ns, ic["rsink"])
        return snapfmt.write_su(nd, r, v, m, h, m / h ** 3, u, (0, n, 0, 0), (sr, sv, np.full(ns, ic["ms"] / ns), rad / 2, rad))
    if ic["kind"] == "box+sinks":
        n, ns = ic["n"], ic["ns"]
        a = (np.arange(n) + 0.5) / n
        r = np.stack(np.meshgrid(*([a] * nd), indexing="ij"), -1).reshape(-1, nd)
        r = np.mod(r + rs.normal(0, 0.1 / n, r.shape), 1.0)
        v = rs.normal(0, 0.1, r.shape)
        m = np.full(len(r), 1.0 / len(r))
        sr = rs.uniform(0.3, 0.7, (ns, nd))
        for s in range(ns):
            for k in range(nd):
                q = rs.uniform()
                if k == s % nd or q < 0.4:
                    sr[s, k] = rs.choice([0.0, 1.0]) + (1 if q < 0.2 else -1) * 0.0
                    sr[s, k] = abs(sr[s, k] - rs.uniform(0.01, 0.12))
        sv = rs.normal(0, 0.1, (ns, nd))
        rad = np.full(ns, ic["rsink"])
        return snapfmt.write_su(nd, r, v, m, np.full(len(r), 1.2 / n), np.full(len(r), 1.0), np.full(len(r), ic["cs2"]), (0, len(r), 0, 0),
                                (sr, sv, np.full(ns, ic["ms"] / ns), rad / 2, rad))
    if ic["kind"] == "mix":
        def lat(n, off):
            a = (np.arange(n) + off) / n
            g = np.stack(np.meshgrid(*([a] * nd), indexing="ij"), -1).reshape(-1, nd)
            return np.mod(g + rs.normal(0, 0.05 / n, g.shape), 1.0)
        g, d = lat(ic["n"], 0.5), lat(ic["ndust"], 0.3)
        r = np.concatenate([g, d])
        v = rs.normal(0, 0.1, r.shape)
        m = np.concatenate([np.full(len(g), 1.0 / len(g)), np.full(len(d), 0.1 / len(d))])
        h = np.concatenate([np.full(len(g), 1.2 / ic["n"]), np.full(len(d), 1.2 / ic["ndust"])])
        rho = np.concatenate([np.full(len(g), 1.0), np.full(len(d), 0.1)])
        u = np.concatenate([np.full(len(g), 1.5), np.zeros(len(d))])
        return snapfmt.write_su(nd, r, v, m, h, rho, u, (0, len(g), 0, len(d)))
    raise ValueError(ic["kind"])


def draw(r, fams=None, nsnap=None, tscale=1.0, **kw):
    """one scenario"""
    fam = r.choice(list(fams or FAMILIES))
    p, ic, tend = (FAMILIES.get(fam) or EXTRA[fam])(r)
    if r.random() < 0.5:
        spice(r, p)
    tend *= tscale
    n = nsnap or r.choice([3, 4, 5, 6, 8])
    p["tend"] = tend
    p["dt_snap"] = tend / n * r.choice([1.0, 1.0, 0.97, 1.1])
    p["tsnapfirst"] = r.choice([0.0, p["dt_snap"], 0.3 * p["dt_snap"]])
    p.update(kw)
    return {"fam": fam, "p": p, "ic": ic}


def setup(sc, s, name="p.dat", **over):
    p = dict(s["p"])
    p.update(over)
    with open(sc.path(name), "w") as f:
        for k in sorted(p):
            f.write("parameter : %s = %s\n" % (k, repr(p[k]) if isinstance(p[k], float) else p[k]))
    if s.get("ic"):
        with open(sc.path("ic.su"), "wb") as f:
            f.write(make_ic(s["ic"]))
