From b3b7c2ae00dec139a86ffdc89bb481c0e953663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:12 +0000
Subject: [PATCH 01/56] Add simulation test hooks, compiled only with
 GANDALF_SIM_HOOKS

---
 src/Common/Simulation.cpp |  9 +++++++++
 src/Headers/SimHooks.h    | 28 ++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+)
 create mode 100644 src/Headers/SimHooks.h

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index b6b3711..a744f6c 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -32,6 +32,7 @@
 #include "Precision.h"
 #include "Exception.h"
 #include "Debug.h"
+#include "SimHooks.h"
 #include "Simulation.h"
 #include "Parameters.h"
 #include "InlineFuncs.h"
@@ -398,7 +399,9 @@ void SimulationBase::Run
    CodeTiming::BlockTimer timer = timing->StartNewTimer("RUN");
 
     MainLoop();
+    GANDALF_SIM_HOOK(sim_hook_step, this);
     Output();
+    GANDALF_SIM_HOOK(sim_hook_output, this);
 
     // Special condition to check if maximum wall-clock time has been reached.
     if (kill_simulation || timing->RunningTime() > 0.95*tmax_wallclock) {
@@ -410,6 +413,7 @@ void SimulationBase::Run
 
   }
   //-----------------------------------------------------------------------------------------------
+  GANDALF_SIM_HOOK(sim_hook_end, this);
 
   FinaliseSimulation();
   CalculateDiagnostics();
@@ -460,12 +464,14 @@ list<SphSnapshotBase*> SimulationBase::InteractiveRun
 
     // Evolve the simulation one step
     MainLoop();
+    GANDALF_SIM_HOOK(sim_hook_step, this);
 
     // Update all diagnostics (including binaries) here for now
     if (t >= tsnapnext) CalculateDiagnostics();
 
     // Call output routine
     filename = Output();
+    GANDALF_SIM_HOOK(sim_hook_output, this);
 
     // If we have written a snapshot, create a new snapshot object
     if (filename.length() != 0) {
@@ -668,6 +674,7 @@ void SimulationBase::SetupSimulation(void)
   // Generate initial conditions for simulation on root process (for MPI jobs)
   if (rank == 0) {
     GenerateIC();
+    GANDALF_SIM_HOOK(sim_hook_ic, this);
   }
 
 #ifdef MPI_PARALLEL
@@ -686,9 +693,11 @@ void SimulationBase::SetupSimulation(void)
   // Perform the rest of the initialisation, calculating all initial particle
   // quantities and setting up trees.
   PostInitialConditionsSetup();
+  GANDALF_SIM_HOOK(sim_hook_setup, this);
 
   // Initial output before simulation begins
   Output();
+  GANDALF_SIM_HOOK(sim_hook_setup_output, this);
 
   return;
 }
diff --git a/src/Headers/SimHooks.h b/src/Headers/SimHooks.h
new file mode 100644
index 0000000..0b3cf12
--- /dev/null
+++ b/src/Headers/SimHooks.h
@@ -0,0 +1,28 @@
+//=================================================================================================
+//  SimHooks.h
+//  Optional observation points for external simulation test harnesses.  They expand to nothing
+//  unless the code is compiled with -DGANDALF_SIM_HOOKS, in which case the harness must provide
+//  the function gandalf_sim_hook.
+//=================================================================================================
+#ifndef _SIM_HOOKS_H_
+#define _SIM_HOOKS_H_
+
+#ifdef GANDALF_SIM_HOOKS
+class SimulationBase;
+
+enum SimHookEvent {
+  sim_hook_ic = 1,                     // Initial conditions generated or restart snapshot read
+  sim_hook_setup = 2,                  // Set-up complete, before the initial output
+  sim_hook_setup_output = 3,           // Initial output complete
+  sim_hook_step = 4,                   // One integration step complete, before any output
+  sim_hook_output = 5,                 // Output of the current step complete
+  sim_hook_end = 6                     // Main loop finished
+};
+
+extern "C" void gandalf_sim_hook(int event, SimulationBase* sim);
+#define GANDALF_SIM_HOOK(event, sim) gandalf_sim_hook(event, sim)
+#else
+#define GANDALF_SIM_HOOK(event, sim)
+#endif
+
+#endif
-- 
2.43.0


From 346d066ccfec3259c07a739ee8f1d214feada585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 02/56] fix: replace the restart log and temporary restart
 snapshot in one step

A crash while either was being rewritten in place left no usable restart point.
---
 src/Common/Simulation.cpp | 56 ++++++++++++++++++++++++++-------------
 src/Headers/Simulation.h  |  1 +
 2 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index a744f6c..fa89c9e 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -507,12 +507,9 @@ list<SphSnapshotBase*> SimulationBase::InteractiveRun
 //=================================================================================================
 string SimulationBase::Output(void)
 {
-  string filename;                  // 'Lite' output snapshot filename
-  string filename2;                 // Regular output snapshot filename
+  string filename;                  // Output snapshot filename
   string nostring;                  // String of number of snapshots
-  string fileend;                   // Name of restart file
   stringstream ss;                  // Stream object for preparing filename
-  ofstream outfile;                 // Stream of restart file
 
   debug2("[SimulationBase::Output]");
   CodeTiming::BlockTimer timer = timing->StartNewTimer("OUTPUT");
@@ -564,12 +561,7 @@ string SimulationBase::Output(void)
     // Now write name and format of snapshot to file (for restarts)
     if (rank == 0) {
 
-      fileend = "restart";
-      filename2 = run_id + "." + fileend;
-      outfile.open(filename2.c_str());
-      outfile << out_file_form << endl;
-      outfile << filename << endl;
-      outfile.close();
+      WriteRestartRecord(filename);
 
       // Finally, calculate wall-clock time interval since last output snapshot
       if (tsnap_wallclock > 0.0) dt_snap_wall = timing->RunningTime() - tsnap_wallclock;
@@ -615,24 +607,50 @@ string SimulationBase::Output(void)
 void SimulationBase::RestartSnapshot(void)
 {
   string filename;                     // Temporary output snapshot filename
-  string filename2;                    // Restart log filename
-  stringstream ss;                     // Stream object for preparing filename
-  ofstream outfile;                    // Stream of restart file
+  string newfilename;                  // Name of snapshot while it is being written
 
   debug2("[SimulationBase::RestartSnapshot]");
 
-  // Prepare filename for new snapshot
+  // Prepare filename for new snapshot.  The last restart log may refer to the previous temporary
+  // snapshot, so this is only replaced once the new one has been completely written.
   filename = run_id + "." + out_file_form + ".tmp";
-  ss.str(std::string());
-  WriteSnapshotFile(filename,out_file_form);
+  newfilename = filename + ".new";
+  WriteSnapshotFile(newfilename,out_file_form);
 
   // Now write name and format of snapshot to file (for restarts)
-  filename2 = run_id + ".restart";
-  outfile.open(filename2.c_str());
+  if (rank == 0) {
+    if (rename(newfilename.c_str(), filename.c_str()) == 0) WriteRestartRecord(filename);
+    else cout << "Error writing temporary snapshot : " << filename << endl;
+  }
+
+  return;
+}
+
+
+
+//=================================================================================================
+//  SimulationBase::WriteRestartRecord
+/// Write the restart log file, containing the format and filename of the given snapshot.  The
+/// previous log is replaced in one step, so there is always a complete log once one is written.
+//=================================================================================================
+void SimulationBase::WriteRestartRecord
+ (const string &snapname)              ///< [in] Filename of snapshot to restart from
+{
+  string filename;                     // Restart log filename
+  string newfilename;                  // Name of restart log while it is being written
+  ofstream outfile;                    // Stream of restart log
+
+  filename = run_id + ".restart";
+  newfilename = filename + ".new";
+  outfile.open(newfilename.c_str());
   outfile << out_file_form << endl;
-  outfile << filename << endl;
+  outfile << snapname << endl;
   outfile.close();
 
+  if (outfile.fail() || rename(newfilename.c_str(), filename.c_str()) != 0) {
+    cout << "Error writing restart log : " << filename << endl;
+  }
+
   return;
 }
 
diff --git a/src/Headers/Simulation.h b/src/Headers/Simulation.h
index 84eaee4..1537acd 100644
--- a/src/Headers/Simulation.h
+++ b/src/Headers/Simulation.h
@@ -125,6 +125,7 @@ class SimulationBase
   list<SphSnapshotBase*> InteractiveRun(int=-1);
   string Output(void);
   void RestartSnapshot(void);
+  void WriteRestartRecord(const string &);
   void Run(int=-1);
   void SetParam(string key, string value);
   void SetParam(string key, int value);
-- 
2.43.0


From 3e878261ecd0e45dd6f4f162d1925f87a54c056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 03/56] fix: allow a star to have every gas particle as
 neighbour

With Nneibmax = Ntot the last leaf cells could never be added, so the caller
doubled the gravity cell buffer until memory ran out.
---
 src/Tree/HydroTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Tree/HydroTree.cpp b/src/Tree/HydroTree.cpp
index 9d6ff30..292068d 100644
--- a/src/Tree/HydroTree.cpp
+++ b/src/Tree/HydroTree.cpp
@@ -590,7 +590,7 @@ void HydroTree<ndim,ParticleType>::UpdateAllStarGasForces
     int Ndirect;                                 // No. of direct-sum gravity particles
     int Ngravcell;                               // No. of gravity cells
     int Nneib;                                   // No. of neighbours
-    int Nneibmax = Ntot; //Nneibmaxbuf[ithread];
+    int Nneibmax = Ntot + Nleafmax;              // Max. no. of neighbours (plus one leaf cell)
     int Ngravcellmax = Ngravcellmaxbuf[ithread]; // ..
     FLOAT macfactor;                             // Gravity MAC factor
     int* neiblist = new int[Nneibmax];           // ..
-- 
2.43.0


From 8b60940d61c66252212a1668032961d4777895fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 04/56] fix: set the octree root cell bounding box before using
 it

The computed particle bounding box was never stored, so the first tree was
built from uninitialised memory.
---
 src/Tree/OctTree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index 9aadf5e..089cec3 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -281,6 +281,10 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
   for (k=0; k<ndim; k++) celldata[0].cexit[0][k] = -1;
   for (k=0; k<ndim; k++) celldata[0].cexit[1][k] = -1;
   for (k=0; k<ndim; k++) celldata[0].v[k]= (FLOAT) 0.0;
+  if (Npart > 0) {
+    for (k=0; k<ndim; k++) celldata[0].bb.min[k] = bbmin[k];
+    for (k=0; k<ndim; k++) celldata[0].bb.max[k] = bbmax[k];
+  }
   for (k=0; k<ndim; k++) {
     celldata[0].rcentre[k] = (FLOAT) 0.5*(celldata[0].bb.min[k] + celldata[0].bb.max[k]);
     cellSize = max(cellSize, celldata[0].bb.max[k] - celldata[0].rcentre[k]);
-- 
2.43.0


From 6cf9877c95a3baca11fbd0b3ef69088be6f760a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:23 +0000
Subject: [PATCH 05/56] fix: only record snapshots for restarting once
 completely written

Errors while writing a snapshot (e.g. a full disk) were ignored and the
incomplete file became the restart point.
---
 src/Common/Simulation.cpp   | 11 +++++++----
 src/Common/SimulationIO.hpp |  8 ++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index fa89c9e..da51d1d 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -510,6 +510,7 @@ string SimulationBase::Output(void)
   string filename;                  // Output snapshot filename
   string nostring;                  // String of number of snapshots
   stringstream ss;                  // Stream object for preparing filename
+  bool written;                     // Flag if snapshot has been completely written
 
   debug2("[SimulationBase::Output]");
   CodeTiming::BlockTimer timer = timing->StartNewTimer("OUTPUT");
@@ -556,12 +557,13 @@ string SimulationBase::Output(void)
     nostring = ss.str();
     filename = run_id + '.' + out_file_form + '.' + nostring;
     ss.str(std::string());
-    WriteSnapshotFile(filename,out_file_form);
+    written = WriteSnapshotFile(filename,out_file_form);
 
     // Now write name and format of snapshot to file (for restarts)
     if (rank == 0) {
 
-      WriteRestartRecord(filename);
+      if (written) WriteRestartRecord(filename);
+      else cout << "Error writing snapshot : " << filename << endl;
 
       // Finally, calculate wall-clock time interval since last output snapshot
       if (tsnap_wallclock > 0.0) dt_snap_wall = timing->RunningTime() - tsnap_wallclock;
@@ -608,6 +610,7 @@ void SimulationBase::RestartSnapshot(void)
 {
   string filename;                     // Temporary output snapshot filename
   string newfilename;                  // Name of snapshot while it is being written
+  bool written;                        // Flag if snapshot has been completely written
 
   debug2("[SimulationBase::RestartSnapshot]");
 
@@ -615,11 +618,11 @@ void SimulationBase::RestartSnapshot(void)
   // snapshot, so this is only replaced once the new one has been completely written.
   filename = run_id + "." + out_file_form + ".tmp";
   newfilename = filename + ".new";
-  WriteSnapshotFile(newfilename,out_file_form);
+  written = WriteSnapshotFile(newfilename,out_file_form);
 
   // Now write name and format of snapshot to file (for restarts)
   if (rank == 0) {
-    if (rename(newfilename.c_str(), filename.c_str()) == 0) WriteRestartRecord(filename);
+    if (written && rename(newfilename.c_str(), filename.c_str()) == 0) WriteRestartRecord(filename);
     else cout << "Error writing temporary snapshot : " << filename << endl;
   }
 
diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index 05ea562..8e1de0d 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -536,7 +536,7 @@ bool Simulation<ndim>::WriteColumnSnapshotFile(string filename)
 
   outfile.close();
 
-  return true;
+  return !outfile.fail();
 }
 #endif
 
@@ -1230,7 +1230,7 @@ bool Simulation<ndim>::WriteSerenFormSnapshotFile
   // Close file
   outfile.close();
 
-  return true;
+  return !outfile.fail();
 }
 
 
@@ -2249,7 +2249,7 @@ bool Simulation<ndim>::WriteSerenUnformSnapshotFile(string filename)
 
   outfile.close();
 
-  return true;
+  return !outfile.fail();
 }
 #endif
 
@@ -2494,7 +2494,7 @@ bool Simulation<ndim>::WriteSerenLiteSnapshotFile(string filename)
 
   outfile.close();
 
-  return true;
+  return !outfile.fail();
 }
 
 
-- 
2.43.0


From 659dd9ef68ab43b64398e7f53b61b4bc2836c941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 06/56] fix: stop if a snapshot file cannot be completely read

A missing, truncated or unreadable snapshot was silently used as initial
conditions, with uninitialised or zero particle data.
---
 src/Common/SimulationIO.hpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index 8e1de0d..86e4b49 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -55,6 +55,23 @@ struct Ptype_info
     int Ntot_type ;
 };
 
+//=================================================================================================
+//  CheckSnapshotRead
+/// Raise an exception if any data could not be read from a snapshot file (e.g. if the file does
+/// not exist, is incomplete or due to a read error).
+//=================================================================================================
+static void CheckSnapshotRead
+ (const ifstream& infile,              ///< [in] Input file stream
+  const string& filename)              ///< [in] Name of input snapshot file
+{
+  if (infile.fail()) {
+    ExceptionHandler::getIstance().raise("Could not read all data from snapshot file : " + filename);
+  }
+  return;
+}
+
+
+
 //=================================================================================================
 //  SimulationBase::ReadSnapshotFile
 /// Read snapshot file with specified filename and format.
@@ -78,7 +95,7 @@ bool SimulationBase::ReadSnapshotFile
     return ReadSerenUnformSnapshotFile(filename);
   }
   else {
-    cout << "Unrecognised file format" << endl;
+    ExceptionHandler::getIstance().raise("Unrecognised file format : " + fileform);
     return false;
   }
 
@@ -147,6 +164,7 @@ HeaderInfo SimulationBase::ReadHeaderSnapshotFile
   else {
     ExceptionHandler::getIstance().raise("Unrecognised file format");
   }
+  CheckSnapshotRead(infile, filename);
 
   return info;
 }
@@ -203,6 +221,7 @@ bool Simulation<ndim>::ReadColumnSnapshotFile
   infile.open(filename.c_str());
 
   ReadColumnHeaderFile(infile, info);
+  CheckSnapshotRead(infile, filename);
   t = info.t;
   tsnaplast = t;
 
@@ -257,7 +276,7 @@ bool Simulation<ndim>::ReadColumnSnapshotFile
     i++;
   }
 
-
+  CheckSnapshotRead(infile, filename);
   infile.close();
 
   return true;
@@ -666,6 +685,7 @@ bool Simulation<ndim>::ReadSerenFormSnapshotFile(string filename)
   for (i=0; i<50; i++) infile >> ilpdata[i];
   for (i=0; i<50; i++) infile >> rdata[i];
   for (i=0; i<50; i++) infile >> ddata[i];
+  CheckSnapshotRead(infile, filename);
 
   hydro->Nhydro      = idata[0];
   nbody->Nstar   = idata[1];
@@ -730,6 +750,7 @@ bool Simulation<ndim>::ReadSerenFormSnapshotFile(string filename)
              >> typedata[i][2] >> typedata[i][3] >> typedata[i][4];
     }
   }
+  CheckSnapshotRead(infile, filename);
 
   // Allocate memory now we know particle numbers
   AllocateParticleMemory();
@@ -918,6 +939,7 @@ bool Simulation<ndim>::ReadSerenFormSnapshotFile(string filename)
   }
 
   // Close file
+  CheckSnapshotRead(infile, filename);
   infile.close();
 
   return true;
@@ -1381,6 +1403,7 @@ bool Simulation<ndim>::ReadSerenUnformSnapshotFile(string filename)
     for (int i=0; i<50; i++) reader.read_value(ddata[i]);
     t = ddata[0];
   }
+  CheckSnapshotRead(infile, filename);
 
   // Variables that should be remembered for restarts
   if (restart) {
@@ -1413,6 +1436,7 @@ bool Simulation<ndim>::ReadSerenUnformSnapshotFile(string filename)
   for (int i=0; i<ndata; i++) {
     for (int j=0; j<5; j++) reader.read_value(typedata[i][j]);
   }
+  CheckSnapshotRead(infile, filename);
 
   // Allocate memory now we know particle numbers
   AllocateParticleMemory();
@@ -1573,6 +1597,7 @@ bool Simulation<ndim>::ReadSerenUnformSnapshotFile(string filename)
     }
   }
 
+  CheckSnapshotRead(infile, filename);
   infile.close();
 
   return true;
-- 
2.43.0


From c85a17657b25b6686611087ac79821512412352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 07/56] fix: do not scale the time of column snapshots to code
 units twice

---
 src/Common/SimulationIO.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index 86e4b49..3ce2645 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -222,7 +222,7 @@ bool Simulation<ndim>::ReadColumnSnapshotFile
 
   ReadColumnHeaderFile(infile, info);
   CheckSnapshotRead(infile, filename);
-  t = info.t;
+  t = info.t*simunits.t.inscale;       // N.B. converted to code units by ConvertToCodeUnits
   tsnaplast = t;
 
   hydro->Nhydro = info.Nhydro;
-- 
2.43.0


From 2b8c56bd50951dff5c1ba928cbe54d65ea21a960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:35 +0000
Subject: [PATCH 08/56] fix: initialise all octree cells before they are used

The active cell list was allocated with size zero, an empty tree was walked
from uninitialised level limits and velocity bounds were never set.
---
 src/Tree/OctTree.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index 089cec3..dcdb129 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -109,7 +109,7 @@ void OctTree<ndim,ParticleType,TreeCell>::AllocateTreeMemory(int Nparticles, int
     Ncells = max(Ncells,Ncellmax);
     Nparticles = max(Nparticles,Ntotmax);
     Ncells    = max((int) ((FLOAT) 2.0*(FLOAT) Ncells), 4*Nparticles);
-    gtot        = Ntotmax;
+    gtot        = Nparticles;
 
     firstCell = new int[lmax];
     lastCell  = new int[lmax];
@@ -272,9 +272,11 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
   // Set properties for root cell before constructing tree
   Ncell  = 1;
   ltot   = 0;
+  firstCell[0] = 0;
+  lastCell[0]  = 0;
   celldata[0].N      = Ntot;
-  celldata[0].ifirst = _ifirst;
-  celldata[0].ilast  = _ilast;
+  celldata[0].ifirst = ifirst;
+  celldata[0].ilast  = ilast;
   celldata[0].level  = 0;
   celldata[0].copen  = -1;
   celldata[0].hmax = 0;
@@ -299,8 +301,6 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
     celllist     = new int[Npartmax];
     Nlist        = 1;
     celllist[0]  = 0;
-    firstCell[0] = 0;
-    lastCell[0]  = 0;
 
 
     // Recursively divide tree to lower levels until all leaf cells contain maximum no. of ptcls.
@@ -510,6 +510,8 @@ void OctTree<ndim,ParticleType,TreeCell>::StockTree
       for (k=0; k<ndim; k++) cell.bb.max[k]   = -big_number;
       for (k=0; k<ndim; k++) cell.hbox.min[k] = big_number;
       for (k=0; k<ndim; k++) cell.hbox.max[k] = -big_number;
+      for (k=0; k<ndim; k++) cell.vbox.min[k] = big_number;
+      for (k=0; k<ndim; k++) cell.vbox.max[k] = -big_number;
       for (k=0; k<5; k++) cell.q[k] = (FLOAT) 0.0;
 
 
-- 
2.43.0


From 0ff776a9b118338b7419d8729b2d4f7fdeede02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:34 +0000
Subject: [PATCH 09/56] fix: keep the snapshot numbers of N-body simulations on
 restart

---
 src/Nbody/NbodySimulation.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Nbody/NbodySimulation.cpp b/src/Nbody/NbodySimulation.cpp
index 26b7332..8f44fa2 100644
--- a/src/Nbody/NbodySimulation.cpp
+++ b/src/Nbody/NbodySimulation.cpp
@@ -188,7 +188,6 @@ void NbodySimulation<ndim>::PostInitialConditionsSetup(void)
   debug2("[NbodySimulation::PostInitialConditionsSetup]");
 
   // Set time variables here (for now)
-  Noutsnap = 0;
   nresync = 0;
   //tsnapnext = dt_snap;
 
-- 
2.43.0


From 88ae1f3d28ce473d7bc4415196077c0c15625f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:34 +0000
Subject: [PATCH 10/56] fix: keep the time of the first snapshot when
 restarting before it

---
 src/Common/SimulationIO.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index 3ce2645..521f42a 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -2575,9 +2575,11 @@ void Simulation<ndim>::ConvertToCodeUnits(void)
   tsnaplast     /= simunits.t.inscale;
   tlitesnaplast /= simunits.t.inscale;
   hydro->mmean  /= simunits.m.inscale;
+
+  // If no snapshot was produced before restarting, the first is still due at its original time
   if (restart) {
-    tsnapnext = tsnaplast + dt_snap;
-    tlitesnapnext = tlitesnaplast + dt_litesnap;
+    if (Noutsnap > 0 || tsnaplast > 0.0) tsnapnext = tsnaplast + dt_snap;
+    if (Noutlitesnap > 0) tlitesnapnext = tlitesnaplast + dt_litesnap;
   }
 
   return;
-- 
2.43.0


From cdd98915d61d9c013c6c9e6aaa04edf760bfd176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:14 +0000
Subject: [PATCH 11/56] fix: initialise the mean particle mass recorded in
 snapshots

---
 src/Hydrodynamics/Hydrodynamics.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Hydrodynamics/Hydrodynamics.cpp b/src/Hydrodynamics/Hydrodynamics.cpp
index 8fde04a..9a7e9e7 100644
--- a/src/Hydrodynamics/Hydrodynamics.cpp
+++ b/src/Hydrodynamics/Hydrodynamics.cpp
@@ -72,6 +72,7 @@ Hydrodynamics<ndim>::Hydrodynamics(int hydro_forces_aux, int self_gravity_aux, F
   NImportedParticles = 0;
   Nmpighost          = 0;
   NPeriodicGhost     = 0;
+  mmean              = (FLOAT) 0.0;
   rho_sink           = params->floatparams["rho_sink"]/(units.rho.outscale*units.rho.outcgs);
   create_sinks       = params->intparams["create_sinks"];
   sink_particles     = params->intparams["sink_particles"];
-- 
2.43.0


From 2f2d58cf0634ce613da55ac178870bb737ac805c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:22 +0000
Subject: [PATCH 12/56] fix: initialise the star radius recorded in snapshots

---
 src/Headers/NbodyParticle.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Headers/NbodyParticle.h b/src/Headers/NbodyParticle.h
index aadd51d..062759d 100644
--- a/src/Headers/NbodyParticle.h
+++ b/src/Headers/NbodyParticle.h
@@ -101,6 +101,7 @@ class NbodyParticle
     m            = 0;
     h            = 0;
     invh         = (FLOAT) 0.0;
+    radius       = (FLOAT) 0.0;
     //hfactor      = (FLOAT) 0.0;
     gpot         = (FLOAT) 0.0;
     gpe          = (FLOAT) 0.0;
-- 
2.43.0


From 7001c9ec79e500bfdb82fc311d3eb9a287702dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:42 +0000
Subject: [PATCH 13/56] fix: do not return lite snapshots from interactive runs

---
 src/Common/Simulation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index da51d1d..4ad8578 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -508,6 +508,7 @@ list<SphSnapshotBase*> SimulationBase::InteractiveRun
 string SimulationBase::Output(void)
 {
   string filename;                  // Output snapshot filename
+  string litename;                  // Output lite snapshot filename
   string nostring;                  // String of number of snapshots
   stringstream ss;                  // Stream object for preparing filename
   bool written;                     // Flag if snapshot has been completely written
@@ -537,9 +538,9 @@ string SimulationBase::Output(void)
     nostring = "";
     ss << setfill('0') << setw(5) << Noutlitesnap;
     nostring = ss.str();
-    filename = run_id + ".slite." + nostring;
+    litename = run_id + ".slite." + nostring;
     ss.str(std::string());
-    WriteSnapshotFile(filename,"slite");
+    WriteSnapshotFile(litename,"slite");
 
   }
   //-----------------------------------------------------------------------------------------------
-- 
2.43.0


From 4e284c7f05b8b4a69432d9cc57531aab1c956741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:38 +0000
Subject: [PATCH 14/56] fix: stop if the parameter file cannot be completely
 read

---
 src/Common/Parameters.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Common/Parameters.cpp b/src/Common/Parameters.cpp
index df7c847..f958990 100644
--- a/src/Common/Parameters.cpp
+++ b/src/Common/Parameters.cpp
@@ -91,6 +91,10 @@ void Parameters::ReadParamsFile
       getline(inputfile, line);
       ParseLine(line);
     }
+    if (inputfile.bad()) {
+      string message = "Error reading the parameter file: " + filename + ", aborting";
+      ExceptionHandler::getIstance().raise(message);
+    }
   }
   else {
     string message = "The specified parameter file: " + filename +
-- 
2.43.0


From 1de6226ce4b2acb2ef13af21bb9a68507db4d247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 15/56] fix: record floating point parameters with all their
 digits

---
 src/Common/Parameters.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Common/Parameters.cpp b/src/Common/Parameters.cpp
index f958990..b44b462 100644
--- a/src/Common/Parameters.cpp
+++ b/src/Common/Parameters.cpp
@@ -649,6 +649,9 @@ void Parameters::RecordParametersToFile(void)
 
   outfile.open(filename.c_str());
 
+  // Record enough digits for the parameters read from this file to be those used
+  outfile.precision(17);
+
   // Write all integer parameters
   std::map <std::string, int>::iterator it;
   for (it=intparams.begin(); it != intparams.end(); ++it) {
-- 
2.43.0


From 103b3da1ae2ad9cc34255b73120e71ab6ebafd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 16/56] fix: stop if the restart log exists but cannot be
 opened

---
 src/Common/SimulationIC.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Common/SimulationIC.hpp b/src/Common/SimulationIC.hpp
index bb2c59e..51261a1 100644
--- a/src/Common/SimulationIC.hpp
+++ b/src/Common/SimulationIC.hpp
@@ -21,6 +21,7 @@
 //=================================================================================================
 
 
+#include <cerrno>
 #include <iostream>
 #include <string>
 #include <cstdio>
@@ -64,6 +65,7 @@ void Simulation<ndim>::GenerateIC(void)
   //-----------------------------------------------------------------------------------------------
   if (restart) {
     filename = run_id + ".restart";
+    errno = 0;
     f.open(filename.c_str());
 
     // If file opens successfully, read snapshot and return
@@ -75,6 +77,10 @@ void Simulation<ndim>::GenerateIC(void)
       ConvertToCodeUnits();
       return;
     }
+    // If the restart file exists but cannot be opened, do not overwrite the existing simulation
+    else if (errno != ENOENT) {
+      ExceptionHandler::getIstance().raise("Could not open restart file : " + filename);
+    }
     // If unsuccessful (e.g. restart file doesn't exist), then make restart flag false
     else {
       restart = false;
-- 
2.43.0


From d971ac11e437e2f355b75d807ffc81f6fb74fac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:01 +0000
Subject: [PATCH 17/56] fix: set the timing object of the sub-system integrator

The integrator of the sub-systems is a separate object whose timing pointer
was never set, but the leapfrog KDK integrator starts timers through it.
Integrating a sub-system with it dereferenced an uninitialised pointer.
---
 src/Nbody/NbodySimulation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Nbody/NbodySimulation.cpp b/src/Nbody/NbodySimulation.cpp
index 8f44fa2..254e787 100644
--- a/src/Nbody/NbodySimulation.cpp
+++ b/src/Nbody/NbodySimulation.cpp
@@ -163,6 +163,7 @@ void NbodySimulation<ndim>::ProcessParameters(void)
 
   // Set pointers to timing object
   nbody->timing   = timing;
+  if (intparams["sub_systems"] == 1) subsystem->timing = timing;
 
   sinks = new Sinks<ndim>(0);
 
-- 
2.43.0


From f7414c46f6fa4d2ed34599d693bd43fd3b9cf079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:22 +0000
Subject: [PATCH 18/56] fix: do not use a reference to a moved particle when
 making mirror ghosts

The reference to the real particle was kept while its images were appended to
the vector it lives in.  When the vector grew, the limits of the remaining
reflections were tested with freed memory.
---
 src/Headers/GhostNeighbours.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/GhostNeighbours.hpp b/src/Headers/GhostNeighbours.hpp
index 297ea0c..3dc4467 100644
--- a/src/Headers/GhostNeighbours.hpp
+++ b/src/Headers/GhostNeighbours.hpp
@@ -411,7 +411,7 @@ private:
 	int _MakeReflectedScatterGatherGhosts(vector<ParticleType>& ngbs) const {
 	  int nc = 1 ;
 	  const int old_size = ngbs.size()-1;
-	  const ParticleType& real_particle = ngbs.back();
+	  const ParticleType real_particle = ngbs.back();
 	  FLOAT h2 = real_particle.hrangesqd ;
 
 	  // Loop over the possible directions for reflections
-- 
2.43.0


From 7b829e1095a994fb8aa101b3c09cae7fc8ae3ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:22 +0000
Subject: [PATCH 19/56] fix: set the minimum smoothing length of sinks before
 it is used

Simulations with the meshless scheme which start with sinks used it as lower
bound of the smoothing length in the first step while it was uninitialised.
---
 src/MeshlessFV/MeshlessFVSimulation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/MeshlessFV/MeshlessFVSimulation.cpp b/src/MeshlessFV/MeshlessFVSimulation.cpp
index 9705427..6f15b1b 100644
--- a/src/MeshlessFV/MeshlessFVSimulation.cpp
+++ b/src/MeshlessFV/MeshlessFVSimulation.cpp
@@ -457,6 +457,12 @@ void MeshlessFVSimulation<ndim>::PostInitialConditionsSetup(void)
     }
   }
 
+  // Compute minimum smoothing length of sinks
+  mfv->hmin_sink = big_number;
+  for (i=0; i<sinks->Nsink; i++) {
+    mfv->hmin_sink = min(mfv->hmin_sink, (FLOAT) sinks->sink[i].star->h);
+  }
+
 
   // Set time variables here (for now)
   nresync = 0;   // DAVID : Need to adapt this for block timesteps
-- 
2.43.0


From bfb248568480704623b04a7abab1e3d3fe19c4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:31 +0000
Subject: [PATCH 20/56] fix: remove the second hmin_sink member of the meshless
 scheme

The simulation set the member of MeshlessFV, while the smoothing length
calculation used the one of Hydrodynamics, which was never initialised.
---
 src/Headers/MeshlessFV.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Headers/MeshlessFV.h b/src/Headers/MeshlessFV.h
index e0933fe..92e3105 100644
--- a/src/Headers/MeshlessFV.h
+++ b/src/Headers/MeshlessFV.h
@@ -163,7 +163,6 @@ public:
   int create_sinks;                    ///< Create new sink particles?
   int fixed_sink_mass;                 ///< Fix masses of sink particles
   FLOAT msink_fixed;                   ///< Fixed sink mass value
-  FLOAT hmin_sink;                     ///< Minimum smoothing length of sinks
   string riemann_solver;               ///< Selected Riemann solver
   string slope_limiter;                ///< Selected slope limiter
   string timestep_limiter;            ///< Time of limiter used for block timesteps
-- 
2.43.0


From cea3a244faf305428b6eae74ba80a6819edd3c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:57 +0000
Subject: [PATCH 21/56] fix: leave dead particles out of the snapshots handed
 out in memory

They are not part of snapshot files either, and only waste the plots.
---
 src/Common/SphSnapshot.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Common/SphSnapshot.cpp b/src/Common/SphSnapshot.cpp
index aa61fcf..3db05c3 100644
--- a/src/Common/SphSnapshot.cpp
+++ b/src/Common/SphSnapshot.cpp
@@ -244,12 +244,14 @@ void SphSnapshot<ndims>::CopyDataFromSimulation()
   if (simulation->hydro != NULL) {
     // Compute Ndust - note that here Nhydro is Ngas+Ndust
     Nhydro = simulation->hydro->Nhydro;
+    int Ndead = 0;
     for (int n=0; n < Nhydro; n++){
-      int ptype = simulation->hydro->GetParticlePointer(n).ptype;
-      if (ptype == dust_type) Ndust++;
+      Particle<ndims>& part = simulation->hydro->GetParticlePointer(n);
+      if (part.flags.is_dead()) Ndead++;
+      else if (part.ptype == dust_type) Ndust++;
     }
-    // And now Nhydro becomes Ngas
-    Nhydro -= Ndust;
+    // And now Nhydro becomes Ngas (dead particles are not part of snapshots)
+    Nhydro -= Ndust + Ndead;
     if (Nhydro != 0) {
       _species.push_back("sph");
       data["sph"]=Species(Nhydro,"sph");
@@ -343,6 +345,7 @@ void SphSnapshot<ndims>::CopyDataFromSimulation()
   int igas=0; int idust=0;
   for (int i=0; i<simulation->hydro->Nhydro; i++) {
     Particle<ndims>& part = simulation->hydro->GetParticlePointer(i);
+    if (part.flags.is_dead()) continue;
     int ptype = part.ptype;
 
     if (ptype == gas_type) {
-- 
2.43.0


From 3cf8b980164c6d80f7a6b1f8c14673889f5007f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:02 +0000
Subject: [PATCH 22/56] fix: with several threads a sink could accrete nothing
 or the wrong particles

The second search for particles inside a sink used the buffers of whichever
thread happened to treat it and ignored that they could be too small, and a
particle inside two sinks went to the one reached last.
---
 src/Nbody/Sinks.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index f6b33c6..6ab5beb 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -458,8 +458,10 @@ void Sinks<ndim>::AccreteMassToSinks
         drsqd = DotProduct(dr, dr, ndim);
 
         if (drsqd <= sink[s].radius*sink[s].radius) {
+          // A particle inside several sinks belongs to the last one, in whatever order
+          // the threads reach them
 #pragma omp critical
-          part.sinkid = s;
+          part.sinkid = max(part.sinkid, s);
           sink[s].Ngas++;
         }
 
@@ -504,8 +506,23 @@ void Sinks<ndim>::AccreteMassToSinks
       sink[s].rotketot = (FLOAT) 0.0;
       sink[s].gpetot   = (FLOAT) 0.0;
 
-      Nlist = neibsearch->GetGatherNeighbourList
-       (sink[s].star->r, sink[s].radius, partdata, hydro->Nhydro, Nneibmax, neiblist);
+      // Find the particles inside the sink again; the buffers of this thread may be smaller than
+      // those of the thread that searched around this sink before
+      do {
+        Nlist = neibsearch->GetGatherNeighbourList
+         (sink[s].star->r, sink[s].radius, partdata, hydro->Nhydro, Nneibmax, neiblist);
+
+        if (Nlist == -1) {
+          delete[] rsqdlist;
+          delete[] neiblist;
+          delete[] ilist;
+          Nneibmax *= 2;
+          ilist = new int[Nneibmax];
+          neiblist = new int[Nneibmax];
+          rsqdlist = new FLOAT[Nneibmax];
+        };
+
+      } while (Nlist == -1);
 
       // Loop over all potential sink neighbours
       for (j=0; j<Nlist; j++) {
-- 
2.43.0


From 2d747312f05b1aee200e64afc66c47b343b99a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:02 +0000
Subject: [PATCH 23/56] fix: a step cut short was completed with the length
 originally planned

CheckTimesteps reduced the number of base steps but not the step length used
to correct the velocity at the end of the step.
---
 src/Hydrodynamics/SphLeapfrogKDK.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Hydrodynamics/SphLeapfrogKDK.cpp b/src/Hydrodynamics/SphLeapfrogKDK.cpp
index 88fb25b..e73ab30 100644
--- a/src/Hydrodynamics/SphLeapfrogKDK.cpp
+++ b/src/Hydrodynamics/SphLeapfrogKDK.cpp
@@ -285,7 +285,7 @@ int SphLeapfrogKDK<ndim, ParticleType>::CheckTimesteps
  (const int level_diff_max,            ///< [in] Max. allowed SPH neib dt diff
   const int level_step,                ///< [in] Level of base timestep
   const int n,                         ///< [in] Integer time in block time struct
-  const FLOAT timetep,                 ///< [in] Current time-step
+  const FLOAT timestep,                ///< [in] Current time-step
   Hydrodynamics<ndim>* hydro)
 {
   int dn;                              // Integer time since beginning of step
@@ -316,7 +316,10 @@ int SphLeapfrogKDK<ndim, ParticleType>::CheckTimesteps
 
       // If new level is correctly synchronised, then change all quantities
       if (dn%nnewstep == 0) {
-        if (dn > 0) part.nstep = dn;
+        if (dn > 0) {
+          part.nstep = dn;
+          part.dt    = part.nstep*timestep;
+        }
         part.level  = level_new;
         part.flags.set(active);
         activecount++;
-- 
2.43.0


From d44c3f93b0bc83ff19896c6ccc3e299d3f6b579a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:02 +0000
Subject: [PATCH 24/56] fix: global steps of drift-kick-drift schemes were
 twice the allowed length

The base step must be the shortest step over the number of integration steps,
as it is with block time steps.
---
 src/Common/Simulation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index 4ad8578..c1f5268 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -1768,13 +1768,13 @@ void Simulation<ndim>::ComputeGlobalTimestep() {
      dt = dt_min;
      MPI_Allreduce(&dt, &dt_min, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
  #endif
-     timestep = dt_min;
+     timestep = dt_min / (DOUBLE) integration_step;
 
      // Set minimum timestep for all hydro and N-body particles
      if (hydro != NULL)
-       for (i=0; i<hydro->Nhydro; i++) hydro->GetParticlePointer(i).dt_next = timestep;
+       for (i=0; i<hydro->Nhydro; i++) hydro->GetParticlePointer(i).dt_next = dt_min;
      if (nbody != NULL)
-       for (i=0; i<nbody->Nnbody; i++) nbody->nbodydata[i]->dt_next = timestep;
+       for (i=0; i<nbody->Nnbody; i++) nbody->nbodydata[i]->dt_next = dt_min;
 
    }
    //-----------------------------------------------------------------------------------------------
-- 
2.43.0


From b9ba432ab2030bf195501cf3df645f4e0548d5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:02 +0000
Subject: [PATCH 25/56] fix: planned step lengths did not match the steps made

When a body moved to a level below the deepest one its step was planned as zero
long, when all time steps are resynchronised the steps were planned with the
length of the previous base step, and particles moved to the common level kept
the plan of their old one.
---
 src/Common/Simulation.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index c1f5268..67abdb4 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -1883,6 +1883,9 @@ void Simulation<ndim>::ComputeBlockTimesteps(void)
     level_max  = Nlevels - 1;
     level_step = level_max + integration_step - 1;
     dt_max     = timestep*pow(2.0, level_max);
+    nresync    = pow(2, level_step);
+    assert(nresync > 0);
+    timestep   = dt_max / (DOUBLE) nresync;
 
     // Calculate the maximum level occupied by all SPH particles
     level_max_hydro = min(ComputeTimestepLevel(dt_min_hydro, dt_max), level_max);
@@ -1949,10 +1952,6 @@ void Simulation<ndim>::ComputeBlockTimesteps(void)
       }
     }
 
-    nresync = pow(2, level_step);
-    assert(nresync > 0);
-    timestep = dt_max / (DOUBLE) nresync;
-
   }
   // If not resynchronising, check if any hydro/N-body particles need to move
   // up or down timestep levels.
@@ -1991,7 +1990,7 @@ void Simulation<ndim>::ComputeBlockTimesteps(void)
             part.levelneib = part.level;
             part.nlast     = n;
             part.nstep     = pow(2, level_step - part.level);
-            part.dt_next   = part.nstep * timestep;
+            part.dt_next   = pow(2.0, level_step - part.level) * timestep;
             part.flags.set(end_timestep) ;
           }
           // hydro particles that have naturally reached the end of their step
@@ -2018,7 +2017,7 @@ void Simulation<ndim>::ComputeBlockTimesteps(void)
             part.levelneib = level;
             part.nlast     = n;
             part.nstep     = pow(2, level_step - part.level);
-            part.dt_next   = part.nstep * timestep;
+            part.dt_next   = pow(2.0, level_step - part.level) * timestep;
             part.flags.set(end_timestep);
           }
 
@@ -2080,7 +2079,7 @@ void Simulation<ndim>::ComputeBlockTimesteps(void)
             nbody->nbodydata[i]->nlast = n;
             nbody->nbodydata[i]->nstep = pow(2, level_step - nbody->nbodydata[i]->level);
             nbody->nbodydata[i]->tlast = t;
-            nbody->nbodydata[i]->dt_next = nbody->nbodydata[i]->nstep * timestep;
+            nbody->nbodydata[i]->dt_next = pow(2.0, level_step - nbody->nbodydata[i]->level) * timestep;
             nbody->nbodydata[i]->flags.set(end_timestep);
           }
 
@@ -2122,7 +2121,10 @@ void Simulation<ndim>::ComputeBlockTimesteps(void)
         for (i=0; i<hydro->Nhydro; i++) {
           Particle<ndim>& part = hydro->GetParticlePointer(i);
           if (part.flags.is_dead()) continue;
-          if (part.nlast == n) part.level = level_max_hydro;
+          if (part.nlast == n) {
+            part.level   = level_max_hydro;
+            part.dt_next = pow(2.0, level_step - part.level) * timestep;
+          }
         }
       }
 
-- 
2.43.0


From 46a8b78978f37d0b18ac3ea23211feb374071f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:03 +0000
Subject: [PATCH 26/56] fix: receive buffer for another domain's pruned octree
 was too small

The bound on the number of cells counted the deepest level only, neither the
levels above it nor the empty children, so the message was truncated.
---
 src/Headers/OctTree.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Headers/OctTree.h b/src/Headers/OctTree.h
index 84ef754..5353970 100644
--- a/src/Headers/OctTree.h
+++ b/src/Headers/OctTree.h
@@ -152,7 +152,10 @@ class OctTree : public Tree<ndim,ParticleType,TreeCell>
       UpdateWorkCounters(celldata[0]) ;
     }
     void UpdateWorkCounters(TreeCell<ndim>&);
-  int GetMaxCellNumber(const int _level) {return pow(pow(2,ndim),_level);};
+  int GetMaxCellNumber(const int _level) {
+    // Root cell, plus the children of all cells above the given level that can contain particles
+    return 1 + Noctchild*(((1 << ndim*_level) - 1)/((1 << ndim) - 1));
+  };
 #endif
 #if defined(VERIFY_ALL)
   void ValidateTree(ParticleType<ndim> *);
-- 
2.43.0


From 7b5b693ace154f5daaaeb8bef961d6354197128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 27/56] fix: after load balancing the processes disagreed on
 the domains

Each process searched for the division in its own set of pruned trees, which
differ in depth, so particles and sinks could belong to no domain or to two.
---
 src/Mpi/MpiKDTreeDecomposition.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Mpi/MpiKDTreeDecomposition.cpp b/src/Mpi/MpiKDTreeDecomposition.cpp
index 163a8dc..a222f1f 100755
--- a/src/Mpi/MpiKDTreeDecomposition.cpp
+++ b/src/Mpi/MpiKDTreeDecomposition.cpp
@@ -350,6 +350,10 @@ void MpiKDTreeDecomposition<ndim, ParticleType >::LoadBalancing
       mpitree->tree[c].r_divide = neibsearch->FindLoadBalancingDivision
         (mpitree->tree[c].k_divide, mpitree->tree[c].r_divide,
          mpitree->tree[c].box.min, mpitree->tree[c].box.max);
+
+      // The pruned trees, and hence the divisions, differ from process to process, so all
+      // processes use the division of the root process
+      MPI_Bcast(&(mpitree->tree[c].r_divide), 1, GANDALF_MPI_FLOAT, 0, MPI_COMM_WORLD);
 #ifdef OUTPUT_ALL
       cout << "Moved load balancing division for " << c << "    rold : " << rold
            << "     rnew : " << mpitree->tree[c].r_divide << "    k_divide : "
-- 
2.43.0


From ab8f5630b02333b8cbd733dd4fc1e0e507fe6abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:55 +0000
Subject: [PATCH 28/56] fix: overlap of boxes that share an edge was taken for
 the whole box

Boxes with an edge in common were not handled, so load balancing worked with
fractions of zero or above one (or stopped on the assertion).
---
 src/Headers/InlineFuncs.h | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/Headers/InlineFuncs.h b/src/Headers/InlineFuncs.h
index 670af38..2c11c2e 100644
--- a/src/Headers/InlineFuncs.h
+++ b/src/Headers/InlineFuncs.h
@@ -26,6 +26,7 @@
 #define _INLINE_FUNCS_H_
 
 
+#include <algorithm>
 #include <string.h>
 #include <assert.h>
 #include <string>
@@ -412,24 +413,7 @@ inline FLOAT FractionalBoxOverlap
 
   for (k=0; k<ndim; k++) {
     area *= (box1max[k] - box1min[k]);
-    if (box1max[k] <= box2min[k] || box1min[k] >= box2max[k]) {
-      overlap *= (FLOAT) 0.0;
-    }
-    else if (box1min[k] > box2min[k] && box1max[k] < box2max[k]) {
-      overlap *= (box1max[k] - box1min[k]);
-    }
-    else if (box1min[k] < box2min[k] && box1max[k] > box2max[k]) {
-      overlap *= (box2max[k] - box2min[k]);
-    }
-    else if (box1min[k] < box2min[k] && box1max[k] < box2max[k]) {
-      overlap *= (box1max[k] - box2min[k]);
-    }
-    else if (box1min[k] > box2min[k] && box1max[k] > box2max[k]) {
-      overlap *= (box2max[k] - box1min[k]);
-    }
-    else {
-      cout << "Should never get here!! " << overlap << "    area : " << area << endl;
-    }
+    overlap *= max((FLOAT) 0.0, min(box1max[k], box2max[k]) - max(box1min[k], box2min[k]));
   }
 
   if (area > 0.0) frac = overlap/area;
-- 
2.43.0


From 83b3f8d9feb505119dc41d7b97aa4e71e04eb217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:13 +0000
Subject: [PATCH 29/56] fix: load balancing could search for a division for
 ever

The work to one side of a division can jump where it reaches the edge of a
cell, so that no position is balanced within the tolerance.
---
 src/Tree/HydroTree.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Tree/HydroTree.cpp b/src/Tree/HydroTree.cpp
index 292068d..125cc97 100644
--- a/src/Tree/HydroTree.cpp
+++ b/src/Tree/HydroTree.cpp
@@ -1611,9 +1611,10 @@ FLOAT HydroTree<ndim,ParticleType>::FindLoadBalancingDivision
     else if (workfrac > 0.5 + worktol) r_max = r_divide;
     else break;
 
+    // (If the work jumps at some position, there is no division that is exactly balanced)
     r_divide = 0.5*(r_min + r_max);
 
-  } while (fabs(workfrac - 0.5) > worktol);
+  } while (fabs(workfrac - 0.5) > worktol && r_divide > r_min && r_divide < r_max);
   //-----------------------------------------------------------------------------------------------
 
   return r_divide;
-- 
2.43.0


From bc0a893bbfbbde29a5c2f8ec6a61e2e5afe73c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:13 +0000
Subject: [PATCH 30/56] fix: equally dense candidates on two processes both
 became the new sink

Every process with a candidate of the highest density removed a particle and
then took over the sink of the first of them, including its star pointer.
---
 src/Nbody/Sinks.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index 6ab5beb..c5c43aa 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -212,8 +212,9 @@ void Sinks<ndim>::SearchForNewSinkParticles
     const int proc_max = std::max_element(rho_maxs.begin(), rho_maxs.end()) - rho_maxs.begin();
     const FLOAT global_rho_max = rho_maxs[proc_max];
     if (global_rho_max > 0.0) {
-      // A sink is being created, but not on this processor - mark it
-      if (rho_max < global_rho_max) isink = -2;
+      // A sink is being created, but not on this processor - mark it (if several processors have
+      // found the same density, only the first of them creates the sink)
+      if (mpicontrol->rank != proc_max) isink = -2;
     }
 #endif
 
-- 
2.43.0


From f54b2dea7ca9663f120c59e581d04ea5d9c477e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:49 +0000
Subject: [PATCH 31/56] fix: stocking a pruned octree used level limits that
 were never set

The cells of a pruned tree are not grouped by level and the first and last cell
of each level were whatever the memory held.  Children are now stocked before
their parents by descending id, and leaf cells received from another process
keep their properties.
---
 src/Tree/OctTree.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index dcdb129..fa4fc33 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -466,7 +466,6 @@ void OctTree<ndim,ParticleType,TreeCell>::StockTree
   int i;                               // Particle counter
   int iaux;                            // Aux. particle i.d. variable
   int k;                               // Dimension counter
-  int l;                               // Level counter
   FLOAT dr[ndim];                      // Relative position vector
   FLOAT drsqd;                         // Distance squared
   FLOAT mi;                            // Mass of particle i
@@ -478,16 +477,15 @@ void OctTree<ndim,ParticleType,TreeCell>::StockTree
   const bool need_quadrupole_moments =
       multipole == "quadrupole" || multipole == "fast_quadrupole" || gravity_mac == eigenmac ;
 
-  // Loop over all levels in tree starting from lowest up to the top root cell level.
+  // Loop over all cells from the last to the root cell.  Child cells always have larger ids than
+  // their parent, also in pruned trees (whose cells are not grouped by level).
   //===============================================================================================
-  for (l=ltot; l>=0; l--) {
-
-
-    // Loop over all cells on current level
-    //---------------------------------------------------------------------------------------------
-    for (c=firstCell[l]; c<=lastCell[l]; c++) {
+  for (c=Ncell-1; c>=0; c--) {
       TreeCell<ndim> &cell = celldata[c];
 
+      // The properties of leaf cells are kept unless they are to be computed from the particles
+      if (cell.copen == -1 && !stock_leaf) continue;
+
       // Zero all summation variables for all cells
       cell.Nactive  = 0;
       cell.N        = 0;
@@ -720,8 +718,6 @@ void OctTree<ndim,ParticleType,TreeCell>::StockTree
       else {
         cell.mac = (FLOAT) 0.0;
       }
-    }
-    //---------------------------------------------------------------------------------------------
 
   }
   //===============================================================================================
-- 
2.43.0


From 30a589f537265f7d268d27f6058a1f84d5d8890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:09 +0000
Subject: [PATCH 32/56] fix: ASCII snapshots of parallel runs counted every
 star once per process and left them out

All processes hold the same stars, so the header now gives their number, and the
root process writes them behind the hydro particles.
---
 src/Common/SimulationIO.hpp | 38 ++++++++++---------------------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index 521f42a..7cd5740 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -307,16 +307,14 @@ bool Simulation<ndim>::WriteColumnSnapshotFile(string filename)
   MPI_File_set_size(file,0);
   delete[] filename_str;
 
-  // Collect total number of particles
+  // Collect total number of hydro particles (all tasks hold the same stars)
   int Ntotsph;
   MPI_Allreduce(&hydro->Nhydro, &Ntotsph, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
-  int Ntotstar;
-  MPI_Allreduce(&nbody->Nstar, &Ntotstar, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
 
   // Root node writes header
   if (rank == 0) {
     outfile << Ntotsph << endl;
-    outfile << Ntotstar << endl;
+    outfile << nbody->Nstar << endl;
     outfile << ndim << endl;
     outfile << t*simunits.t.outscale << endl;
   }
@@ -381,12 +379,9 @@ bool Simulation<ndim>::WriteColumnSnapshotFile(string filename)
   outfile.clear();
   outfile.str("");
 
-  //We need to know where the last process got to seek to that point
-  MPI_Offset end_sph_mpi; int end_sph;
-  if (rank==Nmpi-1) {
-    MPI_File_get_position(file, &end_sph_mpi);
-    end_sph = end_sph_mpi;
-  }
+  // We need to know where the last process got to, as the stars are written from that point
+  MPI_Offset end_sph;
+  if (rank==Nmpi-1) MPI_File_get_position(file, &end_sph);
   MPI_Bcast(&end_sph, sizeof(end_sph), MPI_BYTE, Nmpi-1, MPI_COMM_WORLD);
 
 
@@ -426,25 +421,12 @@ bool Simulation<ndim>::WriteColumnSnapshotFile(string filename)
   }
 
 
-  // Now all nodes write to the file their portion
-  // To do that, we need to know the offset of each node, summing up the length of each bit
-  {
+  // Only the root node writes the stars, behind the hydro information
+  if (rank == 0) {
     std::string content = outfile.str();
-    int offset;
-    int length_char = content.length();
-    MPI_Exscan(&length_char, &offset, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
-
-    if (rank == 0) offset = 0;
-    MPI_Offset offset_mpi = offset;
-
-    //Offset the position by the end of the hydro information
-    offset_mpi += end_sph_mpi;
-    MPI_File_seek(file, offset_mpi, MPI_SEEK_SET);
-
-    // Now we can do the actual writing. Extract information from the string and pass it to MPI
-    char* data = new char[strlen(content.c_str())+1];
-    strcpy(data, content.c_str());
-    delete[] data;
+    MPI_Status status;
+    MPI_File_seek(file, end_sph, MPI_SEEK_SET);
+    MPI_File_write(file, const_cast<char*>(content.c_str()), content.length(), MPI_CHAR, &status);
   }
 
   MPI_File_close(&file);
-- 
2.43.0


From 386e5b0a575195c2fb12e4a44cc21e84830a0e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:25 +0000
Subject: [PATCH 33/56] fix: errors while a parallel snapshot is written were
 ignored

The failed snapshot was recorded as complete.  All processes now agree on whether
the file was written, and none starts writing before all know where the header
ends.
---
 src/Common/SimulationIO.hpp | 78 ++++++++++++++++++++++++++-----------
 1 file changed, 56 insertions(+), 22 deletions(-)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index 7cd5740..82efed0 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -55,6 +55,23 @@ struct Ptype_info
     int Ntot_type ;
 };
 
+#ifdef MPI_PARALLEL
+//=================================================================================================
+//  SuccessOnAllTasks
+/// Returns true (on all MPI tasks) if the flag is true on all MPI tasks.
+//=================================================================================================
+static bool SuccessOnAllTasks
+ (const bool ok)                       ///< [in] Flag if the local task has been successful
+{
+  int local = ok ? 1 : 0;
+  int global;
+  MPI_Allreduce(&local, &global, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
+  return global == 1;
+}
+#endif
+
+
+
 //=================================================================================================
 //  CheckSnapshotRead
 /// Raise an exception if any data could not be read from a snapshot file (e.g. if the file does
@@ -303,9 +320,11 @@ bool Simulation<ndim>::WriteColumnSnapshotFile(string filename)
   MPI_File file;
   char* filename_str = new char[strlen(filename.c_str())+1];
   strcpy(filename_str,filename.c_str());
-  MPI_File_open(MPI_COMM_WORLD, filename_str, MPI_MODE_CREATE|MPI_MODE_WRONLY, MPI_INFO_NULL, &file);
-  MPI_File_set_size(file,0);
+  bool ok = MPI_File_open(MPI_COMM_WORLD, filename_str, MPI_MODE_CREATE|MPI_MODE_WRONLY,
+                          MPI_INFO_NULL, &file) == MPI_SUCCESS;
   delete[] filename_str;
+  if (!SuccessOnAllTasks(ok)) return false;
+  ok = MPI_File_set_size(file,0) == MPI_SUCCESS;
 
   // Collect total number of hydro particles (all tasks hold the same stars)
   int Ntotsph;
@@ -371,7 +390,7 @@ bool Simulation<ndim>::WriteColumnSnapshotFile(string filename)
     char* data = new char[strlen(content.c_str())+1];
     strcpy(data, content.c_str());
     MPI_Status status;
-    MPI_File_write(file, data, length_char, MPI_CHAR, &status);
+    if (MPI_File_write(file, data, length_char, MPI_CHAR, &status) != MPI_SUCCESS) ok = false;
     delete[] data;
   }
 
@@ -426,12 +445,13 @@ bool Simulation<ndim>::WriteColumnSnapshotFile(string filename)
     std::string content = outfile.str();
     MPI_Status status;
     MPI_File_seek(file, end_sph, MPI_SEEK_SET);
-    MPI_File_write(file, const_cast<char*>(content.c_str()), content.length(), MPI_CHAR, &status);
+    if (MPI_File_write(file, const_cast<char*>(content.c_str()), content.length(), MPI_CHAR,
+                       &status) != MPI_SUCCESS) ok = false;
   }
 
-  MPI_File_close(&file);
+  if (MPI_File_close(&file) != MPI_SUCCESS) ok = false;
 
-  return true;
+  return SuccessOnAllTasks(ok);
 }
 
 
@@ -1589,11 +1609,12 @@ bool Simulation<ndim>::ReadSerenUnformSnapshotFile(string filename)
 
 #ifdef MPI_PARALLEL
 template<int ndim, class T>
-void WriteSerenFormArrayScalar_MPI(MPI_File& file, Hydrodynamics<ndim>* hydro,
+bool WriteSerenFormArrayScalar_MPI(MPI_File& file, Hydrodynamics<ndim>* hydro,
 								   T Particle<ndim>::*data, T* buffer,
 								   const std::vector<Ptype_info>& types,
 								   T unit=1)
 {
+  bool ok = true;
   for (unsigned int itype=0; itype < types.size(); ++itype) {
     int ptype     = types[itype].ptype ;
     int Nbefore   = types[itype].Nbefore ;
@@ -1614,21 +1635,23 @@ void WriteSerenFormArrayScalar_MPI(MPI_File& file, Hydrodynamics<ndim>* hydro,
     MPI_File_seek(file, sizeof(T)*Nbefore, MPI_SEEK_CUR);
     // Write data
     MPI_Status status;
-    MPI_File_write_all (file, buffer, n*sizeof(T), MPI_BYTE, &status);
+    if (MPI_File_write_all (file, buffer, n*sizeof(T), MPI_BYTE, &status) != MPI_SUCCESS) ok = false;
     // Seek at the end of the porig section
     MPI_Offset end_write = offset + sizeof(T)*Ntot_type;
     MPI_File_seek(file, end_write, MPI_SEEK_SET);
   }
+  return ok;
 }
 
 
 
 template<int ndim, class T>
-void WriteSerenFormArrayVector_MPI(MPI_File& file, Hydrodynamics<ndim>* hydro,
+bool WriteSerenFormArrayVector_MPI(MPI_File& file, Hydrodynamics<ndim>* hydro,
 								   T (Particle<ndim>::*data)[ndim], T* buffer,
 								   const std::vector<Ptype_info>& types,
 								   T unit=1)
 {
+  bool ok = true;
   for (unsigned int itype=0; itype < types.size(); ++itype) {
     int ptype     = types[itype].ptype ;
     int Nbefore   = types[itype].Nbefore ;
@@ -1649,11 +1672,12 @@ void WriteSerenFormArrayVector_MPI(MPI_File& file, Hydrodynamics<ndim>* hydro,
     MPI_File_seek(file, sizeof(T)*Nbefore*ndim, MPI_SEEK_CUR);
     // Write data
     MPI_Status status;
-    MPI_File_write_all (file, buffer, sizeof(T)*n, MPI_BYTE, &status);
+    if (MPI_File_write_all (file, buffer, sizeof(T)*n, MPI_BYTE, &status) != MPI_SUCCESS) ok = false;
     // Seek at the end of the porig section
     MPI_Offset end_write = offset + sizeof(T)*Ntot_type*ndim;
     MPI_File_seek(file, end_write, MPI_SEEK_SET);
   }
+  return ok;
 }
 
 
@@ -1826,6 +1850,7 @@ bool Simulation<ndim>::WriteSerenUnformSnapshotFile(string filename)
 
   // Write header information to file (only cpu 0 does it).
   //----------------------------------------------------------------------------------------------
+  bool ok = true;
   if (rank==0) {
     ofstream outfile(filename.c_str(),ios::binary);
     BinaryWriter writer(outfile);
@@ -1859,6 +1884,8 @@ bool Simulation<ndim>::WriteSerenUnformSnapshotFile(string filename)
     for (i=0; i<ndata; i++) {
       for (int j=0; j<5; j++) writer.write_value(typedata[i][j]);
     }
+    outfile.close();
+    ok = !outfile.fail();
   }
 
 
@@ -1867,16 +1894,21 @@ bool Simulation<ndim>::WriteSerenUnformSnapshotFile(string filename)
   if (Ntot_hydro > 0) {
 
     // Let's make sure root has finished writing the header before we start writing
-    MPI_Barrier(MPI_COMM_WORLD);
+    if (!SuccessOnAllTasks(ok)) return false;
 
     // Now everyone opens the output file
     MPI_File file;
     char* filename_str = new char[strlen(filename.c_str())+1];
     strcpy(filename_str,filename.c_str());
-    MPI_File_open(MPI_COMM_WORLD, filename_str, MPI_MODE_RDWR,MPI_INFO_NULL, &file);
+    ok = MPI_File_open(MPI_COMM_WORLD, filename_str, MPI_MODE_RDWR,MPI_INFO_NULL,
+                       &file) == MPI_SUCCESS;
     delete[] filename_str;
+    if (!SuccessOnAllTasks(ok)) return false;
+
+    // All tasks must know the end of the header before any of them starts to write behind it
     MPI_Offset end_header;
-    MPI_File_get_size(file,&end_header);
+    ok = MPI_File_get_size(file,&end_header) == MPI_SUCCESS;
+    MPI_Barrier(MPI_COMM_WORLD);
     MPI_File_seek(file,end_header,MPI_SEEK_SET);
 
     // Buffer
@@ -1884,42 +1916,42 @@ bool Simulation<ndim>::WriteSerenUnformSnapshotFile(string filename)
 
     // porig
     //---------------------------------------------------------------------------------------------
-     WriteSerenFormArrayScalar_MPI<ndim, int>(file,  hydro, &Particle<ndim>::iorig,
+    ok &= WriteSerenFormArrayScalar_MPI<ndim, int>(file,  hydro, &Particle<ndim>::iorig,
                                               reinterpret_cast<int*>(buffer), types);
 
     // Positions
     //---------------------------------------------------------------------------------------------
-    WriteSerenFormArrayVector_MPI<ndim, FLOAT>(file, hydro, &Particle<ndim>::r,
+    ok &= WriteSerenFormArrayVector_MPI<ndim, FLOAT>(file, hydro, &Particle<ndim>::r,
                                                reinterpret_cast<FLOAT*>(buffer),
                                                types, simunits.r.outscale);
 
     // Masses
     //---------------------------------------------------------------------------------------------
-    WriteSerenFormArrayScalar_MPI<ndim, FLOAT>(file, hydro, &Particle<ndim>::m,
+    ok &= WriteSerenFormArrayScalar_MPI<ndim, FLOAT>(file, hydro, &Particle<ndim>::m,
                                                reinterpret_cast<FLOAT*>(buffer),
                                                types, simunits.m.outscale);
 
     // Smoothing lengths
     //---------------------------------------------------------------------------------------------
-    WriteSerenFormArrayScalar_MPI<ndim, FLOAT>(file, hydro, &Particle<ndim>::h,
+    ok &= WriteSerenFormArrayScalar_MPI<ndim, FLOAT>(file, hydro, &Particle<ndim>::h,
                                                reinterpret_cast<FLOAT*>(buffer),
                                                types, simunits.r.outscale);
 
     // Velocities
     //---------------------------------------------------------------------------------------------
-    WriteSerenFormArrayVector_MPI<ndim, FLOAT>(file, hydro, &Particle<ndim>::v,
+    ok &= WriteSerenFormArrayVector_MPI<ndim, FLOAT>(file, hydro, &Particle<ndim>::v,
                                                reinterpret_cast<FLOAT*>(buffer),
                                                types, simunits.v.outscale);
 
     // Densities
     //---------------------------------------------------------------------------------------------
-    WriteSerenFormArrayScalar_MPI<ndim, FLOAT>(file, hydro, &Particle<ndim>::rho,
+    ok &= WriteSerenFormArrayScalar_MPI<ndim, FLOAT>(file, hydro, &Particle<ndim>::rho,
                                                reinterpret_cast<FLOAT*>(buffer),
                                                types, simunits.rho.outscale);
 
     // Specific internal energies
     //---------------------------------------------------------------------------------------------
-    WriteSerenFormArrayScalar_MPI<ndim, FLOAT>(file, hydro, &Particle<ndim>::u,
+    ok &= WriteSerenFormArrayScalar_MPI<ndim, FLOAT>(file, hydro, &Particle<ndim>::u,
                                                reinterpret_cast<FLOAT*>(buffer),
                                                types, simunits.u.outscale);
 
@@ -1930,7 +1962,7 @@ bool Simulation<ndim>::WriteSerenUnformSnapshotFile(string filename)
 
     free(buffer);
 
-    MPI_File_close(&file);
+    if (MPI_File_close(&file) != MPI_SUCCESS) ok = false;
   }
 
 
@@ -1959,10 +1991,12 @@ bool Simulation<ndim>::WriteSerenUnformSnapshotFile(string filename)
         writer.write_value(sdata[ii]);
       }
     }
+    outfile.close();
+    if (outfile.fail()) ok = false;
   }
   //-----------------------------------------------------------------------------------------------
 
-  return true;
+  return SuccessOnAllTasks(ok);
 }
 #else
 
-- 
2.43.0


From 672e235cb3ab418920154f23cc5fb64aef682798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:40 +0000
Subject: [PATCH 34/56] fix: parallel processes could disagree on stopping at
 the wall-clock limit

Each process looked at its own clock, so some of them could enter the final
collective snapshot while others took another step.  The root process decides.
---
 src/Common/Simulation.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index 67abdb4..7d07dbe 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -404,7 +404,12 @@ void SimulationBase::Run
     GANDALF_SIM_HOOK(sim_hook_output, this);
 
     // Special condition to check if maximum wall-clock time has been reached.
-    if (kill_simulation || timing->RunningTime() > 0.95*tmax_wallclock) {
+    // (the root process decides, so that all MPI processes stop after the same step)
+    bool stop = kill_simulation || timing->RunningTime() > 0.95*tmax_wallclock;
+#ifdef MPI_PARALLEL
+    MPI_Bcast(&stop, sizeof(stop), MPI_BYTE, 0, MPI_COMM_WORLD);
+#endif
+    if (stop) {
       RestartSnapshot();
       cout << "Reached maximum wall-clock time.  Killing simulation." << endl;
       break;
-- 
2.43.0


From fcd8b13e140246b2309acc851e2a99c86d4cd7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:24 +0000
Subject: [PATCH 35/56] fix: sinks near a boundary accreted images of particles
 that stayed in the gas

A periodic ghost inside a sink was accreted while the particle it is a copy of
kept its mass, step after step; images behind a mirror were accreted as well.
---
 src/Nbody/Sinks.cpp | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index c5c43aa..23cc605 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -357,6 +357,23 @@ void Sinks<ndim>::CreateNewSinkParticle
 
 
 
+//=================================================================================================
+//  RealParticleId
+/// Returns the id of the particle that a periodic ghost is a copy of; all other particles (also
+/// the ghosts from other MPI processes, whose originals are not here) stand for themselves.
+//=================================================================================================
+template <int ndim>
+static int RealParticleId
+ (Hydrodynamics<ndim> *hydro,          ///< [in] Object containing SPH ptcls
+  int i)                               ///< [in] Particle id
+{
+  if (i >= hydro->Nhydro + hydro->NPeriodicGhost) return i;
+  while (i >= hydro->Nhydro) i = hydro->GetParticlePointer(i).iorig;
+  return i;
+}
+
+
+
 //=================================================================================================
 //  Sinks::AcceteMassToSinks
 /// Identify all SPH particles inside sinks and accrete some fraction (or all)
@@ -455,6 +472,12 @@ void Sinks<ndim>::AccreteMassToSinks
         Particle<ndim>& part = hydro->GetParticlePointer(i);
         if (part.flags.is_dead()) continue;
 
+        // Mirror images contain no mass of their own.  Periodic images stand for the particle
+        // itself, unless it has just been turned into a sink.
+        if (part.flags.check(mirror_boundary)) continue;
+        Particle<ndim>& realpart = hydro->GetParticlePointer(RealParticleId(hydro, i));
+        if (realpart.flags.is_dead()) continue;
+
         for (k=0; k<ndim; k++) dr[k] = part.r[k] - sink[s].star->r[k];
         drsqd = DotProduct(dr, dr, ndim);
 
@@ -462,7 +485,7 @@ void Sinks<ndim>::AccreteMassToSinks
           // A particle inside several sinks belongs to the last one, in whatever order
           // the threads reach them
 #pragma omp critical
-          part.sinkid = max(part.sinkid, s);
+          realpart.sinkid = max(realpart.sinkid, s);
           sink[s].Ngas++;
         }
 
@@ -529,16 +552,18 @@ void Sinks<ndim>::AccreteMassToSinks
       for (j=0; j<Nlist; j++) {
         i = neiblist[j];
         Particle<ndim>& part = hydro->GetParticlePointer(i);
-        if (part.flags.is_dead()) continue;
+        if (part.flags.is_dead() || part.flags.check(mirror_boundary)) continue;
+        Particle<ndim>& realpart = hydro->GetParticlePointer(RealParticleId(hydro, i));
+        if (realpart.flags.is_dead()) continue;
 
-        if (part.sinkid == s) {
+        if (realpart.sinkid == s) {
           for (k=0; k<ndim; k++) dr[k] = part.r[k] - sink[s].star->r[k];
           drsqd = DotProduct(dr, dr, ndim);
           if (drsqd > sink[s].radius*sink[s].radius) continue;
           ilist[Nneib]    = i;
           rsqdlist[Nneib] = drsqd;  //*part.m;
           Nneib++;
-          part.levelneib = max(part.levelneib, sink[s].star->level);
+          realpart.levelneib = max(realpart.levelneib, sink[s].star->level);
         }
 
       }
@@ -706,6 +731,8 @@ void Sinks<ndim>::AccreteMassToSinks
         Particle<ndim>& part = hydro->GetParticlePointer(i);
         if (part.flags.is_dead()) continue;
 
+        Particle<ndim>& realpart = hydro->GetParticlePointer(RealParticleId(hydro, i));
+
         mtemp = min(part.m, macc);
         dt = part.dt;
 
@@ -713,13 +740,13 @@ void Sinks<ndim>::AccreteMassToSinks
         if (smooth_accretion == 0 || part.m - mtemp < smooth_accrete_frac*hydro->mmean ||
             dt < smooth_accrete_dt*sink[s].trot) {
           mtemp       = part.m;
-          part.m      = (FLOAT) 0.0;
-          part.flags.set(dead);
-          part.flags.unset(active);
+          realpart.m  = (FLOAT) 0.0;
+          realpart.flags.set(dead);
+          realpart.flags.unset(active);
         }
         else {
           //part.m -= mtemp;
-          hydro->AccreteMassFromParticle(mtemp, part);
+          hydro->AccreteMassFromParticle(mtemp, realpart);
         }
 #if defined MPI_PARALLEL
         if (i > hydro->Nhydro) {
-- 
2.43.0


From 79dba63aee9517551a21c7ef94bfc16a897b0aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 36/56] fix: a full neighbour list was continued in front of
 its first element

Once the list of neighbours around a sink did not fit, the search went on in the
ghost tree with the error code -1 as the number of neighbours.
---
 src/Tree/HydroTree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Tree/HydroTree.cpp b/src/Tree/HydroTree.cpp
index 125cc97..0d5d414 100644
--- a/src/Tree/HydroTree.cpp
+++ b/src/Tree/HydroTree.cpp
@@ -461,9 +461,12 @@ int HydroTree<ndim,ParticleType>::GetGatherNeighbourList
 
   debug2("[HydroTree::GetGatherNeighbourList]");
 
+  // If the list does not fit into the given array at any point, return with error-code (-1)
   Nneib = tree->ComputeGatherNeighbourList(partdata, rp, rsearch, Nneibmax, Nneib, neiblist);
+  if (Nneib == -1) return -1;
   Nneib = ghosttree->ComputeGatherNeighbourList(partdata, rp, rsearch, Nneibmax, Nneib, neiblist);
 #ifdef MPI_PARALLEL
+  if (Nneib == -1) return -1;
   Nneib = mpighosttree->ComputeGatherNeighbourList(partdata, rp, rsearch, Nneibmax, Nneib, neiblist);
 #endif
 
-- 
2.43.0


From 639c4650a4b2d4c8a71382186add4ff3ff002f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 37/56] fix: accretion mixed up periodic ghosts and ghosts from
 other processes

The first ghost was never reported to its owner, and periodic ghosts were, which
aborts the run.
---
 src/Nbody/Sinks.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index 23cc605..97012be 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -749,7 +749,7 @@ void Sinks<ndim>::AccreteMassToSinks
           hydro->AccreteMassFromParticle(mtemp, realpart);
         }
 #if defined MPI_PARALLEL
-        if (i > hydro->Nhydro) {
+        if (i >= hydro->Nhydro + hydro->NPeriodicGhost) {
           // We are accreting a MPI ghost, so we need to record that to transmit it to the owner
 #pragma omp critical (ghost_accreted)
           ghosts_accreted.push_back(i);
-- 
2.43.0


From 924427a52f27794ae0ae7de2642cf19f89a8f743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:02 +0000
Subject: [PATCH 38/56] fix: processes could disagree on who owns a sink that
 has moved

The owner of a sink was looked up again after accretion had moved the sink,
possibly into the domain of another process.
---
 src/Headers/MpiControl.h |  3 ++-
 src/Mpi/MpiControl.cpp   | 36 ++++++++++++++++++++++++------------
 src/Nbody/Sinks.cpp      | 11 ++++++-----
 3 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/Headers/MpiControl.h b/src/Headers/MpiControl.h
index 3f9f014..10ffbdc 100644
--- a/src/Headers/MpiControl.h
+++ b/src/Headers/MpiControl.h
@@ -126,7 +126,8 @@ class MpiControl
   virtual void LoadBalancing(Hydrodynamics<ndim> *, Nbody<ndim> *) = 0;
   virtual void UpdateMpiGhostParents (list<int>& ids, Hydrodynamics<ndim>* hydro,
                                       MPI_ghost_update_type=update_sink_parents)=0;
-  void UpdateSinksAfterAccretion(Sinks<ndim>* sink);
+  void FindSinkOwners(Sinks<ndim>* sink, vector<int>& owner);
+  void UpdateSinksAfterAccretion(Sinks<ndim>* sink, const vector<int>& owner);
 
   Box<ndim> MyDomain();
 
diff --git a/src/Mpi/MpiControl.cpp b/src/Mpi/MpiControl.cpp
index 95b7321..4c759b4 100755
--- a/src/Mpi/MpiControl.cpp
+++ b/src/Mpi/MpiControl.cpp
@@ -394,6 +394,25 @@ void MpiControl<ndim>::ComputeTotalStarGasForces
 
 
 
+//=================================================================================================
+//  MpiControl::FindSinkOwners
+/// Find the process each sink belongs to, i.e. the one whose domain the sink is in (-1 if the sink
+/// is in none).  The owner can not be found again once the sink has accreted, since that moves it.
+//=================================================================================================
+template <int ndim>
+void MpiControl<ndim>::FindSinkOwners
+ (Sinks<ndim>* sink,                             ///< [in] Pointer to sinks array
+  vector<int>& owner)                            ///< [out] Owner of each sink
+{
+  Box<ndim> mydomain = this->MyDomain();
+  owner.assign(sink->Nsink, -1);
+  for (int s=0; s<sink->Nsink; s++) {
+    if (ParticleInBox(*(sink->sink[s].star), mydomain)) owner[s] = rank;
+  }
+  MPI_Allreduce(MPI_IN_PLACE, &owner[0], sink->Nsink, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
+}
+
+
 //=================================================================================================
 //  MpiControl::UpdateStarsAfterAccretion
 /// After the sinks have accreted gas particles, need to communicate their new properties
@@ -406,27 +425,20 @@ void MpiControl<ndim>::ComputeTotalStarGasForces
 //=================================================================================================
 template <int ndim>
 void MpiControl<ndim>::UpdateSinksAfterAccretion
- (Sinks<ndim>* sink)                             ///< [inout] Pointer to sinks array
+ (Sinks<ndim>* sink,                             ///< [inout] Pointer to sinks array
+  const vector<int>& owner)                      ///< [in] Process that has updated each sink (or -1)
 {
   const int number_variables = ndim*6 + 15;      // ..
   int local_sinks = 0;                           // ..
   int offset = 0;                                // ..
-  Box<ndim> mydomain = this->MyDomain();         // ..
-  vector<int> owner(sink->Nsink);                // ..
   vector<int> N_sinks_per_rank(Nmpi);            // ..
 
-  // Find out how many stars we have locally and for each processor; also store owner of each sink
+  // Find out how many stars we have locally and for each processor
   for (int s=0; s<sink->Nsink; s++) {
-    if (ParticleInBox(*(sink->sink[s].star), mydomain)) {
-      local_sinks++;
-      owner[s] = rank;
-    }
+    if (owner[s] == rank) local_sinks++;
   }
   N_sinks_per_rank[rank] = local_sinks;
 
-  // Send around the owner vector
-  MPI_Allreduce(MPI_IN_PLACE, &owner[0], sink->Nsink, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
-
   // Send around the number of sinks per node
   MPI_Allreduce(MPI_IN_PLACE, &N_sinks_per_rank[0], Nmpi, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
 
@@ -488,7 +500,7 @@ void MpiControl<ndim>::UpdateSinksAfterAccretion
   for (int s=0; s<sink->Nsink; s++) {
     const int origin = owner[s];
 
-    if (origin == rank) continue;
+    if (origin == rank || origin == -1) continue;
 
     // Extract the data from receivebuffer[displ[origin]+consumed[origin];
     int offset = 0;
diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index 97012be..cde1688 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -396,7 +396,8 @@ void Sinks<ndim>::AccreteMassToSinks
   for (int s=0; s<Nsinkmax; s++) sink[s].Ngas = 0;
 
 #ifdef MPI_PARALLEL
-  Box<ndim> mydomain = mpicontrol->MyDomain();
+  vector<int> sinkowner;
+  mpicontrol->FindSinkOwners(this, sinkowner);
   list<int> ghosts_accreted;
 #endif
 
@@ -404,7 +405,7 @@ void Sinks<ndim>::AccreteMassToSinks
   // Set-up all parallel threads for computing sink accretion
   //===============================================================================================
 #if defined MPI_PARALLEL
-#pragma omp parallel default(none) shared(ghosts_accreted,hydro,mydomain,nbody,partdata)
+#pragma omp parallel default(none) shared(ghosts_accreted,hydro,nbody,partdata,sinkowner)
 #else
 #pragma omp parallel default(none) shared(hydro,nbody,partdata)
 #endif
@@ -444,7 +445,7 @@ void Sinks<ndim>::AccreteMassToSinks
 
       // For MPI simulations, only consider sink particles owned by this domain
 #if defined MPI_PARALLEL
-      if (!ParticleInBox(*(sink[s].star), mydomain)) continue;
+      if (sinkowner[s] != mpicontrol->rank) continue;
 #endif
 
       // Find the list of particles inside
@@ -502,7 +503,7 @@ void Sinks<ndim>::AccreteMassToSinks
 
       // Only accrete from local sinks
 #if defined MPI_PARALLEL
-      if (!ParticleInBox(*(sink[s].star), mydomain)) continue;
+      if (sinkowner[s] != mpicontrol->rank) continue;
 #endif
 
       /*cout << "Accreting?? : " << s << "   " << Nsink << "   " << sink[s].Ngas << "    " << n
@@ -796,7 +797,7 @@ void Sinks<ndim>::AccreteMassToSinks
 
 #if defined MPI_PARALLEL
   mpicontrol->UpdateMpiGhostParents(ghosts_accreted, hydro);
-  mpicontrol->UpdateSinksAfterAccretion(this);
+  mpicontrol->UpdateSinksAfterAccretion(this, sinkowner);
 #endif
 
   // Quick sanity-check for accreted particles
-- 
2.43.0


From cb5af45aaebd00d3473227ceed7acfac29ae0c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:32 +0000
Subject: [PATCH 39/56] fix: parallel runs aborted when a particle on the edge
 of its domain left it

The check of the particles to transfer took a particle outside the domain that
lies on its left edge in another dimension for one that has to stay.
---
 src/Tree/HydroTree.cpp | 39 +++++++++++----------------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/src/Tree/HydroTree.cpp b/src/Tree/HydroTree.cpp
index 0d5d414..c801fe1 100644
--- a/src/Tree/HydroTree.cpp
+++ b/src/Tree/HydroTree.cpp
@@ -1508,36 +1508,19 @@ void HydroTree<ndim,ParticleType>::FindMpiTransferParticles
     Box<ndim>& domainbox = mpinodes[rank].domain;
     const bool WillExport = std::binary_search(temp.begin(),temp.end(),i);
     if (ParticleInBox(part,domainbox)) {
-      // If the particle is in our own domain, only export if it is on the right edge.
-      bool right_edge=false;
-      for (int k=0; k<ndim; k++) {
-        if (part.r[k] == domainbox.max[k]) {
-          right_edge = true;
-        }
-      }
-
-      if (WillExport) {
-        assert(right_edge);
-      } else {
-        assert(!right_edge);
-      }
+      // If the particle is in our own domain, it must stay here
+      assert(!WillExport);
     }
     else {
-      // Particle is not in our domain, we should export unless it's on the left edge
-      bool left_edge = false;
-      for (int k=0; k<ndim; k++) if (part.r[k]==domainbox.min[k]) left_edge=true;
-
-      if (left_edge) {
-        assert(!WillExport);
-      } else {
-        assert(WillExport);
-        for (unsigned int jnode=0; jnode<potential_nodes.size(); jnode++) {
-          inode=potential_nodes[jnode];
-          vector<int>::iterator it = std::find(particles_to_export[inode].begin(),particles_to_export[inode].end(),i);
-          const bool InDomain = ParticleInBox(part,mpinodes[inode].domain);
-          assert(( InDomain && it != particles_to_export[inode].end()) ||
-                 (!InDomain && it == particles_to_export[inode].end()) );
-        }
+      // Particle is not in our domain (the left edges of a domain belong to it, the right ones to
+      // its neighbours), so it must be exported to the process in whose domain it is
+      assert(WillExport);
+      for (unsigned int jnode=0; jnode<potential_nodes.size(); jnode++) {
+        inode=potential_nodes[jnode];
+        vector<int>::iterator it = std::find(particles_to_export[inode].begin(),particles_to_export[inode].end(),i);
+        const bool InDomain = ParticleInBox(part,mpinodes[inode].domain);
+        assert(( InDomain && it != particles_to_export[inode].end()) ||
+               (!InDomain && it == particles_to_export[inode].end()) );
       }
     }
   }
-- 
2.43.0


From 612358631bfc490bd89ea26dd4f4c165cd1f82d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:07 +0000
Subject: [PATCH 40/56] fix: sinks of two processes could accrete the same
 particle

A particle inside sinks that belong to different processes was accreted by both.
---
 src/Headers/MpiControl.h |  2 ++
 src/Mpi/MpiControl.cpp   | 45 ++++++++++++++++++++++++++++++++++++++++
 src/Nbody/Sinks.cpp      |  8 +++++++
 3 files changed, 55 insertions(+)

diff --git a/src/Headers/MpiControl.h b/src/Headers/MpiControl.h
index 10ffbdc..3241709 100644
--- a/src/Headers/MpiControl.h
+++ b/src/Headers/MpiControl.h
@@ -126,6 +126,7 @@ class MpiControl
   virtual void LoadBalancing(Hydrodynamics<ndim> *, Nbody<ndim> *) = 0;
   virtual void UpdateMpiGhostParents (list<int>& ids, Hydrodynamics<ndim>* hydro,
                                       MPI_ghost_update_type=update_sink_parents)=0;
+  virtual void UpdateGhostSinkIds(Hydrodynamics<ndim>*)=0;
   void FindSinkOwners(Sinks<ndim>* sink, vector<int>& owner);
   void UpdateSinksAfterAccretion(Sinks<ndim>* sink, const vector<int>& owner);
 
@@ -181,6 +182,7 @@ public:
   virtual void ExportParticlesBeforeForceLoop (Hydrodynamics<ndim> *);
   virtual void GetExportedParticlesAccelerations (Hydrodynamics<ndim> *);
   virtual void UpdateMpiGhostParents (list<int>& ids, Hydrodynamics<ndim>*,MPI_ghost_update_type);
+  virtual void UpdateGhostSinkIds(Hydrodynamics<ndim>*);
 
   void SendParticles(int Node, int Nparticles, int* list, ParticleType<ndim>*);
   void ReceiveParticles(int Node, int& Nparticles, ParticleType<ndim>** array);
diff --git a/src/Mpi/MpiControl.cpp b/src/Mpi/MpiControl.cpp
index 4c759b4..1595c4a 100755
--- a/src/Mpi/MpiControl.cpp
+++ b/src/Mpi/MpiControl.cpp
@@ -749,6 +749,51 @@ void MpiControlType<ndim, ParticleType>::UpdateMpiGhostParents
   }
 }
 
+//=================================================================================================
+//  MpiControlType::UpdateGhostSinkIds
+/// Let all copies of a particle (the particle itself and its ghosts on other processes) agree on
+/// the sink it is inside of, so that only one of them is accreted.  Particles that are dead, for
+/// example because they have just been turned into a sink themselves, are in no sink.
+//=================================================================================================
+template <int ndim, template<int> class ParticleType>
+void MpiControlType<ndim, ParticleType>::UpdateGhostSinkIds
+ (Hydrodynamics<ndim>* hydro)              ///< Pointer to hydrodynamics object
+{
+  ParticleType<ndim>* partdata = hydro->template GetParticleArray<ParticleType>();
+  const int start_index = hydro->Nhydro + hydro->NPeriodicGhost;
+  vector<int> originals;
+  vector<int> ghost_ids(Nreceive_tot);
+
+  // Find the originals of our particles that are ghosts elsewhere
+  for (int inode=0; inode<Nmpi; inode++) {
+    for (unsigned int ipart=0; ipart<particles_to_export_per_node[inode].size(); ipart++) {
+      int j = particles_to_export_per_node[inode][ipart];
+      while (j >= hydro->Nhydro) j = partdata[j].iorig;
+      originals.push_back(j);
+    }
+  }
+  vector<int> original_ids(originals.size());
+
+  // Collect the sinks that were found for the ghosts
+  for (int j=0; j<Nreceive_tot; j++) ghost_ids[j] = partdata[start_index + j].sinkid;
+  MPI_Alltoallv(&ghost_ids[0], &Nreceive_per_node[0], &displacements_receive[0], MPI_INT,
+                &original_ids[0], &Nexport_per_node[0], &displacements_send[0], MPI_INT,
+                MPI_COMM_WORLD);
+  for (unsigned int j=0; j<originals.size(); j++) {
+    ParticleType<ndim>& part = partdata[originals[j]];
+    part.sinkid = part.flags.is_dead() ? -1 : max(part.sinkid, original_ids[j]);
+  }
+
+  // Return the result to all the ghosts
+  for (unsigned int j=0; j<originals.size(); j++) original_ids[j] = partdata[originals[j]].sinkid;
+  MPI_Alltoallv(&original_ids[0], &Nexport_per_node[0], &displacements_send[0], MPI_INT,
+                &ghost_ids[0], &Nreceive_per_node[0], &displacements_receive[0], MPI_INT,
+                MPI_COMM_WORLD);
+  for (int j=0; j<Nreceive_tot; j++) partdata[start_index + j].sinkid = ghost_ids[j];
+}
+
+
+
 //=================================================================================================
 //  MpiControlType::ExportParticlesBeforeForceLoop
 /// Export the particles that need force contribution from other processors
diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index cde1688..45fd050 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -496,6 +496,14 @@ void Sinks<ndim>::AccreteMassToSinks
     //---------------------------------------------------------------------------------------------
 
 
+    // Sinks of several processes may contain the same particle
+#if defined MPI_PARALLEL
+#pragma omp master
+    mpicontrol->UpdateGhostSinkIds(hydro);
+#pragma omp barrier
+#endif
+
+
     // Calculate the accretion timescale and the total mass accreted from all ptcls for each sink.
     //---------------------------------------------------------------------------------------------
 #pragma omp for schedule(dynamic,1)
-- 
2.43.0


From feac68b1bf575f6c8a53a4666e531cc25f12a5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:04 +0000
Subject: [PATCH 41/56] hooks around the formation and accretion of sinks
 (GANDALF_SIM_HOOKS only)

---
 src/Headers/SimHooks.h                | 4 +++-
 src/Hydrodynamics/SphSimulation.cpp   | 3 +++
 src/MeshlessFV/MfvMusclSimulation.cpp | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Headers/SimHooks.h b/src/Headers/SimHooks.h
index 0b3cf12..c1b547d 100644
--- a/src/Headers/SimHooks.h
+++ b/src/Headers/SimHooks.h
@@ -16,7 +16,9 @@ enum SimHookEvent {
   sim_hook_setup_output = 3,           // Initial output complete
   sim_hook_step = 4,                   // One integration step complete, before any output
   sim_hook_output = 5,                 // Output of the current step complete
-  sim_hook_end = 6                     // Main loop finished
+  sim_hook_end = 6,                    // Main loop finished
+  sim_hook_sinks = 7,                  // Before sinks are formed and accrete
+  sim_hook_sinks_done = 8              // After sinks have been formed and have accreted
 };
 
 extern "C" void gandalf_sim_hook(int event, SimulationBase* sim);
diff --git a/src/Hydrodynamics/SphSimulation.cpp b/src/Hydrodynamics/SphSimulation.cpp
index 0f6b149..b621114 100644
--- a/src/Hydrodynamics/SphSimulation.cpp
+++ b/src/Hydrodynamics/SphSimulation.cpp
@@ -45,6 +45,7 @@
 #include "RiemannSolver.h"
 #include "Ghosts.h"
 #include "Sinks.h"
+#include "SimHooks.h"
 using namespace std;
 
 
@@ -819,6 +820,7 @@ void SphSimulation<ndim>::MainLoop(void)
 
   // Search for new sink particles (if activated) and accrete to existing sinks
   if (sink_particles == 1) {
+    GANDALF_SIM_HOOK(sim_hook_sinks, this);
     if (sinks->create_sinks == 1 && (rebuild_tree || Nfullsteps%ntreebuildstep == 0)) {
       sinks->SearchForNewSinkParticles(n, t ,sph, nbody);
     }
@@ -835,6 +837,7 @@ void SphSimulation<ndim>::MainLoop(void)
       nbody->UpdateStellarProperties();
       if (extra_sink_output) WriteExtraSinkOutput();
     }
+    GANDALF_SIM_HOOK(sim_hook_sinks_done, this);
   }
 
   // Compute timesteps for all particles (for next step, needed for dust accelerations.)
diff --git a/src/MeshlessFV/MfvMusclSimulation.cpp b/src/MeshlessFV/MfvMusclSimulation.cpp
index c23281c..b04af38 100644
--- a/src/MeshlessFV/MfvMusclSimulation.cpp
+++ b/src/MeshlessFV/MfvMusclSimulation.cpp
@@ -44,6 +44,7 @@
 #include "RiemannSolver.h"
 #include "Ghosts.h"
 #include "Sinks.h"
+#include "SimHooks.h"
 using namespace std;
 
 
@@ -255,6 +256,7 @@ void MfvMusclSimulation<ndim>::MainLoop(void)
 
   // Search for new sink particles (if activated) and accrete to existing sinks
   if (sink_particles == 1) {
+    GANDALF_SIM_HOOK(sim_hook_sinks, this);
     if (sinks->create_sinks == 1 && (rebuild_tree || Nfullsteps%ntreebuildstep == 0)) {
       sinks->SearchForNewSinkParticles(n, t, mfv, nbody);
     }
@@ -270,6 +272,7 @@ void MfvMusclSimulation<ndim>::MainLoop(void)
       nbody->UpdateStellarProperties();
       //if (extra_sink_output) WriteExtraSinkOutput();
     }
+    GANDALF_SIM_HOOK(sim_hook_sinks_done, this);
 
     // Stock after sink accretion (1, 2 is a hack to force stocking)
     mfvneib->BuildTree(rebuild_tree, 1, 2, ntreestockstep,timestep, mfv);
-- 
2.43.0


From 605bed348016452ef866a35ccf644787e91a29dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:21 +0000
Subject: [PATCH 42/56] fix: in parallel runs the Cullen & Dehnen viscosity
 started too high along domain borders

---
 src/Hydrodynamics/SphSimulation.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Hydrodynamics/SphSimulation.cpp b/src/Hydrodynamics/SphSimulation.cpp
index b621114..bbe8fd0 100644
--- a/src/Hydrodynamics/SphSimulation.cpp
+++ b/src/Hydrodynamics/SphSimulation.cpp
@@ -423,8 +423,13 @@ void SphSimulation<ndim>::PostInitialConditionsSetup(void)
     }
 
     // Calculate all SPH properties
-    if (iter == 0)
+    if (iter == 0) {
+      // Earlier passes over incomplete neighbour lists (no ghosts yet) may have raised alpha
+      if (sph->tdavisc == cd2010) {
+        for (i=0; i<sph->Nhydro; i++) sph->GetSphParticlePointer(i).alpha = sph->alpha_visc_min;
+      }
       sphneib->UpdateAllSphProperties(sph, nbody);
+    }
 
 
 #ifdef MPI_PARALLEL
-- 
2.43.0


From 5a80e7ddb71b7ef22d66c2ee98b02eaaeb6b9b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:39 +0000
Subject: [PATCH 43/56] fix: the rate of change of the viscosity was summed up
 over all steps of a run

---
 src/GradhSph/GradhSphTree.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/GradhSph/GradhSphTree.cpp b/src/GradhSph/GradhSphTree.cpp
index 671f1bc..ca947e1 100644
--- a/src/GradhSph/GradhSphTree.cpp
+++ b/src/GradhSph/GradhSphTree.cpp
@@ -335,7 +335,6 @@ void GradhSphTree<ndim,ParticleType>::UpdateAllSphHydroForces
         activepart[j] = sphdata[activelist[j]];
         activepart[j].div_v     = (FLOAT) 0.0;
         activepart[j].dudt      = (FLOAT) 0.0;
-        activepart[j].dalphadt  = (FLOAT) 0.0;
         activepart[j].gpot      = (FLOAT) 0.0;
         activepart[j].levelneib = 0;
         for (int k=0; k<ndim; k++) activepart[j].a[k] = (FLOAT) 0.0;
@@ -400,7 +399,7 @@ void GradhSphTree<ndim,ParticleType>::UpdateAllSphHydroForces
         for (int k=0; k<ndim; k++) sphdata[i].atree[k] += activepart[j].atree[k];
         sphdata[i].gpot     += activepart[j].gpot;
         sphdata[i].dudt     += activepart[j].dudt;
-        sphdata[i].dalphadt += activepart[j].dalphadt;
+        sphdata[i].dalphadt  = activepart[j].dalphadt;
         sphdata[i].div_v    += activepart[j].div_v;
         levelneib[i]        = max(levelneib[i], activepart[j].levelneib);
       }
-- 
2.43.0


From de5f20e6054f4f050496020a52766bacd16a8151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:39 +0000
Subject: [PATCH 44/56] fix: in self-gravitating runs the time-dependent
 viscosity of Morris & Monaghan stayed at its minimum

---
 src/GradhSph/GradhSph.cpp     | 2 +-
 src/GradhSph/GradhSphTree.cpp | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index 17e7049..f30868a 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -578,7 +578,7 @@ void GradhSph<ndim, kernelclass>::ComputeSphHydroGravForces
   parti.dudt    -= eos->Pressure(parti)*parti.div_v*invrho_i*parti.invomega;
   if (tdavisc == mm97) {
     parti.dalphadt = (FLOAT) 0.1*parti.sound*(alpha_visc_min - parti.alpha)*invh_i +
-        max(parti.div_v,(FLOAT) 0.0)*(alpha_visc - parti.alpha);
+        max(-parti.div_v,(FLOAT) 0.0)*(alpha_visc - parti.alpha);
   }
 
   return;
diff --git a/src/GradhSph/GradhSphTree.cpp b/src/GradhSph/GradhSphTree.cpp
index ca947e1..68804d4 100644
--- a/src/GradhSph/GradhSphTree.cpp
+++ b/src/GradhSph/GradhSphTree.cpp
@@ -614,6 +614,7 @@ void GradhSphTree<ndim,ParticleType>::UpdateAllSphForces
         sphdata[i].gpot  += activepart[j].gpot;
         sphdata[i].gpot_hydro += activepart[j].gpot_hydro;
         sphdata[i].dudt  += activepart[j].dudt;
+        sphdata[i].dalphadt = activepart[j].dalphadt;
         sphdata[i].div_v += activepart[j].div_v;
         levelneib[i]      = max(levelneib[i],activepart[j].levelneib);
       }
-- 
2.43.0


From e45d2365e78b2ce57722c0f7ec726464f7e7d34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:09 +0000
Subject: [PATCH 45/56] fix: neighbours across a periodic border were missed
 when another direction was not periodic

---
 src/Headers/GhostNeighbours.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Headers/GhostNeighbours.hpp b/src/Headers/GhostNeighbours.hpp
index 3dc4467..6c69552 100644
--- a/src/Headers/GhostNeighbours.hpp
+++ b/src/Headers/GhostNeighbours.hpp
@@ -174,6 +174,7 @@ public:
     type_flag PeriodicDistanceCorrection(const FLOAT dr[ndim], FLOAT dr_corr[ndim]) const
     {
       type_flag bound ;
+      for (int k=0; k<ndim; k++) dr_corr[k] = 0 ;
       if (_any_periodic)
         {
           for (int k=0; k<ndim; k++) {
-- 
2.43.0


From 3e9f1c33271838473d95f7d6958f6a0bb0fa3b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:05 +0000
Subject: [PATCH 46/56] fix: the smoothing length of meshless particles was
 accepted by the value of the previous step

---
 src/MeshlessFV/MfvCommon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshlessFV/MfvCommon.cpp b/src/MeshlessFV/MfvCommon.cpp
index 5747412..67de69b 100644
--- a/src/MeshlessFV/MfvCommon.cpp
+++ b/src/MeshlessFV/MfvCommon.cpp
@@ -169,8 +169,8 @@ int MfvCommon<ndim, kernelclass,SlopeLimiter>::ComputeH
     rho       = part.m*ndens;
 
     // If h changes below some fixed tolerance, exit iteration loop
-    if (part.rho > (FLOAT) 0.0 && part.h > h_lower_bound &&
-        fabs(part.h - h_fac*pow(volume,MeshlessFV<ndim>::invndim)) < h_converge) break;
+    if (rho > (FLOAT) 0.0 && h > h_lower_bound &&
+        fabs(h - h_fac*pow(volume,MeshlessFV<ndim>::invndim))*invh < h_converge) break;
 
 
     // Use fixed-point iteration, i.e. h_new = h_fac*(m/rho_old)^(1/ndim), for now.  If this does
-- 
2.43.0


From da515bd3ef9341310c4e5fa6440f8acda33959dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:03 +0000
Subject: [PATCH 47/56] fix: self-gravity of the meshless schemes ignored the
 change of the softening with position

---
 src/MeshlessFV/MfvCommon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshlessFV/MfvCommon.cpp b/src/MeshlessFV/MfvCommon.cpp
index 67de69b..913fa19 100644
--- a/src/MeshlessFV/MfvCommon.cpp
+++ b/src/MeshlessFV/MfvCommon.cpp
@@ -217,9 +217,9 @@ int MfvCommon<ndim, kernelclass,SlopeLimiter>::ComputeH
   part.hfactor   = pow(1/part.h, ndim+1);
   part.hrangesqd = kern.kernrangesqd*part.h*part.h;
   part.div_v     = (FLOAT) 0.0;
-  part.invomega  = (FLOAT) 1.0 + (FLOAT) MeshlessFV<ndim>::invndim*part.h*part.invomega/part.ndens;
+  part.invomega  = (FLOAT) 1.0 + (FLOAT) MeshlessFV<ndim>::invndim*part.h*invomega/part.ndens;
   part.invomega  = (FLOAT) 1.0/part.invomega;
-  part.zeta      = -(FLOAT) MeshlessFV<ndim>::invndim*part.m*part.h*part.zeta*part.invomega/part.ndens;
+  part.zeta      = -(FLOAT) MeshlessFV<ndim>::invndim*part.m*part.h*zeta*part.invomega/part.ndens;
   
 
   // Set important thermal variables here
-- 
2.43.0


From 56d78224765b3b4b1f4393e208372195ba1a604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:03 +0000
Subject: [PATCH 48/56] hook once the forces on the active particles are known
 (GANDALF_SIM_HOOKS only)

---
 src/Headers/SimHooks.h                | 3 ++-
 src/Hydrodynamics/SphSimulation.cpp   | 2 ++
 src/MeshlessFV/MfvMusclSimulation.cpp | 2 ++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Headers/SimHooks.h b/src/Headers/SimHooks.h
index c1b547d..515e279 100644
--- a/src/Headers/SimHooks.h
+++ b/src/Headers/SimHooks.h
@@ -18,7 +18,8 @@ enum SimHookEvent {
   sim_hook_output = 5,                 // Output of the current step complete
   sim_hook_end = 6,                    // Main loop finished
   sim_hook_sinks = 7,                  // Before sinks are formed and accrete
-  sim_hook_sinks_done = 8              // After sinks have been formed and have accreted
+  sim_hook_sinks_done = 8,             // After sinks have been formed and have accreted
+  sim_hook_forces = 9                  // Forces on all active particles computed
 };
 
 extern "C" void gandalf_sim_hook(int event, SimulationBase* sim);
diff --git a/src/Hydrodynamics/SphSimulation.cpp b/src/Hydrodynamics/SphSimulation.cpp
index bbe8fd0..56bf95d 100644
--- a/src/Hydrodynamics/SphSimulation.cpp
+++ b/src/Hydrodynamics/SphSimulation.cpp
@@ -740,6 +740,8 @@ void SphSimulation<ndim>::MainLoop(void)
     mpicontrol->GetExportedParticlesAccelerations(sph);
 #endif
 
+    GANDALF_SIM_HOOK(sim_hook_forces, this);
+
     // Zero all active flags once accelerations have been computed
     for (i=0; i<sph->Nhydro; i++) {
       SphParticle<ndim>& part = sph->GetSphParticlePointer(i);
diff --git a/src/MeshlessFV/MfvMusclSimulation.cpp b/src/MeshlessFV/MfvMusclSimulation.cpp
index b04af38..db79a74 100644
--- a/src/MeshlessFV/MfvMusclSimulation.cpp
+++ b/src/MeshlessFV/MfvMusclSimulation.cpp
@@ -185,6 +185,8 @@ void MfvMusclSimulation<ndim>::MainLoop(void)
 #endif
   }
 
+  GANDALF_SIM_HOOK(sim_hook_forces, this);
+
   // Compute the dust forces if present.
   if (mfvdust != NULL) {
 
-- 
2.43.0


From 337a5408d42b1b0253bbbbba5efdbe3956dda7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:09 +0000
Subject: [PATCH 49/56] fix: the gravitational potential held each particle's
 self-term twice

---
 src/GradhSph/GradhSphTree.cpp     | 2 +-
 src/MeshlessFV/MeshlessFVTree.cpp | 7 ++-----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/GradhSph/GradhSphTree.cpp b/src/GradhSph/GradhSphTree.cpp
index 68804d4..ce5adac 100644
--- a/src/GradhSph/GradhSphTree.cpp
+++ b/src/GradhSph/GradhSphTree.cpp
@@ -508,7 +508,7 @@ void GradhSphTree<ndim,ParticleType>::UpdateAllSphForces
         activepart[j].div_v     = (FLOAT) 0.0;
         activepart[j].dudt      = (FLOAT) 0.0;
         activepart[j].levelneib = 0;
-        activepart[j].gpot      = (activepart[j].m/activepart[j].h)*sph->kernp->wpot(0.0);
+        activepart[j].gpot      = (FLOAT) 0.0;
         for (int k=0; k<ndim; k++) activepart[j].a[k]     = (FLOAT) 0.0;
         for (int k=0; k<ndim; k++) activepart[j].atree[k] = (FLOAT) 0.0;
       }
diff --git a/src/MeshlessFV/MeshlessFVTree.cpp b/src/MeshlessFV/MeshlessFVTree.cpp
index e7d1a50..6f43716 100644
--- a/src/MeshlessFV/MeshlessFVTree.cpp
+++ b/src/MeshlessFV/MeshlessFVTree.cpp
@@ -735,11 +735,8 @@ void MeshlessFVTree<ndim,ParticleType>::UpdateAllGravForces
       // Do the self-gravity contribution, or just the stars
       if (self_gravity) {
 
-        // Include self-term for potential
-        // TODO:
-        //   Check: Is this now accounted for in the neighbour list?
-        for (int j=0; j<Nactive; j++)
-          activepart[j].gpot = (activepart[j].m/activepart[j].h)*mfv->kernp->wpot((FLOAT) 0.0);
+        // The self-term of the potential is accounted for in the neighbour list
+        for (int j=0; j<Nactive; j++) activepart[j].gpot = (FLOAT) 0.0;
 
 
         // Compute neighbour list for cell depending on physics options
-- 
2.43.0


From 80ab9126d09eee1cc9c277ebb325e7d3aa91bd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:18 +0000
Subject: [PATCH 50/56] fix: parallel runs with the octal tree reserved memory
 by a number that was never set

---
 src/Headers/OctTree.h | 1 +
 src/Tree/OctTree.cpp  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/Headers/OctTree.h b/src/Headers/OctTree.h
index 5353970..8f7a809 100644
--- a/src/Headers/OctTree.h
+++ b/src/Headers/OctTree.h
@@ -97,6 +97,7 @@ class OctTree : public Tree<ndim,ParticleType,TreeCell>
   using Tree<ndim,ParticleType,TreeCell>::allocated_tree;
   using Tree<ndim,ParticleType,TreeCell>::celldata;
   using Tree<ndim,ParticleType,TreeCell>::gravity_mac;
+  using Tree<ndim,ParticleType,TreeCell>::gmax;
   using Tree<ndim,ParticleType,TreeCell>::gtot;
   using Tree<ndim,ParticleType,TreeCell>::ids;
   using Tree<ndim,ParticleType,TreeCell>::ifirst;
diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index fa4fc33..e52d287 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -56,6 +56,8 @@ OctTree<ndim,ParticleType,TreeCell>::OctTree(int Nleafmaxaux, FLOAT thetamaxsqda
                                    macerroraux, gravity_mac_aux, multipole_aux, domain, reg, IAmPruned)
 {
   allocated_tree = false;
+  gmax           = 0;
+  gtot           = 0;
   ifirst         = -1;
   ilast          = -1;
   lmax           = 40;
@@ -109,6 +111,7 @@ void OctTree<ndim,ParticleType,TreeCell>::AllocateTreeMemory(int Nparticles, int
     Ncells = max(Ncells,Ncellmax);
     Nparticles = max(Nparticles,Ntotmax);
     Ncells    = max((int) ((FLOAT) 2.0*(FLOAT) Ncells), 4*Nparticles);
+    gmax        = Nparticles;
     gtot        = Nparticles;
 
     firstCell = new int[lmax];
-- 
2.43.0


From 9f46bc2b0516dc73b58463ab9659d90c0327c91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:24 +0000
Subject: [PATCH 51/56] fix: processes shrank the particles they got from
 others when these were denser than the sink density

---
 src/Headers/CommunicationHandler.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Headers/CommunicationHandler.h b/src/Headers/CommunicationHandler.h
index 9e49e7f..552d500 100644
--- a/src/Headers/CommunicationHandler.h
+++ b/src/Headers/CommunicationHandler.h
@@ -70,6 +70,7 @@ class GradhSphCommunicationHandler {
       }
       m = p.m;
       rho = p.rho;
+      h = p.h;
       h_dust = p.h_dust;
       u = p.u;
 
@@ -88,6 +89,7 @@ class GradhSphCommunicationHandler {
     FLOAT v[ndim];
     FLOAT m;
     FLOAT rho;
+    FLOAT h;
     FLOAT h_dust;
     FLOAT u;
 
@@ -137,6 +139,7 @@ public:
     }
     p2.m = p.m;
     p2.rho = p.rho;
+    p2.h = p.h;
     p2.h_dust = p.h_dust;
     p2.u = p.u;
 
@@ -147,7 +150,6 @@ public:
     p2.zeta = p.zeta;
 
     //Recompute things we store only for optimization
-    p2.h = hydro->h_fac*pow(p2.m/p2.rho, Sph<ndim>::invndim);
     p2.hrangesqd = hydro->kernrange*hydro->kernrange*p2.h*p2.h;
     p2.hfactor = pow(1/p2.h,ndim+1);
     p2.sound = hydro->eos->SoundSpeed(p2);
@@ -191,6 +193,7 @@ class MeshlessCommunicationHandler {
       }
       m = p.m;
       ndens = p.ndens;
+      h = p.h;
       vsig_max = p.vsig_max;
       sound = p.sound;
     }
@@ -205,6 +208,7 @@ class MeshlessCommunicationHandler {
     FLOAT v[ndim];
     FLOAT m;
     FLOAT ndens;
+    FLOAT h;
     FLOAT Wprim[ndim+2];
     FLOAT grad[ndim+2][ndim];
     FLOAT B[ndim][ndim];
@@ -297,6 +301,7 @@ public:
 
     p2.m = p.m;
     p2.ndens = p.ndens;
+    p2.h = p.h;
     p2.gpot = 0.0;
     p2.gpot_hydro = 0.0;
     p2.vsig_max=p.vsig_max;
@@ -304,7 +309,6 @@ public:
 
     //Recompute h dependent stuff
     p2.rho = p2.ndens*p2.m;
-    p2.h = hydro->h_fac*pow(1/p2.ndens, (FLOAT)(1.)/ndim);
     p2.hfactor = pow(1/p2.h, ndim+1);
     p2.hrangesqd = hydro->kernrange*hydro->kernrange*p2.h*p2.h;
   }
-- 
2.43.0


From 0d0492595e288f37b4326507fb706b3299c8af09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:24 +0000
Subject: [PATCH 52/56] fix: parallel runs lost the correction of the meshless
 self-gravity for the change of the softening

---
 src/Headers/CommunicationHandler.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Headers/CommunicationHandler.h b/src/Headers/CommunicationHandler.h
index 552d500..e6cb03c 100644
--- a/src/Headers/CommunicationHandler.h
+++ b/src/Headers/CommunicationHandler.h
@@ -194,6 +194,7 @@ class MeshlessCommunicationHandler {
       m = p.m;
       ndens = p.ndens;
       h = p.h;
+      zeta = p.zeta;
       vsig_max = p.vsig_max;
       sound = p.sound;
     }
@@ -209,6 +210,7 @@ class MeshlessCommunicationHandler {
     FLOAT m;
     FLOAT ndens;
     FLOAT h;
+    FLOAT zeta;
     FLOAT Wprim[ndim+2];
     FLOAT grad[ndim+2][ndim];
     FLOAT B[ndim][ndim];
@@ -302,6 +304,7 @@ public:
     p2.m = p.m;
     p2.ndens = p.ndens;
     p2.h = p.h;
+    p2.zeta = p.zeta;
     p2.gpot = 0.0;
     p2.gpot_hydro = 0.0;
     p2.vsig_max=p.vsig_max;
-- 
2.43.0


From dfadd015470c29fa63a5d4ea34612e2ee3947837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:34 +0000
Subject: [PATCH 53/56] fix: in meshless runs drag moved particles by the
 change of their momentum instead of their velocity

---
 src/Common/Dust.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Common/Dust.cpp b/src/Common/Dust.cpp
index 3f11433..627233b 100644
--- a/src/Common/Dust.cpp
+++ b/src/Common/Dust.cpp
@@ -125,9 +125,12 @@ void update_particle(MeshlessFVParticle<ndim>& part, FLOAT* acc, FLOAT dudt, dou
   }
 
   // Update the particle position according to the drag terms.
-  for(int k=0; k<ndim; k++) {
-    part.v[k] = part.v0[k] + part.dQ[k] + part.a0[k]*dt ;
-    part.r[k] = part.r0[k] + 0.5*(part.v0[k] + part.v[k])*dt;
+  // (The velocity already contains all other changes during the step)
+  if (part.flags.check(active)) {
+    for(int k=0; k<ndim; k++) {
+      part.v[k] += acc[k]*dt ;
+      part.r[k] = part.r0[k] + 0.5*(part.v0[k] + part.v[k])*dt;
+    }
     part.flags.set(update_density) ;
   }
 
-- 
2.43.0


From 4cb47dc8bb1c43dfb8145774f2225844528261ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:57 +0000
Subject: [PATCH 54/56] fix: in meshless runs with dust densities used where
 neighbours were before the drag moved them

---
 src/MeshlessFV/MfvMusclSimulation.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/MeshlessFV/MfvMusclSimulation.cpp b/src/MeshlessFV/MfvMusclSimulation.cpp
index db79a74..b817be2 100644
--- a/src/MeshlessFV/MfvMusclSimulation.cpp
+++ b/src/MeshlessFV/MfvMusclSimulation.cpp
@@ -205,6 +205,15 @@ void MfvMusclSimulation<ndim>::MainLoop(void)
       MeshlessFVParticle<ndim>& part = mfv->GetMeshlessFVParticlePointer(i) ;
       if (part.flags.check(active)) part.flags.set(update_density) ;
     }
+
+    // Stock trees and ghosts now that the drag has moved the particles (1, 2, 1 forces stocking)
+    mfvneib->BuildTree(false, 1, 2, 1, timestep, mfv);
+    LocalGhosts->CopyHydroDataToGhosts(simbox,mfv);
+    mfvneib->BuildGhostTree(false, 1, 2, 1, timestep, mfv);
+#ifdef MPI_PARALLEL
+    MpiGhosts->CopyHydroDataToGhosts(simbox,mfv);
+    mfvneib->BuildMpiGhostTree(false, 1, 2, 1, timestep, mfv);
+#endif
   }
 
 
-- 
2.43.0


From d834b56bb950e01b3768ddfc1797ca11e4b8af6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:56 +0000
Subject: [PATCH 55/56] fix: a smoothing length that outgrew its neighbour list
 was accepted without a wider search

---
 src/GradhSph/GradhSph.cpp    | 2 +-
 src/MeshlessFV/MfvCommon.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index f30868a..f1d569b 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -322,7 +322,7 @@ int GradhSph<ndim, kernelclass>::ComputeH
 
   // If h is invalid (i.e. larger than maximum h), then return error code (0)
   if (parti.h <= hmax) return 1;
-  else return -1;
+  else return 0;
 }
 
 
diff --git a/src/MeshlessFV/MfvCommon.cpp b/src/MeshlessFV/MfvCommon.cpp
index 913fa19..4f78f95 100644
--- a/src/MeshlessFV/MfvCommon.cpp
+++ b/src/MeshlessFV/MfvCommon.cpp
@@ -229,7 +229,7 @@ int MfvCommon<ndim, kernelclass,SlopeLimiter>::ComputeH
 
   // If h is invalid (i.e. larger than maximum h), then return error code (0)
   if (part.h <= hmax) return 1;
-  else return -1;
+  else return 0;
 }
 
 
-- 
2.43.0


From 49fe75dbe151ef00001d1ddcc749509ebac6d36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:47 +0000
Subject: [PATCH 56/56] fix: in parallel runs large particles missed small
 neighbours beyond the border of their domain

---
 src/Headers/NeighbourSearch.h | 4 ++--
 src/Headers/Tree.h            | 4 ++--
 src/Mpi/MpiControl.cpp        | 2 +-
 src/Tree/HydroTree.cpp        | 5 +++--
 src/Tree/Tree.cpp             | 7 +++++--
 5 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/Headers/NeighbourSearch.h b/src/Headers/NeighbourSearch.h
index ea110dc..7830bb1 100644
--- a/src/Headers/NeighbourSearch.h
+++ b/src/Headers/NeighbourSearch.h
@@ -118,7 +118,7 @@ protected:
   virtual int GetExportInfo(int Nproc, Hydrodynamics<ndim> *, vector<char >&,
                             MpiNode<ndim>&, int, int) = 0;
   virtual void InitialiseCellWorkCounters(void) = 0;
-  virtual int SearchMpiGhostParticles(const FLOAT, const Box<ndim> &,
+  virtual int SearchMpiGhostParticles(const FLOAT, const Box<ndim> &, const Box<ndim> &,
                                       Hydrodynamics<ndim> *, vector<int> &) {return 0;};
   virtual void UnpackExported(vector<char >& arrays, Hydrodynamics<ndim> *, const int,vector< vector<char> >&,
                               const int, const bool) = 0;
@@ -228,7 +228,7 @@ protected:
     return size_particles+size_cells;
   };
   virtual int GetExportInfo(int, Hydrodynamics<ndim> *, vector<char >&, MpiNode<ndim>&, int, int);
-  virtual int SearchMpiGhostParticles(const FLOAT, const Box<ndim> &,
+  virtual int SearchMpiGhostParticles(const FLOAT, const Box<ndim> &, const Box<ndim> &,
                                       Hydrodynamics<ndim> *, vector<int> &);
   virtual void UnpackExported(vector<char> &, Hydrodynamics<ndim> *,
       const int, vector< vector<char> >&, const int, const bool);
diff --git a/src/Headers/Tree.h b/src/Headers/Tree.h
index 0c94372..b3b597d 100644
--- a/src/Headers/Tree.h
+++ b/src/Headers/Tree.h
@@ -162,7 +162,7 @@ protected:
 	virtual void AddWorkCost(vector<TreeCellBase<ndim> >&, double twork, int& Nactivetot) = 0;
 	virtual int GetTreeCellSize() const = 0 ;
 	virtual void FindBoxOverlapParticles(const Box<ndim>&, vector<int>&, const Particle<ndim>*) = 0;
-	virtual int FindBoxGhostParticles(const FLOAT, const FLOAT, const Box<ndim> &,
+	virtual int FindBoxGhostParticles(const FLOAT, const FLOAT, const Box<ndim> &, const Box<ndim> &,
 	                                  vector<int> &export_list) = 0;
 	virtual int PackParticlesAndCellsForMPITransfer(const vector<int>& celllist,
                                                     vector<int>& cell_ids, vector<int>& part_ids,
@@ -336,7 +336,7 @@ protected:
   virtual int GetTreeCellSize() const { return sizeof(TreeCell<ndim>) ;}
   virtual void AddWorkCost(vector<TreeCellBase<ndim> >&, double twork, int& Nactivetot) ;
   virtual void FindBoxOverlapParticles(const Box<ndim>&, vector<int>&, const Particle<ndim>*) ;
-  virtual int FindBoxGhostParticles(const FLOAT, const FLOAT, const Box<ndim> &,
+  virtual int FindBoxGhostParticles(const FLOAT, const FLOAT, const Box<ndim> &, const Box<ndim> &,
                                     vector<int> &export_list) ;
   virtual int PackParticlesAndCellsForMPITransfer(const vector<int>& celllist,
                                                   vector<int>& cell_ids, vector<int>& part_ids,
diff --git a/src/Mpi/MpiControl.cpp b/src/Mpi/MpiControl.cpp
index 1595c4a..d49dc29 100755
--- a/src/Mpi/MpiControl.cpp
+++ b/src/Mpi/MpiControl.cpp
@@ -1095,7 +1095,7 @@ int MpiControlType<ndim, ParticleType>::SendReceiveGhosts
     inode = overlapping_nodes[iaux];
     ghost_export_list.clear();
     Nexport = neibsearch->SearchMpiGhostParticles(tghost, mpinode[inode].rbox,
-                                                  hydro, ghost_export_list);
+                                                  mpinode[inode].hbox, hydro, ghost_export_list);
     for (unsigned int j=0; j<ghost_export_list.size(); j++) {
       i = ghost_export_list[j];
       particles_to_export_per_node[inode].push_back(i);
diff --git a/src/Tree/HydroTree.cpp b/src/Tree/HydroTree.cpp
index c801fe1..8b96c6e 100644
--- a/src/Tree/HydroTree.cpp
+++ b/src/Tree/HydroTree.cpp
@@ -1439,6 +1439,7 @@ template <int ndim, template <int> class ParticleType>
 int HydroTree<ndim,ParticleType>::SearchMpiGhostParticles
  (const FLOAT tghost,                  ///< [in] Expected ghost life-time
   const Box<ndim> &mpibox,             ///< [in] Bounding box of MPI domain
+  const Box<ndim> &mpihbox,            ///< [in] Box reached by the kernels of the MPI domain
   Hydrodynamics<ndim> *hydro,          ///< [in] Pointer to Hydrodynamics object
   vector<int> &export_list)            ///< [out] List of particle ids
 {
@@ -1447,8 +1448,8 @@ int HydroTree<ndim,ParticleType>::SearchMpiGhostParticles
 
   // Walk both trees.
   //-----------------------------------------------------------------------------------------------
-  int Nexport = tree->FindBoxGhostParticles(tghost, grange, mpibox, export_list) ;
-  Nexport += ghosttree->FindBoxGhostParticles(tghost, grange, mpibox, export_list) ;
+  int Nexport = tree->FindBoxGhostParticles(tghost, grange, mpibox, mpihbox, export_list) ;
+  Nexport += ghosttree->FindBoxGhostParticles(tghost, grange, mpibox, mpihbox, export_list) ;
 
   return Nexport;
 }
diff --git a/src/Tree/Tree.cpp b/src/Tree/Tree.cpp
index 6796d3b..f63e7ad 100644
--- a/src/Tree/Tree.cpp
+++ b/src/Tree/Tree.cpp
@@ -1616,6 +1616,7 @@ int Tree<ndim,ParticleType,TreeCell>::FindBoxGhostParticles
 (const FLOAT tghost,
  const FLOAT ghost_range,
  const Box<ndim> &box,
+ const Box<ndim> &hbox,
  vector<int> &export_list)
  {
   FLOAT scattermin[ndim];              // Minimum 'scatter' box size due to particle motion
@@ -1639,9 +1640,11 @@ int Tree<ndim,ParticleType,TreeCell>::FindBoxGhostParticles
     }
 
 
-    // If maximum cell scatter box overlaps MPI domain, open cell
+    // If maximum cell scatter box overlaps MPI domain, or the cell lies within the reach of the
+    // kernels of that domain, open cell
     //---------------------------------------------------------------------------------------------
-    if (BoxOverlap(scattermin, scattermax, box.min, box.max)) {
+    if (BoxOverlap(scattermin, scattermax, box.min, box.max) ||
+        BoxOverlap(cellptr->bb.min, cellptr->bb.max, hbox.min, hbox.max)) {
 
       // If not a leaf-cell, then open cell to first child cell
       if (cellptr->copen != -1) {
-- 
2.43.0

