From 0a63776c6dcda26d3def1473e9b513c693c0417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:50 +0000
Subject: [PATCH 01/36] fix: run the quartic equilibrium that is configured for
 D3Q45 and D3Q77

The incompressible 3D collision selection dispatched QUARTIC_EQUILIBRIUM to
the second-order BGKEquilibrium for these two stencils.
---
 src/library/natrium/collision_advanced/CollisionSelection.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/collision_advanced/CollisionSelection.h b/src/library/natrium/collision_advanced/CollisionSelection.h
index ff1ef31..e5ba008 100644
--- a/src/library/natrium/collision_advanced/CollisionSelection.h
+++ b/src/library/natrium/collision_advanced/CollisionSelection.h
@@ -196,10 +196,10 @@ inline void selectCollision<3>(SolverConfiguration& configuration,
     DEFINE_POSSIBLE_COLLISION(3,27, Stencil_D3Q27, BGK_REGULARIZED, BGK_EQUILIBRIUM, Regularized, BGKEquilibrium);
 
     DEFINE_POSSIBLE_COLLISION(3,45, Stencil_D3Q45, BGK_STANDARD, BGK_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
-    DEFINE_POSSIBLE_COLLISION(3,45, Stencil_D3Q45, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
+    DEFINE_POSSIBLE_COLLISION(3,45, Stencil_D3Q45, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, QuarticEquilibrium);
 
 	DEFINE_POSSIBLE_COLLISION(3,77, Stencil_D3Q77, BGK_STANDARD, BGK_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
-    DEFINE_POSSIBLE_COLLISION(3,77, Stencil_D3Q77, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
+    DEFINE_POSSIBLE_COLLISION(3,77, Stencil_D3Q77, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, QuarticEquilibrium);
 
 
     //DEFINE_POSSIBLE_COLLISION(3,27, Stencil_RD3Q27, BGK_STANDARD, BGK_EQUILIBRIUM, BGKCollision, IncompressibleEquilibrium);
-- 
2.43.0


From 1e76ec898cf5a6d5b5f221a90fba3a4ffaba0704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:50 +0000
Subject: [PATCH 02/36] fix: DELLAR_RELAX_ONLY_N relaxes the ghost moment N,
 not Jy

N is moment 6 of the Dellar basis; index 8 is Jy, so the collision was not
symmetric in x and y.
---
 .../natrium/collision_advanced/AuxiliaryMRTFunctions.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
index 2eb5849..285c773 100755
--- a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
+++ b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
@@ -326,7 +326,7 @@ template<> const array<double, 9> make_diag(double tau, MomentBasis basis,
 		// Dellar relax only moment 'N'
 	case DELLAR_RELAX_ONLY_N: {
 		assert(basis == DELLAR_D2Q9);
-		diag.at(8) = 1.0;
+		diag.at(6) = 1.0;
 		break;
 	} /* case DELLAR_RELAX_FULL */
 
-- 
2.43.0


From 65e6c3f0c5e59477c81693635422cc51fe104f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:50 +0000
Subject: [PATCH 03/36] fix: keep the external force in MRT collisions with the
 d'Humieres relaxation times

The shifting-velocity force enters through the momentum moments of the
equilibrium; with a zero rate for these moments the force was lost.
---
 .../natrium/collision_advanced/AuxiliaryMRTFunctions.cpp      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
index 285c773..3c91cdc 100755
--- a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
+++ b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
@@ -385,7 +385,9 @@ template<> const array<double, 19> make_diag(double tau, MomentBasis basis,
 			double s10 = 1.4;
 			double s4 = 1.2;
 			double s16 = 1.98;
-			diag = {{0, s1, s2, 0, s4, 0, s4, 0, s4, s9, s10, s9, s10, s13, s13, s13, s16, s16, s16}};
+			// rate of the momentum moments: acts only on the velocity shift of the external force
+			double s3 = 1. / tau;
+			diag = {{0, s1, s2, s3, s4, s3, s4, s3, s4, s9, s10, s9, s10, s13, s13, s13, s16, s16, s16}};
 			break;
 		} /* case DHUMIERES_D3Q19 */
 		default: {
-- 
2.43.0


From 817bd0bb1dc7f6e280947d2c563e5704e2021e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:50 +0000
Subject: [PATCH 04/36] fix: the regularized collision adds force times dt of
 momentum

With the shifting-velocity force the momentum of the shifted equilibrium was
taken over completely, which applied tau times the external force.
---
 .../natrium/collision_advanced/CollisionSchemes.h        | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/library/natrium/collision_advanced/CollisionSchemes.h b/src/library/natrium/collision_advanced/CollisionSchemes.h
index d7b0612..fddd57d 100644
--- a/src/library/natrium/collision_advanced/CollisionSchemes.h
+++ b/src/library/natrium/collision_advanced/CollisionSchemes.h
@@ -185,10 +185,19 @@ public:
 			}
 		}
 
+		// first-order nonequilibrium moment; nonzero only if the velocity was shifted by an external force
+		std::array<double, T_D> j1 = {{ 0.0 }};
+		for (int a = 0; a < T_Q; a++) {
+			for (int b = 0; b < T_D; b++) {
+				j1[b] += genData.e[a][b] * (fLocal[a] - genData.feq[a]);
+			}
+		}
+
 		std::array<double, T_Q> fi1 = {{ 0.0 }};
 
 		for (int a = 0; a < T_Q; a++) {
 			for (int b = 0; b < T_D; b++) {
+				fi1[a] += genData.weight[a] / genData.cs2 * genData.e[a][b] * j1[b];
 				for (int c = 0; c < T_D; c++) {
 
 					fi1[a] += genData.weight[a]
-- 
2.43.0


From 93a093714715ea9db3447c031f68c6dadbee699b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:46 +0000
Subject: [PATCH 05/36] fix: regularized D3Q19 kernel uses the prescribed
 velocity during initialisation instead of uninitialised values

---
 src/library/natrium/collision/BGKRegularized.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/library/natrium/collision/BGKRegularized.cpp b/src/library/natrium/collision/BGKRegularized.cpp
index 515b9ec..cfe5ea2 100644
--- a/src/library/natrium/collision/BGKRegularized.cpp
+++ b/src/library/natrium/collision/BGKRegularized.cpp
@@ -367,6 +367,10 @@ void BGKRegularized::collideAllD3Q19(DistributionFunctions& f,
 				velocities.at(1)(i) = u_1_i;
 				velocities.at(2)(i) = u_2_i;
 			}
+		} else {
+			u_0_i = velocities.at(0)(i);
+			u_1_i = velocities.at(1)(i);
+			u_2_i = velocities.at(2)(i);
 		}
 
 		// calculate equilibrium distribution
-- 
2.43.0


From 5b53d10720bd32bb1d4c79ca9b8a58fe18b007b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:17 +0000
Subject: [PATCH 06/36] fix: --mrt-relax refuses values that are not in its
 list

---
 src/library/natrium/utilities/CommandLineParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/utilities/CommandLineParser.cpp b/src/library/natrium/utilities/CommandLineParser.cpp
index e01cc0d..5cdf0e5 100755
--- a/src/library/natrium/utilities/CommandLineParser.cpp
+++ b/src/library/natrium/utilities/CommandLineParser.cpp
@@ -486,7 +486,7 @@ void CommandLineParser::applyToSolverConfiguration(SolverConfiguration& cfg) {
 			cfg.setMRTRelaxationTimes(RELAX_FULL);
 		} else if ("dellar-only-N" == relax) {
 			cfg.setMRTRelaxationTimes(DELLAR_RELAX_ONLY_N);
-		} else if ("dhumieres-paper") {
+		} else if ("dhumieres-paper" == relax) {
 			cfg.setMRTRelaxationTimes(RELAX_DHUMIERES_PAPER);
 		} else {
 			std::stringstream msg;
-- 
2.43.0


From dfd524d7905fe3c750046dcdb6143a4fd13c1c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:17 +0000
Subject: [PATCH 07/36] fix: --integrator-id refuses ids without an integrator
 instead of reading an uninitialised scheme

---
 src/library/natrium/utilities/CommandLineParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/library/natrium/utilities/CommandLineParser.cpp b/src/library/natrium/utilities/CommandLineParser.cpp
index 5cdf0e5..9220fa6 100755
--- a/src/library/natrium/utilities/CommandLineParser.cpp
+++ b/src/library/natrium/utilities/CommandLineParser.cpp
@@ -266,6 +266,10 @@ void CommandLineParser::applyToSolverConfiguration(SolverConfiguration& cfg) {
 					"Conflicting arguments: integrator and integrator-id");
 		}
 		int id = getArgument<int>("integrator-id");
+		if ((id < 1) or (id > 15)) {
+			throw CommandLineParserException(
+					"--integrator-id had illegal value (see --help for --integrator)");
+		}
 		TimeIntegratorName t;
 		DealIntegratorName d;
 		string s;
-- 
2.43.0


From 3bd3a41408f7a3e76ec74ba988639718682b1cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:47 +0000
Subject: [PATCH 08/36] fix: the compressible solver writes no checkpoints when
 the output is switched off

---
 src/library/natrium/solver/CompressibleCFDSolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index f21f94f..d1d60da 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -548,7 +548,6 @@ void compressibleFilter() {
                     this->m_turbulenceStats->printNewLine();
                 }
             }
-        }
         // output: checkpoint
         // no output if checkpoint interval > 10^8
         if (((iteration % this->m_configuration->getOutputCheckpointInterval() == 0)
@@ -571,6 +570,7 @@ void compressibleFilter() {
             checkpointG.write(*(this->m_problemDescription->getMesh()), m_g,
                              *(this->m_advectionOperator->getDoFHandler()), checkpoint_status);
         } /*if checkpoint interval*/
+        } /*if not output off*/
 
 
     }
-- 
2.43.0


From d6b973f7bd8d0642ceca19a33064ad553fb92d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:21 +0000
Subject: [PATCH 09/36] fix: velocities of a restarted simulation are computed
 from its distributions

---
 src/library/natrium/solver/CFDSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index 6965ea1..d808746 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -1514,7 +1514,7 @@ void CFDSolver<dim>::calculateDensitiesAndVelocities() {
 		size_t i = *it;
 		double one_by_rho_i = 1.0 / writeable_rho(i);
 		for (size_t j = 0; j < dim; j++) {
-			writeable_u[j](i) = m_velocity[j](i) * one_by_rho_i;
+			writeable_u[j](i) = writeable_u[j](i) * one_by_rho_i;
 		}
 	}
 
-- 
2.43.0


From 4aa8c1f4af06a45a5c8e68e95763c0f9c23887f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:21 +0000
Subject: [PATCH 10/36] fix: restart temperature uses the velocity of its own
 node

---
 src/library/natrium/solver/CompressibleCFDSolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index d1d60da..8b59473 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -82,7 +82,7 @@ public:
                 for (size_t i = 0; i < this->m_stencil->getQ(); i++) {
                     double sum = 0.0;
                     for (size_t a = 0; a < dim; a++) {
-                        sum += (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(i)) * (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(i));
+                        sum += (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(*it)) * (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(*it));
                     }
                     temperature += sum * this->m_f.at(i)(*it) / this->getStencil()->getSpeedOfSoundSquare() +
                             m_g.at(i)(*it);
-- 
2.43.0


From 4268539de912f7be24fcf8977e11669582df426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:21 +0000
Subject: [PATCH 11/36] fix: checkpoint status keeps the full precision of time
 and scaling

---
 src/library/natrium/solver/Checkpoint.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/library/natrium/solver/Checkpoint.cpp b/src/library/natrium/solver/Checkpoint.cpp
index 8d26035..abed395 100755
--- a/src/library/natrium/solver/Checkpoint.cpp
+++ b/src/library/natrium/solver/Checkpoint.cpp
@@ -13,6 +13,8 @@
 #include "boost/filesystem.hpp"
 #include "boost/algorithm/string/replace.hpp"
 
+#include <limits>
+
 #include "deal.II/fe/fe_dgq.h"
 #include "deal.II/dofs/dof_handler.h"
 #include "deal.II/base/quadrature_lib.h"
@@ -79,6 +81,8 @@ void Checkpoint<dim>::write(const Mesh<dim>& mesh, DistributionFunctions& f,
 	// write status
 	if (is_MPI_rank_0()) {
 		std::ofstream outfile(m_statusFile.string());
+		// write floating point numbers such that they are restored exactly
+		outfile.precision(std::numeric_limits<double>::max_digits10);
 		outfile << status.iterationNumber << endl;
 		// time
 		outfile << status.time << endl;
-- 
2.43.0


From a9fb976ccd0ef9864e57f8d78139abe5b134136e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:21 +0000
Subject: [PATCH 12/36] fix: automatic restart skips the status files of the
 other distribution

---
 src/library/natrium/solver/Checkpoint.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/library/natrium/solver/Checkpoint.cpp b/src/library/natrium/solver/Checkpoint.cpp
index abed395..1910c07 100755
--- a/src/library/natrium/solver/Checkpoint.cpp
+++ b/src/library/natrium/solver/Checkpoint.cpp
@@ -41,6 +41,11 @@ Checkpoint<dim>::Checkpoint(size_t iteration,
 					!= ".stat") {
 				continue;
 			}
+			if (not boost::starts_with(this_filename,
+					isG ? "checkpointG_" : "checkpoint_")) {
+				// status file of the other distribution
+				continue;
+			}
 			if (!isG){
 			boost::replace_all(this_filename, "checkpoint_", "");
 			boost::replace_all(this_filename, ".stat", "");
-- 
2.43.0


From ae634e8cba12f8edeaec6dcbaa6c5fe0d738f530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:21 +0000
Subject: [PATCH 13/36] fix: a checkpoint written at iteration 1 does not
 overwrite the most recent checkpoint

---
 src/library/natrium/solver/CFDSolver.cpp           | 2 +-
 src/library/natrium/solver/Checkpoint.cpp          | 4 ++--
 src/library/natrium/solver/Checkpoint.h            | 3 ++-
 src/library/natrium/solver/CompressibleCFDSolver.h | 2 +-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index d808746..e536bbd 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -183,7 +183,7 @@ CFDSolver<dim>::CFDSolver(boost::shared_ptr<SolverConfiguration> configuration,
 	size_t restart_i = m_configuration->getRestartAtIteration();
 	if (0 != restart_i) {
 		checkpoint = boost::make_shared<Checkpoint<dim> >(restart_i,
-				checkpoint_dir);
+				checkpoint_dir, false, true);
 		if (not checkpoint->exists()) {
 			std::stringstream msg;
 			msg << "You want to restart from iteration " << restart_i
diff --git a/src/library/natrium/solver/Checkpoint.cpp b/src/library/natrium/solver/Checkpoint.cpp
index 1910c07..2324b64 100755
--- a/src/library/natrium/solver/Checkpoint.cpp
+++ b/src/library/natrium/solver/Checkpoint.cpp
@@ -28,11 +28,11 @@ namespace natrium {
 
 template<size_t dim>
 Checkpoint<dim>::Checkpoint(size_t iteration,
-		boost::filesystem::path checkpoint_dir, bool isG) {
+		boost::filesystem::path checkpoint_dir, bool isG, bool find_most_recent) {
     m_isG = isG;
 	size_t it = iteration;
 
-	if (iteration == 1) {
+	if (iteration == 1 and find_most_recent) {
 		// find most recent checkpoint automatically
 		for (auto& entry : boost::make_iterator_range(
 				boost::filesystem::directory_iterator(checkpoint_dir), { })) {
diff --git a/src/library/natrium/solver/Checkpoint.h b/src/library/natrium/solver/Checkpoint.h
index 7d2bf23..7e3b7e7 100755
--- a/src/library/natrium/solver/Checkpoint.h
+++ b/src/library/natrium/solver/Checkpoint.h
@@ -74,8 +74,9 @@ public:
 	 * @short Constructor
 	 * @param[in] iteration The iteration number of the checkpoint (save or load).
 	 * @param[in] checkpoint_dir The directory in which the checkpoint was saved.
+	 * @param[in] find_most_recent (load only) if true, iteration 1 means the most recent checkpoint in the directory.
 	 */
-	Checkpoint(size_t iteration, boost::filesystem::path checkpoint_dir, bool isG=false);
+	Checkpoint(size_t iteration, boost::filesystem::path checkpoint_dir, bool isG=false, bool find_most_recent=false);
 
 	/**
 	 * @short Function that determines whether the checkpoint files exist.
diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index 8b59473..d9e78d4 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -112,7 +112,7 @@ public:
         size_t restart_i = this->m_configuration->getRestartAtIteration();
         if (0 != restart_i) {
             checkpoint = boost::make_shared<Checkpoint<dim> >(restart_i,
-                    checkpoint_dir, true);
+                    checkpoint_dir, true, true);
             if (not checkpoint->exists()) {
                 std::stringstream msg;
                 msg << "You want to restart from iteration " << restart_i
-- 
2.43.0


From ae67fda2f0ea9eabdfde068f2b7b7d64a8450786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:58 +0000
Subject: [PATCH 14/36] fix: restart temperature divides the momentum by the
 density

---
 src/library/natrium/solver/CompressibleCFDSolver.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index d9e78d4..51b9a9c 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -146,7 +146,9 @@ public:
                             vel[a]+=this->m_stencil->getDirection(i)(a)/scaling *this->m_f.at(i)(*it);
                         }
                     }
-
+                    for (size_t a = 0; a < dim; a++) {
+                        vel[a] /= density;
+                    }
 
                         double temperature = 0.0;
                     for (size_t i = 0; i < this->m_stencil->getQ(); i++) {
-- 
2.43.0


From b48ed553a019973f22b971f2ce4ca446055b4407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:26 +0000
Subject: [PATCH 15/36] fix: exponential integrator divides by zero for a
 steady state and an exhausted Krylov space

---
 .../timeintegration/ExponentialTimeIntegrator.cpp     | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp b/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp
index 85fb499..fb5afca 100644
--- a/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp
+++ b/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp
@@ -112,6 +112,11 @@ template<class MATRIX, class VECTOR> double ExponentialTimeIntegrator<MATRIX,
 
 	double beta = m_w.l2_norm();
 
+	// steady state: nothing to integrate (and no direction to start the Krylov space with)
+	if (0 == beta) {
+		return t + dt;
+	}
+
 	// the next two lines set m_V(i,0) =  m_w(i) / beta
 	// in a way that takes care about the individual blocks of block vectors
 	m_V.setColumn(0, m_w);
@@ -144,6 +149,12 @@ template<class MATRIX, class VECTOR> double ExponentialTimeIntegrator<MATRIX,
 			// in a way that takes care about the individual blocks of block vectors
 			m_V.setColumn(j + 1, m_w);
 			m_V.column(j + 1) /= m_H(j + 1, j);
+		} else {
+			// the Krylov space is exhausted; complete the projected matrix so that it stays invertible
+			for (int k = j + 1; k < arnoldiSize; k++) {
+				m_H(k, k) = 1;
+			}
+			break;
 		}
 		m_H(arnoldiSize + 1, arnoldiSize) = 1;
 
-- 
2.43.0


From 6499fd0a683718c636235212330ae6e8ea0a912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:32 +0000
Subject: [PATCH 16/36] fix: setting the resting population left its ghosted
 copy behind

---
 src/library/natrium/solver/DistributionFunctions.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/library/natrium/solver/DistributionFunctions.h b/src/library/natrium/solver/DistributionFunctions.h
index 6b074ab..3917d8a 100644
--- a/src/library/natrium/solver/DistributionFunctions.h
+++ b/src/library/natrium/solver/DistributionFunctions.h
@@ -137,6 +137,8 @@ public:
 	 */
 	void setF0(const distributed_vector& f0) {
 		m_f0 = f0;
+		if (not m_dg)
+			m_f0Ghosted = f0;
 	}
 
 	/**
-- 
2.43.0


From 315dc18d60cf8bb57aae7e28e24bc1dbf5ecc260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:35 +0000
Subject: [PATCH 17/36] fix: comparator of boundary hits was no order, hits
 were lost or merged

---
 src/library/natrium/boundaries/BoundaryHit.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/boundaries/BoundaryHit.h b/src/library/natrium/boundaries/BoundaryHit.h
index cebe408..e5e675b 100755
--- a/src/library/natrium/boundaries/BoundaryHit.h
+++ b/src/library/natrium/boundaries/BoundaryHit.h
@@ -98,7 +98,16 @@ template<size_t dim>
 struct PointComp {
 	bool operator()(const dealii::Point<dim>& lhs,
 			const dealii::Point<dim>& rhs) const {
-		return lhs.distance(rhs) < 1e-10;
+		// lexicographic order up to round-off errors
+		for (size_t i = 0; i < dim; i++) {
+			if (lhs[i] < rhs[i] - 1e-10) {
+				return true;
+			}
+			if (lhs[i] > rhs[i] + 1e-10) {
+				return false;
+			}
+		}
+		return false;
 	}
 };
 
-- 
2.43.0


From 32dbba370da344272a3b0c9d70e81977f2ded91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:35 +0000
Subject: [PATCH 18/36] fix: boundary conditions were evaluated at reference
 coordinates

---
 src/library/natrium/boundaries/FEBoundaryValues.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/boundaries/FEBoundaryValues.h b/src/library/natrium/boundaries/FEBoundaryValues.h
index 415c4dd..fe65c0e 100755
--- a/src/library/natrium/boundaries/FEBoundaryValues.h
+++ b/src/library/natrium/boundaries/FEBoundaryValues.h
@@ -226,7 +226,7 @@ public:
 	}
 
 	const dealii::Point<dim>& getPoint(size_t q_point){
-		return m_feValues.get_quadrature().point(q_point);
+		return m_feValues.quadrature_point(q_point);
 	}
 
 	const GlobalBoundaryData& getData() const {
@@ -236,7 +236,8 @@ public:
 private:
 
 	dealii::UpdateFlags getFEValuesFlags(BoundaryFlags& flags) {
-		dealii::UpdateFlags result = dealii::update_values;
+		dealii::UpdateFlags result = dealii::update_values
+				| dealii::update_quadrature_points;
 		if (boundary_drho_dt & flags) {
 			result |= dealii::update_gradients;
 		}
-- 
2.43.0


From 779de455716f6fccf16c996bd4ffc9d33acfbbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:35 +0000
Subject: [PATCH 19/36] fix: prescribed temperature was set to the pressure and
 lost in copies

---
 src/library/natrium/boundaries/BoundaryFlags.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/boundaries/BoundaryFlags.h b/src/library/natrium/boundaries/BoundaryFlags.h
index c821e97..4b15dc8 100755
--- a/src/library/natrium/boundaries/BoundaryFlags.h
+++ b/src/library/natrium/boundaries/BoundaryFlags.h
@@ -80,6 +80,7 @@ public:
 		m_prescribedValues = other.m_prescribedValues;
 		m_pressure = other.m_pressure;
 		m_velocity = other.m_velocity;
+		m_temperature = other.m_temperature;
 		m_velocityGradient = other.m_velocityGradient;
 	}
 
@@ -143,7 +144,7 @@ public:
         m_velocity = boost::make_shared<BoundaryTools::BoundaryVelocity<dim> >(
                 u);
         m_temperature = boost::make_shared<BoundaryTools::BoundaryTemperature<dim> >(
-                p);
+                T);
     }
 
 	/**
-- 
2.43.0


From 5431501a2e504974eee86e8eeeebc4b81b2758e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:35 +0000
Subject: [PATCH 20/36] fix: boundary conditions were evaluated one time step
 too early

---
 src/library/natrium/solver/CFDSolver.cpp           | 8 +++++---
 src/library/natrium/solver/CompressibleCFDSolver.h | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index e536bbd..0e72908 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -670,7 +670,9 @@ void CFDSolver<dim>::stream() {
 
 		DistributionFunctions f_tmp(m_f);
 		systemMatrix.vmult(m_f.getFStream(), f_tmp.getFStream());
-		m_advectionOperator->applyBoundaryConditions(f_tmp, m_f, m_time);
+		// the boundary conditions refer to the end of the time step
+		const double new_time = m_time + getTimeStepSize();
+		m_advectionOperator->applyBoundaryConditions(f_tmp, m_f, new_time);
 		/*distributed_block_vector f_tmp(f.n_blocks());
 		 reinitVector(f_tmp, f);
 		 f_tmp = f;
@@ -693,7 +695,7 @@ void CFDSolver<dim>::stream() {
 			systemMatrix.vmult(m_multistepData->getFormerF().getFStream(),
 					f_tmp.getFStream());
 			m_advectionOperator->applyBoundaryConditions(f_tmp,
-					m_multistepData->getFormerF(), m_time);
+					m_multistepData->getFormerF(), new_time);
 			//m_advectionOperator->applyBoundaryConditions( f_tmp, formerF,  m_time);
 			if (m_configuration->isVmultLimiter()) {
 				TimerOutput::Scope timer_section(Timing::getTimer(), "Limiter");
@@ -708,7 +710,7 @@ void CFDSolver<dim>::stream() {
 			systemMatrix.vmult(m_multistepData->getFormerFEq().getFStream(),
 					f_tmp.getFStream());
 			m_advectionOperator->applyBoundaryConditions(f_tmp,
-					m_multistepData->getFormerFEq(), m_time);
+					m_multistepData->getFormerFEq(), new_time);
 			//m_advectionOperator->applyBoundaryConditions( f_tmp, formerFEq,  m_time);
 			if (m_configuration->isVmultLimiter()) {
 				TimerOutput::Scope timer_section(Timing::getTimer(), "Limiter");
diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index 51b9a9c..31db843 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -194,7 +194,9 @@ public:
 
             DistributionFunctions f_tmp(this->m_f);
             systemMatrix.vmult(this->m_f.getFStream(), f_tmp.getFStream());
-            this->m_advectionOperator->applyBoundaryConditions(f_tmp, this->m_f, m_g, this->m_time);
+            // the boundary conditions refer to the end of the time step
+            const double new_time = this->m_time + this->getTimeStepSize();
+            this->m_advectionOperator->applyBoundaryConditions(f_tmp, this->m_f, m_g, new_time);
             /*distributed_block_vector f_tmp(f.n_blocks());
              reinitVector(f_tmp, f);
              f_tmp = f;
@@ -217,7 +219,7 @@ public:
                 systemMatrix.vmult(this->m_multistepData->getFormerF().getFStream(),
                                    f_tmp.getFStream());
                 this->m_advectionOperator->applyBoundaryConditions(f_tmp,
-                                                                   this->m_multistepData->getFormerF(), this->m_time);
+                                                                   this->m_multistepData->getFormerF(), new_time);
                 //m_advectionOperator->applyBoundaryConditions( f_tmp, formerF,  m_time);
                 if (this->m_configuration->isVmultLimiter()) {
                     TimerOutput::Scope timer_section(Timing::getTimer(), "Limiter");
@@ -232,7 +234,7 @@ public:
                 systemMatrix.vmult(this->m_multistepData->getFormerFEq().getFStream(),
                                    f_tmp.getFStream());
                 this->m_advectionOperator->applyBoundaryConditions(f_tmp,
-                                                                   this->m_multistepData->getFormerFEq(), this->m_time);
+                                                                   this->m_multistepData->getFormerFEq(), new_time);
                 //m_advectionOperator->applyBoundaryConditions( f_tmp, formerFEq,  m_time);
                 if (this->m_configuration->isVmultLimiter()) {
                     TimerOutput::Scope timer_section(Timing::getTimer(), "Limiter");
-- 
2.43.0


From 09ab09d030574de1b99c72ba4b003de79ac66a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:35 +0000
Subject: [PATCH 21/36] fix: periodic faces were looked up by boundary id
 instead of face number

---
 src/library/natrium/utilities/DealiiExtensions.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/library/natrium/utilities/DealiiExtensions.cpp b/src/library/natrium/utilities/DealiiExtensions.cpp
index ee7eb72..9ab2899 100644
--- a/src/library/natrium/utilities/DealiiExtensions.cpp
+++ b/src/library/natrium/utilities/DealiiExtensions.cpp
@@ -122,8 +122,7 @@ void make_sparser_flux_sparsity_pattern(const DH &dof,
 							boundaries.getPeriodicBoundaries().begin();
 							periodic != boundaries.getPeriodicBoundaries().end();
 							periodic++) {
-						if (periodic->second->isFaceInBoundary(cell,
-								this_face->boundary_id())) {
+						if (periodic->second->isFaceInBoundary(cell, face)) {
 							neighbor_face =
 									periodic->second->getOppositeCellAtPeriodicBoundary(
 											cell, neighbor);
-- 
2.43.0


From cbab32e12a2b8d75d8ca02e2722bc470cd7a8094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:35 +0000
Subject: [PATCH 22/36] fix: equilibrium boundary ignored its temperature in
 the second distribution

---
 src/library/natrium/boundaries/SLEquilibriumBoundary.h   | 4 ++++
 .../natrium/boundaries/SemiLagrangianBoundaryHandler.cpp | 9 ++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/library/natrium/boundaries/SLEquilibriumBoundary.h b/src/library/natrium/boundaries/SLEquilibriumBoundary.h
index a0714ca..6bea473 100755
--- a/src/library/natrium/boundaries/SLEquilibriumBoundary.h
+++ b/src/library/natrium/boundaries/SLEquilibriumBoundary.h
@@ -181,6 +181,10 @@ public:
                     destination.index) = feq;
 
     }
+
+    double getTemperature() const {
+        return m_temperature;
+    }
 private:
     double m_temperature;
 };
diff --git a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
index e6335e4..fa77cce 100755
--- a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
+++ b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
@@ -7,6 +7,7 @@
 
 #include "SemiLagrangianBoundaryHandler.h"
 #include "BoundaryFlags.h"
+#include "SLEquilibriumBoundary.h"
 
 namespace natrium {
 
@@ -112,8 +113,6 @@ void SemiLagrangianBoundaryHandler<dim>::apply(DistributionFunctions& f_new,
     void SemiLagrangianBoundaryHandler<dim>::applyToG(DistributionFunctions &f, DistributionFunctions &g, double t, const double gamma) {
 
         const double C_v = 1. / (gamma - 1.0);
-        const double temperature = 1.0;
-
         std::vector<dealii::Point<dim> > local_hit_points;
         typename HitList<dim>::iterator cell_it = m_hitList.begin();
         typename HitList<dim>::iterator cell_end = m_hitList.end();
@@ -144,10 +143,14 @@ void SemiLagrangianBoundaryHandler<dim>::apply(DistributionFunctions& f_new,
                 for (size_t i = 0; i < point_hits.n_hits(); i++) {
                     const BoundaryHit<dim> &hit = point_hits.at(i);
                     if (m_boundaries.getBoundary(hit.getBoundaryId())->getBoundaryName() ==
-                        VELOCITY_EQUILIBRIUM_BOUNDARY)
+                        VELOCITY_EQUILIBRIUM_BOUNDARY) {
+                        const double temperature =
+                                dynamic_cast<const SLEquilibriumBoundary<dim>&>(*m_boundaries.getBoundary(
+                                        hit.getBoundaryId())).getTemperature();
                         g.at(hit.getDestination().direction)(hit.getDestination().index) =
                                 f.at(hit.getDestination().direction)(hit.getDestination().index) * (temperature) *
                                 (2.0 * C_v - dim);
+                    }
 // calculate new g distribution functions at hits
 
                 } /* for all hits */
-- 
2.43.0


From 102572e450294ae3157883d8b513277161bce7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:35 +0000
Subject: [PATCH 23/36] fix: sign of the neighbor term in the central flux

---
 src/library/natrium/advection/SEDGMinLee.cpp             | 2 +-
 src/library/natrium/boundaries/VelocityNeqBounceBack.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/advection/SEDGMinLee.cpp b/src/library/natrium/advection/SEDGMinLee.cpp
index 5d38864..930a39e 100644
--- a/src/library/natrium/advection/SEDGMinLee.cpp
+++ b/src/library/natrium/advection/SEDGMinLee.cpp
@@ -514,7 +514,7 @@ void SEDGMinLee<dim>::assembleAndDistributeInternalFace(size_t alpha,
 
 		if (m_useCentralFlux) {
 			cell_entry = 0.5 * prefactor;
-			neighbor_entry = 0.5 * prefactor;
+			neighbor_entry = -0.5 * prefactor;
 
 		} else if (exn < 0) { // otherwise: no contributions
 			cell_entry = prefactor;
diff --git a/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp b/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
index 07174ae..4c03143 100755
--- a/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
+++ b/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
@@ -98,7 +98,7 @@ template<size_t dim> void VelocityNeqBounceBack<dim>::assembleBoundary(
 
 		if (useCentralFlux) {
 			cellFaceMatrix(thisDoF, thisDoF) = 0.5 * prefactor;
-			oppositeDirectionCellFaceMatrix(thisDoF, thisDoF) = 0.5 * prefactor;
+			oppositeDirectionCellFaceMatrix(thisDoF, thisDoF) = -0.5 * prefactor;
 			cellFaceVector(thisDoF) = -prefactor * stencil.getWeight(alpha)
 					* density * exu / stencil.getSpeedOfSoundSquare();
 		} else if (exn < 0) {
-- 
2.43.0


From 49a0abe3167848f6a812bc5d551ea10fbc7dc96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:46 +0000
Subject: [PATCH 24/36] fix: assembling again added to the previous streaming
 operator and boundary hits

---
 src/library/natrium/advection/SEDGMinLee.cpp               | 5 +++++
 src/library/natrium/advection/SemiLagrangian.cpp           | 4 ++++
 .../natrium/boundaries/SemiLagrangianBoundaryHandler.h     | 7 +++++++
 3 files changed, 16 insertions(+)

diff --git a/src/library/natrium/advection/SEDGMinLee.cpp b/src/library/natrium/advection/SEDGMinLee.cpp
index 930a39e..0ab03bc 100644
--- a/src/library/natrium/advection/SEDGMinLee.cpp
+++ b/src/library/natrium/advection/SEDGMinLee.cpp
@@ -96,6 +96,11 @@ void SEDGMinLee<dim>::reassemble() {
 	distributed_sparse_block_matrix& system_matrix = Base::m_systemMatrix;
 	assert(system_matrix.n() != 0);
 	assert(system_matrix.m() != 0);
+
+	// discard the entries of a previous assembly
+	system_matrix = 0;
+	m_systemVector = 0;
+
 /////////////////////////////////
 // Initialize Finite Element ////
 /////////////////////////////////
diff --git a/src/library/natrium/advection/SemiLagrangian.cpp b/src/library/natrium/advection/SemiLagrangian.cpp
index 9be474a..f5e8922 100755
--- a/src/library/natrium/advection/SemiLagrangian.cpp
+++ b/src/library/natrium/advection/SemiLagrangian.cpp
@@ -81,6 +81,10 @@ void SemiLagrangian<dim>::reassemble() {
 	assert(Base::m_systemMatrix.n() != 0);
 	assert(Base::m_systemMatrix.m() != 0);
 
+	// discard the entries and the boundary hits of a previous assembly
+	Base::m_systemMatrix = 0;
+	m_boundaryHandler.clear();
+
 	fillSparseObject(false); // "false" says that you want to fill the system matrix, not the sparsity pattern
 
 	Base::m_systemMatrix.compress(dealii::VectorOperation::add);
diff --git a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h
index d88ce1c..77a9666 100755
--- a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h
+++ b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h
@@ -99,6 +99,13 @@ public:
 		m_timeStep = timeStep;
 	}
 
+	/**
+	 * @short remove all boundary hits
+	 */
+	void clear() {
+		m_hitList.clear();
+	}
+
 	size_t n_hits() const {
 		return m_hitList.n_hits();
 	}
-- 
2.43.0


From b924c06592f61f1ecb89029ddf52ab0689ac527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:46 +0000
Subject: [PATCH 25/36] fix: wall momentum of paths that meet two walls or are
 caught in a corner

---
 .../natrium/advection/SemiLagrangian.cpp      | 19 +++++++++++++++++--
 .../natrium/advection/SemiLagrangianTools.h   |  6 ++++--
 .../boundaries/VelocityNeqBounceBack.cpp      |  2 +-
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/library/natrium/advection/SemiLagrangian.cpp b/src/library/natrium/advection/SemiLagrangian.cpp
index f5e8922..56efa4c 100755
--- a/src/library/natrium/advection/SemiLagrangian.cpp
+++ b/src/library/natrium/advection/SemiLagrangian.cpp
@@ -247,6 +247,8 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 
 			// -- Recursively follow Lagrangian paths ---
 			// while there are points that have not been found, yet
+			// boundary hits of the current path; they only count if the path ends
+			std::vector<std::pair<LagrangianPathTracker<dim>, size_t> > path_hits;
 			while (not not_found.empty()) {
 				//TimerOutput::Scope timer_section(Timing::getTimer(),
 				//			"Assembly: follow paths");
@@ -270,6 +272,7 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 								el.destination.index, el.destination.index,
 								1.0);
 					}
+					path_hits.clear();
 					not_found.pop();
 					continue;
 				}
@@ -330,6 +333,11 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 					} else {
 						it->second.push_back(el);
 					}
+					for (size_t h = 0; h < path_hits.size(); h++) {
+						m_boundaryHandler.addHit(path_hits.at(h).first,
+								path_hits.at(h).second);
+					}
+					path_hits.clear();
 					not_found.pop();
 
 					// ================================================================================================
@@ -360,6 +368,8 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 						// ================================= VelocityNeqBounceBack ========================================
 						// ================================================================================================
 						if (is_velocity_neq_bb(Base::getBoundaries()->getBoundary(bi)->getBoundaryName())) {
+							// the population that leaves the wall
+							el.destination.hitDirection = el.currentDirection;
 							el.currentDirection =
 									Base::m_stencil->getIndexOfOppositeDirection(
 											el.currentDirection);
@@ -383,7 +393,7 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 												* distance / vel_direction;
 							}
 							if (not sparsity_pattern) {
-								m_boundaryHandler.addHit(el, bi);
+								path_hits.push_back(std::make_pair(el, bi));
 							}
 
 						}
@@ -410,8 +420,13 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 							// ================================================================================================
 							if (not sparsity_pattern) {
 								el.currentPoint = p_boundary;
-								m_boundaryHandler.addHit(el, bi);
+								path_hits.push_back(std::make_pair(el, bi));
+							}
+							for (size_t h = 0; h < path_hits.size(); h++) {
+								m_boundaryHandler.addHit(path_hits.at(h).first,
+										path_hits.at(h).second);
 							}
+							path_hits.clear();
 							not_found.pop();
 
 						}
diff --git a/src/library/natrium/advection/SemiLagrangianTools.h b/src/library/natrium/advection/SemiLagrangianTools.h
index 9170211..3439019 100755
--- a/src/library/natrium/advection/SemiLagrangianTools.h
+++ b/src/library/natrium/advection/SemiLagrangianTools.h
@@ -36,11 +36,13 @@ public:
 struct LagrangianPathDestination {
 	size_t index;
 	size_t direction; // in case of a boundary: the outgoing direction
+	size_t hitDirection; // direction in which the path leaves the wall; the opposite of direction, if the path was reflected by another wall afterwards
 	LagrangianPathDestination(size_t i, size_t alpha) :
-			index(i), direction(alpha) {
+			index(i), direction(alpha), hitDirection(alpha) {
 	}
 	LagrangianPathDestination(const LagrangianPathDestination& other) :
-			index(other.index), direction(other.direction) {
+			index(other.index), direction(other.direction), hitDirection(
+					other.hitDirection) {
 	}
 };
 
diff --git a/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp b/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
index 4c03143..6a2b953 100755
--- a/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
+++ b/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
@@ -172,7 +172,7 @@ void VelocityNeqBounceBack<dim>::calculateBoundaryValues(
 
 	// calculate scalar product
 	for (size_t i = 0; i < dim; i++) {	// TODO efficient multiplication
-		exu += u[i] * stencil.getDirection(destination.direction)(i);
+		exu += u[i] * stencil.getDirection(destination.hitDirection)(i);
 		uxu += u[i] * u[i];
 	}
 
-- 
2.43.0


From be476dbf4d1161d37b4b8ebb196d7443c5922b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:15 +0000
Subject: [PATCH 26/36] fix: restart no longer refuses velocity sets that
 make_stencil does not know

Checkpoint::load created a stencil with the old scaling that is only needed by
the (commented out) transfer to a new scaling. make_stencil throws for D2Q19V,
D2Q19H, D2Q777 and D3Q77, so that no simulation with these sets could be
resumed from a checkpoint.
---
 src/library/natrium/solver/Checkpoint.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/solver/Checkpoint.cpp b/src/library/natrium/solver/Checkpoint.cpp
index 2324b64..f692a5b 100755
--- a/src/library/natrium/solver/Checkpoint.cpp
+++ b/src/library/natrium/solver/Checkpoint.cpp
@@ -327,8 +327,8 @@ void Checkpoint<dim>::load(DistributionFunctions& f,
 	// TODO Enable transfer to new scaling
 	LOG(DETAILED) << "Transfer to new scaling (not implemented)" << endl;
 	// transfer to current stencil scaling, if required
-	boost::shared_ptr<Stencil> old_stencil = CFDSolverUtilities::make_stencil(
-			new_stencil->getD(), new_stencil->getQ(), status.stencilScaling);
+	//boost::shared_ptr<Stencil> old_stencil = CFDSolverUtilities::make_stencil(
+	//		new_stencil->getD(), new_stencil->getQ(), status.stencilScaling);
 	//f.transferFromOtherScaling(*old_stencil, *new_stencil,
     //dof_handler.locally_owned_dofs());
 	f.compress(dealii::VectorOperation::insert);
-- 
2.43.0


From 77a842f19d769e96ff9e83da6a9068e20cf5a970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:33 +0000
Subject: [PATCH 27/36] fix: mean velocity weighted the nodes without the shape
 functions

---
 src/library/natrium/solver/PhysicalProperties.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/library/natrium/solver/PhysicalProperties.cpp b/src/library/natrium/solver/PhysicalProperties.cpp
index 952b13d..15dffa5 100644
--- a/src/library/natrium/solver/PhysicalProperties.cpp
+++ b/src/library/natrium/solver/PhysicalProperties.cpp
@@ -325,7 +325,8 @@ double PhysicalProperties<dim>::meanVelocityX(const distributed_vector& ux,
 
 // Integrate ux over whole domain
 	size_t n_q_points = advection->getQuadrature()->size();
-	const dealii::UpdateFlags cellUpdateFlags = dealii::update_JxW_values;
+	const dealii::UpdateFlags cellUpdateFlags = dealii::update_values
+			| dealii::update_JxW_values;
 	const dealii::DoFHandler<dim> & dof_handler = *(advection->getDoFHandler());
 	dealii::FEValues<dim> feCellValues(advection->getMapping(),
 			*(advection->getFe()), *(advection->getQuadrature()),
@@ -347,9 +348,11 @@ double PhysicalProperties<dim>::meanVelocityX(const distributed_vector& ux,
 			feCellValues.reinit(cell);
 			for (size_t q = 0; q < n_q_points; q++) {
 				for (size_t i = 0; i < dofs_per_cell; i++) {
-					result += ux(localDoFIndices.at(i)) * feCellValues.JxW(q);
-					area += feCellValues.JxW(q);
+					result += ux(localDoFIndices.at(i))
+							* feCellValues.shape_value(i, q)
+							* feCellValues.JxW(q);
 				}
+				area += feCellValues.JxW(q);
 			}
 		} /* if is locally owned */
 	} /* for all cells */
-- 
2.43.0


From 1a7bb1a6ade0ff2eeb7592ddf82b78ec9d5acdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:33 +0000
Subject: [PATCH 28/36] fix: entropy weighted the nodes without the shape
 functions

---
 src/library/natrium/solver/PhysicalProperties.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/PhysicalProperties.cpp b/src/library/natrium/solver/PhysicalProperties.cpp
index 15dffa5..4d83713 100644
--- a/src/library/natrium/solver/PhysicalProperties.cpp
+++ b/src/library/natrium/solver/PhysicalProperties.cpp
@@ -373,7 +373,8 @@ double PhysicalProperties<dim>::entropy(const DistributionFunctions& f,
 
 	// Integrate rho over whole domain
 	size_t n_q_points = advection->getQuadrature()->size();
-	const dealii::UpdateFlags cellUpdateFlags = dealii::update_JxW_values;
+	const dealii::UpdateFlags cellUpdateFlags = dealii::update_values
+			| dealii::update_JxW_values;
 	const dealii::DoFHandler<dim> & dof_handler = *(advection->getDoFHandler());
 	dealii::FEValues<dim> feCellValues(advection->getMapping(),
 			*(advection->getFe()), *(advection->getQuadrature()),
@@ -400,6 +401,7 @@ double PhysicalProperties<dim>::entropy(const DistributionFunctions& f,
 						// atGhosted gives a vector that also contains the ghost elements
 						result -= f.atGhosted(j)(local_i)
 								* log(f.atGhosted(j)(local_i) / weights.at(j))
+								* feCellValues.shape_value(i, q)
 								* feCellValues.JxW(q);
 					}
 				}
-- 
2.43.0


From bc824718a471dab899d07fd36523b8fbffb1552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:33 +0000
Subject: [PATCH 29/36] fix: exponential filter 3D: degree in y-direction

---
 src/library/natrium/smoothing/ExponentialFilter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/smoothing/ExponentialFilter.cpp b/src/library/natrium/smoothing/ExponentialFilter.cpp
index b22858c..bdecf5d 100755
--- a/src/library/natrium/smoothing/ExponentialFilter.cpp
+++ b/src/library/natrium/smoothing/ExponentialFilter.cpp
@@ -124,7 +124,7 @@ inline void ExponentialFilter<3>::makeDegreeVectors(size_t p) {
 	for (size_t i = 0; i < (p + 1) * (p + 1) * (p + 1); i++) {
 		size_t ix = i / ((p + 1) * (p + 1));
 		size_t max = ix;
-		size_t iy = ( i % (p+1) * (p+1) ) / (p + 1);
+		size_t iy = (i % ((p + 1) * (p + 1))) / (p + 1);
 		if (iy > max)
 			max = iy;
 		size_t iz = i % (p + 1);
-- 
2.43.0


From f77bed497b3ec18fed48590bef4ff280d6b3bc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:33 +0000
Subject: [PATCH 30/36] fix: new filter 3D: degree in y-direction

---
 src/library/natrium/smoothing/NewFilter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/smoothing/NewFilter.cpp b/src/library/natrium/smoothing/NewFilter.cpp
index 848c5db..1fa6418 100755
--- a/src/library/natrium/smoothing/NewFilter.cpp
+++ b/src/library/natrium/smoothing/NewFilter.cpp
@@ -124,7 +124,7 @@ inline void NewFilter<3>::makeDegreeVectors(size_t p) {
 	for (size_t i = 0; i < (p+1)*(p+1)*(p+1); i++) {
 		size_t ix = i / ((p+1) * (p+1));
 		size_t max = ix;
-		size_t iy = i / (p+1);
+		size_t iy = (i % ((p+1) * (p+1))) / (p+1);
 		if (iy > max)
 			max = iy;
 		size_t iz = i % (p+1);
-- 
2.43.0


From 2dad04311cdb31788730797fd5408311bdc01e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:33 +0000
Subject: [PATCH 31/36] fix: every process created (and truncated) the error
 table

---
 .../natrium/solver/CompressibleErrorStats.cpp        | 12 ++++++++----
 src/library/natrium/solver/ErrorStats.cpp            | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/library/natrium/solver/CompressibleErrorStats.cpp b/src/library/natrium/solver/CompressibleErrorStats.cpp
index 49877c4..b9d2adc 100644
--- a/src/library/natrium/solver/CompressibleErrorStats.cpp
+++ b/src/library/natrium/solver/CompressibleErrorStats.cpp
@@ -35,11 +35,15 @@ namespace natrium {
 
         // create file (if necessary)
         if (m_solver->getIterationStart() > 0) {
-            m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
-                                                                 std::fstream::out | std::fstream::app);
+            if (is_MPI_rank_0()) {
+                m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
+                                                                     std::fstream::out | std::fstream::app);
+            }
         } else {
-            m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
-                                                                 std::fstream::out);
+            if (is_MPI_rank_0()) {
+                m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
+                                                                     std::fstream::out);
+            }
             printHeaderLine();
         }
         MPI_sync();
diff --git a/src/library/natrium/solver/ErrorStats.cpp b/src/library/natrium/solver/ErrorStats.cpp
index 80ad3fd..93cbede 100644
--- a/src/library/natrium/solver/ErrorStats.cpp
+++ b/src/library/natrium/solver/ErrorStats.cpp
@@ -30,11 +30,15 @@ ErrorStats<dim>::ErrorStats(BenchmarkCFDSolver<dim> * cfdsolver,
 
 	// create file (if necessary)
 	if (m_solver->getIterationStart() > 0) {
-		m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
-				std::fstream::out | std::fstream::app);
+		if (is_MPI_rank_0()) {
+			m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
+					std::fstream::out | std::fstream::app);
+		}
 	} else {
-		m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
-				std::fstream::out);
+		if (is_MPI_rank_0()) {
+			m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
+					std::fstream::out);
+		}
 		printHeaderLine();
 	}
 	MPI_sync();
-- 
2.43.0


From cfcb2384b4ad74f90787486dc59b0537246bd922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:41 +0000
Subject: [PATCH 32/36] fix: deal.II integrators did nothing and were looked up
 by number instead of name

---
 .../natrium/timeintegration/DealIIWrapper.cpp | 56 +++++++++++++++----
 1 file changed, 44 insertions(+), 12 deletions(-)

diff --git a/src/library/natrium/timeintegration/DealIIWrapper.cpp b/src/library/natrium/timeintegration/DealIIWrapper.cpp
index 6e831fa..da17eb7 100644
--- a/src/library/natrium/timeintegration/DealIIWrapper.cpp
+++ b/src/library/natrium/timeintegration/DealIIWrapper.cpp
@@ -31,6 +31,41 @@ namespace natrium {
 /// Maybe with a new LinearSolver class
 /// Unif
 
+/**
+ * @short the deal.II scheme with the given name (the numerical values of the two enumerations differ)
+ */
+static dealii::TimeStepping::runge_kutta_method getDealIIScheme(
+		const DealIntegratorName rkScheme) {
+	switch (rkScheme) {
+	case FORWARD_EULER:
+		return dealii::TimeStepping::FORWARD_EULER;
+	case RK_THIRD_ORDER:
+		return dealii::TimeStepping::RK_THIRD_ORDER;
+	case RK_CLASSIC_FOURTH_ORDER:
+		return dealii::TimeStepping::RK_CLASSIC_FOURTH_ORDER;
+	case BACKWARD_EULER:
+		return dealii::TimeStepping::BACKWARD_EULER;
+	case IMPLICIT_MIDPOINT:
+		return dealii::TimeStepping::IMPLICIT_MIDPOINT;
+	case CRANK_NICOLSON:
+		return dealii::TimeStepping::CRANK_NICOLSON;
+	case SDIRK_TWO_STAGES:
+		return dealii::TimeStepping::SDIRK_TWO_STAGES;
+	case HEUN_EULER:
+		return dealii::TimeStepping::HEUN_EULER;
+	case BOGACKI_SHAMPINE:
+		return dealii::TimeStepping::BOGACKI_SHAMPINE;
+	case DOPRI:
+		return dealii::TimeStepping::DOPRI;
+	case FEHLBERG:
+		return dealii::TimeStepping::FEHLBERG;
+	case CASH_KARP:
+		return dealii::TimeStepping::CASH_KARP;
+	default:
+		return dealii::TimeStepping::invalid;
+	}
+}
+
 template<class MATRIX, class VECTOR>
 VECTOR natrium::DealIIWrapper<MATRIX, VECTOR>::evaluateF(const double,
 		const VECTOR& f) const {
@@ -610,8 +645,7 @@ block_vector natrium::DealIIWrapper<sparse_block_matrix, block_vector>::evaluate
 template<class MATRIX, class VECTOR>
 double natrium::DealIIWrapper<MATRIX, VECTOR>::step(VECTOR& vector,
 		const MATRIX& systemMatrix, VECTOR& systemVector, double t,
-		double dt) { /*
-TODO BRUTE FORCE KILLED SEDG HERE DOMINIK WILDE 2020
+		double dt) {
 
 	if ((0.0 != dt) and dt != this->getTimeStepSize()) {
 		this->setTimeStepSize(dt);
@@ -627,14 +661,12 @@ TODO BRUTE FORCE KILLED SEDG HERE DOMINIK WILDE 2020
 	m_systemMatrix = &systemMatrix;
 	m_systemVector = &systemVector;
 	return m_dealIIRKStepper->evolve_one_time_step(
-			dealii::std_cxx11::bind(&DealIIWrapper<MATRIX, VECTOR>::evaluateF,
-					this, dealii::std_cxx11::_1, dealii::std_cxx11::_2),
-			dealii::std_cxx11::bind(
-					&DealIIWrapper<MATRIX, VECTOR>::evaluateIdMinusTauJInverse,
-					this, dealii::std_cxx11::_1, dealii::std_cxx11::_2,
-					dealii::std_cxx11::_3), t, dt, vector);
-
-					*/}
+			[this](const double time, const VECTOR& y) {
+				return this->evaluateF(time, y);
+			}, [this](const double time, const double tau, const VECTOR& y) {
+				return this->evaluateIdMinusTauJInverse(time, tau, y);
+			}, t, dt, vector);
+}
 
 template<class MATRIX, class VECTOR>
 natrium::DealIIWrapper<MATRIX, VECTOR>::DealIIWrapper(const double timeStepSize,
@@ -645,7 +677,7 @@ natrium::DealIIWrapper<MATRIX, VECTOR>::DealIIWrapper(const double timeStepSize,
 	assert(rkScheme < 12);
 	assert(NONE != rkScheme);
 	dealii::TimeStepping::runge_kutta_method rk =
-			static_cast<dealii::TimeStepping::runge_kutta_method>((int) rkScheme);
+			getDealIIScheme(rkScheme);
 	if (rkScheme < 3) {
 		m_dealIIRKStepper = boost::make_shared<
 				dealii::TimeStepping::ExplicitRungeKutta<VECTOR> >(rk);
@@ -670,7 +702,7 @@ natrium::DealIIWrapper<MATRIX, VECTOR>::DealIIWrapper(const double timeStepSize,
 	assert(rkScheme < 12);
 	assert(NONE != rkScheme);
 	dealii::TimeStepping::runge_kutta_method rk =
-			static_cast<dealii::TimeStepping::runge_kutta_method>((int) rkScheme);
+			getDealIIScheme(rkScheme);
 	m_dealIIRKEmbedded = boost::make_shared<
 			dealii::TimeStepping::EmbeddedExplicitRungeKutta<VECTOR> >(rk,
 			coarsen_param, refine_param, min_delta, max_delta, refine_tol,
-- 
2.43.0


From caa97b62be3563c77b5c88fe82ad71adb3846463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:13 +0000
Subject: [PATCH 33/36] fix: legends of the turbulence tables named the wrong
 columns

---
 .../natrium/dataprocessors/CompressibleTurbulenceStats.cpp | 7 ++++++-
 .../natrium/dataprocessors/GlobalTurbulenceStats.cpp       | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp b/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp
index a9faf73..d39c113 100644
--- a/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp
+++ b/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp
@@ -54,12 +54,17 @@ CompressibleTurbulenceStats<dim>::CompressibleTurbulenceStats(CompressibleCFDSol
                            << m_legendFilename << endl;
             std::ofstream legend_file(m_legendFilename, std::fstream::out);
 
-            int k = 0;
+            legend_file << "1  iteration" << endl;
+            legend_file << "2  time" << endl;
+
+            int k = 3;
             legend_file << k << "  <dilatation>" << endl;
             k++;
             legend_file << k << "  <solenoidal>" << endl;
             k++;
             legend_file << k << "  maxMach" << endl;
+            k++;
+            legend_file << k << "  totalEnergy" << endl;
             legend_file.close();
 
         } /* is_MPI_rank 0 */
diff --git a/src/library/natrium/dataprocessors/GlobalTurbulenceStats.cpp b/src/library/natrium/dataprocessors/GlobalTurbulenceStats.cpp
index 95b2ceb..6d3fe18 100755
--- a/src/library/natrium/dataprocessors/GlobalTurbulenceStats.cpp
+++ b/src/library/natrium/dataprocessors/GlobalTurbulenceStats.cpp
@@ -90,7 +90,7 @@ void GlobalTurbulenceStats<dim>::printHeaderLine() {
 
 		// write legend file
 		legend_file << "1  iteration" << endl;
-		legend_file << "3  time" << endl;
+		legend_file << "2  time" << endl;
 		size_t k = 3;
 		for (size_t i = 0; i < m_nofObservables; i++) {
 			legend_file << k << "  < " << m_names.at(i) << " >" << endl;
-- 
2.43.0


From b010d05f24d07c6ed73098bc314165db0416dc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:13 +0000
Subject: [PATCH 34/36] fix: multistep collision lost the D3Q19 result and
 silently skipped other lattices

---
 .../natrium/collision/BGKMultistep.cpp        | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/library/natrium/collision/BGKMultistep.cpp b/src/library/natrium/collision/BGKMultistep.cpp
index eb0d349..498500e 100644
--- a/src/library/natrium/collision/BGKMultistep.cpp
+++ b/src/library/natrium/collision/BGKMultistep.cpp
@@ -74,11 +74,12 @@ void BGKMultistep::collideAll(DistributionFunctions& f,
 	if (Stencil_D2Q9 == getStencil()->getStencilType()) {
 		collideAllD2Q9(f, densities, velocities, locally_owned_dofs,
 				inInitializationProcedure);
-	}
-
-	if (Stencil_D3Q19 == getStencil()->getStencilType()) {
+	} else if (Stencil_D3Q19 == getStencil()->getStencilType()) {
 		collideAllD3Q19(f, densities, velocities, locally_owned_dofs,
 				inInitializationProcedure);
+	} else {
+		throw CollisionException(
+				"BGKMultistep only implemented for D2Q9 and D3Q19");
 	}
 
 	m_firstCollision = 0;
@@ -257,6 +258,9 @@ void BGKMultistep::collideAllD2Q9(DistributionFunctions& f,
 				velocities.at(0)(i) = u_0_i;
 				velocities.at(1)(i) = u_1_i;
 			}
+		} else {
+			u_0_i = velocities.at(0)(i);
+			u_1_i = velocities.at(1)(i);
 		}
 
 		// calculate equilibrium distribution
@@ -635,6 +639,10 @@ void BGKMultistep::collideAllD3Q19(DistributionFunctions& f,
 				velocities.at(1)(i) = u_1_i;
 				velocities.at(2)(i) = u_2_i;
 			}
+		} else {
+			u_0_i = velocities.at(0)(i);
+			u_1_i = velocities.at(1)(i);
+			u_2_i = velocities.at(2)(i);
 		}
 
 		// calculate equilibrium distribution
@@ -770,6 +778,14 @@ void BGKMultistep::collideAllD3Q19(DistributionFunctions& f,
 					u_0_i, u_1_i, u_2_i, -relax_factor, prefactor, dt);
 		}
 
+		for (size_t q = 0; q < Q; q++) {
+			// copy the former PDF and the equilibrium PDF
+			m_formerF.at(q)(i) = f.at(q)(i);
+			m_formerFEq.at(q)(i) = feq[q];
+			// copy to global variables
+			f.at(q)(i) = f_i[q];
+		}
+
 	} /* for all dofs */
 
 } /* collideAllD3Q19 */
-- 
2.43.0


From 6179129905ff3d950060d9c96ed51601b2143069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:13 +0000
Subject: [PATCH 35/36] fix: defaults of minimum and maximum CFL were swapped

---
 src/library/natrium/solver/SolverConfiguration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/solver/SolverConfiguration.cpp b/src/library/natrium/solver/SolverConfiguration.cpp
index 8ad2100..acc59e9 100644
--- a/src/library/natrium/solver/SolverConfiguration.cpp
+++ b/src/library/natrium/solver/SolverConfiguration.cpp
@@ -107,9 +107,9 @@ SolverConfiguration::SolverConfiguration() {
 			declare_entry("Refinement parameter", "0.8",
 					dealii::Patterns::Double(0, 1),
 					"Parameter for the embedded deal.II methods. This parameter is the factor (<1) by which the time step is multiplied when the time stepping must be refined.");
-			declare_entry("Minimum CFL", "10", dealii::Patterns::Double(),
+			declare_entry("Minimum CFL", "0.05", dealii::Patterns::Double(),
 					"Parameter for the embedded deal.II methods. Smallest CFL allowed.");
-			declare_entry("Maximum CFL", "0.05", dealii::Patterns::Double(),
+			declare_entry("Maximum CFL", "10", dealii::Patterns::Double(),
 					"Parameter for the embedded deal.II methods. Largest CFL allowed.");
 			declare_entry("Refinement tolerance", "1e-8",
 					dealii::Patterns::Double(),
-- 
2.43.0


From cb774c969b7c7a5a1b4c80db99918221aaf72a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:13 +0000
Subject: [PATCH 36/36] fix: output directory without write permission was not
 refused

---
 src/library/natrium/solver/SolverConfiguration.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/library/natrium/solver/SolverConfiguration.cpp b/src/library/natrium/solver/SolverConfiguration.cpp
index acc59e9..3f3a8a7 100644
--- a/src/library/natrium/solver/SolverConfiguration.cpp
+++ b/src/library/natrium/solver/SolverConfiguration.cpp
@@ -437,6 +437,10 @@ void SolverConfiguration::prepareOutputDirectory() {
 					MPI_COMM_WORLD) << ".txt";
 			filestream.open(
 					(outputDir / filename.str().c_str()).string().c_str());
+			// throw exception if file is not opened
+			if (not filestream.is_open()) {
+				throw std::exception();
+			}
 			filestream << " ";
 			filestream.close();
 			boost::filesystem::remove(
-- 
2.43.0

