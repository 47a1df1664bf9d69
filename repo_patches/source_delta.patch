From 0246d33d414c117418bea7121c56e5b29b6d026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 01/19] fix: report write errors of matrix files (flush before
 returning)

---
 src/fem_problem/linalg/sparse_matrix.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fem_problem/linalg/sparse_matrix.rs b/src/fem_problem/linalg/sparse_matrix.rs
index 7010745..5869905 100644
--- a/src/fem_problem/linalg/sparse_matrix.rs
+++ b/src/fem_problem/linalg/sparse_matrix.rs
@@ -161,7 +161,7 @@ impl SparseMatrix {
             writer.write_all(format!("{} ", rnz).as_bytes())?;
         }
 
-        Ok(())
+        writer.flush()
     }
 }
 
@@ -260,7 +260,8 @@ impl AIJMatrixBinary {
         }
         writer.write_all(a_buf.as_ref())?;
 
-        Ok(())
+        // a dropped BufWriter discards write errors
+        writer.flush()
     }
 }
 
-- 
2.43.0


From 4bcf46dd7d6102b70b06396cecf281123b86d3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 02/19] fix: report write errors of mesh exports (flush before
 returning)

---
 src/fem_domain/domain/mesh.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index 5430879..80b59b5 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -29,7 +29,7 @@ use std::cmp::Ordering;
 use std::collections::BTreeMap;
 use std::fmt;
 use std::fs::{read_to_string, File};
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::sync::Arc;
 
 /// Minimum Edge length in parametric space. h-Refinements will fail after edges are smaller than this value.
@@ -346,8 +346,7 @@ impl Mesh {
         };
 
         mesh_object.write_pretty(&mut w, 4)?;
-
-        Ok(())
+        w.flush()
     }
 
     // ----------------------------------------------------------------------------------------------------
-- 
2.43.0


From 40acfa802b4b52fba1ae85a1c6287cc91fdf0191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 03/19] fix: report write errors of VTK exports (flush before
 returning)

---
 src/fem_domain/domain/fields.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fem_domain/domain/fields.rs b/src/fem_domain/domain/fields.rs
index ba34790..e10e65a 100644
--- a/src/fem_domain/domain/fields.rs
+++ b/src/fem_domain/domain/fields.rs
@@ -229,6 +229,7 @@ impl<'d> UniformFieldSpace<'d> {
             field_quant.write_vtk_quantity(&mut writer)?;
         }
         writeln!(writer)?;
+        writer.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From b43681015ee803ad148dff9b105a80b0f40b07c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 04/19] fix: VTK export must not panic when the clock reads
 before the epoch

---
 src/fem_domain/domain/fields.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_domain/domain/fields.rs b/src/fem_domain/domain/fields.rs
index e10e65a..2134adf 100644
--- a/src/fem_domain/domain/fields.rs
+++ b/src/fem_domain/domain/fields.rs
@@ -165,7 +165,7 @@ impl<'d> UniformFieldSpace<'d> {
             "# File generated by fem_2d on: {:?}\n",
             SystemTime::now()
                 .duration_since(SystemTime::UNIX_EPOCH)
-                .unwrap()
+                .unwrap_or_default()
         )?;
         writeln!(writer, "ASCII")?;
         writeln!(writer, "DATASET UNSTRUCTURED_GRID")?;
-- 
2.43.0


From 246e08a117154aa65dfea2e9651f2a23f8c427e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 05/19] fix: fields and VTK cells for unequal grid densities

---
 src/fem_domain/domain/fields.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fem_domain/domain/fields.rs b/src/fem_domain/domain/fields.rs
index 2134adf..868832c 100644
--- a/src/fem_domain/domain/fields.rs
+++ b/src/fem_domain/domain/fields.rs
@@ -80,8 +80,8 @@ impl<'d> UniformFieldSpace<'d> {
             let [i_max, j_max] = self.domain.mesh.max_expansion_orders();
 
             for shell_elem in self.domain.mesh.elems.iter().filter(|e| !e.has_children()) {
-                let mut x_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
-                let mut y_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
+                let mut x_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
+                let mut y_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
 
                 for anc_elem_id in self
                     .domain
@@ -201,15 +201,15 @@ impl<'d> UniformFieldSpace<'d> {
         for k in 0..num_shell_elems {
             for i in 0..(nx - 1) {
                 for j in 0..(ny - 1) {
-                    let initial_pt = nx * i + j + (nx * ny) * k;
+                    let initial_pt = ny * i + j + (nx * ny) * k;
 
                     writeln!(
                         writer,
                         "4\t{}\t{}\t{}\t{}",
                         initial_pt,
                         initial_pt + 1,
-                        initial_pt + nx + 1,
-                        initial_pt + nx,
+                        initial_pt + ny + 1,
+                        initial_pt + ny,
                     )?;
                 }
             }
@@ -324,7 +324,7 @@ impl<'d> UniformFieldSpace<'d> {
             for ((shell_elem_id, elem_values_a), elem_values_b) in
                 q_a.values.iter().zip(q_b.values.values())
             {
-                let mut result_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
+                let mut result_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
                 for m in 0..self.densities[0] {
                     for n in 0..self.densities[1] {
                         result_values[m][n] = expression(elem_values_a[m][n], elem_values_b[m][n]);
-- 
2.43.0


From a07e7198f8a401bf481d4ab29574032e6a780d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 06/19] fix: a solver directory that is not UTF-8 is an error,
 not a panic

---
 src/fem_problem/linalg/slepc_solve.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index 24e8c8b..845a052 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -16,7 +16,10 @@ pub fn slepc_solve_gep(
     target_eigenvalue: f64,
 ) -> Result<EigenPair, Box<dyn std::error::Error>> {
     if let Some(esolve_dir) = var_os("GEP_SOLVE_DIR") {
-        let dir = esolve_dir.to_str().unwrap();
+        let dir = match esolve_dir.to_str() {
+            Some(dir) => dir,
+            None => return Err(Box::new(SlepcGEPError::SolverNotFound)),
+        };
         let prefix = unique_prefix();
 
         // Write the matrices to files
-- 
2.43.0


From 061d4bb71e7515f4ea17dfbc2823014aa76e16db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 07/19] fix: concurrent solves must not share a file prefix

---
 src/fem_problem/linalg/slepc_solve.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index 845a052..1b6a987 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -3,6 +3,7 @@ use std::fmt;
 
 use std::collections::hash_map::DefaultHasher;
 use std::hash::{Hash, Hasher};
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::time::SystemTime;
 
 use bytes::{Buf, BytesMut};
@@ -147,12 +148,20 @@ fn retrieve_eigenvalue(path: String) -> std::io::Result<f64> {
 }
 
 fn unique_prefix() -> String {
+    static COUNTER: AtomicUsize = AtomicUsize::new(0);
+
+    // the clock alone is not unique: readings can tie, jump backwards or precede the epoch
     let t_now = SystemTime::now()
         .duration_since(SystemTime::UNIX_EPOCH)
-        .unwrap();
+        .unwrap_or_default();
     let mut hasher = DefaultHasher::new();
     t_now.hash(&mut hasher);
-    format!("p_{}", hasher.finish().to_string().split_at(8).0)
+    format!(
+        "p_{:08}_{}_{}",
+        hasher.finish() % 100_000_000,
+        std::process::id(),
+        COUNTER.fetch_add(1, Ordering::Relaxed)
+    )
 }
 
 fn clean_directory(dir: impl AsRef<str>, prefix: impl AsRef<str>) -> std::io::Result<()> {
-- 
2.43.0


From 29c47c1460fe4b7828bb38a7a0acedbfc441bcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 08/19] fix: cleaning up after a solve must not touch or trip
 over other files

---
 src/fem_problem/linalg/slepc_solve.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index 1b6a987..f6f63d2 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -165,12 +165,13 @@ fn unique_prefix() -> String {
 }
 
 fn clean_directory(dir: impl AsRef<str>, prefix: impl AsRef<str>) -> std::io::Result<()> {
+    let own_prefix = format!("{}_", prefix.as_ref());
+
     for file in std::fs::read_dir(&format!("{}/tmp/", dir.as_ref()))? {
         let file = file?;
-        let file_name_os = file.file_name();
-        let file_name = String::from(file_name_os.to_str().unwrap());
+        let file_name = file.file_name();
 
-        if file_name.contains(prefix.as_ref()) {
+        if file_name.to_string_lossy().starts_with(&own_prefix) {
             std::fs::remove_file(file.path())?;
         }
     }
-- 
2.43.0


From a353b8af694099bf4ccaa13343db4b5b0e185196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 09/19] fix: remove the exchange files after every outcome of a
 solve

---
 src/fem_problem/linalg/slepc_solve.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index f6f63d2..bf38545 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -24,7 +24,10 @@ pub fn slepc_solve_gep(
         let prefix = unique_prefix();
 
         // Write the matrices to files
-        gep.print_to_petsc_binary_files(&dir, &prefix)?;
+        if let Err(err) = gep.print_to_petsc_binary_files(&dir, &prefix) {
+            let _ = clean_directory(&dir, &prefix);
+            return Err(err.into());
+        }
 
         // Run the solver
         let esolve_exit_status = Command::new("mpiexec")
@@ -42,8 +45,10 @@ pub fn slepc_solve_gep(
         match esolve_exit_status {
             Ok(status) => {
                 if status.success() {
-                    let solution = retrieve_solution(&dir, &prefix)?;
-                    clean_directory(&dir, &prefix)?;
+                    let solution = retrieve_solution(&dir, &prefix);
+                    let cleaned = clean_directory(&dir, &prefix);
+                    let solution = solution?;
+                    cleaned?;
                     Ok(solution)
                 } else {
                     clean_directory(&dir, &prefix)?;
@@ -167,14 +172,16 @@ fn unique_prefix() -> String {
 fn clean_directory(dir: impl AsRef<str>, prefix: impl AsRef<str>) -> std::io::Result<()> {
     let own_prefix = format!("{}_", prefix.as_ref());
 
+    let mut result = Ok(());
     for file in std::fs::read_dir(&format!("{}/tmp/", dir.as_ref()))? {
         let file = file?;
         let file_name = file.file_name();
 
         if file_name.to_string_lossy().starts_with(&own_prefix) {
-            std::fs::remove_file(file.path())?;
+            // one refused deletion must not keep the other files
+            result = result.and(std::fs::remove_file(file.path()));
         }
     }
 
-    Ok(())
+    result
 }
-- 
2.43.0


From c2b1ecc642529882edd564f337ff5502d83bf882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 10/19] fix: a failed clean-up must not hide why the solver
 failed

---
 src/fem_problem/linalg/slepc_solve.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index bf38545..82d4525 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -51,7 +51,8 @@ pub fn slepc_solve_gep(
                     cleaned?;
                     Ok(solution)
                 } else {
-                    clean_directory(&dir, &prefix)?;
+                    // the solver's failure is what gets reported
+                    let _ = clean_directory(&dir, &prefix);
 
                     match status.code() {
                         Some(1) => Err(Box::new(SlepcGEPError::FailedToInitializeSlepc)),
@@ -65,7 +66,7 @@ pub fn slepc_solve_gep(
                 }
             }
             Err(_) => {
-                clean_directory(&dir, &prefix)?;
+                let _ = clean_directory(&dir, &prefix);
 
                 Err(Box::new(SlepcGEPError::FailedToExecute))
             }
-- 
2.43.0


From d05ed65dc308fbde81ec290aa532b42bae3cfc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 11/19] fix: reject malformed and wrong-length solution files
 with an error

---
 src/fem_problem/linalg/slepc_solve.rs | 32 ++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index 82d4525..b843c1a 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -22,6 +22,7 @@ pub fn slepc_solve_gep(
             None => return Err(Box::new(SlepcGEPError::SolverNotFound)),
         };
         let prefix = unique_prefix();
+        let num_dofs = gep.a.dimension;
 
         // Write the matrices to files
         if let Err(err) = gep.print_to_petsc_binary_files(&dir, &prefix) {
@@ -45,7 +46,7 @@ pub fn slepc_solve_gep(
         match esolve_exit_status {
             Ok(status) => {
                 if status.success() {
-                    let solution = retrieve_solution(&dir, &prefix);
+                    let solution = retrieve_solution(&dir, &prefix, num_dofs);
                     let cleaned = clean_directory(&dir, &prefix);
                     let solution = solution?;
                     cleaned?;
@@ -109,8 +110,15 @@ impl std::fmt::Display for SlepcGEPError {
 
 impl std::error::Error for SlepcGEPError {}
 
-fn retrieve_solution(dir: impl AsRef<str>, prefix: impl AsRef<str>) -> std::io::Result<EigenPair> {
-    let evec = retrieve_eigenvector(format!("{}/tmp/{}_evec.dat", dir.as_ref(), prefix.as_ref()))?;
+fn retrieve_solution(
+    dir: impl AsRef<str>,
+    prefix: impl AsRef<str>,
+    num_dofs: usize,
+) -> std::io::Result<EigenPair> {
+    let evec = retrieve_eigenvector(
+        format!("{}/tmp/{}_evec.dat", dir.as_ref(), prefix.as_ref()),
+        num_dofs,
+    )?;
     let eval = retrieve_eigenvalue(format!("{}/tmp/{}_eval.dat", dir.as_ref(), prefix.as_ref()))?;
 
     Ok(EigenPair {
@@ -119,15 +127,23 @@ fn retrieve_solution(dir: impl AsRef<str>, prefix: impl AsRef<str>) -> std::io::
     })
 }
 
-fn retrieve_eigenvector(path: String) -> std::io::Result<Vec<f64>> {
+fn retrieve_eigenvector(path: String, num_dofs: usize) -> std::io::Result<Vec<f64>> {
     let mut vec_file = File::open(path)?;
 
     let mut header_bytes = BytesMut::new();
     header_bytes.resize(8, 0);
     vec_file.read_exact(&mut header_bytes)?;
 
-    assert_eq!(header_bytes.get_i32(), 1211214_i32); // ensure this is a PETSC vector file
-    let m = header_bytes.get_i32() as usize;
+    // ensure this is a PETSC vector file
+    if header_bytes.get_i32() != 1211214_i32 {
+        return Err(invalid_data("not a PETSC vector file"));
+    }
+    // ensure the vector belongs to this problem
+    let m = header_bytes.get_i32();
+    if usize::try_from(m) != Ok(num_dofs) {
+        return Err(invalid_data("unexpected eigenvector length"));
+    }
+    let m = num_dofs;
 
     let mut value_bytes = BytesMut::new();
     value_bytes.resize(m * 8, 0);
@@ -141,6 +157,10 @@ fn retrieve_eigenvector(path: String) -> std::io::Result<Vec<f64>> {
     Ok(values)
 }
 
+fn invalid_data(message: &str) -> std::io::Error {
+    std::io::Error::new(std::io::ErrorKind::InvalidData, message)
+}
+
 fn retrieve_eigenvalue(path: String) -> std::io::Result<f64> {
     let mut eval_file = File::open(path)?;
 
-- 
2.43.0


From beeac1e67942a0147e38427839f7b72fc906bc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 12/19] fix: reject extended h-refinements of a child that does
 not exist

---
 src/fem_domain/domain/mesh.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index 80b59b5..1c3d967 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -846,6 +846,11 @@ impl Mesh {
     ) -> Result<(), HRefError> {
         let mut refinements_map: BTreeMap<usize, HRef> = BTreeMap::new();
         for (elem_id, h_ref) in refinements {
+            if let HRef::U(Some(child_idx)) | HRef::V(Some(child_idx)) = h_ref {
+                if child_idx > 1 {
+                    return Err(HRefError::BisectionIdxExceeded);
+                }
+            }
             match self.elem_is_h_refineable(elem_id) {
                 Ok(true) => {
                     refinements_map
-- 
2.43.0


From 92aae843712480613a1bdf0bad3769bd23d08715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 13/19] fix: a refused batch of h-refinements must leave the
 Mesh unchanged

---
 src/fem_domain/domain/mesh.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index 1c3d967..27c445e 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -863,6 +863,11 @@ impl Mesh {
             }
         }
 
+        // find every problem before the Mesh is modified
+        for (elem_id, refinement) in refinements_map.iter() {
+            self.check_edge_lengths(*elem_id, *refinement)?;
+        }
+
         let mut refinement_extensions: Vec<(usize, HRef)> = Vec::new();
         let mut elem_id_tracker = self.elems.len();
         let mut node_id_tracker = IdTracker::new(self.nodes.len());
@@ -917,6 +922,36 @@ impl Mesh {
         Ok(())
     }
 
+    // Check that an h-refinement will not result in any Edges below the minimum length
+    fn check_edge_lengths(&self, elem_id: usize, refinement: HRef) -> Result<(), HRefError> {
+        let (bisected, bisected_by_extension): (&[usize], &[usize]) = match refinement {
+            HRef::T => (&[0, 1, 2, 3], &[]),
+            HRef::U(None) => (&[0, 1], &[]),
+            HRef::V(None) => (&[2, 3], &[]),
+            HRef::U(Some(_)) => (&[0, 1], &[2, 3]),
+            HRef::V(Some(_)) => (&[2, 3], &[0, 1]),
+        };
+        let child_length = |idx: &usize| {
+            let edge_id = self.elems[elem_id].edges[*idx];
+            (edge_id, self.edges[edge_id].length / 2.0)
+        };
+
+        for (edge_id, length) in bisected.iter().map(child_length) {
+            // the extension is applied to a child Elem, which must be h-refineable as well
+            let extendable = bisected_by_extension.is_empty() || length > MIN_EDGE_LENGTH;
+            if length < MIN_EDGE_LENGTH || !extendable {
+                return Err(HRefError::MinEdgeLength(edge_id));
+            }
+        }
+        for (edge_id, length) in bisected_by_extension.iter().map(child_length) {
+            if length < MIN_EDGE_LENGTH {
+                return Err(HRefError::MinEdgeLength(edge_id));
+            }
+        }
+
+        Ok(())
+    }
+
     fn execute_t_refinement(
         &mut self,
         mut new_elems: Vec<ElemUninit>,
-- 
2.43.0


From ee0694825d4d5fa24d39178a8d18889250c9f1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 14/19] fix: queries for the first id past the end must return
 an error

---
 src/fem_domain/domain.rs      | 2 +-
 src/fem_domain/domain/mesh.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain.rs b/src/fem_domain/domain.rs
index e58196b..f7c1da6 100644
--- a/src/fem_domain/domain.rs
+++ b/src/fem_domain/domain.rs
@@ -181,7 +181,7 @@ impl Domain {
     /// * An `Err` if the `elem` does not have a [BasisSpec] at the given `address`
     ///
     pub fn get_basis_spec(&self, bs_address: BSAddress) -> Result<&BasisSpec, String> {
-        if bs_address.elem_id > self.mesh.elems.len() {
+        if bs_address.elem_id >= self.mesh.elems.len() {
             Err(format!(
                 "Elem {} does not exist; cannot retrieve BasisSpec!",
                 bs_address.elem_id
diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index 27c445e..a78ae17 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -578,7 +578,7 @@ impl Mesh {
         edge_id: usize,
         include_starting_edge: bool,
     ) -> Result<Vec<usize>, MeshAccessError> {
-        if edge_id > self.edges.len() {
+        if edge_id >= self.edges.len() {
             Err(MeshAccessError::EdgeDoesNotExist(edge_id))
         } else {
             let mut descendants = Vec::new();
-- 
2.43.0


From 4fe486b56be27eac2de4e85d2317c3facaef1a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 15/19] fix: sums of large p-refinements must not overflow

---
 src/fem_domain/domain/mesh/p_refinement.rs | 26 ++++++++++++----------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/fem_domain/domain/mesh/p_refinement.rs b/src/fem_domain/domain/mesh/p_refinement.rs
index ed413b4..69db7f2 100644
--- a/src/fem_domain/domain/mesh/p_refinement.rs
+++ b/src/fem_domain/domain/mesh/p_refinement.rs
@@ -96,8 +96,8 @@ impl From<PolyOrders> for JsonValue {
 // the internal p-refinement type
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 enum PRefInt {
-    Increment(u8),
-    Decrement(u8),
+    Increment(u32),
+    Decrement(u32),
     None,
 }
 
@@ -105,17 +105,18 @@ impl PRefInt {
     fn refine(&self, n: u8) -> Result<u8, PRefError> {
         match self {
             Self::Increment(delta) => {
-                if n + *delta > MAX_POLYNOMIAL_ORDER {
+                let sum = delta.saturating_add(n as u32);
+                if sum > MAX_POLYNOMIAL_ORDER as u32 {
                     Err(PRefError::ExceededMaxExpansion)
                 } else {
-                    Ok(n + *delta)
+                    Ok(sum as u8)
                 }
             }
             Self::Decrement(delta) => {
-                if *delta >= n {
+                if *delta >= n as u32 {
                     Err(PRefError::NegExpansion)
                 } else {
-                    Ok(n - *delta)
+                    Ok(n - *delta as u8)
                 }
             }
             Self::None => Ok(n),
@@ -125,17 +126,18 @@ impl PRefInt {
     pub const fn from_i8(delta: i8) -> Self {
         match delta {
             0 => PRefInt::None,
-            d if d > 0 => PRefInt::Increment(d as u8),
-            d if d < 0 => PRefInt::Decrement(-d as u8),
+            d if d > 0 => PRefInt::Increment(d as u32),
+            d if d < 0 => PRefInt::Decrement(d.unsigned_abs() as u32),
             _ => unreachable!(),
         }
     }
 
+    // sums of several refinements saturate at the limits of an i8
     pub fn as_i8(&self) -> i8 {
         match self {
             Self::None => 0,
-            Self::Increment(delta) => *delta as i8,
-            Self::Decrement(delta) => -1 * (*delta as i8),
+            Self::Increment(delta) => i8::try_from(*delta).unwrap_or(i8::MAX),
+            Self::Decrement(delta) => i8::try_from(-i64::from(*delta)).unwrap_or(i8::MIN),
         }
     }
 
@@ -159,7 +161,7 @@ impl AddAssign for PRefInt {
     fn add_assign(&mut self, rhs: Self) {
         let sum = match *self {
             Self::Increment(s_delta) => match rhs {
-                Self::Increment(r_delta) => Self::Increment(s_delta + r_delta),
+                Self::Increment(r_delta) => Self::Increment(s_delta.saturating_add(r_delta)),
                 Self::Decrement(r_delta) => match s_delta.cmp(&r_delta) {
                     Ordering::Equal => Self::None,
                     Ordering::Greater => Self::Increment(s_delta - r_delta),
@@ -168,7 +170,7 @@ impl AddAssign for PRefInt {
                 Self::None => self.clone(),
             },
             Self::Decrement(s_delta) => match rhs {
-                Self::Decrement(r_delta) => Self::Decrement(s_delta + r_delta),
+                Self::Decrement(r_delta) => Self::Decrement(s_delta.saturating_add(r_delta)),
                 Self::Increment(r_delta) => match s_delta.cmp(&r_delta) {
                     Ordering::Equal => Self::None,
                     Ordering::Greater => Self::Decrement(s_delta - r_delta),
-- 
2.43.0


From 4f5322700066f85a13c647eed90f6954cdc464b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:07 +0000
Subject: [PATCH 16/19] fix: list quantities in a VTK file in an order that
 does not depend on hash seeds

---
 src/fem_domain/domain/fields.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fem_domain/domain/fields.rs b/src/fem_domain/domain/fields.rs
index 868832c..c2cb353 100644
--- a/src/fem_domain/domain/fields.rs
+++ b/src/fem_domain/domain/fields.rs
@@ -132,7 +132,9 @@ impl<'d> UniformFieldSpace<'d> {
     ///
     /// Can return an IO error if the file cannot be written
     pub fn print_all_to_vtk(&self, path: impl AsRef<str>) -> Result<(), Box<dyn Error>> {
-        let all_q_names = self.quantities.keys().cloned().collect();
+        let mut all_q_names: Vec<String> = self.quantities.keys().cloned().collect();
+        // the order of the map changes from one process to the next
+        all_q_names.sort();
         self.print_quantities_to_vkt(path, all_q_names)
     }
 
-- 
2.43.0


From 9f841c3c3c060782c1f1a00904e70d508c75df90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:06 +0000
Subject: [PATCH 17/19] fix: SparseMatrix::write_to_petsc_binary_format must
 write the whole matrix in the binary format

It wrote only a textual header and row counts (of the upper triangle), no entries.
---
 Cargo.lock                              |  4 +--
 src/fem_problem/linalg/sparse_matrix.rs | 36 +------------------------
 2 files changed, 3 insertions(+), 37 deletions(-)

diff --git a/Cargo.lock b/Cargo.lock
index 184fedc..5f12752 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1,6 +1,6 @@
 # This file is automatically @generated by Cargo.
 # It is not intended for manual editing.
-version = 3
+version = 4
 
 [[package]]
 name = "approx"
@@ -87,7 +87,7 @@ checksum = "e78d4f1cc4ae33bbfc157ed5d5a5ef3bc29227303d595861deb238fcec4e9457"
 
 [[package]]
 name = "fem_2d"
-version = "0.2.1"
+version = "0.2.2"
 dependencies = [
  "bytes",
  "json",
diff --git a/src/fem_problem/linalg/sparse_matrix.rs b/src/fem_problem/linalg/sparse_matrix.rs
index 5869905..9e23482 100644
--- a/src/fem_problem/linalg/sparse_matrix.rs
+++ b/src/fem_problem/linalg/sparse_matrix.rs
@@ -127,41 +127,7 @@ impl SparseMatrix {
     }
 
     pub fn write_to_petsc_binary_format(&self, path: impl AsRef<str>) -> std::io::Result<()> {
-        let file = File::create(path.as_ref())?;
-        let mut writer = BufWriter::new(file);
-
-        let mut full_sparse: BTreeMap<[u32; 2], f64> = self
-            .entries
-            .iter()
-            .map(|([r, c], v)| ([*c, *r], *v))
-            .collect();
-        full_sparse.append(&mut self.entries.clone());
-
-        let nnz = full_sparse.len();
-        let mut i = Vec::with_capacity(nnz);
-        let mut j = Vec::with_capacity(nnz);
-        let mut v = Vec::with_capacity(nnz);
-
-        for ([r, c], value) in full_sparse {
-            i.push(r);
-            j.push(c);
-            v.push(value);
-        }
-        let nnz = v.len();
-
-        // Write the header
-        writer.write_all(
-            format!("1211216 {} {} {}\n", self.dimension, self.dimension, nnz).as_bytes(),
-        )?;
-        let mut row_nnz = vec![0; self.dimension];
-        for (coordinates, _) in self.iter_upper_tri() {
-            row_nnz[coordinates[0]] += 1;
-        }
-        for rnz in row_nnz.iter() {
-            writer.write_all(format!("{} ", rnz).as_bytes())?;
-        }
-
-        writer.flush()
+        AIJMatrixBinary::from(self.clone()).print_to_petsc_binary_file(path)
     }
 }
 
-- 
2.43.0


From 909b9e52d2bf18910546c2e729d3ed0343a37218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:56 +0000
Subject: [PATCH 18/19] fix: a basis space that uses the thread pool must not
 deadlock the assembly

The sampler computed new samples while holding the lock of its cache; a worker that waits for the
pool inside that computation can be handed another element's task, which needs the same lock.
---
 src/fem_domain/basis.rs | 42 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/fem_domain/basis.rs b/src/fem_domain/basis.rs
index 5bafc72..f4909de 100644
--- a/src/fem_domain/basis.rs
+++ b/src/fem_domain/basis.rs
@@ -106,30 +106,26 @@ impl<B: HierBasisFn> BasisFnSampler<B> {
     pub fn sample_basis_fn(&mut self, elem: &Elem, over_desc_elem: Option<&Elem>) -> Arc<B> {
         let desc = BSDescription::new(elem, over_desc_elem);
 
-        match self.computed.lock() {
-            Ok(mut comp_guard) => {
-                if let Some(computed_bs) = comp_guard.get(&desc) {
-                    computed_bs.clone()
-                } else {
-                    let bs = B::defined_over(
-                        elem,
-                        over_desc_elem,
-                        [&self.u_points, &self.v_points],
-                        [self.i_max, self.j_max],
-                        self.compute_d2,
-                    );
-                    comp_guard.insert(desc.clone(), Arc::new(bs));
-                    comp_guard.get(&desc).unwrap().clone()
-                }
+        if let Ok(comp_guard) = self.computed.lock() {
+            if let Some(computed_bs) = comp_guard.get(&desc) {
+                return computed_bs.clone();
             }
-            // fallback on computing directly, if MutexGuard is not available.
-            Err(_) => Arc::new(B::defined_over(
-                elem,
-                over_desc_elem,
-                [&self.u_points, &self.v_points],
-                [self.i_max, self.j_max],
-                self.compute_d2,
-            )),
+        }
+
+        // The lock must not be held here: a basis which uses the thread pool itself can be made to
+        // wait for another task that needs the same lock
+        let bs = Arc::new(B::defined_over(
+            elem,
+            over_desc_elem,
+            [&self.u_points, &self.v_points],
+            [self.i_max, self.j_max],
+            self.compute_d2,
+        ));
+
+        match self.computed.lock() {
+            Ok(mut comp_guard) => comp_guard.entry(desc).or_insert(bs).clone(),
+            // fallback on the computed basis, if MutexGuard is not available.
+            Err(_) => bs,
         }
     }
 }
-- 
2.43.0


From 9e69235442b5679885e33300de2c3c04c44e9600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 19/19] fix: connect the cell of Mesh::unit to its nodes and
 edges

---
 src/fem_domain/domain/mesh.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index a78ae17..6fe0be1 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -67,18 +67,22 @@ impl Mesh {
         let unit_element = Arc::new(Element::new(0, points.clone(), Materials::default()));
         let unit_elem = Elem::new(0, [0, 1, 2, 3], [0, 1, 2, 3], unit_element.clone());
 
-        let nodes: Vec<Node> = points
+        let mut nodes: Vec<Node> = points
             .iter()
             .enumerate()
             .map(|(n_id, p)| Node::new(n_id, *p, true))
             .collect();
-        let edges: Vec<Edge> = vec![
+        let mut edges: Vec<Edge> = vec![
             Edge::new(0, [&nodes[0], &nodes[1]], true),
             Edge::new(1, [&nodes[2], &nodes[3]], true),
             Edge::new(2, [&nodes[0], &nodes[2]], true),
             Edge::new(3, [&nodes[1], &nodes[3]], true),
         ];
 
+        // connect the cell to its nodes and edges
+        nodes.iter_mut().for_each(|n| n.connect_elem(&unit_elem));
+        edges.iter_mut().for_each(|e| e.connect_elem(&unit_elem));
+
         Self {
             elements: vec![unit_element],
             elems: vec![unit_elem],
-- 
2.43.0

