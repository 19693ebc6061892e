From d567b253e2e7bed298fbeb4fafdc2ea8e9cb7b11 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:53:24 +0000
Subject: [PATCH 01/18] fix: size the corner-sphere and sizing-point tree
 arrays by their own point counts

The kd-tree link arrays of the corner spheres and of the sizing points were
allocated with the number of surface spheres, so a sizing file (or a set of
corner spheres) larger than the set of surface spheres overflowed the heap.
---
 src/Meshing/MeshingVoronoiMesher.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index ab2160c..0a9d9a9 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -139,8 +139,8 @@ int MeshingVoronoiMesher::ensure_sharp_edge_spheres_are_Delaunay(size_t& num_see
 
 	if (num_corner_spheres > 0)
 	{
-		corner_spheres_tree_right = new size_t[num_surface_spheres];
-		corner_spheres_tree_left = new size_t[num_surface_spheres];
+		corner_spheres_tree_right = new size_t[num_corner_spheres];
+		corner_spheres_tree_left = new size_t[num_corner_spheres];
 		build_balanced_kd_tree(num_corner_spheres, 3, corner_spheres, corner_spheres_tree_origin, corner_spheres_tree_right, corner_spheres_tree_left);
 
 		corner_spheres_sorted = new double[num_corner_spheres * 3];
@@ -161,8 +161,8 @@ int MeshingVoronoiMesher::ensure_sharp_edge_spheres_are_Delaunay(size_t& num_see
 
 	if (num_sizing_points > 0)
 	{
-		sizing_points_tree_right = new size_t[num_surface_spheres];
-		sizing_points_tree_left = new size_t[num_surface_spheres];
+		sizing_points_tree_right = new size_t[num_sizing_points];
+		sizing_points_tree_left = new size_t[num_sizing_points];
 		build_balanced_kd_tree(num_sizing_points, 3, sizing_points, sizing_points_tree_origin, sizing_points_tree_right, sizing_points_tree_left);
 
 		sizing_points_sorted = new double[num_sizing_points * 3];
@@ -537,8 +537,8 @@ int MeshingVoronoiMesher::impose_interior_seeds(size_t& num_seeds, double*& seed
 
 	if (num_corner_spheres > 0)
 	{
-		corner_spheres_tree_right = new size_t[num_surface_spheres];
-		corner_spheres_tree_left = new size_t[num_surface_spheres];
+		corner_spheres_tree_right = new size_t[num_corner_spheres];
+		corner_spheres_tree_left = new size_t[num_corner_spheres];
 		build_balanced_kd_tree(num_corner_spheres, 3, corner_spheres, corner_spheres_tree_origin, corner_spheres_tree_right, corner_spheres_tree_left);
 
 		corner_spheres_sorted = new double[num_corner_spheres * 3];
@@ -559,8 +559,8 @@ int MeshingVoronoiMesher::impose_interior_seeds(size_t& num_seeds, double*& seed
 
 	if (num_sizing_points > 0)
 	{
-		sizing_points_tree_right = new size_t[num_surface_spheres];
-		sizing_points_tree_left = new size_t[num_surface_spheres];
+		sizing_points_tree_right = new size_t[num_sizing_points];
+		sizing_points_tree_left = new size_t[num_sizing_points];
 		build_balanced_kd_tree(num_sizing_points, 3, sizing_points, sizing_points_tree_origin, sizing_points_tree_right, sizing_points_tree_left);
 
 		sizing_points_sorted = new double[num_sizing_points * 3];
@@ -926,8 +926,8 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 
 	if (num_corner_spheres > 0)
 	{
-		corner_spheres_tree_right = new size_t[num_surface_spheres];
-		corner_spheres_tree_left = new size_t[num_surface_spheres];
+		corner_spheres_tree_right = new size_t[num_corner_spheres];
+		corner_spheres_tree_left = new size_t[num_corner_spheres];
 		build_balanced_kd_tree(num_corner_spheres, 3, corner_spheres, corner_spheres_tree_origin, corner_spheres_tree_right, corner_spheres_tree_left);
 
 		corner_spheres_sorted = new double[num_corner_spheres * 3];
@@ -948,8 +948,8 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 
 	if (num_sizing_points > 0)
 	{
-		sizing_points_tree_right = new size_t[num_surface_spheres];
-		sizing_points_tree_left = new size_t[num_surface_spheres];
+		sizing_points_tree_right = new size_t[num_sizing_points];
+		sizing_points_tree_left = new size_t[num_sizing_points];
 		build_balanced_kd_tree(num_sizing_points, 3, sizing_points, sizing_points_tree_origin, sizing_points_tree_right, sizing_points_tree_left);
 
 		sizing_points_sorted = new double[num_sizing_points * 3];
-- 
2.43.0


From be61ba7570c9ae430098691f7dc6be690243f12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:02 +0000
Subject: [PATCH 02/18] fix: compare a front seed with every active seed before
 activating it

The loop that keeps simultaneously active front seeds apart stopped one
short, so two consecutive seeds of the shuffled front could both be active
and throw darts into the same neighbourhood, producing interior seeds that
lie inside each other's spheres.
---
 src/Meshing/MeshingVoronoiMesher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 0a9d9a9..9929e6e 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -1039,7 +1039,7 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 			size_t si_index = front_indices[i];
 
 			bool good_seed(true);
-			for (size_t j = 0; j < i - 1; j++)
+			for (size_t j = 0; j < i; j++)
 			{
 				if (is_active_seed[j])
 				{
-- 
2.43.0


From 7aab6401199547dfcf137b2f9d9950ee21d35eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:02 +0000
Subject: [PATCH 03/18] fix: give each thread its own query point in the
 Lipschitz pass

The neighbour queries of the sizing pass run in an OpenMP loop but shared
one query-point buffer, so with several threads a seed received the
neighbours of another seed and the imposed sizing was not Lipschitz.
---
 src/Meshing/MeshingVoronoiMesher.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 9929e6e..6cab88c 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -3076,7 +3076,6 @@ int MeshingVoronoiMesher::impose_lipschitz_continuity(size_t num_spheres, size_t
 {
 	#pragma region Impose Lipschitz Continuity:
 	
-	double* x = new double[num_dim];
 	size_t* num_neighbors = new size_t[num_spheres];
 	size_t** neighbors = new size_t*[num_spheres];
 	
@@ -3086,8 +3085,10 @@ int MeshingVoronoiMesher::impose_lipschitz_continuity(size_t num_spheres, size_t
 #endif
 	for (int i = 0; i < num_spheres; i++)
 	{ 
+		double* x = new double[num_dim];
 		for (size_t idim = 0; idim < num_dim; idim++) x[idim] = spheres[i * num_dim + idim];
 		get_tree_points_in_sphere(num_spheres, num_dim, spheres, tree_origin, tree_right, tree_left, x, 2.0 * spheres_sizing[i], num_neighbors[i], neighbors[i]);
+		delete[] x;
 	}
 
 	size_t num_iter(0);
@@ -3123,7 +3124,7 @@ int MeshingVoronoiMesher::impose_lipschitz_continuity(size_t num_spheres, size_t
 	{
 		if (num_neighbors[i] > 0) delete[] neighbors[i];
 	}
-	delete[] neighbors; delete[] num_neighbors; delete[] x;
+	delete[] neighbors; delete[] num_neighbors;
 	return 0;
 	#pragma endregion
 
-- 
2.43.0


From c063b6151089c7e6122519aaf58b16045358a16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:02 +0000
Subject: [PATCH 04/18] fix: count the valid imposed seeds after the parallel
 loop

The counter was incremented by all threads without synchronisation. Lost
updates made the arrays allocated from it too short for the seeds copied
into them.
---
 src/Meshing/MeshingVoronoiMesher.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 6cab88c..008f392 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -762,7 +762,11 @@ int MeshingVoronoiMesher::impose_interior_seeds(size_t& num_seeds, double*& seed
 		}
 		delete[] x;
 		valid_seed[iseed] = true;
-		num_valid_seeds++;
+	}
+
+	for (size_t iseed = 0; iseed < num_imposed_seeds; iseed++)
+	{
+		if (valid_seed[iseed]) num_valid_seeds++;
 	}
 
 	vcm_cout << "  * Number of imposed seeds " << num_valid_seeds << std::endl;
-- 
2.43.0


From 0956ceeb06aa57dd7d8ba2206d4e77a145d24635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:01 +0000
Subject: [PATCH 05/18] fix: resolve coverage between the threads' samples
 after all are sized

Each thread tested its new sphere against the spheres of the lower threads
while those threads were still computing their radii and coverage flags, so
the outcome depended on timing: the same deck gave different surface spheres
from run to run, and spheres covering another sphere's centre were accepted.
---
 src/Meshing/MeshingVoroCrustSampler.cpp | 97 +++++++++++++------------
 1 file changed, 49 insertions(+), 48 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrustSampler.cpp b/src/Meshing/MeshingVoroCrustSampler.cpp
index eb6b72b..1743217 100644
--- a/src/Meshing/MeshingVoroCrustSampler.cpp
+++ b/src/Meshing/MeshingVoroCrustSampler.cpp
@@ -2670,65 +2670,66 @@ int MeshingVoroCrustSampler::sample_active_pool(size_t num_samples, size_t num_p
 #endif
 		if (!covered_sample[thread_id])
 		{
-			for (size_t jthread = 0; jthread < thread_id; jthread++)
+			size_t sphere_face_index = new_sphere_face[thread_id];
+
+			size_t iclosest(0); double hclosest(DBL_MAX);
+			surface_point_cloud->get_closest_non_smooth_tree_point(new_sphere[thread_id], _face_normal[sphere_face_index], smooth_angle_threshold, iclosest, hclosest);
+			double surf_sz = fmin(rmax, alpha_sz * hclosest);
+
+			if (_input_sizing_function != 0)
 			{
-				if (covered_sample[jthread]) continue;
-				covered_sample[thread_id] = _smethods.point_covered(new_sphere[thread_id], new_sphere[jthread], coverage_radius_ratio);
-				if (covered_sample[thread_id]) break;
+				size_t iclosest; double hclosest(DBL_MAX);
+				_input_sizing_function->get_closest_tree_point(new_sphere[thread_id], iclosest, hclosest);
+				double* x_sz = _input_sizing_function->get_tree_point(iclosest);
+				double r_sz = x_sz[3];
+				if (surf_sz > r_sz) surf_sz = r_sz;
 			}
 
-			if (!covered_sample[thread_id])
+			if (edge_point_cloud->get_num_tree_points() > 0)
 			{
-				size_t sphere_face_index = new_sphere_face[thread_id];
-
-				size_t iclosest(0); double hclosest(DBL_MAX);
-				surface_point_cloud->get_closest_non_smooth_tree_point(new_sphere[thread_id], _face_normal[sphere_face_index], smooth_angle_threshold, iclosest, hclosest);
-				double surf_sz = fmin(rmax, alpha_sz * hclosest);
-
-				if (_input_sizing_function != 0)
-				{
-					size_t iclosest; double hclosest(DBL_MAX);
-					_input_sizing_function->get_closest_tree_point(new_sphere[thread_id], iclosest, hclosest);
-					double* x_sz = _input_sizing_function->get_tree_point(iclosest);
-					double r_sz = x_sz[3];
-					if (surf_sz > r_sz) surf_sz = r_sz;
-				}
+				hclosest = DBL_MAX;
+				edge_point_cloud->get_closest_non_smooth_tree_edge_point(new_sphere[thread_id], rmin, smooth_angle_threshold, iclosest, hclosest);
+				surf_sz = fmin(surf_sz, alpha_sz * hclosest);
+			}
 
-				if (edge_point_cloud->get_num_tree_points() > 0)
-				{
-					hclosest = DBL_MAX;
-					edge_point_cloud->get_closest_non_smooth_tree_edge_point(new_sphere[thread_id], rmin, smooth_angle_threshold, iclosest, hclosest);
-					surf_sz = fmin(surf_sz, alpha_sz * hclosest);
-				}
+			if (corner_spheres->get_num_tree_points() > 0)
+			{
+				hclosest = DBL_MAX;
+				corner_spheres->get_closest_non_smooth_tree_edge_point(new_sphere[thread_id], rmin, smooth_angle_threshold, iclosest, hclosest);
+				surf_sz = fmin(surf_sz, alpha_sz * hclosest);
+			}
 
-				if (corner_spheres->get_num_tree_points() > 0)
+			if (num_samples > 0)
+			{
+				size_t num_nearby_spheres_s(0); size_t* nearby_spheres_s(0);
+				_smethods.get_overlapping_spheres(new_sphere[thread_id], surface_spheres, Lip, num_nearby_spheres_s, nearby_spheres_s);
+				for (size_t i = 0; i < num_nearby_spheres_s; i++)
 				{
-					hclosest = DBL_MAX;
-					corner_spheres->get_closest_non_smooth_tree_edge_point(new_sphere[thread_id], rmin, smooth_angle_threshold, iclosest, hclosest);
-					surf_sz = fmin(surf_sz, alpha_sz * hclosest);
+					size_t sphere_index = nearby_spheres_s[i];
+					double* near_by_sphere = surface_spheres->get_tree_point(sphere_index);
+					double dst = _geom.distance(3, new_sphere[thread_id], near_by_sphere);
+					double coverage_sz = dst / min_distance_ratio;
+					surf_sz = fmin(surf_sz, coverage_sz);            // new sphere should not alpha cover an old sphere center
+					double Lip_sz = near_by_sphere[3] + Lip * dst;
+					surf_sz = fmin(surf_sz, Lip_sz);                 // respect Lipschitz constant locally
 				}
+				delete[] nearby_spheres_s;
+			}
 
-				if (num_samples > 0)
-				{
-					size_t num_nearby_spheres_s(0); size_t* nearby_spheres_s(0);
-					_smethods.get_overlapping_spheres(new_sphere[thread_id], surface_spheres, Lip, num_nearby_spheres_s, nearby_spheres_s);
-					for (size_t i = 0; i < num_nearby_spheres_s; i++)
-					{
-						size_t sphere_index = nearby_spheres_s[i];
-						double* near_by_sphere = surface_spheres->get_tree_point(sphere_index);
-						double dst = _geom.distance(3, new_sphere[thread_id], near_by_sphere);
-						double coverage_sz = dst / min_distance_ratio;
-						surf_sz = fmin(surf_sz, coverage_sz);            // new sphere should not alpha cover an old sphere center
-						double Lip_sz = near_by_sphere[3] + Lip * dst;
-						surf_sz = fmin(surf_sz, Lip_sz);                 // respect Lipschitz constant locally
-					}
-					delete[] nearby_spheres_s;
-				}
+			surf_sz = fmax(surf_sz, _r_min_surface);
 
-				surf_sz = fmax(surf_sz, _r_min_surface);
+			new_sphere[thread_id][3] = surf_sz;
+		}
+	}
 
-				new_sphere[thread_id][3] = surf_sz;
-			}
+	// drop the samples covered by an earlier sample of this batch, now that the size of every new sphere is known
+	for (size_t thread_id = 0; thread_id < _num_threads; thread_id++)
+	{
+		for (size_t jthread = 0; jthread < thread_id; jthread++)
+		{
+			if (covered_sample[thread_id]) break;
+			if (covered_sample[jthread]) continue;
+			covered_sample[thread_id] = _smethods.point_covered(new_sphere[thread_id], new_sphere[jthread], coverage_radius_ratio);
 		}
 	}
 
-- 
2.43.0


From b04f50bad0b1788125279d4a70424c74e0562908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 06/18] fix: skip blank lines when reading seeds and point csv
 files

---
 src/Meshing/MeshingSmartTree.cpp | 2 +-
 src/Meshing/MeshingVoroCrust.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index fbb3e5d..29ca15b 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -266,7 +266,7 @@ int MeshingSmartTree::load_tree_csv(std::string file_name, size_t num_dim)
 				iline++;
 				continue;
 			}
-			if (tokens.size() == 0) continue;
+			if (tokens.size() < num_dim) continue;
 
 			for (size_t i = 0; i < num_dim; i++) x[i] = _memo.string_to_double(tokens[i]);
 
diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 11e4e8a..083ec43 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -787,7 +787,7 @@ int MeshingVoroCrust::read_seeds_csv(std::string file_name, size_t& num_seeds, d
 			std::vector<std::string> tokens;
 			get_tokens(line, ',', tokens);
 
-			if (tokens.size() == 0) continue;
+			if (tokens.size() < 5) continue;
 
 			num_seeds++;
 		}
@@ -810,7 +810,7 @@ int MeshingVoroCrust::read_seeds_csv(std::string file_name, size_t& num_seeds, d
 			std::vector<std::string> tokens;
 			get_tokens(line, ',', tokens);
 
-			if (tokens.size() == 0) continue;
+			if (tokens.size() < 5) continue;
 
 			for (size_t idim = 0; idim < 3; idim++) seeds[num_seeds * 3 + idim] = _memo.string_to_double(tokens[idim]);
 			seeds_sizing[num_seeds] = _memo.string_to_double(tokens[3]);
-- 
2.43.0


From bb6dd2d75f3af7192e596bcdabe36f45d993fedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:54 +0000
Subject: [PATCH 07/18] fix: keep every region link when adjacent regions are
 merged

---
 src/Meshing/MeshingVoroCrust.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 083ec43..19c4c25 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -661,13 +661,17 @@ int MeshingVoroCrust::generate_explicit_mesh(int num_threads, size_t num_seeds,
 		size_t seed_i = faces[iface][num_corners + 1];
 		size_t seed_j = faces[iface][num_corners + 2];
 		if (seed_i < num_surface_seeds || seed_j < num_surface_seeds) continue;
-		if (region_new_index[seeds_region_id[seed_i]] == region_new_index[seeds_region_id[seed_j]]) continue;
+
+		size_t region_i(seeds_region_id[seed_i]), region_j(seeds_region_id[seed_j]);
+		while (region_new_index[region_i] != region_i) region_i = region_new_index[region_i];
+		while (region_new_index[region_j] != region_j) region_j = region_new_index[region_j];
+		if (region_i == region_j) continue;
 
 		// two internal neighbor seeds from different region
-		if (region_new_index[seeds_region_id[seed_i]] < region_new_index[seeds_region_id[seed_j]])
-			region_new_index[seeds_region_id[seed_j]] = region_new_index[seeds_region_id[seed_i]];
+		if (region_i < region_j)
+			region_new_index[region_j] = region_i;
 		else
-			region_new_index[seeds_region_id[seed_i]] = region_new_index[seeds_region_id[seed_j]];
+			region_new_index[region_i] = region_j;
 	}
 
 	// adjust new region ids
-- 
2.43.0


From 9352cfdf20c54ef9a24ab12087f87b9a4bac9232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:21 +0000
Subject: [PATCH 08/18] fix: tree queries on an empty tree return instead of
 crashing

A model with sharp edges but no sharp corner (a cylinder) crashed while
sizing its edge spheres against the empty tree of corner spheres.
---
 src/Meshing/MeshingSmartTree.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index 29ca15b..91d7efe 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -633,6 +633,7 @@ int MeshingSmartTree::get_closest_tree_point(size_t tree_point_index, size_t &cl
 	#pragma region Closest Neighbor Search using tree:
 
 	closest_tree_point = _num_points;
+	if (_num_points == 0) return 1;
 	kd_tree_get_closest_seed(tree_point_index, 0, _tree_origin, closest_tree_point, closest_distance);
 
 	return 0;
@@ -655,6 +656,7 @@ int MeshingSmartTree::get_closest_tree_point(double* x, size_t num_exculded_tree
 	#pragma region Closest Neighbor Search using a tree:
 
 	closest_tree_point = _num_points;
+	if (_num_points == 0) return 1;
 	kd_tree_get_closest_seed(x, 0, _tree_origin, num_exculded_tree_points, exculded_tree_points, closest_tree_point, closest_distance);
 	return 0;
 
@@ -665,6 +667,7 @@ int MeshingSmartTree::get_closest_tree_point(double* x, size_t num_exculded_tree
 int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, double feature_TOL, double smoothness_threshold, size_t &closest_tree_point, double &closest_distance)
 {
 	closest_tree_point = _num_points;
+	if (_num_points == 0) return 1;
 	kd_tree_get_closest_non_smooth_seed(x, feature_TOL, smoothness_threshold, 0, _tree_origin, closest_tree_point, closest_distance);
 	return 0;
 }
@@ -673,6 +676,7 @@ int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, double featur
 int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, double* x_normal, double smoothness_threshold, size_t& closest_tree_point, double& closest_distance)
 {
 	closest_tree_point = _num_points;
+	if (_num_points == 0) return 1;
 	kd_tree_get_closest_non_smooth_seed(x, x_normal, smoothness_threshold, 0, _tree_origin, closest_tree_point, closest_distance);
 	return 0;
 }
@@ -682,6 +686,7 @@ int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, double* x_nor
 int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, size_t num_normals, double** normals, double smoothness_threshold, size_t &closest_tree_point, double &closest_distance)
 {
 	closest_tree_point = _num_points;
+	if (_num_points == 0) return 1;
 	kd_tree_get_closest_non_smooth_seed(x, num_normals, normals, smoothness_threshold, 0, _tree_origin, closest_tree_point, closest_distance);
 	return 0;
 }
@@ -691,6 +696,7 @@ int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, size_t num_no
 int MeshingSmartTree::get_closest_non_smooth_tree_edge_point(double* x, double feature_TOL, double smoothness_threshold, size_t &closest_tree_point, double &closest_distance)
 {
 	closest_tree_point = _num_points;
+	if (_num_points == 0) return 1;
 	kd_tree_get_closest_non_smooth_edge_seed(x, feature_TOL, smoothness_threshold, 0, _tree_origin, closest_tree_point, closest_distance);
 	return 0;
 }
@@ -699,6 +705,7 @@ int MeshingSmartTree::get_tree_points_in_sphere(double* x, double r, size_t &num
 {
 	#pragma region tree neighbor search:
 	num_points_in_sphere = 0;
+	if (_num_points == 0) return 1;
 	kd_tree_get_seeds_in_sphere(x, r, 0, _tree_origin, num_points_in_sphere, points_in_sphere, capacity);
 	return 0;
 	#pragma endregion
-- 
2.43.0


From 9aa2fa68e80c865122b1bebe64ff6f80a4d50499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:00 +0000
Subject: [PATCH 09/18] fix: clearing a point collection twice no longer frees
 its samplers twice

---
 src/Meshing/MeshingSmartTree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index 91d7efe..50e3df4 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -586,6 +586,7 @@ void MeshingSmartTree::clear_memory()
 	{
 		delete _rsamplers[thread_id];
 	}
+	_rsamplers.clear();
 
 	_tree_max_height = 0;
 	_num_points = 0; _capacity = 0;
-- 
2.43.0


From 7c51264448145521aa91f1772959044abbac7e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:00 +0000
Subject: [PATCH 10/18] fix: reading an attribute past the end of the list is
 reported as missing

---
 src/Meshing/MeshingSmartTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index 50e3df4..6efffb3 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -510,7 +510,7 @@ int MeshingSmartTree::get_tree_point(size_t point_index, size_t num_dim, double*
 bool MeshingSmartTree::get_tree_point_attrib(size_t point_index, size_t attrib_index, size_t &point_attrib)
 {
 	if (_points_attrib[point_index] == 0) return false;
-	if (attrib_index >= _points_attrib[point_index][0]) return false;
+	if (1 + attrib_index >= _points_attrib[point_index][0]) return false; // the first entry is the length of the list
 	point_attrib = _points_attrib[point_index][1 + attrib_index];
 	return true;
 }
-- 
2.43.0


From 6042152ee5b95a4c61323880e2e2bc0f25cfc63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:00 +0000
Subject: [PATCH 11/18] fix: rebalancing an empty point collection does nothing

---
 src/Meshing/MeshingSmartTree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index 6efffb3..e20d774 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -601,6 +601,8 @@ int MeshingSmartTree::kd_tree_build_balanced()
 	clock_t start_time, end_time; double cpu_time;
 	start_time = clock();
 
+	if (_num_points == 0) return 0;
+
 	if (_tree_left == 0) _tree_left = new size_t[_capacity];
 	if (_tree_right == 0) _tree_right = new size_t[_capacity];
 
-- 
2.43.0


From cef5f6d5acac92d108f81d5cae4ac0c18b21a469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:00 +0000
Subject: [PATCH 12/18] fix: renumbering a point collection renumbers its links

---
 src/Meshing/MeshingSmartTree.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index e20d774..5ec0cf6 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -191,6 +191,23 @@ int MeshingSmartTree::re_enumerate_points_for_better_memory_access()
 	}
 	_tree_origin = point_new_index[_tree_origin];
 
+	if (_graph != 0)
+	{
+		// links follow their points
+		size_t** graph = new size_t*[_capacity];
+		for (size_t i = 0; i < _capacity; i++)
+		{
+			graph[i] = 0;
+			if (i >= _num_points || ordered_indices[i] >= _graph_cap) continue;
+			graph[i] = _graph[ordered_indices[i]];
+			if (graph[i] == 0) continue;
+			for (size_t ied = 0; ied < graph[i][1]; ied++) graph[i][2 + ied] = point_new_index[graph[i][2 + ied]];
+		}
+		delete[] _graph;
+		_graph = graph;
+		_graph_cap = _capacity;
+	}
+
 	delete[] ordered_indices; delete[] point_new_index;
 	delete[] _points; delete[] _points_normal; delete[] _points_attrib;
 	delete[] _tree_left; delete[] _tree_right;
-- 
2.43.0


From 9d083ed10a932120dc14e8010c052f293eb1f0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 13/18] fix: a discrete draw never returns an entry of zero
 weight

---
 src/Meshing/MeshingRandomSampler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingRandomSampler.cpp b/src/Meshing/MeshingRandomSampler.cpp
index 91445d1..3613e37 100644
--- a/src/Meshing/MeshingRandomSampler.cpp
+++ b/src/Meshing/MeshingRandomSampler.cpp
@@ -241,6 +241,7 @@ size_t MeshingRandomSampler::sample_uniformly_from_discrete_cdf(size_t num_cells
 	}
 
 	double u = generate_uniform_random_number() * cdf[num_cells - 1];
+	if (u >= cdf[num_cells - 1]) u = nextafter(cdf[num_cells - 1], 0.0); // the product may round up to the total
 	size_t ist(0), iend(num_cells - 1);
 
 	while (true)
@@ -251,7 +252,7 @@ size_t MeshingRandomSampler::sample_uniformly_from_discrete_cdf(size_t num_cells
 		if (imid > 0) ulo = cdf[imid - 1];
 		double uhi = cdf[imid];
 
-		if (ulo <= u && u <= uhi)
+		if (ulo <= u && u < uhi)
 		{
 			return imid;
 		}
-- 
2.43.0


From dabb475912930208be8b1d3723cea8c8c70cf7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 14/18] fix: projecting on a degenerate triangle or a
 zero-length segment gives its closest point

---
 src/Meshing/MeshingGeometricalMethods.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/Meshing/MeshingGeometricalMethods.cpp b/src/Meshing/MeshingGeometricalMethods.cpp
index ca2f5d0..f0a9c3c 100644
--- a/src/Meshing/MeshingGeometricalMethods.cpp
+++ b/src/Meshing/MeshingGeometricalMethods.cpp
@@ -350,15 +350,14 @@ int MeshingGeometricalMethods::project_to_3d_triangle(double* p, double** corner
 {
 	#pragma region Project to 3d Triangle:
 	double* n = new double[3];
-	get_3d_triangle_normal(corners, n);
+	bool in_triangle = get_3d_triangle_normal(corners, n); // a degenerate triangle has edges only
 	double* a = new double[3]; double* b = new double[3];
 	for (size_t idim = 0; idim < 3; idim++) a[idim] = corners[0][idim] - p[idim];
 	double dot = dot_product(3, a, n);
 	for (size_t idim = 0; idim < 3; idim++) q[idim] = p[idim] + dot * n[idim];
 
-	bool in_triangle(true);
 	double* m = new double[3];
-	for (size_t i = 0; i < 3; i++)
+	for (size_t i = 0; in_triangle && i < 3; i++)
 	{
 		size_t ip = i + 1; if (ip == 3) ip = 0;
 		size_t im = 2; if (i > 0) im = i - 1;
@@ -399,7 +398,7 @@ int MeshingGeometricalMethods::project_to_3d_triangle(double* p, double** corner
 		double b_norm(0.0);
 		for (size_t idim = 0; idim < 3; idim++) b_norm += b[idim] * b[idim];
 
-		double u = dot / b_norm;
+		double u = (b_norm > 0.0) ? dot / b_norm : 0.0;
 		if (u < 0.0) u = 0.0;
 		if (u > 1.0) u = 1.0;
 		for (size_t idim = 0; idim < 3; idim++) a[idim] = corners[i][idim] + u * (corners[ip][idim] - corners[i][idim]);
@@ -432,7 +431,7 @@ int MeshingGeometricalMethods::project_to_3d_line_segment(double* p, double* xo,
 	double b_norm(0.0);
 	for (size_t idim = 0; idim < 3; idim++) b_norm += b[idim] * b[idim];
 
-	double u = dot / b_norm;
+	double u = (b_norm > 0.0) ? dot / b_norm : 0.0;
 	if (u < 0.0) u = 0.0;
 	if (u > 1.0) u = 1.0;
 	for (size_t idim = 0; idim < 3; idim++) q[idim] = xo[idim] + u * (xn[idim] - xo[idim]);
-- 
2.43.0


From 6b9685ebf9f6c31f709d96d70748b4b88e2a6914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 15/18] fix: SEEDS_FILE names the seeds file only, not another
 input model

---
 src/Meshing/MeshingVoroCrust.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 19c4c25..baabd64 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -74,7 +74,7 @@ int MeshingVoroCrust::execute()
 
 	bool generate_mesh_from_seeds(false);
 
-	std::string sizing_file;
+	std::string sizing_file, seeds_file;
 
 	if (infile.is_open() && infile.good())
 	{
@@ -100,7 +100,7 @@ int MeshingVoroCrust::execute()
 			if (tokens[0] == "GENERATE_MONITORING_POINTS") generate_monitoring_points = true;
 			if (tokens[0] == "IMPOSE_MONITORING_POINTS")   impose_monitoring_points = true;
 			if (tokens[0] == "GENERATE_MESH_FROM_SEEDS")   generate_mesh_from_seeds = true;
-			if (tokens[0] == "SEEDS_FILE") filenames.push_back(tokens[2]);
+			if (tokens[0] == "SEEDS_FILE") seeds_file = tokens[2];
 		}
 	}
 	else
@@ -113,14 +113,15 @@ int MeshingVoroCrust::execute()
 
 	if (generate_mesh_from_seeds)
 	{
+		if (seeds_file == "" && filenames.size() > 0) seeds_file = filenames[0];
 		vcm_cout << "MeshingVoroCrust::Input Data:" << std::endl;
-		vcm_cout << "  * Seeds file = " << filenames[0] << std::endl;
+		vcm_cout << "  * Seeds file = " << seeds_file << std::endl;
 		if (geneate_vcg_file)
 			vcm_cout << "    Generate VCG file!" << std::endl;
 		if (generate_exodus_file)
 			vcm_cout << "    Generate Exodus file!" << std::endl;
 		vcm_cout << "    Number of OpenMP threads = " << num_threads << std::endl;
-		generate_mesh_from_seeds_file(filenames[0], num_threads, geneate_vcg_file, generate_exodus_file);
+		generate_mesh_from_seeds_file(seeds_file, num_threads, geneate_vcg_file, generate_exodus_file);
 		vcm_cout << "\n*** MeshingVoroCrust::Mission Accomplished!" << std::endl;
 		return 0;
 	}
-- 
2.43.0


From 054443e7bd271df41d7991c258a7b0b4bbbbadc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 16/18] fix: a deck that names no model is reported instead of
 crashing

---
 src/Meshing/MeshingVoroCrust.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index baabd64..23a719a 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -111,6 +111,12 @@ int MeshingVoroCrust::execute()
 		return 1;
 	}
 
+	if (filenames.size() == 0 && (!generate_mesh_from_seeds || seeds_file == ""))
+	{
+		vcm_cout << "\n*** No input mesh or seeds file in the input deck, good bye!" << std::endl;
+		return 1;
+	}
+
 	if (generate_mesh_from_seeds)
 	{
 		if (seeds_file == "" && filenames.size() > 0) seeds_file = filenames[0];
-- 
2.43.0


From e75b9be29c2c88ed03cdd85293d619b42a1f3dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 17/18] fix: clear the spheres of imposed points of every other
 interior seed

The number of imposed seeds was counted from the surface seeds, so it included
the seeds added along sharp edges; as many interior seeds escaped removal.
---
 src/Meshing/MeshingVoroCrust.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 23a719a..11bc1f4 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -440,7 +440,7 @@ int MeshingVoroCrust::generate_interior_seeds(MeshingSmartTree* seeds_tree, Mesh
 
 		generate_monitoring_points = false;
 
-		num_imposed_seeds_added = num_seeds - num_surface_seeds;
+		num_imposed_seeds_added = num_seeds - num_critical_seeds;
 		vcm_cout << "  * added " << num_imposed_seeds_added << " / " << num_imposed_seeds << " desired imposed points!" << std::endl;
 		vcm_cout << "  * executed in " << timer.report_timing() << " seconds!" << std::endl;
 	}
-- 
2.43.0


From e6e2e7fcc520436331d5d2e483daf2ca6788abcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 18/18] fix: report the closest of the seeds that remain

The companion file of imposed monitoring points named seeds that the clearing
of imposed spheres had removed.
---
 src/Meshing/MeshingVoroCrust.cpp | 50 ++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 11bc1f4..04f4c49 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -503,26 +503,6 @@ int MeshingVoroCrust::generate_interior_seeds(MeshingSmartTree* seeds_tree, Mesh
 			}
 		}
 
-		for (size_t iseed = 0; iseed < num_imposed_seeds; iseed++)
-		{
-			for (size_t idim = 0; idim < 4; idim++) x[idim] = imposed_seeds[iseed * 4 + idim];
-
-			// find closest point in seeds .. if distance in zero, make sure this sphere has no interior seeds
-			size_t iclosest(SIZE_MAX); double hclosest(DBL_MAX);
-			seeds_tree.get_closest_tree_point(x, iclosest, hclosest);
-
-			if (hclosest < 1E-10)
-				continue;
-			else
-			{
-				for (size_t idim = 0; idim < 3; idim++)
-				{
-					imposed_seeds[iseed * 4 + idim] = seeds[iclosest * 3 + idim];
-				}
-				imposed_seeds[iseed * 4 + 3] = seeds_sizing[iclosest];
-			}
-		}
-
 		if (num_invalidated > 0)
 		{
 			size_t num_valid_seeds = num_seeds - num_invalidated;
@@ -543,7 +523,35 @@ int MeshingVoroCrust::generate_interior_seeds(MeshingSmartTree* seeds_tree, Mesh
 			delete[] seeds_sizing; seeds_sizing = tmps;
 			delete[] seeds_region_id; seeds_region_id = tmp_id;
 		}
-		
+
+		// the closest seed is one of those that remain
+		double** remaining_seeds = new double* [num_seeds];
+		for (size_t iseed = 0; iseed < num_seeds; iseed++)
+		{
+			remaining_seeds[iseed] = new double[3];
+			for (size_t idim = 0; idim < 3; idim++) remaining_seeds[iseed][idim] = seeds[iseed * 3 + idim];
+		}
+		MeshingSmartTree remaining_seeds_tree(3, num_seeds, remaining_seeds);
+
+		for (size_t iseed = 0; iseed < num_imposed_seeds; iseed++)
+		{
+			for (size_t idim = 0; idim < 4; idim++) x[idim] = imposed_seeds[iseed * 4 + idim];
+
+			// find closest point in seeds .. if distance in zero, make sure this sphere has no interior seeds
+			size_t iclosest(SIZE_MAX); double hclosest(DBL_MAX);
+			remaining_seeds_tree.get_closest_tree_point(x, iclosest, hclosest);
+
+			if (hclosest < 1E-10)
+				continue;
+			else
+			{
+				for (size_t idim = 0; idim < 3; idim++)
+				{
+					imposed_seeds[iseed * 4 + idim] = seeds[iclosest * 3 + idim];
+				}
+				imposed_seeds[iseed * 4 + 3] = seeds_sizing[iclosest];
+			}
+		}
 
 		mesher.save_spheres_csv("monitoring_points_closest_seeds.csv", 3, num_imposed_seeds, imposed_seeds, 0, 0);
 		vcm_cout << "  * Updated monitoring points are saved in monitoring_points_closest_seeds.csv" << std::endl;
-- 
2.43.0

