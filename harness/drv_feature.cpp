// Drives the public feature detection of the sampler.  stdin: jobs "JOB threshold nv nf" + vertices + faces.
// stdout per job: "E i j ..." sharp edges, "C i ..." corners, "K n.." how many cloud points each listed edge got,
// then up to 200 sampled points of each cloud: "P edge x y z t t t", "Q face x y z n n n".
#include <cstdio>
#include <iostream>
#include <vector>
#include <string>
#include "MeshingVoroCrustSampler.h"
int main()
{
	std::string cmd; double T; size_t nv, nf;
	while (std::cin >> cmd >> T >> nv >> nf)
	{
		std::vector<std::vector<double>> V(nv, std::vector<double>(3)); std::vector<double*> vp;
		std::vector<std::vector<size_t>> F(nf, std::vector<size_t>(4)); std::vector<size_t*> fp;
		for (auto& v : V) { std::cin >> v[0] >> v[1] >> v[2]; vp.push_back(v.data()); }
		for (auto& f : F) { f[0] = 3; std::cin >> f[1] >> f[2] >> f[3]; fp.push_back(f.data()); }
		MeshingVoroCrustSampler s(1);
		MeshingSmartTree surf(3), edge(3);
		size_t ne = 0, nc = 0; size_t** e = 0; size_t* c = 0;
		s.detect_features_generate_point_clouds_clean(nv, vp.data(), nf, fp.data(), T, &surf, &edge, ne, e, nc, c);
		std::cout.flush();
		printf("\nJOB\nE"); for (size_t i = 0; i < ne; i++) printf(" %zu %zu", e[i][0], e[i][1]);
		printf("\nC"); for (size_t i = 0; i < nc; i++) printf(" %zu", c[i]);
		std::vector<size_t> cnt(ne, 0); size_t n = edge.get_num_tree_points(), a = 0;
		for (size_t i = 0; i < n; i++) if (edge.get_tree_point_attrib(i, 0, a) && a < ne) cnt[a]++;
		printf("\nK"); for (auto k : cnt) printf(" %zu", k);
		for (int w = 0; w < 2; w++)
		{
			MeshingSmartTree& t = w ? surf : edge; size_t m = t.get_num_tree_points();
			for (size_t k = 0; k < 200 && m; k++)
			{
				size_t i = (k * 7919 * 31 + k) % m; a = 999999; t.get_tree_point_attrib(i, 0, a);
				double* x = t.get_tree_point(i); double* q = t.get_tree_point_normal(i);
				printf("\n%c %zu %.17g %.17g %.17g %.17g %.17g %.17g", w ? 'Q' : 'P', a, x[0], x[1], x[2], q[0], q[1], q[2]);
			}
		}
		printf("\nEND\n"); fflush(stdout);
	}
	return 0;
}
