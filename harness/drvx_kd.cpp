// The mesher's own index functions (not public): build, renumber, nearest (plain, half-space, by index), range.
//   N dim n x.. scale   build a balanced index      E   renumber (dimension 3 only; answers old indices)
//   qx x b | qd x e b | qp p e b | R x r
#include <cstdio>
#include <cmath>
#include <cfloat>
#include <iostream>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <algorithm>
#include <fstream>
#include <sstream>
#define private public
#include "MeshingVoronoiMesher.h"
#undef private
static double num() { double v; std::cin >> v; return v; }
int main()
{
	std::string c; MeshingVoronoiMesher m; size_t D = 3, n = 0, o = 0; double SC = 1;
	std::vector<double> X; std::vector<size_t> R, L;
	while (std::cin >> c)
	{
		if (c == "N")
		{
			D = (size_t)num(); n = (size_t)num(); X.resize(n * D); for (auto& v : X) v = num(); SC = num(); for (auto& v : X) v *= SC;
			R.assign(n, 0); L.assign(n, 0);
			m.build_balanced_kd_tree(n, D, X.data(), o, R.data(), L.data()); printf("ok");
		}
		else if (c == "E")
		{
			std::vector<double> Y(n * D); std::vector<size_t> a(n), b(n);
			m.re_enumerate_points_for_better_memory_access(n, D, X.data(), o, R.data(), L.data(), Y.data(), a.data(), b.data());
			X = Y; printf("%zu", n); for (auto v : a) printf(" %zu", v); for (auto v : b) printf(" %zu", v); for (auto v : X) printf(" %.17g", v / SC);
		}
		else if (c[0] == 'q')
		{
			std::vector<double> x(D), e(D); size_t p = 0, r = 12345678; bool he = false;
			if (c == "qp") p = (size_t)num(); else for (auto& v : x) v = num() * SC;
			if (c != "qx") { he = num() != 0; if (he) for (auto& v : e) v = num(); }
			double b = num(); b = b < 0 ? DBL_MAX : b * SC; double h = b;
			if (c == "qx") m.get_closest_tree_point(n, D, X.data(), o, R.data(), L.data(), x.data(), r, h);
			if (c == "qd") m.get_closest_tree_point(n, D, X.data(), o, R.data(), L.data(), x.data(), he ? e.data() : 0, r, h);
			if (c == "qp") m.get_closest_tree_point(n, D, X.data(), o, R.data(), L.data(), p, he ? e.data() : 0, r, h);
			printf("%zu %.17g %d", r, h == b ? -1.0 : h / SC, (int)(r == n));
		}
		else if (c == "R")
		{
			std::vector<double> x(D); for (auto& v : x) v = num() * SC; double r = num() * SC; size_t k = 0; size_t* l = 0;
			m.get_tree_points_in_sphere(n, D, X.data(), o, R.data(), L.data(), x.data(), r, k, l);
			printf("%zu", k); for (size_t i = 0; i < k; i++) printf(" %zu", l[i]); delete[] l;
		}
		printf("\n"); fflush(stdout);
	}
	printf("END\n");
	return 0;
}
