// Drives MeshingRandomSampler.  Commands on stdin, one result line each on stdout:
//  I id seed | T id thread | O n (create and drop n other generators, drawing from them) | D id n
//  B id n dim lo.. hi.. | P id n dim | X id n dim nc corners.. | C id n cells cdf..
// Results: "D hex.." , "B hex.." (dim per sample), "C index.."; "ok" for the others.
#include <cstdio>
#include <cstring>
#include <iostream>
#include <map>
#include <string>
#include <vector>
#include "MeshingRandomSampler.h"
static void put(double v) { unsigned long long u; memcpy(&u, &v, 8); printf(" %016llx", u); }
static double get() { std::string s; std::cin >> s; return strtod(s.c_str(), 0); }
int main()
{
	std::map<int, MeshingRandomSampler*> g; std::string c; int id; size_t n;
	while (std::cin >> c)
	{
		if (c == "O") { std::cin >> n; for (size_t i = 0; i < n; i++) { MeshingRandomSampler a, b(i); for (int k = 0; k < 1300; k++) { a.generate_uniform_random_number(); b.generate_uniform_random_number(); } } printf("ok\n"); fflush(stdout); continue; }
		std::cin >> id >> n;
		if (c == "I") { if (!g[id]) g[id] = new MeshingRandomSampler(7); g[id]->initiate_random_number_generator(n); printf("ok"); }
		else if (c == "T") { delete g[id]; g[id] = new MeshingRandomSampler(n); printf("ok"); }
		else if (c == "D") { printf("D"); for (size_t i = 0; i < n; i++) put(g[id]->generate_uniform_random_number()); }
		else if (c == "C")
		{
			size_t k; std::cin >> k; std::vector<double> cdf(k); for (auto& v : cdf) v = get();
			std::vector<double> keep(cdf); printf("C");
			for (size_t i = 0; i < n; i++) printf(" %zu", g[id]->sample_uniformly_from_discrete_cdf(k, cdf.data()));
			if (memcmp(keep.data(), cdf.data(), 8 * k)) printf(" 999999");
		}
		else
		{
			size_t D, nc = 0; std::cin >> D; std::vector<double> lo, hi, d(D + 2, 12345.0); std::vector<std::vector<double>> x; std::vector<double*> p;
			if (c == "B") { for (size_t k = 0; k < D; k++) lo.push_back(get()); for (size_t k = 0; k < D; k++) hi.push_back(get()); }
			if (c == "X") { std::cin >> nc; x.resize(nc); for (auto& v : x) { for (size_t k = 0; k < D; k++) v.push_back(get()); } for (auto& v : x) p.push_back(v.data()); }
			printf("%s", c.c_str());
			for (size_t i = 0; i < n; i++)
			{
				if (c == "B") g[id]->sample_uniformly_from_box(D, lo.data(), hi.data(), d.data());
				else if (c == "P") g[id]->sample_uniformly_from_unit_sphere(d.data(), D);
				else g[id]->sample_uniformly_from_simplex(d.data(), D, nc, p.data());
				for (size_t k = 0; k < D; k++) put(d[k]);
				if (d[D] != 12345.0 || d[D + 1] != 12345.0) printf(" over");
			}
		}
		printf("\n"); fflush(stdout);
	}
	return 0;
}
