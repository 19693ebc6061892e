// Fills worlds (labelled seeds, protecting spheres, sizing points, imposed points) with interior seeds.
// stdin: jobs "JOB out n ns ne nc nz ni threads lip rmax" + rows: n seeds "x y z size region", then spheres, sizing points and
// imposed points "x y z r". Writes every seed to the file out, "x y z size region", after a line "n0 n1 n2": given, after the
// imposed points, in all. A marker line on stdout per job.
#include <cstdio>
#include <iostream>
#include <string>
#include <cfloat>
#include "MeshingVoronoiMesher.h"
static void rows(size_t n, double*& p, double*& r)
{
	p = 0; r = 0;
	if (n == 0) return;
	p = new double[3 * n]; r = new double[n];
	for (size_t i = 0; i < n; i++) std::cin >> p[3 * i] >> p[3 * i + 1] >> p[3 * i + 2] >> r[i];
}
int main()
{
	std::string cmd, out;
	while (std::cin >> cmd >> out)
	{
		size_t n, ns, ne, nc, nz, ni; int th; double lip, rmax;
		std::cin >> n >> ns >> ne >> nc >> nz >> ni >> th >> lip >> rmax;
		double* s = new double[3 * n]; double* h = new double[n]; size_t* g = new size_t[n];
		for (size_t i = 0; i < n; i++) std::cin >> s[3 * i] >> s[3 * i + 1] >> s[3 * i + 2] >> h[i] >> g[i];
		double *sp, *sr, *ep, *er, *cp, *cr, *zp, *zr;
		rows(ns, sp, sr); rows(ne, ep, er); rows(nc, cp, cr); rows(nz, zp, zr);
		double* im = new double[4 * (ni + 1)];
		for (size_t i = 0; i < 4 * ni; i++) std::cin >> im[i];
		printf("JOB %s\n", out.c_str()); fflush(stdout);
		MeshingVoronoiMesher m;
		size_t n0 = n;
		if (ni) m.impose_interior_seeds(n, s, h, g, ns, sp, sr, ne, ep, er, nc, cp, cr, nz, zp, zr, ni, im, th, lip, rmax);
		size_t n1 = n;
		m.generate_interior_seeds(n, s, h, g, ns, sp, sr, ne, ep, er, nc, cp, cr, nz, zp, zr, th, lip, rmax);
		FILE* f = fopen(out.c_str(), "w");
		fprintf(f, "%zu %zu %zu\n", n0, n1, n);
		for (size_t i = 0; i < n; i++) fprintf(f, "%.17g %.17g %.17g %.17g %zu\n", s[3 * i], s[3 * i + 1], s[3 * i + 2], h[i], g[i]);
		fclose(f);
		delete[] s; delete[] h; delete[] g; delete[] im;
		double* all[] = { sp, sr, ep, er, cp, cr, zp, zr };
		for (int i = 0; i < 8; i++) delete[] all[i];
	}
	printf("\nJOB end\n");
	return 0;
}
