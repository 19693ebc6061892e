// Drives the Voronoi mesher's public interface on given seeds.
// stdin:  jobs "MESH threads n" followed by n lines "x y z region sizing"
// stdout: per job "MESH nv nf", nv lines "x y z", nf lines "k c1..ck si sj"
#include "MeshingVoronoiMesher.h"
#include <cstdio>
#include <iostream>
int main(int argc, char** argv)
{
	const char* outname = argv[1];
	FILE* out = fopen(outname, "w");
	std::string cmd;
	while (std::cin >> cmd)
	{
		if (cmd != "MESH") return 3;
		int th; size_t n;
		std::cin >> th >> n;
		double* s = new double[3 * n]; size_t* reg = new size_t[n]; double* sz = new double[n];
		for (size_t i = 0; i < n; i++)
			std::cin >> s[3 * i] >> s[3 * i + 1] >> s[3 * i + 2] >> reg[i] >> sz[i];
		MeshingVoronoiMesher m;
		size_t nv(0), nf(0); double* v(0); size_t** f(0);
		m.generate_3d_voronoi_mesh(th, n, s, reg, sz, nv, v, nf, f);
		fprintf(out, "MESH %zu %zu\n", nv, nf);
		for (size_t i = 0; i < nv; i++) fprintf(out, "%.17g %.17g %.17g\n", v[3 * i], v[3 * i + 1], v[3 * i + 2]);
		for (size_t i = 0; i < nf; i++)
		{
			size_t k = f[i][0];
			fprintf(out, "%zu", k);
			for (size_t j = 1; j <= k + 2; j++) fprintf(out, " %zu", f[i][j]);
			fprintf(out, "\n");
		}
		fflush(out);
	}
	fclose(out);
	return 0;
}
