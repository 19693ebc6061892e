// Reads, welds and saves surface models.  One command per line.
//  R file -> model read | W h n (xyz)* m (ijk)* -> model welded | S file -> saves the last model there, then reads it back
// each prints: n m (xyz)* (ijk)*
#include <cstdio>
#include <iostream>
#include <string>
#include <vector>
#include "MeshingPolyMesh.h"
static double get() { std::string s; std::cin >> s; return strtod(s.c_str(), 0); }
static size_t np = 0, nf = 0; static double** p = 0; static size_t** f = 0;
static void clear() { for (size_t i = 0; i < np; i++) delete[] p[i]; for (size_t i = 0; i < nf; i++) delete[] f[i]; delete[] p; delete[] f; np = nf = 0; p = 0; f = 0; }
static void put(FILE* o)
{
	fprintf(o, "%zu %zu", np, nf);
	for (size_t i = 0; i < np; i++) fprintf(o, " %.17g %.17g %.17g", p[i][0], p[i][1], p[i][2]);
	for (size_t i = 0; i < nf; i++) fprintf(o, " %zu %zu %zu", f[i][1], f[i][2], f[i][3]);
	fprintf(o, "\n"); fflush(o);
}
int main(int, char** argv)
{
	FILE* o = fopen(argv[1], "w"); std::string c;
	while (std::cin >> c)
	{
		MeshingPolyMesh m;
		if (c == "R") { clear(); std::string n; std::cin >> n; m.read_input_obj_file(n, np, p, nf, f); }
		else if (c == "W")
		{
			clear(); double h = get(); std::cin >> np; p = new double*[np];
			for (size_t i = 0; i < np; i++) { p[i] = new double[3]; for (int d = 0; d < 3; d++) p[i][d] = get(); }
			std::cin >> nf; f = new size_t*[nf];
			for (size_t i = 0; i < nf; i++) { f[i] = new size_t[4]; f[i][0] = 3; for (int d = 1; d < 4; d++) std::cin >> f[i][d]; }
			m.weld_nearby_points(np, p, nf, f, h);
		}
		else if (c == "S") { std::string n; std::cin >> n; m.save_mesh_obj(n, np, p, nf, f); clear(); m.read_input_obj_file(n, np, p, nf, f); }
		put(o);
	}
	return 0;
}
