// Replays label worlds into the program's meshing stage (the seeds, how many of them are surface seeds).
// stdin: jobs "JOB dir threads n num_surface" + n lines "x y z region sizing"; per job a marker line on stdout.
#include <cstdio>
#include <iostream>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <unistd.h>
#define private public
#include "MeshingVoroCrust.h"
#undef private
int main()
{
	std::string cmd, dir;
	while (std::cin >> cmd >> dir)
	{
		int th; size_t n, k;
		std::cin >> th >> n >> k;
		double* s = new double[3 * n]; size_t* reg = new size_t[n]; double* sz = new double[n];
		for (size_t i = 0; i < n; i++)
			std::cin >> s[3 * i] >> s[3 * i + 1] >> s[3 * i + 2] >> reg[i] >> sz[i];
		printf("JOB %s\n", dir.c_str()); fflush(stdout);
		if (chdir(dir.c_str())) return 4;
		MeshingVoroCrust m("none.in");
		m.generate_explicit_mesh(th, n, s, reg, sz, k, true, false);
		fflush(stdout); std::cout.flush();
	}
	printf("\nJOB end\n");
	return 0;
}
