// Drives the private sorts of the point collection (kind 3, keys with two companions and an index) and of the random sampler (kind 4).
// Same line format as drv_lists.
#include <cstdio>
#include <iostream>
#include <vector>
#include <cmath>
#include <list>
#include <utility>
#include <stack>
#include <map>
#include <set>
#include <algorithm>
#include <iterator>
#include <stdexcept>
#include <cstddef>
#include <cstdlib>
#include <limits>
#include <fstream>
#include <sstream>
#include <string>
#include <string.h>
#include <time.h>
#define private public
#include "MeshingSmartTree.h"
#include "MeshingRandomSampler.h"
int main()
{
	std::string c; size_t kind, l, r, n;
	MeshingSmartTree t(2); MeshingRandomSampler s(1);
	while (std::cin >> c >> kind >> l >> r >> n)
	{
		std::vector<double> x(n), a(n), b(n); std::vector<size_t> y(n);
		for (size_t i = 0; i < n; i++) { double v; std::cin >> v; x[i] = 0.5 * v; a[i] = i + 0.25; b[i] = 2.0 * i; y[i] = i; }
		if (kind == 3) t.quicksort(x.data(), a.data(), b.data(), y.data(), l, r); else s.quicksort(x.data(), l, r);
		printf("s"); for (auto v : x) printf(" %lld", (long long)(2 * v));
		printf(" |"); for (size_t i = 0; i < n; i++) printf(" %zu", a[i] == y[i] + 0.25 && b[i] == 2.0 * y[i] ? y[i] : 999999);
		printf(" | 0\n"); fflush(stdout);
	}
	return 0;
}
