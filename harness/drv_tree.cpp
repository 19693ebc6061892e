// Drives the public interface of MeshingSmartTree from text commands; one response line per command.
//   N dim scale unit          new collection; unit: normals are normalised before they are given
//   A nd x.. hasn n.. na a..  add (na = 0: no attributes, else the whole list, its first entry is its own length)
//   L i j | K i j             connect both ways | one way           C i j   connected?
//   D i j v | I i j v         write real attribute | integer attribute
//   T i j                     read integer attribute j
//   S                         dump everything                      P i     dump one point
//   B | E | X | O             rebalance | renumber | clear | switch automatic balance off
//   V file nd                 save, load into a fresh collection, which replaces the current one
//   qi p b | qx x b | qe x k e.. b | qs x tol thr b | qn x n thr b | qm x k n.. thr b | qt x tol thr b
//   R x r cap                 range
// Coordinates, bounds and radii are multiplied by scale; a bound below zero means none.
#include <cstdio>
#include <cmath>
#include <cfloat>
#include <iostream>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include "MeshingSmartTree.h"
static MeshingSmartTree* t = 0;
static size_t D = 3; static double SC = 1; static int unit_n = 0;
static std::vector<size_t> ND;      // what was stored per point, for dumping
static std::vector<size_t> NA;
static double num() { double v; std::cin >> v; return v; }
static size_t idx() { long long v; std::cin >> v; return (size_t)v; }
static void unit(double* n) { double s = 0; for (size_t k = 0; k < D; k++) s += n[k] * n[k]; s = sqrt(s); if (s > 0) for (size_t k = 0; k < D; k++) n[k] /= s; }
static void dump(size_t i)
{
	double* x = t->get_tree_point(i); double* n = t->get_tree_point_normal(i); size_t* a = t->get_tree_point_attrib(i);
	printf(" | %zu", ND[i]);
	std::vector<double> y(ND[i] + 1); t->get_tree_point(i, ND[i], y.data());
	for (size_t k = 0; k < ND[i]; k++) printf(" %.17g", (y[k] == x[k] ? x[k] : NAN) / SC);
	for (size_t k = 0; k < D; k++) printf(" %.17g", n[k]);
	if (!a) printf(" 0"); else { printf(" %zu", a[0]); for (size_t k = 1; k < a[0]; k++) printf(" %zu", a[k]); }
	printf(" ;");
}
static void links(size_t i)
{
	// links are read through graph_connected, and their number from the list itself
	size_t k = 0;
	for (size_t j = 0; j < t->get_num_tree_points(); j++) if (t->graph_connected(i, j)) { printf(" %zu", j); k++; }
	size_t* nb = 0; if (k) t->graph_get_neighbors(i, nb);
	printf(" # %zu", k ? nb[1] : (size_t)0);
}
int main()
{
	std::string c; 
	while (std::cin >> c)
	{
		if (c == "N") { D = idx(); SC = num(); unit_n = (int)num(); delete t; t = new MeshingSmartTree(D); ND.clear(); NA.clear(); printf("ok"); }
		else if (c == "A")
		{
			size_t nd = idx(); std::vector<double> x(nd), n(D); for (auto& v : x) v = num() * SC;
			int hn = (int)num(); if (hn) for (auto& v : n) v = num();
			if (hn && unit_n) unit(n.data());
			size_t na = idx(); std::vector<size_t> a(na); for (auto& v : a) v = idx();
			t->add_tree_point(nd, x.data(), hn ? n.data() : 0, na ? a.data() : 0);
			ND.push_back(nd); NA.push_back(na);
			for (auto& v : x) v = -777; for (auto& v : n) v = -777; for (auto& v : a) v = 777;     // the collection keeps its own copy
			printf("%zu", t->get_num_tree_points());
		}
		else if (c == "L") { size_t i = idx(), j = idx(); t->graph_connect_nodes(i, j); printf("ok"); }
		else if (c == "K") { size_t i = idx(), j = idx(); t->graph_connect(i, j); printf("ok"); }
		else if (c == "C") { size_t i = idx(), j = idx(); printf("%d", (int)t->graph_connected(i, j)); }
		else if (c == "G") { t->reset_graph(); printf("ok"); }
		else if (c == "D") { size_t i = idx(), j = idx(); double v = num(); t->set_tree_point_attrib(i, j, v * SC); printf("%.17g", t->get_tree_point_attrib(i, j) / SC); }
		else if (c == "I") { size_t i = idx(), j = idx(); size_t v = idx(); t->set_tree_point_attrib(i, j, v); printf("ok"); }
		else if (c == "T") { size_t i = idx(), j = idx(), v = 0; bool r = t->get_tree_point_attrib(i, j, v); printf("%d %zu", (int)r, r ? v : 0); }
		else if (c == "P") { size_t i = idx(); dump(i); links(i); }
		else if (c == "S") { printf("%zu", t->get_num_tree_points()); for (size_t i = 0; i < t->get_num_tree_points(); i++) { dump(i); links(i); } }
		else if (c == "B") { t->kd_tree_build_balanced(); printf("ok"); }
		else if (c == "E") { t->re_enumerate_points_for_better_memory_access(); printf("ok"); }
		else if (c == "X") { t->clear_memory(); ND.clear(); NA.clear(); printf("ok"); }
		else if (c == "Y") { t->init_random_samplers(idx()); printf("ok"); }
		else if (c == "O") { t->disable_auto_balance(); printf("ok"); }
		else if (c == "V")
		{
			std::string f; std::cin >> f; size_t nd = idx(); t->save_tree_csv(f, nd); size_t m = t->get_num_tree_points();
			MeshingSmartTree* u = new MeshingSmartTree(D); u->load_tree_csv(f, nd); delete t; t = u;
			ND.assign(t->get_num_tree_points(), nd); printf("%zu", t->get_num_tree_points());
		}
		else if (c[0] == 'q')
		{
			std::vector<double> x(D), n(D); size_t p = 0, k = 0; double tol = 0, thr = 0;
			std::vector<size_t> e; std::vector<std::vector<double>> ns; std::vector<double*> np;
			if (c == "qi") p = idx(); else for (auto& v : x) v = num() * SC;
			if (c == "qe") { k = idx(); e.resize(k); for (auto& v : e) v = idx(); }
			if (c == "qs" || c == "qt") { tol = num() * SC; thr = num(); }
			if (c == "qn") { for (auto& v : n) v = num(); unit(n.data()); thr = num(); }
			if (c == "qm") { k = idx(); ns.assign(k, n); for (auto& q : ns) { for (auto& v : q) v = num(); unit(q.data()); np.push_back(q.data()); } thr = num(); }
			double b = num(); b = b < 0 ? DBL_MAX : b * SC; double h = b; size_t r = 12345678;
			if (c == "qi") t->get_closest_tree_point(p, r, h);
			if (c == "qx") t->get_closest_tree_point(x.data(), r, h);
			if (c == "qe") t->get_closest_tree_point(x.data(), k, e.data(), r, h);
			if (c == "qs") t->get_closest_non_smooth_tree_point(x.data(), tol, thr, r, h);
			if (c == "qn") t->get_closest_non_smooth_tree_point(x.data(), n.data(), thr, r, h);
			if (c == "qm") t->get_closest_non_smooth_tree_point(x.data(), k, np.data(), thr, r, h);
			if (c == "qt") t->get_closest_non_smooth_tree_edge_point(x.data(), tol, thr, r, h);
			printf("%zu %.17g %d", r, h == b ? -1.0 : h / SC, (int)(r == t->get_num_tree_points()));
		}
		else if (c == "R")
		{
			std::vector<double> x(D); for (auto& v : x) v = num() * SC; double r = num() * SC; size_t cap = idx(), m = 0;
			size_t* l = new size_t[cap]; t->get_tree_points_in_sphere(x.data(), r, m, l, cap);
			printf("%zu", m); for (size_t i = 0; i < m; i++) printf(" %zu", l[i]); delete[] l;
		}
		else { printf("?"); }
		printf("\n"); fflush(stdout);
	}
	delete t;
	printf("END\n");
	return 0;
}
