// Calls the geometric constructions.  One command per line, one result line each.
//  T p a b c -> ret dist q | S p a b -> ret dist q | L p a dir -> ret dist q | A a b c -> area ok normal
//  C D x y z -> cos | G x y -> angle | D D x y -> dist dot | U D x -> ok x | N D nb basis.. v -> ret norm v
//  W D n (c r)* -> ok1 pv1 (MeshingGeometricalMethods) ok2 pv2 (MeshingSpheresMethods), for n = 2 also the two-sphere forms
//  O c r c r -> overlap | V lip alpha n (c r)* kind nq (points) -> covered (kind 1 point, 2 edge, 3 face) | R lip n (c r)* c r -> overlapping spheres
//  Z lip n (c r)* -> shrunk r* (all pairs) | Y the same, near pairs | P lip alpha n (c r)* i j k p -> covered, covering spheres except i j k
#include <cstdio>
#include <iostream>
#include <string>
#include <vector>
#include "MeshingGeometricalMethods.h"
#include "MeshingSpheresMethods.h"
#include "MeshingPolyMesh.h"
static double get() { std::string s; std::cin >> s; return strtod(s.c_str(), 0); }
typedef std::vector<double> V;
static V vec(size_t n) { V v(n); for (auto& x : v) x = get(); return v; }
static void put(const V& v, size_t n) { for (size_t i = 0; i < n; i++) printf(" %.17g", v[i]); }
static bool same(const V& a, const V& b) { for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return false; return true; }
static void spheres(MeshingSmartTree& t, size_t n)
{
	for (size_t i = 0; i < n; i++)
	{
		V c = vec(4); double nn[3] = { 0, 0, 1 }; size_t at[2] = { 2, 0 };
		t.add_tree_point(4, c.data(), nn, at); t.set_tree_point_attrib(i, 0, c[3]);
	}
}
int main()
{
	MeshingGeometricalMethods g; MeshingSpheresMethods s; std::string c;
	while (std::cin >> c)
	{
		if (c == "T")
		{
			V p = vec(3), x[3]; for (auto& v : x) v = vec(3); V y[3] = { x[0], x[1], x[2] }, p0 = p;
			double* k[3] = { x[0].data(), x[1].data(), x[2].data() }; V q(3, 777); double h = -1;
			int r = g.project_to_3d_triangle(p.data(), k, q.data(), h);
			bool kept = same(p, p0) && k[0] == x[0].data() && k[1] == x[1].data() && k[2] == x[2].data(); for (int i = 0; i < 3; i++) kept = kept && same(x[i], y[i]);
			printf("T %d %d %.17g", r, kept, h); put(q, 3);
		}
		else if (c == "S" || c == "L")
		{
			V p = vec(3), a = vec(3), b = vec(3), p0 = p, a0 = a, b0 = b, q(3, 777); double h = -1;
			int r = c == "S" ? g.project_to_3d_line_segment(p.data(), a.data(), b.data(), q.data(), h) : g.project_to_3d_line(p.data(), a.data(), b.data(), q.data(), h);
			printf("%s %d %d %.17g", c.c_str(), r, same(p, p0) && same(a, a0) && same(b, b0), h); put(q, 3);
		}
		else if (c == "A")
		{
			V x[3]; for (auto& v : x) v = vec(3); double* k[3] = { x[0].data(), x[1].data(), x[2].data() }; V n(3, 777);
			double a = g.get_3d_triangle_area(k); bool ok = g.get_3d_triangle_normal(k, n.data());
			printf("A %.17g %d", a, ok); put(n, 3);
		}
		else if (c == "C") { size_t D; std::cin >> D; V x = vec(D), y = vec(D), z = vec(D); printf("C %.17g", g.cos_angle(D, x.data(), y.data(), z.data())); }
		else if (c == "G") { V x = vec(2); printf("G %.17g", g.get_point_angle(x[0], x[1])); }
		else if (c == "D") { size_t D; std::cin >> D; V x = vec(D), y = vec(D); printf("D %.17g %.17g", g.distance(D, x.data(), y.data()), g.dot_product(D, x.data(), y.data())); }
		else if (c == "U") { size_t D; std::cin >> D; V x = vec(D); bool ok = g.normalize_vector(D, x.data()); printf("U %d", ok); put(x, D); }
		else if (c == "N")
		{
			size_t D, nb; std::cin >> D >> nb; std::vector<V> b(nb); std::vector<double*> p; for (auto& v : b) { v = vec(D); } for (auto& v : b) p.push_back(v.data());
			V v = vec(D); double h = -1; int r = g.get_normal_component(D, nb, p.data(), v.data(), h); printf("N %d %.17g", r, h); put(v, D);
		}
		else if (c == "W")
		{
			size_t D, n; std::cin >> D >> n; std::vector<V> x(n); std::vector<double*> p; V r;
			for (auto& v : x) v = vec(D + 1);
			for (auto& v : x) { p.push_back(v.data()); r.push_back(v[D]); }
			V q(D, 777), w(D, 777), u(D, 777), z(D, 777); std::vector<double*> p1(p), p2(p); V r1(r);
			bool o1 = g.get_power_vertex(D, n, p1.data(), r1.data(), q.data()), o2 = s.get_power_vertex(D, n, p2.data(), w.data());
			int o3 = 9; if (n == 2) { g.get_power_vertex(D, p[0], r[0], p[1], r[1], u.data()); o3 = s.get_power_vertex(D, p[0], p[1], z.data()); }
			printf("W %d", o1); put(q, D); printf(" %d", o2); put(w, D); printf(" %d", o3); put(u, D); put(z, D);
			printf(" %d", p1 == p && p2 == p && r1 == r);
		}
		else if (c == "O") { V a = vec(4), b = vec(4); printf("O %d", g.overlapping_spheres(3, a.data(), b.data())); }
		else if (c == "V")
		{
			double lip = get(), al = get(); size_t n, kind; std::cin >> n; MeshingSmartTree t(3); spheres(t, n); std::cin >> kind;
			V x[3]; double* k[3]; for (size_t i = 0; i < kind; i++) { x[i] = vec(3); k[i] = x[i].data(); }
			bool r = kind == 1 ? s.point_covered(k[0], &t, lip, al) : kind == 2 ? s.edge_covered(k, &t, lip, al) : s.face_covered(k, &t, lip, al);
			printf("V %d", r);
		}
		else if (c == "R")
		{
			double lip = get(); size_t n; std::cin >> n; MeshingSmartTree t(3); spheres(t, n); V q = vec(4); size_t m = 0; size_t* o = 0;
			s.get_overlapping_spheres(q.data(), &t, lip, m, o);
			printf("R"); for (size_t i = 0; i < m; i++) printf(" %zu", o[i]); delete[] o;
		}
		else if (c == "Z")
		{
			double lip = get(); size_t n; std::cin >> n; MeshingSmartTree t(3); spheres(t, n); bool sh = false;
			s.impose_lipschitz_continuity_brute(&t, lip, sh); printf("Z %d", sh);
			for (size_t i = 0; i < n; i++) printf(" %.17g", t.get_tree_point_attrib(i, 0));
		}
		else if (c == "Y")
		{
			double lip = get(); size_t n; std::cin >> n; MeshingSmartTree t(3); spheres(t, n); bool sh = false;
			s.impose_lipschitz_continuity(&t, lip, sh); printf("Y %d", sh);
			for (size_t i = 0; i < n; i++) printf(" %.17g", t.get_tree_point_attrib(i, 0));
		}
		else if (c == "P")
		{
			double lip = get(), al = get(); size_t n, x[3]; std::cin >> n; MeshingSmartTree t(3); spheres(t, n);
			for (auto& v : x) { long i; std::cin >> i; v = i < 0 ? SIZE_MAX : size_t(i); }
			V p = vec(3); size_t m = 0, cap = 2; size_t* o = new size_t[cap]; static MeshingPolyMesh pm;
			bool r = pm.point_covered(p.data(), &t, lip, al, x[0], x[1], x[2], m, cap, o);
			printf("P %d", r); for (size_t i = 0; i < m; i++) printf(" %zu", o[i]); delete[] o;
		}
		printf("\n"); fflush(stdout);
	}
	return 0;
}
