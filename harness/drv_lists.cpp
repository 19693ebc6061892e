// Drives the growable lists and the sorts of MeshingMemoryHandler, with guard words around every heap block.
// stdin: "L kind cap n v..." append n values to a list of the kind (0 size_t, 1 bool*, 2 size_t*, 3 double, 4 double*);
//        "S kind left right n x... (y...)" sort kind 0 size_t, 1 double with companions, 2 size_t with companions.
// stdout: "l counts... | contents... | cap over", "s x... | y... | over".
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <iostream>
#include <string>
#include <vector>
#include "MeshingMemoryHandler.h"
static size_t over = 0;
static const size_t G = 64;
static void* grab(size_t n)
{
	unsigned char* p = (unsigned char*)malloc(n + 2 * G + 16);
	memcpy(p, &n, sizeof n); memset(p + 16, 0xA5, G); memset(p + 16 + G, 0xCD, n); memset(p + 16 + G + n, 0xA5, G);
	return p + 16 + G;
}
static void check(void* q)
{
	unsigned char* p = (unsigned char*)q - G - 16; size_t n; memcpy(&n, p, sizeof n);
	for (size_t i = 0; i < G; i++) if (p[16 + i] != 0xA5 || p[16 + G + n + i] != 0xA5) { over++; break; }
}
static void drop(void* q)
{
	if (!q) return;
	check(q);
	unsigned char* p = (unsigned char*)q - G - 16; size_t n; memcpy(&n, p, sizeof n);
	memset(q, 0xDD, n); free(p);
}
void* operator new(size_t n) { return grab(n); }
void* operator new[](size_t n) { return grab(n); }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, size_t) noexcept { drop(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); }

template <class T> T mk(size_t v);
template <> size_t mk<size_t>(size_t v) { return v; }
template <> double mk<double>(size_t v) { return 0.25 * v; }
template <> bool* mk<bool*>(size_t v) { return (bool*)(8 * v); }
template <> size_t* mk<size_t*>(size_t v) { return (size_t*)(8 * v); }
template <> double* mk<double*>(size_t v) { return (double*)(8 * v); }
template <class T> void list(size_t cap)
{
	MeshingMemoryHandler m; size_t n, num = 0; std::cin >> n;
	T* I = new T[cap]; std::vector<size_t> cnt, caps;
	std::vector<T> in;
	for (size_t k = 0; k < n; k++)
	{
		size_t v; std::cin >> v; in.push_back(mk<T>(v));
		m.add_entry(in[k], num, I, cap); cnt.push_back(num); caps.push_back(cap);
	}
	printf("l"); for (auto c : cnt) printf(" %zu", c); printf(" |");
	for (auto c : caps) printf(" %zu", c); printf(" |");
	for (size_t k = 0; k < n; k++)
	{	// which value is it
		size_t q = 999999999; for (size_t v = 0; v < 64; v++) if (I[k] == mk<T>(v)) q = v;
		printf(" %zu", q);
	}
	delete[] I; printf(" | %zu\n", over);
}
int main()
{
	std::string c; size_t kind;
	while (std::cin >> c >> kind)
	{
		over = 0;
		if (c == "L")
		{
			size_t cap; std::cin >> cap;
			if (kind == 0) list<size_t>(cap); else if (kind == 1) list<bool*>(cap); else if (kind == 2) list<size_t*>(cap);
			else if (kind == 3) list<double>(cap); else list<double*>(cap);
		}
		else
		{
			MeshingMemoryHandler m; size_t l, r, n; std::cin >> l >> r >> n;
			size_t* x = new size_t[n]; size_t* y = new size_t[n]; double* d = new double[n];
			for (size_t i = 0; i < n; i++) { long long v; std::cin >> v; x[i] = (size_t)v; d[i] = 0.5 * (double)v; }
			for (size_t i = 0; i < n; i++) y[i] = i;
			if (kind == 0) m.quicksort(x, l, r); else if (kind == 1) m.quicksort(d, y, l, r); else m.quicksort(x, y, l, r);
			printf("s"); for (size_t i = 0; i < n; i++) printf(" %lld", kind == 1 ? (long long)(2 * d[i]) : (long long)x[i]);
			printf(" |"); for (size_t i = 0; i < n; i++) printf(" %zu", y[i]);
			delete[] x; delete[] y; delete[] d; printf(" | %zu\n", over);
		}
		fflush(stdout);
	}
	return 0;
}
