// C23: ownership: random histories of copy, move, assign, clear and destruction with every allocation tracked
#include "common.h"
#include <new>
#include <set>
#include <map>
// every object made by the mesh and by the test goes through these
static bool track = false; static void* tbl[1 << 16]; static size_t ntbl = 0; static long freed_unknown = 0;
static long bal = 0; static void* dead[1 << 16]; static size_t ndead = 0;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); bal++; return p; }
void* operator new[](size_t n) { return operator new(n); }
static void rel(void* p) noexcept { if (p) bal--; if (track && p) for (size_t i = 0; i < ntbl; i++) if (tbl[i] == p) { dead[ndead++] = p; tbl[i] = tbl[--ntbl]; break; } free(p); }
void operator delete(void* p) noexcept { rel(p); }
void operator delete[](void* p) noexcept { rel(p); }
void operator delete(void* p, size_t) noexcept { rel(p); }
void operator delete[](void* p, size_t) noexcept { rel(p); }
#include "mesh/Mesh.h"
#include "mesh/HyperCube.h"
#include <algorithm>
#include <memory>
using namespace NS;
static bool live(void* p) { for (size_t i = 0; i < ntbl; i++) if (tbl[i] == p) return true; return false; }
static void own(void* p) { tbl[ntbl++] = p; }

template <class T> struct R {
	typedef Mesh<T, 2> M; typedef MeshVertex<T, 2> MV; typedef MeshElement<T, 2> ME;
	struct Content { std::vector<MV*> v; std::vector<ME*> e; std::vector<MeshEdge<T, 2>*> g; };
	// model: handle -> content number (-1: moved from)
	std::vector<std::unique_ptr<M> > h; std::vector<int> c; std::map<int, Content> con; int next = 0; std::string log;
	std::set<void*> expect;	// objects that have to be live
	void note(const char* f, int a, int b = -1) { char t[64]; snprintf(t, 64, b >= 0 ? "%s(%d,%d) " : "%s(%d) ", f, a, b); log += t; H::CASE("history: %s", log.substr(log.size() > 1500 ? log.size() - 1500 : 0).c_str()); }
	void grow(int i) {
		M& m = *h[i]; Content& k = con[c[i]]; int base = k.v.size(), n = H::ri(1, 4);
		for (int j = 0; j < n + 2; j++) { FixedVector<T, 2> x; x[0] = (T)(j / 2); x[1] = (T)(j % 2 + base); MV* v = new MV(x); own(v); m.addVertex(v); k.v.push_back(v); }
		for (int j = 0; j < n; j++) { ME* e = new ME(); own(e); for (int q = 0; q < 3; q++) e->Vertices[q] = k.v[base + j + q]; m.addElement(e); k.e.push_back(e); }
		if (H::ri(0, 3)) { m.setupNeighbors(); for (auto g : m.edges()) if (std::find(k.g.begin(), k.g.end(), g) == k.g.end()) { own(g); k.g.push_back(g); } }
		if (H::ri(0, 1)) m.prepare();
	}
	void drop(Content& k) { k.v.clear(); k.e.clear(); k.g.clear(); }
	void gone(int id) { if (id < 0) return; for (size_t i = 0; i < c.size(); i++) if (c[i] == id) return; con.erase(id); }
	void check(const char* what) {
		size_t n = 0;
		for (auto& k : con) {
			n += k.second.v.size() + k.second.e.size() + k.second.g.size();
			for (auto p : k.second.v) CHECK(live(p), "%s released a vertex that is still owned", what);
			for (auto p : k.second.e) CHECK(live(p), "%s released an element that is still owned", what);
			for (auto p : k.second.g) CHECK(live(p), "%s released an edge that is still owned", what);
		}
		CHECK(n == ntbl, "%s: %d parts are alive, %d are owned by a mesh", what, (int)ntbl, (int)n);
		for (size_t i = 0; i < h.size(); i++) if (h[i] && c[i] >= 0) {
			Content& k = con[c[i]]; M& m = *h[i];
			CHECK(m.vertices() == k.v, "%s: mesh %d does not refer to its vertices", what, (int)i);
			CHECK(m.elements() == k.e, "%s: mesh %d does not refer to its elements", what, (int)i);
			CHECK(m.edges() == k.g, "%s: mesh %d does not refer to its edges", what, (int)i);
			for (size_t j = 0; j < k.v.size(); j++) CHECK(m.vertex(j) == k.v[j] && k.v[j]->GlobalIndex == j, "%s: vertex %d", what, (int)j);
			for (size_t j = 0; j < k.e.size(); j++) CHECK(m.element(j) == k.e[j], "%s: element %d", what, (int)j);
		}
	}
	int pick(bool withMoved) { std::vector<int> p; for (size_t i = 0; i < h.size(); i++) if (h[i] && (withMoved || c[i] >= 0)) p.push_back(i); return p.empty() ? -1 : p[H::ri(0, (int)p.size() - 1)]; }
	void run(int steps) {
		track = true; ntbl = 0; ndead = 0;
		for (int s = 0; s < steps; s++) {
			int op = H::ri(0, 10), a = pick(false), b = pick(true);
			if (h.size() > 6 && op < 4) op = 4;
			if (a < 0 || op == 0) { h.emplace_back(new M()); c.push_back(next); con[next++]; note("new", (int)h.size() - 1); check("construction"); if (H::ri(0, 3)) { grow((int)h.size() - 1); note("grow", (int)h.size() - 1); check("growing"); } }
			else if (op == 1) { M* p = new M(*h[a]); h.emplace_back(p); c.push_back(c[a]); note("copy", a); check("copying"); }
			else if (op == 2) { M* p = new M(std::move(*h[a])); h.emplace_back(p); c.push_back(c[a]); c[a] = -1; note("move", a); check("moving"); }
			else if (op == 3 || op == 4) { int o = c[b]; M& r = (*h[b] = *h[a]); CHECK(&r == h[b].get(), "assignment does not return the mesh"); c[b] = c[a]; gone(o); note("assign", b, a); check("assignment"); }
			else if (op == 5) { int o = c[b]; int n = c[a]; M& r = (*h[b] = std::move(*h[a])); CHECK(&r == h[b].get(), "assignment does not return the mesh"); if (a != b) { c[b] = n; c[a] = -1; gone(o); } note("moveassign", b, a); check("move assignment"); }
			else if (op == 6) { M& m = *h[a]; m = m; note("self", a); check("self-assignment"); m = std::move(m); check("self-move"); }
			else if (op == 7) { int o = c[b]; h[b].reset(); c[b] = -1; gone(o); h.erase(h.begin() + b); c.erase(c.begin() + b); note("destroy", b); check("destruction"); }
			else if (op == 8) { h[a]->clear(); drop(con[c[a]]); note("clear", a); check("clearing"); CHECK(h[a]->vertices().empty() && h[a]->elements().empty() && h[a]->edges().empty(), "a cleared mesh is not empty"); }
			else if (op == 9) { if (con[c[a]].v.empty() || con[c[a]].g.empty()) { grow(a); note("grow", a); check("growing"); } }
			else { int x = pick(false); std::swap(*h[a], *h[x]); std::swap(c[a], c[x]); note("swap", a, x); check("swapping"); }
		}
		while (!h.empty()) { int i = H::ri(0, (int)h.size() - 1), o = c[i]; h.erase(h.begin() + i); c.erase(c.begin() + i); gone(o); note("destroy", i); check("destruction"); }
		CHECK(ntbl == 0, "parts are never released"); track = false;
	}
};
template <class T> void hist() { for (int it = 0; it < H::N(300); it++) { long b = bal; { R<T> r; r.run(H::ri(1, 40)); } CHECK(b == bal, "%ld memory blocks are not released", bal - b); } }
TEST(histories_double) { hist<double>(); }
TEST(histories_float) { hist<float>(); }
// a released mesh returns everything it allocated, including its own block: counted over a whole life
TEST(results) {
	for (int it = 0; it < H::N(40); it++) {
		H::CASE("returned by value, %d", it); long b = bal; {
		Mesh<double, 2> m; FixedVector<Dimension, 2> n; n[0] = H::ri(1, 5); n[1] = H::ri(1, 5); FixedVector<double, 2> s, o; s.fill(1); o.fill(0);
		m = HyperCube<double, 2>::generate(n, s, o); Mesh<double, 2> k(m); m = HyperCube<double, 2>::generate(n, s, o);
		CHECK(k.vertices().size() == (n[0] + 1) * (n[1] + 1) && m.vertices().size() == k.vertices().size() && &k.vertices() != &m.vertices(), "assignment from a function");
		for (auto v : k.vertices()) CHECK(v->Vertex[0] >= 0 && v->Vertex[0] <= 1, "vertex");
		k.clear(); CHECK(k.vertices().empty() && !m.vertices().empty(), "clearing another mesh");
		m.prepare(); m.validate(); }
		CHECK(b == bal, "%ld memory blocks are not released", bal - b);
	}
}
int main(int c, char** v) { return H::run(c, v); }
