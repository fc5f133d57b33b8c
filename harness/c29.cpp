// C29: degree-of-freedom nodes of elements and edges for polynomial shape functions
#include "common.h"
#include "mesh/HyperCube.h"
#include "sf/PolyShapeFunction.h"
#include <map>
#include <set>
#include <algorithm>
using namespace NS;
template <class T> struct Snap { std::vector<MeshVertex<T, 2>*> v; std::vector<MeshVertex<T, 2> > val; };
template <class T, int O> void prep(Mesh<T, 2>& m) {
	typedef MeshVertex<T, 2> MV; typedef MeshElement<T, 2> ME; typedef MeshEdge<T, 2> MG;
	std::vector<MV*> v0 = m.vertices(); std::vector<MV> c0; for (auto v : v0) c0.push_back(*v);
	std::vector<ME*> e0 = m.elements(); std::vector<ME> ce; for (auto e : e0) ce.push_back(*e);
	std::vector<MG*> g0 = m.edges(); std::vector<MG> cg; for (auto g : g0) cg.push_back(*g);
	PolyShapePolicy<T, 2, O>::prepareMesh(m);
	CHECK(m.elements() == e0 && m.edges() == g0, "elements or edges of the mesh changed");
	for (size_t i = 0; i < e0.size(); i++) for (int j = 0; j < 3; j++) { CHECK(e0[i]->Vertices[j] == ce[i].Vertices[j] && e0[i]->Neighbors[j] == ce[i].Neighbors[j], "element %d changed", (int)i); for (int k = 0; k < 2; k++) CHECK(e0[i]->Element[j][k] == ce[i].Element[j][k], "coordinates of element %d changed", (int)i); }
	for (size_t i = 0; i < g0.size(); i++) for (int j = 0; j < 2; j++) CHECK(g0[i]->Vertices[j] == cg[i].Vertices[j] && g0[i]->Elements[j] == cg[i].Elements[j], "edge %d changed", (int)i);
	auto& vs = m.vertices(); size_t n = v0.size();
	CHECK(vs.size() == n + (O == 2 ? g0.size() : 0), "%d vertices, %d before, %d edges", (int)vs.size(), (int)n, (int)g0.size());
	for (size_t i = 0; i < n && i < vs.size(); i++) {
		CHECK(vs[i] == v0[i] && vs[i]->Flags == c0[i].Flags && vs[i]->GlobalIndex == c0[i].GlobalIndex && vs[i]->Elements == c0[i].Elements && vs[i]->Vertex[0] == c0[i].Vertex[0] && vs[i]->Vertex[1] == c0[i].Vertex[1], "vertex %d changed", (int)i);
	}
	std::set<MV*> mids;
	for (size_t i = 0; i < g0.size(); i++) {
		MG* g = g0[i]; CHECK(g->DOFVertices.size() == (size_t)(O == 2 ? 3 : 2), "edge %d has %d nodes", (int)i, (int)g->DOFVertices.size());
		if (g->DOFVertices.size() < (size_t)(O == 2 ? 3 : 2)) continue;
		CHECK(g->DOFVertices[0] == g->Vertices[0] && g->DOFVertices[1] == g->Vertices[1], "edge %d: the first nodes are not its vertices", (int)i);
		if (O == 2) {
			MV* w = g->DOFVertices[2]; CHECK(w && mids.insert(w).second && std::find(v0.begin(), v0.end(), w) == v0.end(), "edge %d: node of another edge or vertex", (int)i);
			for (int k = 0; k < 2; k++) { double x = ((double)g->Vertices[0]->Vertex[k] + (double)g->Vertices[1]->Vertex[k]) / 2; CHECK(std::fabs((double)w->Vertex[k] - x) <= 8 * std::numeric_limits<T>::epsilon() * (std::fabs((double)g->Vertices[0]->Vertex[k]) + std::fabs((double)g->Vertices[1]->Vertex[k])), "edge %d: node not in the middle: %g instead of %g", (int)i, (double)w->Vertex[k], x); }
			CHECK(w->GlobalIndex < vs.size() && vs[w->GlobalIndex] == w, "edge %d: node with index %d is not that vertex of the mesh", (int)i, (int)w->GlobalIndex);
			bool bd = !g->Elements[0] || !g->Elements[1];
			CHECK(w->Flags == (unsigned)(MVF_Implicit | (bd ? MVF_StrongBoundary : 0)), "edge %d: node with flags %d", (int)i, (int)w->Flags);
			std::vector<ME*> es; for (auto e : e0) for (int j = 0; j < 3; j++) if (e->Neighbors[j] == g) es.push_back(e);
			CHECK(w->Elements == es, "edge %d: node registered with %d elements instead of %d, or others", (int)i, (int)w->Elements.size(), (int)es.size());
		}
	}
	for (size_t i = 0; i < e0.size(); i++) {
		ME* e = e0[i]; CHECK(e->DOFVertices.size() == (size_t)(O == 2 ? 6 : 3), "element %d has %d nodes", (int)i, (int)e->DOFVertices.size());
		if (e->DOFVertices.size() < (size_t)(O == 2 ? 6 : 3)) continue;
		for (int j = 0; j < 3; j++) CHECK(e->DOFVertices[j] == e->Vertices[j], "element %d: node %d is not corner %d", (int)i, j, j);
		if (O == 2) { const int o[3] = {2, 0, 1}; for (int j = 0; j < 3; j++) CHECK(e->Neighbors[o[j]]->DOFVertices.size() == 3 && e->DOFVertices[3 + j] == e->Neighbors[o[j]]->DOFVertices[2], "element %d: node %d is not the middle of the edge opposite to corner %d", (int)i, 3 + j, o[j]); }
	}
}
// a random part of a triangulated grid: shuffled elements, corners in any order, isolated and touching parts
template <class T, int O> void part(int nx, int ny, int keep) {
	H::CASE("order %d, part of a %dx%d grid, %d of 8 cells kept", O, nx, ny, keep); Mesh<T, 2> m;
	typedef MeshVertex<T, 2> MV; typedef MeshElement<T, 2> ME; std::vector<MV*> v;
	for (int y = 0; y <= ny; y++) for (int x = 0; x <= nx; x++) { FixedVector<T, 2> p; p[0] = (T)(x + H::ri(-20, 20) / 100.0); p[1] = (T)(y + H::ri(-20, 20) / 100.0); auto w = new MV(p); if (H::ri(0, 3) == 0) w->Flags |= MVF_StrongBoundary; m.addVertex(w); v.push_back(w); }
	std::vector<std::vector<int> > c; auto at = [&](int x, int y) { return y * (nx + 1) + x; };
	for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++) for (int t = 0; t < 2; t++) if (H::ri(0, 7) < keep) {
		std::vector<int> k = t ? std::vector<int>{at(x + 1, y), at(x + 1, y + 1), at(x, y + 1)} : std::vector<int>{at(x, y), at(x + 1, y), at(x, y + 1)};
		for (int s = 2; s > 0; s--) std::swap(k[s], k[H::ri(0, s)]); c.push_back(k);
	}
	for (int s = (int)c.size() - 1; s > 0; s--) std::swap(c[s], c[H::ri(0, s)]);
	for (auto& k : c) { auto e = new ME(); for (int j = 0; j < 3; j++) e->Vertices[j] = v[k[j]]; m.addElement(e); }
	m.setupNeighbors(); m.prepare(); if (H::ri(0, 1)) for (auto g : m.edges()) if (g->Elements[1] && H::ri(0, 1)) std::swap(g->Elements[0], g->Elements[1]);
	prep<T, O>(m);
}
template <class T, int O> void all() {
	{ H::CASE("order %d, empty mesh", O); Mesh<T, 2> m; prep<T, O>(m); }
	for (int nx = 1; nx <= 6; nx++) for (int ny = 1; ny <= 6; ny++) {
		H::CASE("order %d, box of %dx%d", O, nx, ny); FixedVector<Dimension, 2> n; n[0] = nx; n[1] = ny; FixedVector<T, 2> s, o; s[0] = (T)3; s[1] = (T)0.7; o[0] = (T)-1; o[1] = (T)1e3;
		Mesh<T, 2> m = HyperCube<T, 2>::generate(n, s, o); m.prepare(); prep<T, O>(m); m.validate();
	}
	for (int i = 0; i < H::N(60); i++) part<T, O>(H::ri(1, 7), H::ri(1, 7), H::ri(1, 8));
	for (int i = 0; i < H::N(1); i++) part<T, O>(H::ri(15, 20), H::ri(15, 20), H::ri(4, 8));
}
TEST(linear_double) { all<double, 1>(); }
TEST(linear_float) { all<float, 1>(); }
TEST(quadratic_double) { all<double, 2>(); }
TEST(quadratic_float) { all<float, 2>(); }
HARNESS_MAIN
