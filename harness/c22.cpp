// C22: generated boxes: grid positions, boundary flags, tiling, shared vertices
#include "common.h"
#include "mesh/HyperCube.h"
#include <map>
#include <set>
#include <algorithm>
using namespace NS;
template <class T> void box(size_t nx, size_t ny, double sx, double sy, double ox, double oy) {
	typedef MeshVertex<T, 2> MV; typedef MeshElement<T, 2> ME;
	H::CASE("elements %dx%d, size %g x %g, offset %g,%g", (int)nx, (int)ny, sx, sy, ox, oy);
	FixedVector<Dimension, 2> n; n[0] = nx; n[1] = ny; FixedVector<T, 2> s, o; s[0] = (T)sx; s[1] = (T)sy; o[0] = (T)ox; o[1] = (T)oy;
	bool bad = false; Mesh<T, 2> m;
	try { m = HyperCube<T, 2>::generate(n, s, o); } catch (InvalidElementCountException&) { bad = true; }
	CHECK(bad == (nx < 1 || ny < 1), "a count below one is accepted or a valid count is rejected");
	if (bad) return;
	CHECK(m.vertices().size() == (nx + 1) * (ny + 1), "%d vertices", (int)m.vertices().size());
	CHECK(m.elements().size() == 2 * nx * ny, "%d elements", (int)m.elements().size());
	CHECK(m.edges().size() == nx * (ny + 1) + ny * (nx + 1) + nx * ny, "%d edges", (int)m.edges().size());
	double tol = (sizeof(T) == 4 ? 1e-5 : 1e-12);
	std::vector<int> hit((nx + 1) * (ny + 1), 0); std::map<MV*, std::pair<long, long> > pos; Index id = 0;
	for (auto v : m.vertices()) {
		CHECK(v->GlobalIndex == id, "vertex %d carries index %d", (int)id, (int)v->GlobalIndex); id++;
		double fx = ((double)v->Vertex[0] - (double)o[0]) / (double)s[0] * nx, fy = ((double)v->Vertex[1] - (double)o[1]) / (double)s[1] * ny;
		long gx = std::lround(fx), gy = std::lround(fy);
		CHECK(gx >= 0 && gx <= (long)nx && gy >= 0 && gy <= (long)ny, "vertex outside the box: %g %g", (double)v->Vertex[0], (double)v->Vertex[1]);
		double ex = (double)o[0] + (double)s[0] * gx / nx, ey = (double)o[1] + (double)s[1] * gy / ny;
		CHECK(std::fabs(v->Vertex[0] - ex) <= tol * (std::fabs(ox) + std::fabs(sx)) && std::fabs(v->Vertex[1] - ey) <= tol * (std::fabs(oy) + std::fabs(sy)), "vertex %g %g not at a grid position", (double)v->Vertex[0], (double)v->Vertex[1]);
		CHECK(!hit[gy * (nx + 1) + gx]++, "grid position %d,%d twice", (int)gx, (int)gy);
		bool bd = gx == 0 || gx == (long)nx || gy == 0 || gy == (long)ny;
		CHECK(v->Flags == (bd ? (unsigned)MVF_StrongBoundary : 0u), "vertex at %d,%d has flags %u", (int)gx, (int)gy, v->Flags);
		pos[v] = std::make_pair(gx, gy);
	}
	std::map<std::pair<long, long>, std::vector<int> > cells; int orient = 0; double area = 0;
	for (auto e : m.elements()) {
		long g[3][2], lx = 1 << 30, ly = 1 << 30;
		for (int i = 0; i < 3; i++) {
			CHECK(e->Vertices[i] && pos.count(e->Vertices[i]), "an element uses a vertex outside the mesh");
			g[i][0] = pos[e->Vertices[i]].first; g[i][1] = pos[e->Vertices[i]].second; lx = std::min(lx, g[i][0]); ly = std::min(ly, g[i][1]);
			for (int j = 0; j < 2; j++) CHECK(e->Element[i][j] == e->Vertices[i]->Vertex[j], "element coordinates differ from its vertices");
			CHECK(std::count(e->Vertices[i]->Elements.begin(), e->Vertices[i]->Elements.end(), e) == 1, "element not registered once with its vertex");
			CHECK(e->Neighbors[i], "element without neighbour edge");
		}
		int mask = 0; for (int i = 0; i < 3; i++) { CHECK(g[i][0] - lx <= 1 && g[i][1] - ly <= 1, "element spans more than one cell"); mask |= 1 << ((g[i][0] - lx) + 2 * (g[i][1] - ly)); }
		CHECK(mask == 7 || mask == 11 || mask == 13 || mask == 14, "element is degenerate");
		long cr = (g[1][0] - g[0][0]) * (g[2][1] - g[0][1]) - (g[2][0] - g[0][0]) * (g[1][1] - g[0][1]);
		CHECK(cr == 1 || cr == -1, "element has the wrong area");
		CHECK(!orient || orient == cr, "elements have different orientations"); orient = cr; area += 0.5 * std::fabs(sx / nx * sy / ny);
		cells[std::make_pair(lx, ly)].push_back(mask);
	}
	CHECK(cells.size() == nx * ny, "some cell is not covered");
	for (auto& c : cells) CHECK(c.second.size() == 2 && ((c.second[0] ^ c.second[1]) == 9 || (c.second[0] ^ c.second[1]) == 6), "cell %d,%d is not tiled by two triangles", (int)c.first.first, (int)c.first.second);
	CHECK(H::close(area, std::fabs(sx * sy)), "the elements do not fill the box");
	for (auto g : m.edges()) {
		CHECK(g->Elements[0] && g->Vertices[0] && g->Vertices[1], "incomplete edge");
		auto a = pos[g->Vertices[0]], b = pos[g->Vertices[1]];
		bool bd = (a.first == b.first && (a.first == 0 || a.first == (long)nx)) || (a.second == b.second && (a.second == 0 || a.second == (long)ny));
		CHECK((g->Elements[1] == nullptr) == bd, "an edge inside has one element or an edge on the boundary two");
	}
	if (std::fabs(sx * sy) / (nx * ny) > 1e-3 * (1 + 0)) { m.prepare(); m.validate(); }
}
template <class T> void all() {
	for (size_t nx = 0; nx <= 7; nx++) for (size_t ny = 0; ny <= 7; ny++) { box<T>(nx, ny, 1, 1, 0, 0); box<T>(nx, ny, 3, 0.5, -1, 10); box<T>(nx, ny, H::ri(1, 400) / 8.0, H::ri(1, 400) / 8.0, H::ri(-400, 400) / 8.0, H::ri(-400, 400) / 8.0); }
	size_t b[] = {1, 2, 3, 13, 16, 17, 31, 32, 33, 40};
	for (size_t x : b) for (size_t y : b) if (x * y < (size_t)(H::thorough ? 2000 : 300)) box<T>(x, y, H::ri(1, 40) / 2.0, H::ri(1, 40) / 2.0, H::ri(-40, 40) / 4.0, H::ri(-40, 40) / 4.0);
	box<T>(1, 300, 1, 2, 0, 0); box<T>(300, 1, 1, 2, 0, 0); box<T>(2, 129, 1, 2, 0, 0); box<T>(129, 2, 1, 2, 0, 0);
	for (int it = 0; it < H::N(60); it++) box<T>(H::ri(1, 12), H::ri(1, 12), std::ldexp(H::ri(8, 15), H::ri(-8, 8)), std::ldexp(H::ri(8, 15), H::ri(-8, 8)), H::ri(-1, 1) * std::ldexp(1, H::ri(-3, 3)), H::ri(-1, 1) * std::ldexp(1, H::ri(-3, 3)));
}
TEST(boxes_double) { all<double>(); }
TEST(boxes_float) { all<float>(); }
int main(int c, char** v) { return H::run(c, v); }
