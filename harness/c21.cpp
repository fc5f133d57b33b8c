// C21: links between vertices, elements and edges of a mesh against a naive face map
#include "common.h"
#include "mesh/Mesh.h"
#include <map>
#include <set>
#include <algorithm>
#include <memory>
using namespace NS;

template <class T, Dimension K> struct B {
	typedef MeshVertex<T, K> MV; typedef MeshElement<T, K> ME; typedef MeshEdge<T, K> MG;
	typedef std::vector<int> Cell; typedef std::vector<Cell> Cells;
	typedef std::vector<std::vector<double> > Pts;
	static std::string show(const Cells& c) { std::string s; for (auto& e : c) { s += "("; for (int v : e) s += std::to_string(v) + " "; s += ")"; } return s.substr(0, 1500); }
	struct VS { unsigned f; Index g; std::vector<T> x; std::vector<ME*> e; bool operator==(const VS& o) const { return f == o.f && g == o.g && x == o.x && e == o.e; } };
	struct ES { std::vector<MV*> v, d; std::vector<MG*> n; std::vector<T> x; bool operator==(const ES& o) const { return v == o.v && d == o.d && n == o.n && x == o.x; } };
	static VS vs(MV* v) { VS s; s.f = v->Flags; s.g = v->GlobalIndex; for (size_t i = 0; i < K; i++) s.x.push_back(v->Vertex[i]); s.e = v->Elements; return s; }
	static ES es(ME* e) { ES s; for (size_t i = 0; i <= K; i++) { s.v.push_back(e->Vertices[i]); s.n.push_back(e->Neighbors[i]); for (size_t j = 0; j < K; j++) s.x.push_back(e->Element[i][j]); } s.d = e->DOFVertices; return s; }
	static MV* mk(const std::vector<double>& p) {
		FixedVector<T, K> x; for (size_t i = 0; i < K; i++) x[i] = (T)p[i];
		MV* v = new MV(x);
		CHECK(v->Flags == 0 && v->Elements.empty(), "a new vertex is not blank");
		return v;
	}
	// build through addVertex/addElement in an interleaved order, checking every step
	static void build(Mesh<T, K>& m, const Pts& pts, const Cells& cells, bool interleave, bool reserve) {
		if (reserve) { m.reserveVertices(pts.size() + 1); m.reserveElements(cells.size() + 1); }
		size_t nv = 0, ne = 0; std::vector<ME*> els;
		auto snap = [&](std::vector<VS>& a, std::vector<ES>& b) { a.clear(); b.clear(); for (auto v : m.vertices()) a.push_back(vs(v)); for (auto e : m.elements()) b.push_back(es(e)); };
		std::vector<VS> va, vb; std::vector<ES> ea, eb; bool deep = pts.size() * cells.size() < 4000;
		auto addv = [&] {
			MV* v = mk(pts[nv]); unsigned fl = v->Flags = (unsigned)H::ri(0, 3); v->GlobalIndex = 77;
			if (deep) snap(va, ea);
			m.addVertex(v); nv++;
			CHECK(m.vertices().size() == nv && m.vertices()[nv - 1] == v && m.vertex(nv - 1) == v, "vertex %d not stored at its index", (int)nv - 1);
			CHECK(v->GlobalIndex == nv - 1, "vertex %d carries index %d", (int)nv - 1, (int)v->GlobalIndex);
			CHECK(v->Flags == fl && v->Elements.empty(), "adding vertex %d changed its flags or elements", (int)nv - 1);
			for (size_t i = 0; i < K; i++) CHECK(v->Vertex[i] == (T)pts[nv - 1][i], "adding vertex %d changed its coordinates", (int)nv - 1);
			if (deep) { snap(vb, eb); vb.pop_back(); CHECK(va == vb && ea == eb, "adding vertex %d changed other parts", (int)nv - 1); }
			v->Flags = 0;
		};
		auto adde = [&] {
			ME* e = new ME();
			for (size_t i = 0; i <= K; i++) CHECK(!e->Vertices[i] && !e->Neighbors[i], "a new element is not blank");
			for (size_t i = 0; i <= K; i++) e->Vertices[i] = m.vertex(cells[ne][i]);
			if (deep) snap(va, ea);
			m.addElement(e); ne++;
			CHECK(m.elements().size() == ne && m.elements()[ne - 1] == e && m.element(ne - 1) == e, "element %d not stored at its index", (int)ne - 1);
			for (size_t i = 0; i <= K; i++) {
				CHECK(e->Vertices[i] == m.vertex(cells[ne - 1][i]), "adding element %d changed its vertices", (int)ne - 1);
				CHECK(!e->Neighbors[i], "adding element %d set its neighbours", (int)ne - 1);
				for (size_t j = 0; j < K; j++) CHECK(e->Element[i][j] == (T)pts[cells[ne - 1][i]][j], "element %d corner %d does not have the coordinates of its vertex", (int)ne - 1, (int)i);
			}
			if (deep) {
				snap(vb, eb); eb.pop_back();
				CHECK(ea == eb, "adding element %d changed other elements", (int)ne - 1);
				for (size_t i = 0; i < vb.size(); i++) { if (std::find(cells[ne - 1].begin(), cells[ne - 1].end(), (int)i) != cells[ne - 1].end()) va[i].e.push_back(e); CHECK(va[i] == vb[i], "adding element %d: vertex %d not registered exactly once", (int)ne - 1, (int)i); }
			}
		};
		while (nv < pts.size() || ne < cells.size()) {
			bool ready = ne < cells.size(); if (ready) for (int v : cells[ne]) if ((size_t)v >= nv) ready = false;
			if (ready && (nv == pts.size() || (interleave && H::ri(0, 1)))) adde(); else addv();
		}
		CHECK(m.vertices().size() == pts.size() && m.elements().size() == cells.size() && m.edges().empty(), "wrong counts after building");
		for (size_t i = 0; i < pts.size(); i++) { std::vector<ME*> w; for (size_t k = 0; k < cells.size(); k++) if (std::find(cells[k].begin(), cells[k].end(), (int)i) != cells[k].end()) w.push_back(m.element(k)); auto g = m.vertex(i)->Elements; std::sort(w.begin(), w.end()); std::sort(g.begin(), g.end()); CHECK(w == g, "vertex %d is not registered with exactly its elements", (int)i); }
	}
	static void links(Mesh<T, K>& m, const Cells& cells) {
		std::map<std::set<MV*>, std::vector<ME*> > faces;
		for (size_t k = 0; k < cells.size(); k++) for (size_t i = 0; i <= K; i++) { std::set<MV*> f; for (size_t j = 0; j <= K; j++) if (j != i) f.insert(m.vertex(cells[k][j])); faces[f].push_back(m.element(k)); }
		bool toomany = false; for (auto& f : faces) if (f.second.size() > 2) toomany = true;
		std::vector<VS> va, vb; std::vector<ES> ea, eb;
		for (auto v : m.vertices()) va.push_back(vs(v)); for (auto e : m.elements()) ea.push_back(es(e));
		bool thrown = false;
		try { m.setupNeighbors(); } catch (TooManySharedFacesException&) { thrown = true; }
		CHECK(thrown == toomany, toomany ? "a face with three elements is accepted" : "TooManySharedFacesException without a face of three elements");
		if (toomany) return;
		CHECK(m.edges().size() == faces.size(), "%d edges for %d faces", (int)m.edges().size(), (int)faces.size());
		std::set<std::set<MV*> > seen; size_t ix = 0;
		for (auto g : m.edges()) {
			CHECK(m.edge(ix++) == g, "edge() and edges() differ");
			std::set<MV*> f(g->Vertices, g->Vertices + K);
			CHECK(faces.count(f), "an edge does not list the vertices of a face");
			CHECK(seen.insert(f).second, "two edges for one face");
			auto& w = faces[f]; std::vector<ME*> got; for (int s = 0; s < 2; s++) if (g->Elements[s]) got.push_back(g->Elements[s]);
			std::vector<ME*> ww = w; std::sort(ww.begin(), ww.end()); std::sort(got.begin(), got.end());
			CHECK(ww == got, "an edge lists %d elements, its face has %d, or others", (int)got.size(), (int)ww.size());
		}
		for (size_t k = 0; k < cells.size(); k++) for (size_t i = 0; i <= K; i++) {
			ME* e = m.element(k); CHECK(e->Neighbors[i], "element %d has no edge opposite its vertex %d", (int)k, (int)i);
			CHECK(std::find(m.edges().begin(), m.edges().end(), e->Neighbors[i]) != m.edges().end(), "element %d links to an edge outside the mesh", (int)k);
			std::set<MV*> f; for (size_t j = 0; j <= K; j++) if (j != i) f.insert(m.vertex(cells[k][j]));
			CHECK(std::set<MV*>(e->Neighbors[i]->Vertices, e->Neighbors[i]->Vertices + K) == f, "element %d: the edge opposite vertex %d is not its face", (int)k, (int)i);
		}
		for (auto v : m.vertices()) vb.push_back(vs(v)); for (auto e : m.elements()) { ES s = es(e); s.n.assign(K + 1, nullptr); eb.push_back(s); }
		CHECK(va == vb && ea == eb, "setting up neighbours changed vertices or elements");
		std::vector<MG*> eg = m.edges(); std::vector<ES> e2; for (auto e : m.elements()) e2.push_back(es(e));
		m.setupNeighbors(); std::vector<ES> e3; for (auto e : m.elements()) e3.push_back(es(e));
		CHECK(eg == m.edges() && e2 == e3, "setting up neighbours again changed the mesh");
		unsigned other = (unsigned)H::ri(0, 1) * 2; for (auto v : m.vertices()) v->Flags = other;
		m.setupBoundaries();
		std::set<MV*> bd; for (auto& f : faces) if (f.second.size() == 1) bd.insert(f.first.begin(), f.first.end());
		for (size_t i = 0; i < m.vertices().size(); i++) { MV* v = m.vertex(i); CHECK(v->Flags == (bd.count(v) ? other | MVF_StrongBoundary : other), "vertex %d has boundary flags %u", (int)i, v->Flags); v->Flags = 0; }
		e3.clear(); for (auto e : m.elements()) e3.push_back(es(e)); CHECK(eg == m.edges() && e2 == e3, "setting up boundaries changed the links");
	}
	static void shuffle(Pts& pts, Cells& cells) {
		std::vector<int> p(pts.size()); for (size_t i = 0; i < p.size(); i++) p[i] = i;
		for (size_t i = p.size(); i-- > 1;) std::swap(p[i], p[H::ri(0, i)]);
		Pts q(pts.size()); for (size_t i = 0; i < p.size(); i++) q[p[i]] = pts[i]; pts = q;
		for (auto& c : cells) { for (int& v : c) v = p[v]; for (size_t i = c.size(); i-- > 1;) std::swap(c[i], c[H::ri(0, i)]); }
		for (size_t i = cells.size(); i-- > 1;) std::swap(cells[i], cells[H::ri(0, i)]);
	}
	static void go(Pts pts, Cells cells, const char* what, bool il) {
		if (H::ri(0, 3)) shuffle(pts, cells);
		H::CASE("%s K=%d, %d vertices, elements %s", what, (int)K, (int)pts.size(), show(cells).c_str());
		Mesh<T, K> m; build(m, pts, cells, il, H::ri(0, 1)); links(m, cells);
	}
};
typedef std::vector<int> Cell; typedef std::vector<Cell> Cells; typedef std::vector<std::vector<double> > Pts;

static void tri(Pts& p, Cells& c, int nx, int ny, int drop) {
	for (int i = 0; i <= ny; i++) for (int j = 0; j <= nx; j++) p.push_back({j * 1.0, i * 1.0});
	auto id = [&](int i, int j) { return i * (nx + 1) + j; };
	for (int i = 0; i < ny; i++) for (int j = 0; j < nx; j++) {
		Cell a, b; if (H::ri(0, 1)) { a = {id(i, j), id(i, j + 1), id(i + 1, j + 1)}; b = {id(i, j), id(i + 1, j + 1), id(i + 1, j)}; } else { a = {id(i, j), id(i, j + 1), id(i + 1, j)}; b = {id(i, j + 1), id(i + 1, j + 1), id(i + 1, j)}; }
		if (H::ri(1, 100) > drop) c.push_back(a); if (H::ri(1, 100) > drop) c.push_back(b);
	}
}
static Pts rpts(int n, int k) { Pts p; for (int i = 0; i < n; i++) { std::vector<double> x; for (int j = 0; j < k; j++) x.push_back(H::ri(-50, 50) / 4.0); p.push_back(x); } return p; }

template <class T> void grids() {
	for (int it = 0; it < H::N(250); it++) { Pts p; Cells c; bool big = H::ri(0, 20) == 0; tri(p, c, H::ri(1, big ? 12 : 4), H::ri(1, big ? 12 : 4), (int[]){0, 0, 10, 40, 80}[H::ri(0, 4)]); B<T, 2>::go(p, c, "grid", it & 1); }
	for (int n = 3; n < 14; n++) { // closed and open fans, strips, rings
		Pts p = rpts(n + 1, 2); Cells c; for (int i = 0; i < n; i++) c.push_back({n, i, (i + 1) % n}); B<T, 2>::go(p, c, "closed fan", false);
		c.pop_back(); B<T, 2>::go(p, c, "fan", true);
		Cells s; for (int i = 0; i + 2 <= n; i++) s.push_back({i, i + 1, i + 2}); B<T, 2>::go(p, s, "strip", true);
	}
}
template <class T> void complexes() {
	// arbitrary sets of triangles over few vertices; too many shared faces are rejected
	for (int it = 0; it < H::N(600); it++) {
		int n = H::ri(3, 8), k = H::ri(1, 5); std::set<std::set<int> > used; Cells c;
		for (int e = 0; e < k; e++) { std::set<int> s; while (s.size() < 3) s.insert(H::ri(0, n - 1)); if (used.insert(s).second) c.push_back(Cell(s.begin(), s.end())); }
		B<T, 2>::go(rpts(n, 2), c, "triangles", it & 1);
	}
	// every set of up to three triangles over five vertices
	std::vector<Cell> all; for (int a = 0; a < 5; a++) for (int b = a + 1; b < 5; b++) for (int d = b + 1; d < 5; d++) all.push_back({a, b, d});
	for (size_t i = 0; i < all.size(); i++) for (size_t j = i; j < all.size(); j++) for (size_t k = j; k < all.size(); k++) {
		Cells c = {all[i]}; if (j > i) c.push_back(all[j]); if (k > j) c.push_back(all[k]); B<T, 2>::go(rpts(5, 2), c, "all triples", false);
	}
}
template <class T> void validation() {
	typedef MeshVertex<T, 2> MV; typedef MeshElement<T, 2> ME;
	for (int it = 0; it < H::N(800); it++) {
		Pts p; Cells c; int nx = H::ri(1, 4), ny = H::ri(1, 3); tri(p, c, nx, ny, 0); B<T, 2>::shuffle(p, c);
		if (H::ri(0, 1)) for (auto& x : p) { x[0] = x[0] * 2.5 - 3; x[1] = x[1] * 0.5 + 7; }
		Mesh<T, 2> m; B<T, 2>::build(m, p, c, it & 1, false); m.setupNeighbors(); m.prepare();
		for (size_t k = 0; k < c.size(); k++) { Simplex<T, 2> s; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) s[i][j] = (T)p[c[k][i]][j]; s.prepare(); ME* e = m.element(k); CHECK(H::close(s.volume(), e->Element.volume()), "prepare did not prepare element %d", (int)k); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) CHECK(H::close(s.matrix().at(i, j), e->Element.matrix().at(i, j)) && H::close(s.inverseMatrix().at(i, j), e->Element.inverseMatrix().at(i, j)), "prepare did not prepare element %d", (int)k); }
		int nv = p.size(), ne = c.size(), a = H::ri(0, nv - 1), e = H::ri(0, ne - 1), k = H::ri(0, 2), mode = H::ri(0, 13); bool ok = false; const char* what = "untouched";
		MV* v = m.vertex(a); ME* s = m.element(e); MV* extra = nullptr; MV* hold[3] = {s->Vertices[0], s->Vertices[1], s->Vertices[2]}; auto nh = s->Neighbors[k]; Simplex<T, 2> el = s->Element; auto lst = v->Elements;
		ME* foreign = nullptr; int where = 0;
		switch (mode) {
		case 0: case 1: ok = true; break;
		case 2: what = "wrong index"; v->GlobalIndex = (Index)(a + H::ri(1, 3)); break;
		case 3: what = "isolated vertex"; v->Elements.clear(); break;
		case 4: what = "foreign element registered"; for (auto x : m.elements()) if (x->Vertices[0] != v && x->Vertices[1] != v && x->Vertices[2] != v) foreign = x; if (foreign) { where = H::ri(0, (int)v->Elements.size()); v->Elements.insert(v->Elements.begin() + where, foreign); } else ok = true; break;
		case 5: what = "missing vertex"; for (auto x : m.vertices()) x->Elements.erase(std::remove(x->Elements.begin(), x->Elements.end(), s), x->Elements.end()); { bool iso = false; for (auto x : m.vertices()) if (x->Elements.empty()) iso = true; if (iso) what = "isolated vertex by removal"; } s->Vertices[k] = nullptr; break;
		case 6: what = "coordinates do not match"; s->Element[k][H::ri(0, 1)] += (T)(H::ri(0, 1) ? 0.125 : -0.25); break;
		case 7: what = "zero volume"; { MV* x = s->Vertices[(k + 1) % 3]; MV* y = s->Vertices[(k + 2) % 3]; for (int j = 0; j < 2; j++) s->Vertices[k]->Vertex[j] = (x->Vertex[j] + y->Vertex[j]) / 2; for (auto q : m.elements()) for (int i = 0; i < 3; i++) q->Element[i] = q->Vertices[i]->Vertex; m.prepare(); } break;
		case 8: what = "missing neighbour"; s->Neighbors[k] = nullptr; break;
		case 9: what = "boundary flags"; ok = true; m.setupBoundaries(); break;
		case 10: what = "degree of freedom list without the vertex"; s->DOFVertices.push_back(nullptr); for (int i = 0; i < 3; i++) if (i != k) s->DOFVertices.push_back(s->Vertices[i]); break;
		case 11: what = "full degree of freedom list"; ok = true; for (int i = 0; i < 3; i++) s->DOFVertices.push_back(s->Vertices[(i + k) % 3]); s->DOFVertices.push_back(nullptr); break;
		case 12: what = "added isolated vertex"; { FixedVector<T, 2> x; x[0] = 1; x[1] = 2; m.addVertex(new MV(x)); } break;
		case 13: what = "edge list irrelevant"; ok = true; for (auto g : m.edges()) g->Elements[1] = g->Elements[1]; break;
		}
		(void)extra; (void)hold; (void)nh; (void)el; (void)lst;
		H::CASE("validation, %s: vertex %d element %d corner %d, grid %dx%d elements %s", what, a, e, k, nx, ny, B<T, 2>::show(c).c_str());
		bool acc = true; try { m.validate(); } catch (MeshException&) { acc = false; }
		CHECK(acc == ok, ok ? "a consistent mesh is rejected" : "an inconsistent mesh is accepted");
		if (mode == 5) s->Vertices[k] = hold[k];
	}
	{ Mesh<T, 2> m; H::CASE("empty mesh"); m.validate(); m.setupNeighbors(); m.setupBoundaries(); m.prepare(); CHECK(m.vertices().empty() && m.elements().empty() && m.edges().empty(), "an empty mesh is not empty"); }
	{ // a small but not vanishing volume is accepted, a vanishing one is not
		T eps = std::numeric_limits<T>::epsilon(); for (int s = -6; s <= 6; s++) if (s) {
			Mesh<T, 2> m; T h = std::ldexp(eps, s + 1); Pts p = {{0, 0}, {1, 0}, {0.25, (double)h}}; B<T, 2>::build(m, p, {{0, 1, 2}}, false, false); m.setupNeighbors(); m.prepare();
			H::CASE("one triangle with volume %d powers of two from epsilon", s); bool acc = true; try { m.validate(); } catch (MeshException&) { acc = false; } CHECK(acc == (s > 0), "volume threshold"); }
	}
	for (int it = 0; it < H::N(30); it++) { // setters
		Pts p; Cells c; tri(p, c, 2, 2, 0); Mesh<T, 2> m; B<T, 2>::build(m, p, c, false, false); int i = H::ri(0, 8), e = H::ri(0, 7);
		H::CASE("setVertex %d, setElement %d", i, e);
		auto V = m.vertices(); auto E = m.elements(); MV* nv = new MV(); ME* ne = new ME(); m.setVertex(i, nv); m.setElement(e, ne);
		for (int j = 0; j < 9; j++) CHECK(m.vertex(j) == (j == i ? nv : V[j]), "setVertex(%d) changed entry %d", i, j);
		for (int j = 0; j < 8; j++) CHECK(m.element(j) == (j == e ? ne : E[j]), "setElement(%d) changed entry %d", e, j);
		delete V[i]; delete E[e];
	}
}
TEST(grids_double) { grids<double>(); }
TEST(grids_float) { grids<float>(); }
TEST(complexes_double) { complexes<double>(); }
TEST(complexes_float) { complexes<float>(); }
TEST(validation_double) { validation<double>(); }
TEST(validation_float) { validation<float>(); }
int main(int c, char** v) { return H::run(c, v); }
