// C26: the written VTK document is read back and compared with the mesh and the data arrays
#include "common.h"
#include "export/VTKExporter.h"
#include "sf/PolyShapeFunction.h"
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <algorithm>
#include <map>
using namespace NS;
static double rd(double a, double b) { return a + (b - a) * H::ri(0, 1000000) / 1e6; }
struct Node { std::string name; std::map<std::string, std::string> at; std::vector<Node> kids; std::string text; };
struct Bad {};
// minimal reader for the XML subset of the format: elements, attributes in double quotes, text
struct Reader {
	std::string s; size_t p;
	void ws() { while (p < s.size() && isspace((unsigned char)s[p])) p++; }
	Node element() {
		Node n; if (p >= s.size() || s[p] != '<') throw Bad(); p++;
		while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_')) n.name += s[p++];
		if (n.name.empty()) throw Bad();
		for (;;) {
			size_t q = p; ws(); if (p >= s.size()) throw Bad();
			if (s[p] == '>') { p++; break; }
			if (q == p) throw Bad();
			std::string k, v; while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_')) k += s[p++];
			if (k.empty() || s.compare(p, 2, "=\"")) throw Bad();
			p += 2; while (p < s.size() && s[p] != '"' && s[p] != '<') v += s[p++];
			if (p >= s.size() || s[p] != '"' || n.at.count(k)) throw Bad();
			p++; n.at[k] = v;
		}
		for (;;) {
			while (p < s.size() && s[p] != '<') { if (s[p] == '>') throw Bad(); n.text += s[p++]; }
			if (s.compare(p, 2, "</") == 0) { p += 2; if (s.compare(p, n.name.size() + 1, n.name + ">")) throw Bad(); p += n.name.size() + 1; return n; }
			n.kids.push_back(element());
		}
	}
	Node document() { p = 0; if (s.compare(0, 5, "<?xml")) throw Bad(); p = s.find("?>"); if (p == std::string::npos) throw Bad(); p += 2; ws(); Node n = element(); ws(); if (p != s.size()) throw Bad(); return n; }
};
static std::string show(double x) { std::ostringstream o; o << x; return o.str(); }
static std::string show(float x) { std::ostringstream o; o << x; return o.str(); }
static std::string show(size_t x) { return std::to_string(x); }
static std::string show(int x) { return std::to_string(x); }
static std::vector<std::string> words(const std::string& t) { std::istringstream i(t); std::vector<std::string> r; std::string w; while (i >> w) r.push_back(w); return r; }
typedef std::vector<std::string> W;
static const Node* kid(const Node& n, const char* nm, size_t k = 0) { CHECK(k < n.kids.size(), "no <%s> in <%s>", nm, n.name.c_str()); if (k >= n.kids.size()) throw Bad(); CHECK(n.kids[k].name == nm, "<%s> in place of <%s>", n.kids[k].name.c_str(), nm); return &n.kids[k]; }
static std::string att(const Node& n, const char* a) { auto i = n.at.find(a); return i == n.at.end() ? std::string("(none)") : i->second; }
static void same(const Node& n, const char* what, const W& w) {
	CHECK(n.name == "DataArray", "%s is <%s>", what, n.name.c_str()); CHECK(att(n, "format") == "ascii" && n.kids.empty(), "format of %s", what);
	W g = words(n.text); CHECK(g.size() == w.size(), "%s has %d values, expected %d", what, (int)g.size(), (int)w.size());
	for (size_t i = 0; i < g.size(); i++) CHECK(g[i] == w[i], "value %d of %s is %s, expected %s", (int)i, what, g[i].c_str(), w[i].c_str());
}
template <class T> struct Want { std::string name, type; int comp; W w; };
template <class T, Dimension K, class V> void round_(Mesh<T, K>& m, const std::map<std::string, V*>& pd, const std::map<std::string, V*>& cd, int opt) {
	char f[] = "/tmp/nsv26XXXXXX"; int fd = mkstemp(f); if (fd < 0) return; close(fd);
	VTKExporter<T, K>::write(f, m, pd, cd, opt);
	std::ifstream i(f); std::string doc((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); i.close(); unlink(f);
	H::CASE("dimension %d, %d vertices, %d elements, %d point arrays, %d cell arrays, options 0x%x, document <%.1200s>", (int)K, (int)m.vertices().size(), (int)m.elements().size(), (int)pd.size(), (int)cd.size(), opt, doc.c_str());
	Node d; bool ok = true; Reader r; r.s = doc;
	try { d = r.document(); } catch (Bad&) { ok = false; }
	CHECK(ok, "the document is not well formed"); if (!ok) return;
	CHECK(d.name == "VTKFile" && att(d, "type") == "UnstructuredGrid", "root element");
	const Node* p = kid(*kid(d, "UnstructuredGrid"), "Piece");
	CHECK(d.kids.size() == 1 && d.kids[0].kids.size() == 1 && p->kids.size() == 4, "structure");
	CHECK(att(*p, "NumberOfPoints") == show(m.vertices().size()), "NumberOfPoints %s", att(*p, "NumberOfPoints").c_str());
	CHECK(att(*p, "NumberOfCells") == show(m.elements().size()), "NumberOfCells %s", att(*p, "NumberOfCells").c_str());
	W w; for (auto v : m.vertices()) for (Dimension k = 0; k < 3; k++) w.push_back(k < K ? show(v->Vertex[k]) : std::string("0"));
	const Node* pts = kid(*p, "Points", 0); CHECK(pts->kids.size() == 1, "points"); CHECK(att(pts->kids[0], "NumberOfComponents") == "3", "components of a point"); same(pts->kids[0], "points", w);
	const Node* c = kid(*p, "Cells", 1); CHECK(c->kids.size() == 3, "cells");
	const char* nm[] = {"connectivity", "offsets", "types"}; W ws[3]; size_t off = 0;
	const int types[2][4] = {{0, 3, 5, 10}, {0, 21, 22, 24}};
	for (auto e : m.elements()) { for (auto v : e->DOFVertices) ws[0].push_back(show((size_t)v->GlobalIndex)); off += e->DOFVertices.size(); ws[1].push_back(show(off)); ws[2].push_back(show(types[(opt & VOO_IsQuadratic) ? 1 : 0][K])); }
	for (int k = 0; k < 3; k++) { CHECK(att(c->kids[k], "Name") == nm[k], "array %s", nm[k]); same(c->kids[k], nm[k], ws[k]); }
	std::vector<Want<T> > a[2];
	for (int q = 0; q < 2; q++) for (auto& x : (q ? cd : pd)) { Want<T> n{x.first, "Float32", 1, {}}; for (size_t j = 0; j < x.second->size(); j++) n.w.push_back(show(x.second->at(j))); a[q].push_back(n); }
	for (int b = 0; b < 2; b++) if (opt & (b ? VOO_VertexImplicitLabel : VOO_VertexBoundaryLabel)) { Want<T> n{b ? "ImplicitLabel" : "BoundaryLabel", "UInt8", 1, {}}; for (auto v : m.vertices()) n.w.push_back((v->Flags & (b ? MVF_Implicit : MVF_StrongBoundary)) ? "1" : "0"); a[0].push_back(n); }
	if (opt & VOO_ElementDeterminant) { Want<T> n{"ElementDeterminant", "Float32", 1, {}}; for (auto e : m.elements()) n.w.push_back(show(e->Element.determinant())); a[1].push_back(n); }
	if (opt & VOO_ElementMatrix) { Want<T> n{"ElementMatrix", "Float32", (int)(K * K), {}}; for (auto e : m.elements()) for (Dimension i2 = 0; i2 < K; i2++) for (Dimension j = 0; j < K; j++) n.w.push_back(show(e->Element.matrix().at(i2, j))); a[1].push_back(n); }
	if (opt & VOO_ElementGradient) { Want<T> n{"ElementGradient", "Float32", (int)K, {}}; for (auto e : m.elements()) { auto g = e->Element.gradient(0); for (Dimension j = 0; j < K; j++) n.w.push_back(show(g[j])); } a[1].push_back(n); }
	for (int q = 0; q < 2; q++) {
		const Node* n = kid(*p, q ? "CellData" : "PointData", 2 + q); CHECK(n->kids.size() == a[q].size(), "%d arrays in <%s>, expected %d", (int)n->kids.size(), n->name.c_str(), (int)a[q].size());
		if (!q && pd.size()) CHECK(att(*n, "Scalars") == pd.begin()->first, "active scalars %s", att(*n, "Scalars").c_str());
		for (size_t k = 0; k < a[q].size(); k++) {
			const Node& x = n->kids[k]; const Want<T>& y = a[q][k];
			CHECK(att(x, "Name") == y.name, "array %s in place of %s", att(x, "Name").c_str(), y.name.c_str()); CHECK(att(x, "type") == y.type, "type of %s is %s", y.name.c_str(), att(x, "type").c_str());
			CHECK(att(x, "NumberOfComponents") == (x.at.count("NumberOfComponents") ? show(y.comp) : std::string("(none)")) && (y.comp == 1 || x.at.count("NumberOfComponents")), "components of %s", y.name.c_str());
			same(x, y.name.c_str(), y.w);
		}
	}
}
template <class T, Dimension K, class V> void round(Mesh<T, K>& m, const std::map<std::string, V*>& pd, const std::map<std::string, V*>& cd, int opt) { try { round_<T, K, V>(m, pd, cd, opt); } catch (Bad&) { H::fail("structure of the document"); } }
static double val() { static const double x[] = {0, 1, -1, 0.5, 1e-7, 123456, -2.25e9, 1e20}; return H::ri(0, 4) ? rd(-9, 9) : x[H::ri(0, 7)]; }
template <class T, Dimension K> void fill(Mesh<T, K>& m, int nv, int ne, int nodes, bool prep) {
	for (int i = 0; i < nv; i++) { auto v = new MeshVertex<T, K>(); for (Dimension k = 0; k < K; k++) v->Vertex[k] = (T)val(); v->Flags = H::ri(0, 7); m.addVertex(v); }
	for (int i = 0; i < ne; i++) {
		auto e = new MeshElement<T, K>(); std::vector<MeshVertex<T, K>*> c;
		for (int tries = 0;; tries++) {
			c.clear(); while (c.size() < K + 1) { auto v = m.vertex(H::ri(0, nv - 1)); if (std::find(c.begin(), c.end(), v) == c.end()) c.push_back(v); }
			for (Dimension k = 0; k <= K; k++) e->Vertices[k] = c[k];
			if (!prep) break;
			for (Dimension k = 0; k <= K; k++) e->Element[k] = c[k]->Vertex;
			try { e->Element.prepare(); break; } catch (NSException&) { if (tries > 50) { delete e; return; } for (auto v : c) for (Dimension k = 0; k < K; k++) v->Vertex[k] = (T)rd(-9, 9); }
		}
		while ((int)c.size() < nodes) c.push_back(m.vertex(H::ri(0, nv - 1)));
		m.addElement(e); e->DOFVertices.assign(c.begin(), c.end());
	}
	if (prep) for (auto e : m.elements()) { for (Dimension k = 0; k <= K; k++) e->Element[k] = e->Vertices[k]->Vertex; try { e->Element.prepare(); } catch (NSException&) {} }
}
static std::string nm() { static const char* n[] = {"u", "temperature", "a b", "Z9", "x_1", "pressure"}; return n[H::ri(0, 5)]; }
template <class T, Dimension K> void meshes() {
	for (int it = 0; it < H::N(300); it++) {
		Mesh<T, K> m; int opt = H::ri(0, 31) | (H::ri(0, 1) ? VOO_IsQuadratic : 0); if (it < 12) opt = it < 5 ? 1 << it : it == 5 ? 0 : it == 6 ? VOO_IsQuadratic : opt;
		int nodes = (opt & VOO_IsQuadratic) ? (K == 1 ? 3 : K == 2 ? 6 : 10) : K + 1, nv = H::ri(K + 1, it % 10 ? 9 : 40), ne = H::ri(0, it % 10 ? 6 : 30);
		fill<T, K>(m, nv, ne, nodes, true);
		bool prepared = true; for (auto e : m.elements()) { T q = 0; for (Dimension k = 0; k < K; k++) q += std::abs(e->Element[0][k] - e->Vertices[0]->Vertex[k]); if (q != 0) prepared = false; }
		for (auto e : m.elements()) { try { e->Element.prepare(); } catch (NSException&) { prepared = false; } }
		if (!prepared) opt &= ~7;
		std::vector<DynamicVector<T> > store(8); std::map<std::string, DynamicVector<T>*> d[2]; int u = 0;
		for (int q = 0; q < 2; q++) for (int k = H::ri(0, 3); k-- > 0;) { auto& v = store[u++]; size_t n = q ? m.elements().size() : m.vertices().size(); if (!n) continue; v.resize(n); for (size_t j = 0; j < n; j++) v.set(j, (T)val()); d[q][nm()] = &v; }
		round<T, K, DynamicVector<T> >(m, d[0], d[1], opt);
	}
}
TEST(triangles) { meshes<double, 2>(); meshes<float, 2>(); }
TEST(empty_mesh_and_prepared_nodes) {
	{ Mesh<double, 2> m; std::map<std::string, DynamicVector<double>*> d; for (int o = 0; o < 32; o++) round<double, 2, DynamicVector<double> >(m, d, d, o); }
	for (int it = 0; it < 6; it++) {
		Mesh<double, 2> m; std::vector<MeshVertex<double, 2>*> v;
		for (int i = 0; i < 4; i++) { auto x = new MeshVertex<double, 2>(FixedVector<double, 2>{(double)(i % 2), (double)(i / 2) + it}); m.addVertex(x); v.push_back(x); }
		int t[2][3] = {{0, 1, 2}, {1, 3, 2}};
		for (auto& q : t) { auto e = new MeshElement<double, 2>(); for (int k = 0; k < 3; k++) e->Vertices[k] = v[q[k]]; m.addElement(e); }
		m.setupNeighbors(); m.prepare();
		if (it % 2) PolyShapePolicy<double, 2, 2>::prepareMesh(m); else PolyShapePolicy<double, 2, 1>::prepareMesh(m);
		std::map<std::string, DynamicVector<double>*> d; round<double, 2, DynamicVector<double> >(m, d, d, it % 2 ? VOO_IsQuadratic | VOO_VertexImplicitLabel | 7 : 15);
	}
}
HARNESS_MAIN
