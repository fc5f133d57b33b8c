// C27: node/element files and object files: what they describe is what is loaded; malformed files are rejected
#include "common.h"
#define TINYOBJLOADER_IMPLEMENTATION
#include "loader/MeshObjLoader.h"
#include "loader/MeshTriangleLoader.h"
#include <sstream>
#include <algorithm>
using namespace NS;
struct Desc { std::vector<std::pair<double, double> > v; std::vector<std::vector<int> > e; };
// part of a planar grid triangulation, vertices in random order
static Desc grid(int mx) {
	int nx = H::ri(1, mx), ny = H::ri(1, mx); Desc d; std::vector<int> p((nx + 1) * (ny + 1));
	for (size_t i = 0; i < p.size(); i++) p[i] = i;
	for (size_t i = p.size(); i-- > 1;) std::swap(p[i], p[H::ri(0, i)]);
	d.v.resize(p.size()); double s = std::pow(10.0, H::ri(-3, 3)), ox = H::ri(-5, 5), oy = H::ri(-5, 5) * 0.37;
	for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) d.v[p[j * (nx + 1) + i]] = std::make_pair((double)(float)(ox + s * (i + H::ri(-30, 30) / 100.0)), (double)(float)(oy + s * (j + H::ri(-30, 30) / 100.0)));
	for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) for (int k = 0; k < 2; k++) {
		if (!H::ri(0, 5) && d.e.size()) continue;
		int a = p[j * (nx + 1) + i], b = p[j * (nx + 1) + i + 1], c = p[(j + 1) * (nx + 1) + i], e = p[(j + 1) * (nx + 1) + i + 1];
		std::vector<int> t = k ? std::vector<int>{b, e, c} : std::vector<int>{a, b, c};
		std::rotate(t.begin(), t.begin() + H::ri(0, 2), t.end()); if (H::ri(0, 1)) std::swap(t[0], t[1]);
		d.e.push_back(t);
	}
	for (size_t i = d.e.size(); i-- > 1;) std::swap(d.e[i], d.e[H::ri(0, i)]);
	return d;
}
static std::string num(double x) { char b[64]; snprintf(b, 64, H::ri(0, 1) ? "%.17g" : "%.17e", x); return b; }
static const char* ws() { static const char* w[] = {" ", "  ", "\t", " \t ", "   "}; return w[H::ri(0, 4)]; }
static std::string noise() { static const char* w[] = {"", "", "", "\n", "   \n", "# comment 1 2 3\n", "\t# 7\n", "\n\n"}; return w[H::ri(0, 7)]; }
typedef std::vector<std::vector<std::string> > Rows;
static std::string text(const Rows& r) {
	std::string o;
	for (auto& l : r) { o += noise(); if (!H::ri(0, 2)) o += ws(); for (size_t i = 0; i < l.size(); i++) o += (i ? ws() : "") + l[i]; if (!H::ri(0, 3)) o += ws(); if (!H::ri(0, 3)) o += " # note"; o += "\n"; }
	if (r.size() && !H::ri(0, 3)) o.erase(o.size() - 1); else o += noise();
	return o;
}
static Rows nodeRows(const Desc& d, int base, int extra) {
	Rows r; r.push_back({std::to_string(d.v.size()), "2", std::to_string(extra), "0"}); if (H::ri(0, 1)) r[0].resize(2);
	for (size_t i = 0; i < d.v.size(); i++) { r.push_back({std::to_string(i + base), num(d.v[i].first), num(d.v[i].second)}); for (int k = 0; k < extra; k++) r.back().push_back(num(H::ri(-9, 9) * 0.5)); }
	return r;
}
static Rows eleRows(const Desc& d, int base, int extra) {
	Rows r; r.push_back({std::to_string(d.e.size()), "3", std::to_string(extra)}); if (H::ri(0, 1)) r[0].resize(2);
	for (size_t i = 0; i < d.e.size(); i++) { r.push_back({std::to_string(i + base)}); for (int c : d.e[i]) r.back().push_back(std::to_string(c + base)); for (int k = 0; k < extra; k++) r.back().push_back(std::to_string(H::ri(0, 9))); }
	return r;
}
template <class T> void same(const Mesh<T, 2>& m, const Desc& d) {
	CHECK(m.vertices().size() == d.v.size(), "%d vertices loaded", (int)m.vertices().size());
	CHECK(m.elements().size() == d.e.size(), "%d elements loaded", (int)m.elements().size());
	for (size_t i = 0; i < d.v.size(); i++) {
		auto v = m.vertex(i);
		CHECK(v->GlobalIndex == i, "vertex %d has index %d", (int)i, (int)v->GlobalIndex);
		CHECK(v->Vertex[0] == (T)d.v[i].first && v->Vertex[1] == (T)d.v[i].second, "vertex %d is at %.9g %.9g, the file says %.9g %.9g", (int)i, (double)v->Vertex[0], (double)v->Vertex[1], d.v[i].first, d.v[i].second);
	}
	for (size_t k = 0; k < d.e.size(); k++) for (int j = 0; j < 3; j++) {
		auto e = m.element(k);
		CHECK(e->Vertices[j] == m.vertex(d.e[k][j]), "corner %d of element %d is not vertex %d", j, (int)k, d.e[k][j]);
		for (int c = 0; c < 2; c++) CHECK(e->Element[j][c] == e->Vertices[j]->Vertex[c], "element %d is not at its vertices", (int)k);
		CHECK(std::count(e->Vertices[j]->Elements.begin(), e->Vertices[j]->Elements.end(), e) == 1, "element %d not registered with its corner", (int)k);
	}
	std::map<std::pair<int, int>, int> f;
	for (auto& e : d.e) for (int j = 0; j < 3; j++) f[std::make_pair(std::min(e[j], e[(j + 1) % 3]), std::max(e[j], e[(j + 1) % 3]))]++;
	CHECK(m.edges().size() == f.size(), "%d edges for %d faces", (int)m.edges().size(), (int)f.size());
	for (auto e : m.elements()) for (int j = 0; j < 3; j++) CHECK(e->Neighbors[j], "a face has no edge");
}
static void show(const std::string& a, const std::string& b) { H::CASE("node file <%.1500s> element file <%.1500s>", a.c_str(), b.c_str()); }
template <class T> void good() {
	for (int it = 0; it < H::N(60); it++) {
		Desc d = grid(it % 20 == 0 ? 9 : 3); int base = H::ri(0, 1);
		std::string a = text(nodeRows(d, base, H::ri(0, 2))), b = text(eleRows(d, base, H::ri(0, 2))); show(a, b);
		bool ok = true;
		try {
			if (it % 10) { auto m = MeshTriangleLoader<T>::loadString(a, b); same<T>(m, d); }
			else {
				char fa[] = "/tmp/nsv27aXXXXXX", fb[] = "/tmp/nsv27bXXXXXX"; int x = mkstemp(fa), y = mkstemp(fb);
				if (x >= 0 && y >= 0 && write(x, a.data(), a.size()) == (ssize_t)a.size() && write(y, b.data(), b.size()) == (ssize_t)b.size()) { try { auto m = MeshTriangleLoader<T>::loadFile(fa, fb); same<T>(m, d); } catch (NSException&) { ok = false; } }
				close(x); close(y); unlink(fa); unlink(fb);
			}
		} catch (NSException&) { ok = false; }
		CHECK(ok, "a well-formed file is rejected");
	}
}
TEST(triangle_files_double) { good<double>(); }
TEST(triangle_files_float) { good<float>(); }
static void reject(const std::string& a, const std::string& b, const char* what) {
	show(a, b); bool ok = false;
	try { MeshTriangleLoader<double>::loadString(a, b); ok = true; } catch (H::Stop&) { throw; } catch (...) {}
	CHECK(!ok, "accepted although %s", what);
}
TEST(triangle_files_malformed) {
	for (int it = 0; it < H::N(150); it++) {
		Desc d = grid(3); int base = H::ri(0, 1); Rows a = nodeRows(d, base, 0), b = eleRows(d, base, 0); bool node = H::ri(0, 1); Rows& r = node ? a : b; size_t k = H::ri(1, r.size() - 1); const char* w = "";
		switch (it % 17) {
		case 0: r.erase(r.begin() + k); w = "an entry is missing"; break;
		case 1: r.insert(r.begin() + k, r[k]); w = "an entry is listed twice"; break;
		case 2: r.push_back(r.back()); r.back()[0] = std::to_string(r.size() - 2 + base); w = "there are more entries than declared"; if (!node) continue; break;
		case 3: r.pop_back(); w = "there are fewer entries than declared"; break;
		case 4: r[k][H::ri(0, r[k].size() - 1)] = "abc"; w = "a field is not a number"; break;
		case 5: r[k].pop_back(); w = "a field is missing"; break;
		case 6: r[0][1] = node ? "3" : "6"; w = "the dimension or element order differs"; break;
		case 7: r[0][0] = "0"; w = "no entries are declared"; break;
		case 8: r.erase(r.begin()); if (r[0].size() > 1 && r[0][1] == (node ? "2" : "3")) continue; w = "the header is missing"; break;
		case 9: r.clear(); w = "the file is empty"; break;
		case 10: b[H::ri(1, b.size() - 1)][H::ri(1, 3)] = std::to_string(d.v.size() + base + (H::ri(0, 1) ? 0 : H::ri(1, 100000))); w = "a corner is not a vertex"; break;
		case 11: b[H::ri(1, b.size() - 1)][H::ri(1, 3)] = H::ri(0, 1) ? "-1" : "18446744073709551615"; w = "a corner is not a vertex"; break;
		case 12: { auto& l = b[H::ri(1, b.size() - 1)]; int i = H::ri(0, 2); l[1 + i] = l[1 + (i + 1) % 3]; w = "an element has a repeated corner"; break; }
		case 13: r[0][1] = "x"; w = "the header is not numeric"; break;
		case 14: r[0].resize(1); w = "the header is too short"; break;
		case 15: if (base != 1) continue; b[H::ri(1, b.size() - 1)][H::ri(1, 3)] = "0"; w = "a corner is vertex 0 of a file counting from 1"; break;
		case 16: r[k][0] = std::to_string(base + (int)k + H::ri(0, 3)); if (r[k][0] == std::to_string(base + (int)k - 1)) continue; w = "the entries are not numbered in order"; break;
		}
		reject(text(a), text(b), w);
	}
}
TEST(triangle_files_damaged) { // no crash whatever the text
	for (int it = 0; it < H::N(300); it++) {
		Desc d = grid(3); int base = H::ri(0, 1); std::string a = text(nodeRows(d, base, 0)), b = text(eleRows(d, base, 0));
		for (int k = H::ri(1, 3); k-- > 0;) {
			std::string& s = H::ri(0, 1) ? a : b; if (s.empty()) continue; size_t p = H::ri(0, s.size() - 1);
			switch (H::ri(0, 3)) { case 0: s.erase(p, H::ri(1, 6)); break; case 1: s[p] = "0123456789.-# \nx"[H::ri(0, 15)]; break; case 2: s.insert(p, 1, "0123456789.-# \nx"[H::ri(0, 15)]); break; case 3: s.resize(p); }
		}
		show(a, b);
		try {
			auto m = MeshTriangleLoader<double>::loadString(a, b);
			for (auto e : m.elements()) for (int j = 0; j < 3; j++) CHECK(std::find(m.vertices().begin(), m.vertices().end(), e->Vertices[j]) != m.vertices().end(), "an element uses a vertex outside the mesh");
		} catch (H::Stop&) { throw; } catch (...) {}
	}
}
// ---- object files
static std::string obj(const Desc& d, int xi, int yi, bool rel) {
	std::string o = noise();
	for (auto& v : d.v) { double c[3] = {0.125, 0.25, 0.5}; c[xi] = v.first; c[yi] = v.second; o += "v " + num(c[0]) + " " + num(c[1]) + " " + num(c[2]) + "\n" + noise(); }
	if (H::ri(0, 1)) o += "o part\n";
	for (auto& e : d.e) { o += "f"; for (int c : e) o += " " + std::to_string(rel ? c - (int)d.v.size() : c + 1); o += "\n"; }
	return o;
}
static Desc used(const Desc& d) { // vertices in order of first use by a face
	Desc r; std::vector<int> pos(d.v.size(), -1);
	for (auto& e : d.e) { std::vector<int> t; for (int c : e) { if (pos[c] < 0) { pos[c] = r.v.size(); r.v.push_back(d.v[c]); } t.push_back(pos[c]); } r.e.push_back(t); }
	return r;
}
template <class T, Index yI, Index xI> void objgood() {
	for (int it = 0; it < H::N(40); it++) {
		Desc d = grid(it % 20 == 0 ? 9 : 3); for (auto& v : d.v) { v.first = (float)(std::floor(v.first * 1024) / 1024); v.second = (float)(std::floor(v.second * 1024) / 1024); }
		std::string s = obj(d, xI, yI, it % 3 == 0); H::CASE("object file <%.3000s>", s.c_str()); bool ok = true;
		try { auto m = MeshObjLoader<T, yI, xI>::loadString(s); Desc u = used(d);
			CHECK(m.vertices().size() == u.v.size() && m.elements().size() == u.e.size(), "%d vertices and %d elements loaded", (int)m.vertices().size(), (int)m.elements().size());
			for (size_t i = 0; i < u.v.size(); i++) { // the external reader rounds numbers
				CHECK(H::close((double)m.vertex(i)->Vertex[0], u.v[i].first, 1e-5) && H::close((double)m.vertex(i)->Vertex[1], u.v[i].second, 1e-5), "vertex %d is at %.9g %.9g, the file says %.9g %.9g", (int)i, (double)m.vertex(i)->Vertex[0], (double)m.vertex(i)->Vertex[1], u.v[i].first, u.v[i].second);
				u.v[i].first = m.vertex(i)->Vertex[0]; u.v[i].second = m.vertex(i)->Vertex[1];
			}
			same<T>(m, u); } catch (NSException&) { ok = false; }
		CHECK(ok, "a well-formed file is rejected");
	}
}
TEST(object_files) { objgood<double, 1, 0>(); objgood<float, 1, 0>(); objgood<double, 2, 0>(); objgood<double, 2, 1>(); objgood<double, 0, 1>(); }
TEST(object_files_malformed) {
	for (int it = 0; it < H::N(100); it++) {
		Desc d = grid(3); std::vector<int>& e = d.e[H::ri(0, d.e.size() - 1)]; const char* w = "";
		switch (it % 5) {
		case 0: e[H::ri(0, 2)] = d.v.size() + (H::ri(0, 1) ? 0 : H::ri(1, 100000)); w = "a face uses a missing vertex"; break;
		case 1: e[H::ri(0, 2)] = -(int)d.v.size() - H::ri(3, 1000); w = "a face uses a missing vertex"; break;
		case 2: e[1] = e[0]; w = "a face has a repeated corner"; break;
		case 3: e.pop_back(); if (H::ri(0, 1)) e.pop_back(); w = "a face has fewer than three corners"; break;
		case 4: e[H::ri(0, 2)] = -1; w = "a face uses vertex 0"; break;
		}
		std::string s = obj(d, 0, 1, false); H::CASE("object file <%.3000s>", s.c_str()); bool ok = false;
		try { MeshObjLoader<double>::loadString(s); ok = true; } catch (H::Stop&) { throw; } catch (...) {}
		CHECK(!ok, "accepted although %s", w);
	}
}
HARNESS_MAIN
