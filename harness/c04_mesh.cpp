// C04: mesh files are read completely; faces, neighbours, bounds and texture coordinates match the file.
#include <array>
#include <cstdio>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <unistd.h>

#include "hc.hpp"

#include "Application.h"
#include "MeshGroup.h"
#include "Slice.h"
#include "mesh.h"
#include "settings/Settings.h"
#include "utils/Matrix4x3D.h"
#include "utils/Point3D.h"

using namespace h;
using cura::Point3LL;

namespace
{
struct V3
{
    double x, y, z;
};
struct Face
{
    std::array<int, 3> v;
    std::array<int, 3> uv{ -1, -1, -1 };
};
struct Model
{
    std::vector<V3> v;
    std::vector<std::vector<int>> polys; // polygons of vertices, counter-clockwise from outside
    bool closed = true;
};

// closed meshes of several kinds, with vertices at least 0.2 mm apart
Model make(Rng& g)
{
    Model m;
    const auto grid = [&](double v) { return double(std::round(v * 1000)) / 1000; };
    const int parts = int(g.in(1, 3));
    for (int k = 0; k < parts; ++k)
    {
        const double cx = g.u(-40, 40) + 200 * k, cy = g.u(-40, 40), z0 = g.u(0, 3), z1 = z0 + g.u(1, 20), r = g.u(2, 20);
        const int n = int(g.in(3, 14));
        const int base = int(m.v.size());
        for (int i = 0; i < n; ++i)
        {
            const double a = 2 * M_PI * i / n;
            m.v.push_back({ grid(cx + r * cos(a)), grid(cy + r * sin(a)), grid(z0) });
        }
        const double s = g.p(0.5) ? 1 : g.u(0.5, 1);
        for (int i = 0; i < n; ++i)
        {
            const double a = 2 * M_PI * i / n;
            m.v.push_back({ grid(cx + s * r * cos(a)), grid(cy + s * r * sin(a)), grid(z1) });
        }
        for (int i = 0; i < n; ++i)
            m.polys.push_back({ base + i, base + (i + 1) % n, base + n + (i + 1) % n, base + n + i });
        std::vector<int> top, bottom;
        for (int i = 0; i < n; ++i)
        {
            top.push_back(base + n + i);
            bottom.push_back(base + n - 1 - i);
        }
        m.polys.push_back(top);
        m.polys.push_back(bottom);
    }
    if (g.p(0.2))
    {
        m.polys.erase(m.polys.begin() + g.in(0, i64(m.polys.size()) - 1));
        m.closed = false;
    }
    for (size_t i = m.polys.size(); i > 1; --i)
        std::swap(m.polys[i - 1], m.polys[size_t(g.in(0, i64(i) - 1))]);
    return m;
}

std::string num(Rng& g, double v, int style)
{
    char b[64];
    switch (style)
    {
    case 0:
        snprintf(b, sizeof b, "%.6f", v);
        break;
    case 1:
        snprintf(b, sizeof b, "%.9e", v);
        break;
    case 2:
        snprintf(b, sizeof b, "%.3f", v);
        break;
    default:
        snprintf(b, sizeof b, "%+.4f", v);
    }
    (void)g;
    return b;
}
} // namespace

static void one(Run& R, Rng& g)
{
    static bool once = false;
    if (! once)
    {
        once = true;
        cura::Application::getInstance().current_slice_ = std::make_shared<cura::Slice>(1);
    }
    const Model m = make(g);
    std::vector<Face> faces;
    for (auto& p : m.polys)
        for (size_t i = 1; i + 1 < p.size(); ++i)
            faces.push_back({ { p[0], p[i], p[i + 1] }, { -1, -1, -1 } });
    // transformation
    cura::Matrix4x3D M; // identity
    if (g.p(0.4))
    {
        const double a = g.u(0, 6.28), s = g.u(0.5, 2);
        M.m[0][0] = s * cos(a);
        M.m[0][1] = s * sin(a);
        M.m[1][0] = -s * sin(a);
        M.m[1][1] = s * cos(a);
        M.m[2][2] = s;
        M.m[3][0] = g.u(-20, 20);
        M.m[3][1] = g.u(-20, 20);
        M.m[3][2] = g.u(0, 5);
    }
    const auto where = [&](const V3& v)
    {
        const double x = M.m[0][0] * v.x + M.m[1][0] * v.y + M.m[2][0] * v.z + M.m[3][0];
        const double y = M.m[0][1] * v.x + M.m[1][1] * v.y + M.m[2][1] * v.z + M.m[3][1];
        const double z = M.m[0][2] * v.x + M.m[1][2] * v.y + M.m[2][2] * v.z + M.m[3][2];
        return std::array<double, 3>{ x * 1000, y * 1000, z * 1000 };
    };
    char dir[] = "/tmp/vf-mesh-XXXXXX";
    if (! mkdtemp(dir))
    {
        R.inconclusive("no scratch directory");
        return;
    }
    const std::string d = dir;
    const int kind = int(g.in(0, 3)); // ASCII STL, binary STL, OBJ, binary STL with a file of texture coordinates
    const char* names[] = { "ASCII STL", "binary STL", "OBJ", "binary STL with texture coordinates" };
    std::string in = h::fmt("%s of %zu faces", names[kind], faces.size());
    std::string path;
    std::vector<std::array<double, 2>> uvs;
    int style = int(g.in(0, 3));
    if (kind == 0)
    {
        const std::string ext = g.pick(std::vector<std::string>{ ".stl", ".STL", ".Stl" }), nl = g.pick(std::vector<std::string>{ "\n", "\r\n", "\r" });
        path = d + "/m" + ext;
        in += h::fmt(", number style %d, line end of %zu", style, nl.size());
        std::string o;
        if (g.p(0.2))
            o += g.pick(std::vector<std::string>{ " ", "\n", "\t\n " });
        o += g.pick(std::vector<std::string>{ "solid", "SOLID", "Solid" }) + g.pick(std::vector<std::string>{ "", " name", " vertex of something" }) + nl;
        for (auto& f : faces)
        {
            const std::string ind = g.pick(std::vector<std::string>{ "", "  ", "\t" });
            o += ind + "facet normal 0 0 1" + nl + ind + ind + "outer loop" + nl;
            for (int k : f.v)
                o += ind + ind + "vertex " + num(g, m.v[k].x, style) + (g.p(0.1) ? "  " : " ") + num(g, m.v[k].y, style) + " " + num(g, m.v[k].z, style) + (g.p(0.1) ? " " : "") + nl;
            o += ind + "endloop" + nl + "endfacet" + nl;
        }
        o += "endsolid" + nl;
        std::ofstream(path, std::ios::binary) << o;
    }
    else if (kind == 1 || kind == 3)
    {
        path = d + "/m.stl";
        std::string o = g.p(0.3) && kind == 1 ? "solid made by some tool" : "binary";
        in += ", header \"" + o + "\"";
        o.resize(80, g.p(0.5) ? '\0' : ' ');
        const uint32_t n = uint32_t(g.p(0.1) ? g.in(0, 1000000) : i64(faces.size())); // a wrong count is only warned about
        o.append(reinterpret_cast<const char*>(&n), 4);
        for (auto& f : faces)
        {
            float b[12] = { 0, 0, 1 };
            for (int k = 0; k < 3; ++k)
            {
                b[3 + 3 * k] = float(m.v[f.v[k]].x);
                b[4 + 3 * k] = float(m.v[f.v[k]].y);
                b[5 + 3 * k] = float(m.v[f.v[k]].z);
            }
            o.append(reinterpret_cast<const char*>(b), 48);
            o.append(g.p(0.1) ? "ab" : std::string(2, '\0'));
        }
        std::ofstream(path, std::ios::binary) << o;
        if (kind == 3)
        {
            std::string u;
            const uint32_t nv = uint32_t(faces.size() * 3);
            u.append(reinterpret_cast<const char*>(&nv), 4);
            for (size_t i = 0; i < faces.size(); ++i)
                for (int k = 0; k < 3; ++k)
                {
                    const float c[2] = { float(g.u(0, 1)), float(g.u(0, 1)) };
                    u.append(reinterpret_cast<const char*>(c), 8);
                    faces[i].uv[k] = int(uvs.size());
                    uvs.push_back({ c[0], c[1] });
                }
            std::ofstream(d + "/m.uv", std::ios::binary) << u;
        }
    }
    else
    {
        const std::string nl = g.p(0.3) ? "\r\n" : "\n";
        path = d + "/m" + g.pick(std::vector<std::string>{ ".obj", ".OBJ" });
        std::string o = "# a comment" + nl + "o thing" + nl;
        const bool tex = g.p(0.6), norm = g.p(0.4), three = g.p(0.4), extra = g.p(0.2), tri = g.p(0.3);
        in += h::fmt(", number style %d, %s%s%s%s%s line end of %zu", style, tex ? "texture " : "", norm ? "normals " : "", three ? "3 components " : "", extra ? "weights " : "", tri ? "triangles" : "polygons", nl.size());
        for (auto& v : m.v)
            o += "v " + num(g, v.x, style) + " " + num(g, v.y, style) + " " + num(g, v.z, style) + (extra ? g.pick(std::vector<std::string>{ " 1.0", " 0.5 0.25 1" }) : "") + nl;
        std::vector<Face> nf;
        std::string fs;
        for (auto& p : m.polys)
        {
            std::vector<int> idx;
            for (size_t i = 0; i < p.size(); ++i)
            {
                idx.push_back(int(uvs.size()));
                if (tex)
                {
                    const double a = g.u(0, 1), b = g.u(0, 1);
                    o += "vt " + num(g, a, 0) + " " + num(g, b, 0) + (three ? " 0.0" : "") + nl;
                    uvs.push_back({ a, b });
                }
            }
            const auto ref = [&](size_t i)
            {
                std::string s = std::to_string(p[i] + 1);
                if (tex)
                    s += "/" + std::to_string(idx[i] + 1);
                if (norm)
                    s += (tex ? "/1" : "//1");
                return s;
            };
            if (tri)
                for (size_t i = 1; i + 1 < p.size(); ++i)
                    fs += "f " + ref(0) + " " + ref(i) + " " + ref(i + 1) + nl;
            else
            {
                fs += "f";
                for (size_t i = 0; i < p.size(); ++i)
                    fs += " " + ref(i);
                fs += nl;
            }
            for (size_t i = 1; i + 1 < p.size(); ++i)
                nf.push_back({ { p[0], p[i], p[i + 1] }, tex ? std::array<int, 3>{ idx[0], idx[i], idx[i + 1] } : std::array<int, 3>{ -1, -1, -1 } });
        }
        if (norm)
            o += "vn 0 0 1" + nl;
        std::ofstream(path, std::ios::binary) << o << "s off" << nl << fs;
        faces = nf;
    }
    cura::Settings S;
    for (auto k : { "texture_dummy" })
        S.add(k, "0");
    cura::MeshGroup G;
    const bool ok = cura::loadMeshIntoMeshGroup(&G, path, M, S);
    std::filesystem::remove_all(d);
    R.check(ok && G.meshes.size() == 1, "not read", in + ": a sound file was refused");
    if (! ok || G.meshes.size() != 1)
        return;
    const cura::Mesh& mesh = G.meshes[0];
    R.check(mesh.faces_.size() == faces.size(), "number of faces", in + h::fmt(": %zu faces read of %zu", mesh.faces_.size(), faces.size()));
    R.eval(g.next(), true);
    R.stat(std::string("faces read, ") + names[kind], double(mesh.faces_.size()));
    if (mesh.faces_.size() != faces.size())
        return;
    const double scale = 1; // positions are single precision in the files: 40 mm with 24 bits
    const double eps = (style == 2 ? 1.6 : 1.6) * scale + 0.1 + 30; // corners within 30 um are melded
    Point3LL lo(1LL << 60, 1LL << 60, 1LL << 60), hi(-(1LL << 60), -(1LL << 60), -(1LL << 60));
    for (size_t i = 0; i < faces.size(); ++i)
    {
        for (int k = 0; k < 3; ++k)
        {
            const auto e = where(m.v[faces[i].v[k]]);
            const Point3LL q = mesh.vertices_[mesh.faces_[i].vertex_index_[k]].p_;
            lo = Point3LL(std::min(lo.x_, q.x_), std::min(lo.y_, q.y_), std::min(lo.z_, q.z_));
            hi = Point3LL(std::max(hi.x_, q.x_), std::max(hi.y_, q.y_), std::max(hi.z_, q.z_));
            const double dd = std::max({ std::abs(q.x_ - e[0]), std::abs(q.y_ - e[1]), std::abs(q.z_ - e[2]) });
            // distinct corners are far apart, so the first one's position is kept, rounded
            R.check(dd <= 1.7 && dd <= eps, "position", in + h::fmt(": corner %d of face %zu is at %lld,%lld,%lld instead of %.1f,%.1f,%.1f", k, i, (long long)q.x_, (long long)q.y_, (long long)q.z_, e[0], e[1], e[2]));
            const auto& uv = mesh.faces_[i].uv_coordinates_[k];
            if (faces[i].uv[k] >= 0)
            {
                R.check(uv.has_value(), "texture coordinates", in + ": no texture coordinates");
                if (uv.has_value())
                    R.check(std::abs(uv->x_ - uvs[faces[i].uv[k]][0]) < 2e-6 && std::abs(uv->y_ - uvs[faces[i].uv[k]][1]) < 2e-6, "texture coordinates", in + h::fmt(": corner %d of face %zu has %g,%g instead of %g,%g", k, i, uv->x_, uv->y_, uvs[faces[i].uv[k]][0], uvs[faces[i].uv[k]][1]));
                R.stat("texture coordinates compared");
            }
            else
                R.check(! uv.has_value(), "texture coordinates", in + ": texture coordinates from nowhere");
        }
    }
    const auto bb = mesh.getAABB();
    R.check(bb.min_ == lo && bb.max_ == hi && mesh.min() == lo && mesh.max() == hi, "bounding box", in + ": the bounding box isn't that of the corners");
    // corners are shared: one vertex for each position
    std::set<int> used;
    for (auto& f : mesh.faces_)
        for (int k : f.vertex_index_)
            used.insert(k);
    std::set<int> expected;
    for (auto& f : faces)
        expected.insert(f.v.begin(), f.v.end());
    R.check(used.size() == expected.size() && mesh.vertices_.size() == expected.size(), "melding", in + h::fmt(": %zu corners, %zu used, of %zu", mesh.vertices_.size(), used.size(), expected.size()));
    // neighbours
    std::map<std::pair<int, int>, std::vector<int>> edges;
    for (size_t i = 0; i < mesh.faces_.size(); ++i)
        for (int k = 0; k < 3; ++k)
        {
            const int a = mesh.faces_[i].vertex_index_[k], b = mesh.faces_[i].vertex_index_[(k + 1) % 3];
            edges[{ std::min(a, b), std::max(a, b) }].push_back(int(i));
        }
    for (size_t i = 0; i < mesh.faces_.size(); ++i)
        for (int k = 0; k < 3; ++k)
        {
            const int a = mesh.faces_[i].vertex_index_[k], b = mesh.faces_[i].vertex_index_[(k + 1) % 3];
            const auto& e = edges[{ std::min(a, b), std::max(a, b) }];
            const int want = e.size() == 2 ? e[e[0] == int(i)] : -1;
            if (e.size() <= 2)
                R.check(mesh.faces_[i].connected_face_index_[k] == want, "neighbour", in + h::fmt(": across edge %d of face %zu is face %d instead of %d", k, i, mesh.faces_[i].connected_face_index_[k], want));
            R.stat("neighbours compared");
        }
    for (size_t v = 0; v < mesh.vertices_.size(); ++v)
    {
        std::vector<uint32_t> c = mesh.vertices_[v].connected_faces_, w;
        for (size_t i = 0; i < mesh.faces_.size(); ++i)
            for (int k : mesh.faces_[i].vertex_index_)
                if (k == int(v))
                    w.push_back(uint32_t(i));
        std::sort(c.begin(), c.end());
        R.check(c == w, "faces of a vertex", in + ": a vertex doesn't know its faces");
    }
}

int main(int argc, char** argv)
{
    return run_main(argc, argv, one);
}
