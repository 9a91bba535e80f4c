// Stand-in for tinyply 2.x (a git submodule that is not available offline).  It offers the part of the API
// tinymesh uses, with the same observable behaviour: ASCII, little- and big-endian binary files; requested
// properties are returned in the scalar type of the file; malformed files throw std::exception.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <istream>
#include <map>
#include <memory>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace tinyply {

enum class Type : uint8_t { INVALID, INT8, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 };

struct PropertyInfo {
    PropertyInfo() {}
    PropertyInfo(int s, std::string n) : stride(s), str(n) {}
    int stride = 0;
    std::string str;
};

namespace standin {
inline int sizeOf(Type t) {
    switch (t) {
    case Type::INT8:
    case Type::UINT8:
        return 1;
    case Type::INT16:
    case Type::UINT16:
        return 2;
    case Type::INT32:
    case Type::UINT32:
    case Type::FLOAT32:
        return 4;
    case Type::FLOAT64:
        return 8;
    default:
        return 0;
    }
}
inline const char *nameOf(Type t) {
    switch (t) {
    case Type::INT8:
        return "char";
    case Type::UINT8:
        return "uchar";
    case Type::INT16:
        return "short";
    case Type::UINT16:
        return "ushort";
    case Type::INT32:
        return "int";
    case Type::UINT32:
        return "uint";
    case Type::FLOAT32:
        return "float";
    case Type::FLOAT64:
        return "double";
    default:
        return "INVALID";
    }
}
inline Type typeOf(const std::string &s) {
    if (s == "int8" || s == "char") return Type::INT8;
    if (s == "uint8" || s == "uchar") return Type::UINT8;
    if (s == "int16" || s == "short") return Type::INT16;
    if (s == "uint16" || s == "ushort") return Type::UINT16;
    if (s == "int32" || s == "int") return Type::INT32;
    if (s == "uint32" || s == "uint") return Type::UINT32;
    if (s == "float32" || s == "float") return Type::FLOAT32;
    if (s == "float64" || s == "double") return Type::FLOAT64;
    return Type::INVALID;
}
inline void storeNumber(Type t, double x, uint8_t *dst) {
#define TP_PUT(T)                        \
    {                                    \
        T y = (T)x;                      \
        std::memcpy(dst, &y, sizeof(T)); \
    }                                    \
    break
    switch (t) {
    case Type::INT8:
        TP_PUT(int8_t);
    case Type::UINT8:
        TP_PUT(uint8_t);
    case Type::INT16:
        TP_PUT(int16_t);
    case Type::UINT16:
        TP_PUT(uint16_t);
    case Type::INT32:
        TP_PUT(int32_t);
    case Type::UINT32:
        TP_PUT(uint32_t);
    case Type::FLOAT32:
        TP_PUT(float);
    case Type::FLOAT64:
        TP_PUT(double);
    default:
        break;
    }
#undef TP_PUT
}
inline uint64_t readUnsigned(Type t, const uint8_t *src) {
    switch (t) {
    case Type::INT8:
    case Type::UINT8:
        return src[0];
    case Type::INT16:
    case Type::UINT16: {
        uint16_t v;
        std::memcpy(&v, src, 2);
        return v;
    }
    case Type::INT32:
    case Type::UINT32: {
        uint32_t v;
        std::memcpy(&v, src, 4);
        return v;
    }
    default:
        throw std::runtime_error("invalid list size type");
    }
}
}  // namespace standin

class Buffer {
    std::vector<uint8_t> data_;

public:
    Buffer() {}
    Buffer(const size_t size) : data_(size) {}
    Buffer(const uint8_t *ptr, size_t size) : data_(ptr, ptr + size) {}
    uint8_t *get() { return data_.data(); }
    const uint8_t *get_const() const { return data_.data(); }
    size_t size_bytes() const { return data_.size(); }
};

struct PlyData {
    Type t = Type::INVALID;
    Buffer buffer;
    size_t count = 0;
    bool isList = false;
};

struct PlyProperty {
    PlyProperty(Type type, std::string n) : name(n), propertyType(type) {}
    PlyProperty(Type list, Type type, std::string n, size_t c)
        : name(n), propertyType(type), isList(true), listType(list), listCount(c) {}
    std::string name;
    Type propertyType = Type::INVALID;
    bool isList = false;
    Type listType = Type::INVALID;
    size_t listCount = 0;
};

struct PlyElement {
    PlyElement() {}
    PlyElement(const std::string &n, size_t c) : name(n), size(c) {}
    std::string name;
    size_t size = 0;
    std::vector<PlyProperty> properties;
};

struct PlyFile {
    bool parse_header(std::istream &is) {
        elements_.clear();
        std::string line;
        if (!std::getline(is, line)) return false;
        strip(line);
        if (line != "ply") return false;
        bool ok = false;
        while (std::getline(is, line)) {
            strip(line);
            std::istringstream ls(line);
            std::string tok;
            if (!(ls >> tok)) continue;
            if (tok == "ply" || tok == "") continue;
            if (tok == "comment") {
                comments_.push_back(line.size() > 8 ? line.substr(8) : "");
            } else if (tok == "obj_info") {
                info_.push_back(line.size() > 9 ? line.substr(9) : "");
            } else if (tok == "format") {
                std::string s;
                ls >> s;
                binary_ = s != "ascii";
                bigEndian_ = s == "binary_big_endian";
            } else if (tok == "element") {
                std::string n;
                size_t c = 0;
                ls >> n >> c;
                elements_.emplace_back(n, c);
            } else if (tok == "property") {
                if (elements_.empty()) throw std::runtime_error("no elements defined; file is malformed");
                std::string ty;
                ls >> ty;
                if (ty == "list") {
                    std::string ct, it, n;
                    ls >> ct >> it >> n;
                    elements_.back().properties.emplace_back(standin::typeOf(ct), standin::typeOf(it), n, 0);
                } else {
                    std::string n;
                    ls >> n;
                    elements_.back().properties.emplace_back(standin::typeOf(ty), n);
                }
            } else if (tok == "end_header") {
                ok = true;
                break;
            } else {
                return false;
            }
        }
        return ok;
    }

    void read(std::istream &is) {
        for (auto &r : requests_) r.second->bytes.clear();
        for (const auto &el : elements_) {
            for (size_t i = 0; i < el.size; i++) {
                for (const auto &p : el.properties) {
                    Request *req = find(el.name, p.name);
                    size_t n = 1;
                    if (p.isList) {
                        uint8_t tmp[8] = { 0 };
                        readScalar(is, p.listType, tmp);
                        n = (size_t)standin::readUnsigned(p.listType, tmp);
                    }
                    if (req && p.isList && req->hint > 0 && n != req->hint) {
                        throw std::runtime_error("list of unexpected length");
                    }
                    for (size_t k = 0; k < n; k++) {
                        uint8_t tmp[8] = { 0 };
                        readScalar(is, p.propertyType, tmp);
                        if (req) req->store(p.name, tmp, standin::sizeOf(p.propertyType));
                    }
                }
            }
        }
        for (auto &r : requests_) {
            r.second->out->buffer = Buffer(r.second->bytes.data(), r.second->bytes.size());
        }
    }

    void write(std::ostream &os, bool isBinary) {
        os << "ply\n" << (isBinary ? "format binary_little_endian 1.0\n" : "format ascii 1.0\n");
        for (const auto &c : comments_) os << "comment " << c << "\n";
        for (const auto &el : elements_) {
            os << "element " << el.name << " " << el.size << "\n";
            for (const auto &p : el.properties) {
                if (p.isList) {
                    os << "property list " << standin::nameOf(p.listType) << " " << standin::nameOf(p.propertyType) << " "
                       << p.name << "\n";
                } else {
                    os << "property " << standin::nameOf(p.propertyType) << " " << p.name << "\n";
                }
            }
        }
        os << "end_header\n";
        for (const auto &el : elements_) {
            std::map<const Output *, size_t> cursor;
            for (size_t i = 0; i < el.size; i++) {
                for (const auto &p : el.properties) {
                    const Output *o = findOut(el.name, p.name);
                    if (!o) throw std::runtime_error("no data for property");
                    size_t &c = cursor[o];
                    size_t n = p.isList ? p.listCount : 1;
                    if (p.isList) {
                        uint8_t tmp[8] = { 0 };
                        standin::storeNumber(p.listType, (double)p.listCount, tmp);
                        writeScalar(os, p.listType, tmp, isBinary);
                    }
                    for (size_t k = 0; k < n; k++) {
                        writeScalar(os, p.propertyType, o->data + c, isBinary);
                        c += standin::sizeOf(p.propertyType);
                    }
                }
                if (!isBinary) os << "\n";
            }
        }
    }

    std::vector<PlyElement> get_elements() const { return elements_; }
    std::vector<std::string> get_info() const { return info_; }
    std::vector<std::string> &get_comments() { return comments_; }
    bool is_binary_file() const { return binary_; }

    std::shared_ptr<PlyData> request_properties_from_element(const std::string &elementKey,
                                                             const std::vector<std::string> propertyKeys,
                                                             const uint32_t list_size_hint = 0) {
        if (elements_.empty()) throw std::runtime_error("header had no elements defined. malformed file?");
        if (elementKey.empty()) throw std::invalid_argument("`elementKey` argument is empty");
        if (propertyKeys.empty()) throw std::invalid_argument("`propertyKeys` argument is empty");
        const PlyElement *el = nullptr;
        for (const auto &e : elements_) {
            if (e.name == elementKey) el = &e;
        }
        if (!el) throw std::invalid_argument("the element key was not found in the header: " + elementKey);
        auto req = std::make_shared<Request>();
        req->element = elementKey;
        req->keys = propertyKeys;
        req->hint = list_size_hint;
        req->out = std::make_shared<PlyData>();
        for (const auto &k : propertyKeys) {
            const PlyProperty *pr = nullptr;
            for (const auto &p : el->properties) {
                if (p.name == k) pr = &p;
            }
            if (!pr) throw std::invalid_argument("the following property keys were not found in the header: " + k);
            if (req->out->t != Type::INVALID && req->out->t != pr->propertyType) {
                throw std::invalid_argument("property types of " + elementKey + " differ");
            }
            if (find(elementKey, k)) {
                throw std::invalid_argument("element-property key has already been requested: " + elementKey + " " + k);
            }
            req->out->t = pr->propertyType;
            req->out->isList = pr->isList;
        }
        req->out->count = el->size;
        for (const auto &k : propertyKeys) requests_[elementKey + "\n" + k] = req;
        return req->out;
    }

    void add_properties_to_element(const std::string &elementKey, const std::vector<std::string> propertyKeys,
                                   const Type type, const size_t count, const uint8_t *data, const Type listType,
                                   const size_t listCount) {
        PlyElement *el = nullptr;
        for (auto &e : elements_) {
            if (e.name == elementKey) el = &e;
        }
        if (!el) {
            elements_.emplace_back(elementKey, count);
            el = &elements_.back();
        }
        auto out = std::make_shared<Output>();
        out->data = data;
        for (const auto &k : propertyKeys) {
            if (listType == Type::INVALID) {
                el->properties.emplace_back(type, k);
            } else {
                el->properties.emplace_back(listType, type, k, listCount);
            }
            outputs_[elementKey + "\n" + k] = out;
        }
    }

private:
    struct Request {
        std::string element;
        std::vector<std::string> keys;
        uint32_t hint = 0;
        std::shared_ptr<PlyData> out;
        std::vector<uint8_t> bytes;
        // Values are stored in the order of the file, as the original does.
        void store(const std::string &, const uint8_t *src, int n) { bytes.insert(bytes.end(), src, src + n); }
    };
    struct Output {
        const uint8_t *data = nullptr;
    };

    static void strip(std::string &s) {
        while (!s.empty() && (s.back() == '\r' || s.back() == ' ' || s.back() == '\t')) s.pop_back();
    }
    Request *find(const std::string &e, const std::string &p) const {
        auto it = requests_.find(e + "\n" + p);
        return it == requests_.end() ? nullptr : it->second.get();
    }
    const Output *findOut(const std::string &e, const std::string &p) const {
        auto it = outputs_.find(e + "\n" + p);
        return it == outputs_.end() ? nullptr : it->second.get();
    }
    void readScalar(std::istream &is, Type t, uint8_t *dst) const {
        const int n = standin::sizeOf(t);
        if (n == 0) throw std::runtime_error("invalid property type");
        if (binary_) {
            is.read(reinterpret_cast<char *>(dst), n);
            if (!is) throw std::runtime_error("unexpected EOF. malformed file?");
            if (bigEndian_) {
                for (int i = 0; i < n / 2; i++) std::swap(dst[i], dst[n - 1 - i]);
            }
        } else {
            std::string tok;
            if (!(is >> tok)) throw std::runtime_error("unexpected EOF. malformed file?");
            standin::storeNumber(t, std::strtod(tok.c_str(), nullptr), dst);
        }
    }
    static void writeScalar(std::ostream &os, Type t, const uint8_t *src, bool isBinary) {
        const int n = standin::sizeOf(t);
        if (isBinary) {
            os.write(reinterpret_cast<const char *>(src), n);
            return;
        }
        if (t == Type::FLOAT32) {
            float f;
            std::memcpy(&f, src, 4);
            os << f << " ";
        } else if (t == Type::FLOAT64) {
            double d;
            std::memcpy(&d, src, 8);
            os << d << " ";
        } else {
            os << standin::readUnsigned(t, src) << " ";
        }
    }

    bool binary_ = false;
    bool bigEndian_ = false;
    std::vector<std::string> comments_, info_;
    std::vector<PlyElement> elements_;
    std::map<std::string, std::shared_ptr<Request>> requests_;
    std::map<std::string, std::shared_ptr<Output>> outputs_;
};

}  // namespace tinyply
