// Stand-in for tree-gen's CBOR support (same calls; a subset of CBOR is written).
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <stdexcept>
#include <string>
#include <variant>
#include <vector>

namespace tree::cbor {

using Binary = std::string;

inline void put_head(std::string& out, unsigned major, std::uint64_t v) {
    auto m = static_cast<unsigned char>(major << 5);
    if (v < 24) {
        out.push_back(static_cast<char>(m | v));
        return;
    }
    int bytes = v < 0x100 ? 1 : v < 0x10000 ? 2 : v < 0x100000000ull ? 4 : 8;
    out.push_back(static_cast<char>(m | (bytes == 1 ? 24 : bytes == 2 ? 25 : bytes == 4 ? 26 : 27)));
    for (int i = bytes - 1; i >= 0; --i) {
        out.push_back(static_cast<char>((v >> (8 * i)) & 0xff));
    }
}

class MapWriter;
class ArrayWriter;

class StructureWriter {
protected:
    std::string* out_;
    bool open_ = true;
    explicit StructureWriter(std::string& out)
    : out_{ &out } {}
    void w_int(std::int64_t v) {
        if (v >= 0) {
            put_head(*out_, 0, static_cast<std::uint64_t>(v));
        } else {
            put_head(*out_, 1, ~static_cast<std::uint64_t>(v));
        }
    }
    void w_str(const std::string& s) {
        put_head(*out_, 3, s.size());
        *out_ += s;
    }
    void w_bin(const std::string& s) {
        put_head(*out_, 2, s.size());
        *out_ += s;
    }
    void w_bool(bool b) { out_->push_back(static_cast<char>(b ? 0xF5 : 0xF4)); }
    void w_null() { out_->push_back(static_cast<char>(0xF6)); }
    void w_float(double d) {
        std::uint64_t u;
        std::memcpy(&u, &d, 8);
        out_->push_back(static_cast<char>(0xFB));
        for (int i = 7; i >= 0; --i) {
            out_->push_back(static_cast<char>((u >> (8 * i)) & 0xff));
        }
    }

public:
    void close() {
        if (open_) {
            out_->push_back(static_cast<char>(0xFF));
            open_ = false;
        }
    }
};

class ArrayWriter : public StructureWriter {
public:
    explicit ArrayWriter(std::string& out)
    : StructureWriter(out) {
        out.push_back(static_cast<char>(0x9F));
    }
    void append_null() { w_null(); }
    void append_bool(bool v) { w_bool(v); }
    void append_int(std::int64_t v) { w_int(v); }
    void append_float(double v) { w_float(v); }
    void append_string(const std::string& v) { w_str(v); }
    void append_binary(const std::string& v) { w_bin(v); }
    ArrayWriter append_array() { return ArrayWriter(*out_); }
    MapWriter append_map();
};

class MapWriter : public StructureWriter {
public:
    explicit MapWriter(std::string& out)
    : StructureWriter(out) {
        out.push_back(static_cast<char>(0xBF));
    }
    void append_null(const std::string& k) { w_str(k), w_null(); }
    void append_bool(const std::string& k, bool v) { w_str(k), w_bool(v); }
    void append_int(const std::string& k, std::int64_t v) { w_str(k), w_int(v); }
    void append_float(const std::string& k, double v) { w_str(k), w_float(v); }
    void append_string(const std::string& k, const std::string& v) { w_str(k), w_str(v); }
    void append_binary(const std::string& k, const std::string& v) { w_str(k), w_bin(v); }
    ArrayWriter append_array(const std::string& k) {
        w_str(k);
        return ArrayWriter(*out_);
    }
    MapWriter append_map(const std::string& k) {
        w_str(k);
        return MapWriter(*out_);
    }
};

inline MapWriter ArrayWriter::append_map() {
    return MapWriter(*out_);
}

class Reader;
using MapReader = std::map<std::string, Reader>;
using ArrayReader = std::vector<Reader>;

class Reader {
public:
    enum class Kind { Null, Bool, Int, Float, Str, Bin, Arr, Map };
    Kind kind = Kind::Null;
    bool b = false;
    std::int64_t i = 0;
    double d = 0;
    std::string s;
    std::vector<Reader> arr;
    std::map<std::string, Reader> map;

    [[nodiscard]] bool is_null() const { return kind == Kind::Null; }
    [[nodiscard]] bool as_bool() const { return need(Kind::Bool), b; }
    [[nodiscard]] std::int64_t as_int() const { return need(Kind::Int), i; }
    [[nodiscard]] double as_float() const { return need(Kind::Float), d; }
    [[nodiscard]] std::string as_string() const { return need(Kind::Str), s; }
    [[nodiscard]] std::string as_binary() const { return need(Kind::Bin), s; }
    [[nodiscard]] ArrayReader as_array() const { return need(Kind::Arr), arr; }
    [[nodiscard]] MapReader as_map() const { return need(Kind::Map), map; }

    static Reader parse(const std::string& in) {
        size_t pos = 0;
        return parse(in, pos);
    }

private:
    void need(Kind k) const {
        if (kind != k) {
            throw std::runtime_error("unexpected CBOR type");
        }
    }
    static unsigned char byte(const std::string& in, size_t pos) {
        return static_cast<unsigned char>(in.at(pos));
    }
    static Reader parse(const std::string& in, size_t& pos) {
        Reader r;
        unsigned char h = byte(in, pos++);
        unsigned major = h >> 5, info = h & 31;
        std::uint64_t v = info;
        bool indef = info == 31;
        if (major == 7) {
            if (h == 0xF4 || h == 0xF5) {
                r.kind = Kind::Bool;
                r.b = h == 0xF5;
            } else if (h == 0xFB) {
                std::uint64_t u = 0;
                for (int k = 0; k < 8; ++k) {
                    u = (u << 8) | byte(in, pos++);
                }
                r.kind = Kind::Float;
                std::memcpy(&r.d, &u, 8);
            }
            return r;
        }
        if (info >= 24 && info <= 27) {
            int n = 1 << (info - 24);
            v = 0;
            for (int k = 0; k < n; ++k) {
                v = (v << 8) | byte(in, pos++);
            }
        }
        switch (major) {
            case 0: r.kind = Kind::Int, r.i = static_cast<std::int64_t>(v); break;
            case 1: r.kind = Kind::Int, r.i = static_cast<std::int64_t>(~v); break;
            case 2:
            case 3:
                r.kind = major == 2 ? Kind::Bin : Kind::Str;
                r.s = in.substr(pos, v);
                pos += v;
                break;
            case 4:
                r.kind = Kind::Arr;
                while (indef ? byte(in, pos) != 0xFF : v-- > 0) {
                    r.arr.push_back(parse(in, pos));
                }
                pos += indef;
                break;
            case 5:
                r.kind = Kind::Map;
                while (indef ? byte(in, pos) != 0xFF : v-- > 0) {
                    auto k = parse(in, pos);
                    r.map.emplace(k.s, parse(in, pos));
                }
                pos += indef;
                break;
            default: throw std::runtime_error("unsupported CBOR major type");
        }
        return r;
    }
};

}  // namespace tree::cbor
