// The reference model of a seekable resource: an array of bytes and a cursor.
#pragma once
#include <algorithm>
#include <cstdint>
#include <string>
#include <vector>

#include "vp.hpp"

namespace bm {

using bytes = std::vector<unsigned char>;

struct model {
    bytes content;
    std::int64_t pos = 0;
    std::size_t elem = 1;

    std::size_t
    available (
        std::size_t n
    ) const {
        if (pos >= std::int64_t(content.size())) return 0;
        return std::min<std::size_t>(n, content.size() - pos);
    }
    bytes
    read (
        std::size_t n
    ) {
        std::size_t k = available(n);
        bytes r(content.begin() + (k ? pos : 0), content.begin() + (k ? pos + k : 0));
        pos += k;
        return r;
    }
    void
    write (
        const bytes& b
    ) {
        if (pos + b.size() > content.size()) {
            std::size_t n = pos + b.size();
            content.resize((n + elem - 1) / elem * elem, 0);
        }
        std::copy(b.begin(), b.end(), content.begin() + pos);
        pos += b.size();
    }
    // ref: 0 begin, 1 current, 2 end
    void
    seek (
        std::int64_t off,
        int ref
    ) {
        pos = off + (ref == 0 ? 0 : ref == 1 ? pos : std::int64_t(content.size()));
        if (pos < 0) pos = 0;
    }
    bool at_end () const { return pos >= std::int64_t(content.size()); }
    std::uint64_t
    hash () const {
        return vp::mix(vp::hash_bytes(content.data(), content.size()), pos);
    }
};

enum op_kind { op_read, op_write, op_seek, op_back, op_forward, op_flush };

struct op {
    op_kind kind;
    std::int64_t arg;
    int ref;
};

inline std::string
name (
    const op& o
) {
    static const char* refs[] = {"begin", "current", "end"};
    switch (o.kind) {
    case op_read: return "read(" + std::to_string(o.arg) + ")";
    case op_write: return "write(" + std::to_string(o.arg) + ")";
    case op_seek: return "seek(" + std::to_string(o.arg) + "," + refs[o.ref] + ")";
    case op_back: return "go_back(" + std::to_string(o.arg) + ")";
    case op_forward: return "go_forward(" + std::to_string(o.arg) + ")";
    default: return "flush()";
    }
}

} // namespace bm
