// Shared helpers: request framing, %-encoding, value encoding, record dumps.
#pragma once
#include "caliper/caliper-config.h"
#include "caliper/common/Attribute.h"
#include "caliper/common/CaliperMetadataAccessInterface.h"
#include "caliper/common/Entry.h"
#include "caliper/common/Node.h"
#include "caliper/common/Variant.h"

#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <sstream>
#include <string>
#include <vector>

using Fields = std::vector<std::string>;

inline bool read_exact(FILE* f, char* p, size_t n)
{
    return fread(p, 1, n, f) == n;
}
inline bool read_request(FILE* f, Fields& out)
{
    out.clear();
    uint32_t n;
    if (!read_exact(f, reinterpret_cast<char*>(&n), 4)) return false;
    for (uint32_t i = 0; i < n; ++i) {
        uint32_t l;
        if (!read_exact(f, reinterpret_cast<char*>(&l), 4)) return false;
        std::string s(l, '\0');
        if (l && !read_exact(f, &s[0], l)) return false;
        out.push_back(std::move(s));
    }
    return true;
}
inline void write_response(FILE* f, const Fields& out)
{
    uint32_t n = out.size();
    fwrite(&n, 4, 1, f);
    for (auto& s : out) {
        uint32_t l = s.size();
        fwrite(&l, 4, 1, f);
        fwrite(s.data(), 1, l, f);
    }
    fflush(f);
}

inline std::string enc(const std::string& s)
{
    std::string r;
    char b[4];
    for (unsigned char c : s) {
        if (isalnum(c) || (c && strchr("_.#-:", c))) r.push_back(c);
        else { snprintf(b, sizeof b, "%%%02x", c); r += b; }
    }
    return r;
}
inline std::string dec(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '%' && i + 2 < s.size()) {
            r.push_back(static_cast<char>(strtol(s.substr(i + 1, 2).c_str(), nullptr, 16)));
            i += 2;
        } else r.push_back(s[i]);
    return r;
}
inline Fields split_ws(const std::string& l)
{
    Fields f; std::string t; std::istringstream is(l);
    while (is >> t) f.push_back(t);
    return f;
}

inline cali_attr_type parse_type(const std::string& t)
{
    return cali_string2type(t.c_str());
}

// --- values:  i:<int64> u:<uint64> d:<hexfloat> s:<enc> b:0/1 t:<type> a:<hex> U:<enc> p:<hex> x: (empty)
struct Val {
    std::string    store; // keeps string data alive
    cali::Variant  v;
};
inline cali::Variant parse_val(const std::string& e, std::string& store)
{
    std::string p = e.substr(2);
    switch (e[0]) {
    case 'i': return cali::Variant(cali_make_variant_from_int64(strtoll(p.c_str(), nullptr, 10)));
    case 'u': return cali::Variant(cali_make_variant_from_uint(strtoull(p.c_str(), nullptr, 10)));
    case 'd': return cali::Variant(strtod(p.c_str(), nullptr));
    case 'b': return cali::Variant(p == "1");
    case 't': return cali::Variant(parse_type(p));
    case 'a': { uint64_t a = strtoull(p.c_str(), nullptr, 16); return cali::Variant(CALI_TYPE_ADDR, &a, sizeof a); }
    case 'p': return cali::Variant(cali_make_variant_from_ptr(reinterpret_cast<void*>(strtoull(p.c_str(), nullptr, 16))));
    case 's': store = dec(p); return cali::Variant(CALI_TYPE_STRING, store.data(), store.size());
    // the same values through the other constructors
    case 'S': store = dec(p); return cali::Variant(store.c_str());
    case 'V': store = dec(p); return cali::Variant(cali_make_variant_from_string(store.c_str()));
    case 'I': { int64_t x = strtoll(p.c_str(), nullptr, 10); return cali::Variant(CALI_TYPE_INT, &x, sizeof x); }
    case 'N': return cali::Variant(static_cast<int>(strtol(p.c_str(), nullptr, 10)));
    case 'W': { uint64_t x = strtoull(p.c_str(), nullptr, 10); return cali::Variant(CALI_TYPE_UINT, &x, sizeof x); }
    case 'M': return cali::Variant(static_cast<uint64_t>(strtoull(p.c_str(), nullptr, 10)));
    case 'D': { double x = strtod(p.c_str(), nullptr); return cali::Variant(CALI_TYPE_DOUBLE, &x, sizeof x); }
    case 'B': { bool x = p == "1"; return cali::Variant(CALI_TYPE_BOOL, &x, sizeof x); }
    case 'T': { cali_attr_type x = parse_type(p); return cali::Variant(CALI_TYPE_TYPE, &x, sizeof x); }
    case 'U': store = dec(p); return cali::Variant(CALI_TYPE_USR, store.data(), store.size());
    }
    return cali::Variant();
}
inline std::string fmt_val(const cali::Variant& v)
{
    char b[64];
    switch (v.type()) {
    case CALI_TYPE_INT:    snprintf(b, sizeof b, "i:%" PRId64, v.to_int64()); return b;
    case CALI_TYPE_UINT:   snprintf(b, sizeof b, "u:%" PRIu64, v.to_uint()); return b;
    case CALI_TYPE_DOUBLE: snprintf(b, sizeof b, "d:%.17g", v.to_double()); return b;
    case CALI_TYPE_BOOL:   return v.to_bool() ? "b:1" : "b:0";
    case CALI_TYPE_TYPE:   return std::string("t:") + cali_type2string(v.to_attr_type());
    case CALI_TYPE_ADDR:   { cali_variant_t c = v.c_variant(); snprintf(b, sizeof b, "a:%" PRIx64, c.value.v_uint); return b; }
    case CALI_TYPE_PTR:    return "p:"; // address values are not comparable
    case CALI_TYPE_STRING: return "s:" + enc(std::string(static_cast<const char*>(v.data()), v.size()));
    case CALI_TYPE_USR:    return "U:" + enc(std::string(static_cast<const char*>(v.data()), v.size()));
    case CALI_TYPE_INV:    return "x:";
    default: break;
    }
    return "?:";
}
// one record: entries separated by ' ': immediates "I=<name>=<val>", paths "R=<name>=<val>/<name>=<val>" (root first)
inline std::string dump_node_path(cali::CaliperMetadataAccessInterface& db, const cali::Node* node)
{
    std::vector<std::string> parts;
    for (; node && node->id() != CALI_INV_ID; node = node->parent()) {
        cali::Attribute a = db.get_attribute(node->attribute());
        parts.push_back(enc(a ? a.name() : std::string("!invalid")) + "=" + fmt_val(node->data()));
    }
    std::string r = "R=";
    for (size_t i = parts.size(); i-- > 0;) { r += parts[i]; if (i) r += "/"; }
    return r;
}
inline std::string dump_entry(cali::CaliperMetadataAccessInterface& db, const cali::Entry& e)
{
    if (e.empty()) return "E";
    if (e.is_immediate()) {
        cali::Attribute a = db.get_attribute(e.attribute());
        return "I=" + enc(a ? a.name() : std::string("!invalid")) + "=" + fmt_val(e.value());
    }
    return dump_node_path(db, e.node());
}
template <class It>
inline std::string dump_entries(cali::CaliperMetadataAccessInterface& db, It b, It e)
{
    std::string r;
    for (; b != e; ++b) { if (!r.empty()) r += " "; r += dump_entry(db, *b); }
    return r;
}
inline std::string dump_attr(cali::CaliperMetadataAccessInterface& db, const cali::Attribute& a)
{
    // name type props [meta=val]...
    std::string r = enc(a.name()) + " " + cali_type2string(a.type()) + " " + std::to_string(a.properties());
    for (const cali::Node* n = a.node() ? a.node()->parent() : nullptr; n && n->id() != CALI_INV_ID; n = n->parent()) {
        if (n->attribute() == cali::Attribute::NAME_ATTR_ID || n->attribute() == cali::Attribute::TYPE_ATTR_ID || n->attribute() == cali::Attribute::PROP_ATTR_ID)
            continue;
        cali::Attribute m = db.get_attribute(n->attribute());
        r += " " + enc(m ? m.name() : std::string("!invalid")) + "=" + fmt_val(n->data());
    }
    return r;
}
