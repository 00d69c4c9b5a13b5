// Packed snapshots, node buffers, snapshot buffers and snapshot builders (requests "pack <kind> ...").
#pragma once
#include "vcommon.h"

#include "caliper/SnapshotRecord.h"
#include "common/CompressedSnapshotRecord.h"
#include "common/NodeBuffer.h"
#include "common/SnapshotBuffer.h"
#include "common/util/vlenc.h"

#include <memory>

struct PackDB : public cali::CaliperMetadataAccessInterface {
    std::map<cali_id_t, std::unique_ptr<cali::Node>> nodes;
    std::deque<std::string> store;

    cali::Node* add(cali_id_t id, bool attr)
    {
        auto& p = nodes[id];
        if (!p) {
            store.push_back("n" + std::to_string(id));
            p.reset(new cali::Node(id, attr ? cali::Attribute::NAME_ATTR_ID : 4711, cali::Variant(CALI_TYPE_STRING, store.back().data(), store.back().size())));
        }
        return p.get();
    }
    cali::Node* node(cali_id_t id) const override { auto it = nodes.find(id); return it == nodes.end() ? nullptr : it->second.get(); }
    cali::Attribute get_attribute(cali_id_t id) const override { return cali::Attribute::make_attribute(node(id)); }
    cali::Attribute get_attribute(const std::string&) const override { return cali::Attribute(); }
    std::vector<cali::Attribute> get_all_attributes() const override { return {}; }
    cali::Attribute create_attribute(const std::string&, cali_attr_type, int, int, const cali::Attribute*, const cali::Variant*) override { return cali::Attribute(); }
    cali::Node* make_tree_entry(std::size_t, const cali::Node*[], cali::Node*) override { return nullptr; }
    std::vector<cali::Entry> get_globals() override { return {}; }

    cali::Variant val(const std::string& s) { store.emplace_back(); return parse_val(s, store.back()); }
    cali::Entry entry(const std::string& s) // N<id> or I<id>=<val>
    {
        if (s[0] == 'N') return cali::Entry(add(std::stoull(s.substr(1)), false));
        if (s[0] == 'I') {
            size_t p = s.find('=');
            return cali::Entry(cali::Attribute::make_attribute(add(std::stoull(s.substr(1, p - 1)), true)), val(s.substr(p + 1)));
        }
        return cali::Entry();
    }
};

inline std::string pk_entry(const cali::Entry& e)
{
    if (e.empty()) return "E";
    if (e.is_immediate()) return "I" + std::to_string(e.attribute()) + "=" + fmt_val(e.value());
    return "N" + std::to_string(e.node()->id());
}

// everything a view says about a record, in four ways
inline std::string pk_view(const cali::CompressedSnapshotRecordView& cv, const PackDB& db)
{
    cali::CompressedSnapshotRecordView v = cv;
    std::string s = std::to_string(v.num_nodes()) + "," + std::to_string(v.num_immediates()) + ";";
    {
        std::unique_ptr<cali_id_t[]> n(new cali_id_t[v.num_nodes()]), a(new cali_id_t[v.num_immediates()]);
        std::unique_ptr<cali::Variant[]> d(new cali::Variant[v.num_immediates()]);
        v.unpack_nodes(v.num_nodes(), n.get());
        v.unpack_immediate(v.num_immediates(), a.get(), d.get());
        for (size_t i = 0; i < v.num_nodes(); ++i) s += " N" + std::to_string(n[i]);
        for (size_t i = 0; i < v.num_immediates(); ++i) s += " I" + std::to_string(a[i]) + "=" + fmt_val(d[i]);
        // fewer than there are
        if (v.num_nodes() > 1) {
            std::unique_ptr<cali_id_t[]> h(new cali_id_t[1]);
            v.unpack_nodes(1, h.get());
            if (h[0] != n[0]) s += " PARTIAL";
        }
        if (v.num_immediates() > 1) {
            std::unique_ptr<cali_id_t[]> h(new cali_id_t[1]); cali::Variant x;
            v.unpack_immediate(1, h.get(), &x);
            if (h[0] != a[0] || !(x == d[0])) s += " PARTIAL";
        }
    }
    s += ";";
    for (const cali::Entry& e : v.to_entrylist(&db)) s += " " + pk_entry(e);
    s += ";";
    v.unpack(&db, [&s](const cali::Entry& e) { s += " " + pk_entry(e); return true; });
    s += ";";
    size_t k = 0, half = (v.num_nodes() + v.num_immediates()) / 2;
    if (half) v.unpack(&db, [&](const cali::Entry& e) { s += " " + pk_entry(e); return ++k < half; });
    return s;
}

inline Fields do_pack(const Fields& f)
{
    PackDB db; Fields out { "ok" };
    const std::string& kind = f.at(1);
    if (kind == "rec") { // cap|"-" seq entries..
        std::vector<cali::Entry> es; for (size_t i = 4; i < f.size(); ++i) es.push_back(db.entry(f[i]));
        std::unique_ptr<unsigned char[]> buf; std::unique_ptr<cali::CompressedSnapshotRecord> rec;
        Fields seq = split_ws(f[3]); size_t ret = 0, p = 0;
        if (f[2] == "c") { rec.reset(new cali::CompressedSnapshotRecord(es.size(), es.data())); seq.clear(); ret = rec->num_skipped(); }
        else if (f[2] == "-") rec.reset(new cali::CompressedSnapshotRecord());
        else { size_t cap = std::stoul(f[2]); buf.reset(new unsigned char[cap]); rec.reset(new cali::CompressedSnapshotRecord(cap, buf.get())); }
        for (auto& s : seq) {
            size_t n = std::stoul(s.substr(1));
            if (s[0] == 'e') {
                std::vector<cali::Entry> x(es.begin() + p, es.begin() + p + n); ret += rec->append(n, x.data());
            } else if (s[0] == 'n') {
                std::vector<const cali::Node*> x; for (size_t i = 0; i < n; ++i) x.push_back(es[p + i].node());
                ret += rec->append(n, x.data());
            } else {
                std::vector<cali_id_t> a; std::vector<cali::Variant> d; for (size_t i = 0; i < n; ++i) { a.push_back(es[p + i].attribute()); d.push_back(es[p + i].value()); }
                ret += rec->append(n, a.data(), d.data());
            }
            p += n;
        }
        out.push_back(std::to_string(ret) + " " + std::to_string(rec->num_nodes()) + " " + std::to_string(rec->num_immediates()) + " " + std::to_string(rec->num_skipped()) + " " + std::to_string(rec->size()) + " " + std::to_string(rec->needed_len()));
        if (rec->size() >= 2) {
            out.push_back(pk_view(rec->view(), db));
            std::unique_ptr<unsigned char[]> cp(new unsigned char[rec->size()]); memcpy(cp.get(), rec->data(), rec->size());
            size_t inc = 7;
            cali::CompressedSnapshotRecordView v(cp.get(), &inc);
            out.push_back(pk_view(v, db));
            out.push_back(std::to_string(inc - 7));
        }
    } else if (kind == "nodes") { // reserve|"-" how junk nodes..  (id:attr:parent|-:val)
        std::unique_ptr<cali::NodeBuffer> b(f[2] == "-" ? new cali::NodeBuffer() : new cali::NodeBuffer(std::stoul(f[2])));
        std::map<cali_id_t, std::unique_ptr<cali::Node>> m;
        for (size_t i = 5; i < f.size(); ++i) {
            Fields x; { std::string t; std::istringstream is(f[i]); while (std::getline(is, t, '/')) x.push_back(t); }
            cali_id_t id = std::stoull(x[0]), at = std::stoull(x[1]), par = x[2] == "-" ? CALI_INV_ID : std::stoull(x[2]);
            cali::Variant v = db.val(x[3]);
            if (f[3] == "node") {
                cali::Node* n = new cali::Node(id, at, v); m[id].reset(n);
                if (par != CALI_INV_ID) { if (!m[par]) m[par].reset(new cali::Node(par, 0, cali::Variant())); m[par]->append(n); }
                b->append(n);
            } else b->append(cali::NodeBuffer::NodeInfo { id, at, par, v });
        }
        auto show = [&](const cali::NodeBuffer& nb) {
            std::string s = std::to_string(nb.count()) + " " + std::to_string(nb.size());
            nb.for_each([&s](const cali::NodeBuffer::NodeInfo& i) { s += " " + std::to_string(i.node_id) + "/" + std::to_string(i.attr_id) + "/" + (i.parent_id == CALI_INV_ID ? std::string("-") : std::to_string(i.parent_id)) + "/" + fmt_val(i.value); });
            return s;
        };
        out.push_back(show(*b));
        cali::NodeBuffer c;
        for (long k = 0; k < std::stol(f[4]); ++k) c.append(cali::NodeBuffer::NodeInfo { 1, 2, 3, cali::Variant(4) });
        unsigned char* p = c.import(b->size(), b->count());
        if (b->size()) memcpy(p, b->data(), b->size());
        out.push_back(show(c));
        // and it can be appended to
        c.append(cali::NodeBuffer::NodeInfo { 77, 8, 5, cali::Variant(CALI_TYPE_STRING, "tail", 4) });
        out.push_back(show(c));
    } else if (kind == "snaps") { // reserve|"-" junk records.. (entries separated by blanks)
        std::unique_ptr<cali::SnapshotBuffer> b(f[2] == "-" ? new cali::SnapshotBuffer() : new cali::SnapshotBuffer(std::stoul(f[2])));
        auto add = [&](cali::SnapshotBuffer& sb, const std::string& text) {
            std::vector<cali::Entry> es; for (auto& x : split_ws(text)) es.push_back(db.entry(x));
            std::vector<unsigned char> mem(16 + es.size() * 30);
            cali::CompressedSnapshotRecord rec(mem.size(), mem.data());
            rec.append(es.size(), es.data());
            sb.append(rec);
        };
        for (size_t i = 4; i < f.size(); ++i) add(*b, f[i]);
        cali::SnapshotBuffer c;
        for (long k = 0; k < std::stol(f[3]); ++k) add(c, "N900001 I900002=i:1");
        unsigned char* p = c.import(b->size(), b->count());
        if (b->size()) memcpy(p, b->data(), b->size());
        for (auto* x : { b.get(), &c }) {
            out.push_back(std::to_string(x->count()) + " " + std::to_string(x->size()));
            std::string s; x->for_each([&](const cali::CompressedSnapshotRecordView& v) { s += pk_view(v, db) + "\n"; });
            out.push_back(s);
        }
    } else if (kind == "build") { // "h"|"f" cap ops..  "a entry" "m entry entry.." "v entry.." "r entry" "z"
        size_t cap = std::stoul(f[3]);
        std::unique_ptr<cali::Entry[]> mem(new cali::Entry[cap]);
        cali::SnapshotBuilder hb(cap, mem.get());
        cali::FixedSizeSnapshotRecord<5> f5; cali::FixedSizeSnapshotRecord<1> f1;
        cali::SnapshotBuilder none;
        cali::SnapshotBuilder* b = f[2] == "h" ? &hb : f[2] == "n" ? &none : cap == 1 ? &f1.builder() : &f5.builder();
        for (size_t i = 4; i < f.size(); ++i) {
            Fields x = split_ws(f[i]); std::vector<cali::Entry> es; for (size_t k = 1; k < x.size(); ++k) es.push_back(db.entry(x[k]));
            if (x[0] == "a") for (auto& e : es) b->append(e);
            else if (x[0] == "i") for (auto& e : es) b->append(cali::Attribute::make_attribute(e.node()), e.value());
            else if (x[0] == "m") b->append(es.size(), es.data());
            else if (x[0] == "v") b->append(cali::SnapshotView(es.size(), es.data()));
            else if (x[0] == "r") for (auto& e : es) b->remove(e);
            else if (x[0] == "z" && f[2] == "f") { if (cap == 1) f1.reset(); else f5.reset(); }
            std::string s = std::to_string(b->size()) + " " + std::to_string(b->skipped()) + " " + std::to_string(b->capacity());
            for (const cali::Entry& e : b->view()) s += " " + pk_entry(e);
            out.push_back(s);
        }
    } else if (kind == "vl") {
        for (size_t i = 2; i < f.size(); ++i) {
            uint64_t u = std::stoull(f[i]); unsigned char tmp[16]; memset(tmp, 0xAA, sizeof tmp);
            size_t n = vlenc_u64(u, tmp);
            std::unique_ptr<unsigned char[]> x(new unsigned char[n]); memcpy(x.get(), tmp, n);
            size_t inc = 3; uint64_t v = vldec_u64(x.get(), &inc);
            out.push_back(std::to_string(n) + " " + std::to_string(inc - 3) + " " + std::to_string(v) + (n < 16 && tmp[n] != 0xAA ? " OVER" : ""));
        }
    } else if (kind == "var") {
        for (size_t i = 2; i < f.size(); ++i) {
            cali::Variant v = db.val(f[i]); unsigned char tmp[40]; memset(tmp, 0xAA, sizeof tmp);
            size_t n = v.pack(tmp);
            std::unique_ptr<unsigned char[]> x(new unsigned char[n]); memcpy(x.get(), tmp, n);
            size_t inc = 3; bool ok = false; cali::Variant w = cali::Variant::unpack(x.get(), &inc, &ok);
            out.push_back(std::to_string(n) + " " + std::to_string(inc - 3) + " " + fmt_val(w) + (ok ? "" : " NOTOK") + (v == w ? "" : " DIFFERENT") + (tmp[n] != 0xAA ? " OVER" : ""));
        }
    } else if (kind == "entry") {
        for (size_t i = 2; i < f.size(); ++i) {
            cali::Entry e = db.entry(f[i]); unsigned char tmp[64]; memset(tmp, 0xAA, sizeof tmp);
            size_t n = e.pack(tmp);
            std::unique_ptr<unsigned char[]> x(new unsigned char[n]); memcpy(x.get(), tmp, n);
            size_t inc = 3; cali::Entry w = cali::Entry::unpack(db, x.get(), &inc);
            out.push_back(std::to_string(n) + " " + std::to_string(inc - 3) + " " + pk_entry(w) + (e == w ? "" : " DIFFERENT") + (tmp[n] != 0xAA || n > cali::Entry::MAX_PACKED_SIZE ? " OVER" : ""));
        }
    } else return { "bad_request" };
    return out;
}
